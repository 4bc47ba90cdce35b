//! JSON-lines server exposing the runtime-callable surface of whippyunits to the generators.
//! One request per line, one reply per line: {"ok": ...} or {"panic": "..."}.
use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use whippyunits_core as core_;
use whippyunits_core::dimension_exponents::{DimensionBasis, DimensionExponents, DynDimensionExponents};
use whippyunits_core::scale_exponents::ScaleExponents;
use whippyunits_core::{
    Dimension, EvaluationMode, SiPrefix, Unit, UnitExpr, UnitLiteralConfig,
    calculate_unit_conversion_factors, generate_unit_literal, get_storage_unit_name, get_unit_info,
};

fn fj(x: f64) -> Value {
    json!(format!("{:016x}", x.to_bits()))
}
fn unit_json(u: &Unit) -> Value {
    json!({
        "name": u.name, "plural": whippyunits_core::make_plural(u.name), "symbols": u.symbols, "scale": u.scale.0, "cf": fj(u.conversion_factor),
        "af": fj(u.affine_offset), "dims": u.exponents.0, "system": u.system.as_str(),
    })
}
fn vec16<const K: usize>(v: &Value) -> [i16; K] {
    let mut out = [0i16; K];
    for (i, x) in v.as_array().unwrap().iter().enumerate() {
        out[i] = x.as_i64().unwrap() as i16;
    }
    out
}
fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

fn handle(r: &Value) -> Value {
    match s(r, "c") {
        "tables" => {
            let dims: Vec<Value> = Dimension::ALL
                .iter()
                .map(|d| {
                    json!({"name": d.name, "symbol": d.symbol, "exponents": d.exponents.0,
                        "units": d.units.iter().map(unit_json).collect::<Vec<_>>()})
                })
                .collect();
            let pre: Vec<Value> = SiPrefix::ALL
                .iter()
                .map(|p| json!({"name": p.name(), "symbol": p.symbol(), "log10": p.factor_log10(), "alts": p.alternative_symbols()}))
                .collect();
            let bases: Vec<Value> = Unit::BASES.iter().map(unit_json).collect();
            let basis: Vec<Value> = Dimension::BASIS
                .iter()
                .map(|d| json!({"name": d.name, "symbol": d.symbol, "exponents": d.exponents.0}))
                .collect();
            json!({"dims": dims, "prefixes": pre, "bases": bases, "basis": basis})
        }
        "eval" => match syn::parse_str::<UnitExpr>(s(r, "s")) {
            Err(e) => json!({"err": e.to_string()}),
            Ok(e) => {
                let st = e.evaluate_with_mode(EvaluationMode::Strict);
                let to = e.evaluate_with_mode(EvaluationMode::Tolerant);
                let (cf, af) = calculate_unit_conversion_factors(&e);
                json!({
                    "sd": st.dimension_exponents.0, "ss": st.scale_exponents.0,
                    "td": to.dimension_exponents.0, "ts": to.scale_exponents.0,
                    "cf": fj(cf), "af": fj(af), "strict_err": e.validate_strict(),
                    "idents": e.collect_unit_identifiers().iter().map(|i| i.to_string()).collect::<Vec<_>>(),
                })
            }
        },
        "info" => match get_unit_info(s(r, "s")) {
            None => Value::Null,
            Some(u) => unit_json(u),
        },
        "lookup" => {
            let n = s(r, "s");
            let du = |o: Option<(&'static Unit, &'static Dimension)>| {
                o.map(|(u, d)| json!([u.name, d.name])).unwrap_or(Value::Null)
            };
            json!({
                "name": du(Dimension::find_unit_by_name(n)),
                "symbol": du(Dimension::find_unit_by_symbol(n)),
                "si_name": du(Dimension::find_si_unit_by_name(n)),
                "si_symbol": du(Dimension::find_si_unit_by_symbol(n)),
                "dim": Dimension::find_dimension(n).map(|d| d.name),
                "literal": Dimension::find_by_literal(n).map(|(u, d, p)| json!([u.name, d.name, p.map(|p| p.name())])),
                "prefix": SiPrefix::from_symbol(n).map(|p| p.name()),
                "strip_name": SiPrefix::strip_any_prefix_name(n).map(|(p, b)| json!([p.name(), b])),
                "strip_symbol": SiPrefix::strip_any_prefix_symbol(n).map(|(p, b)| json!([p.name(), b])),
                "multiple": Unit::multiple_to_base_unit(n).map(|(u, p)| json!([u.name, p.map(|p| p.name())])),
                "base": Unit::find_base(n).map(|u| u.name),
            })
        }
        "dimexp" => {
            let d = DynDimensionExponents(vec16(&r["d"]));
            json!({
                "name": Dimension::find_dimension_by_exponents(d).map(|d| d.name),
                "basis": d.as_basis().map(|b| format!("{b:?}")),
                "zero": d.is_zero(), "text": d.to_string(),
                "basis_list": DimensionBasis::ALL.iter().map(|b| json!([format!("{b:?}"), b.exponents().0, b.symbol()])).collect::<Vec<_>>(),
            })
        }
        "alg" => {
            let a = DynDimensionExponents(vec16(&r["a"]));
            let b = DynDimensionExponents(vec16(&r["b"]));
            let n = r["n"].as_i64().unwrap() as i16;
            let x = ScaleExponents(vec16(&r["x"]));
            let y = ScaleExponents(vec16(&r["y"]));
            json!({
                "add": (a + b).0, "neg": (-a).0, "mul": (a * n).0,
                "smul": x.mul(y).0, "sneg": x.neg().0, "sexp": x.scalar_exp(n).0, "log10": x.log10(),
                "s10": ScaleExponents::_10(n).0, "s2": ScaleExponents::_2(n).0, "s3": ScaleExponents::_3(n).0,
                "s5": ScaleExponents::_5(n).0, "spi": ScaleExponents::_Pi(n).0, "ident": ScaleExponents::IDENTITY.0, "eq": [a == b, x == y], "s6": ScaleExponents::_6(n).0,
            })
        }
        "literal" => {
            let d = DynDimensionExponents(vec16(&r["d"]));
            let sc = ScaleExponents(vec16(&r["s"]));
            let v = r["verbose"].as_bool().unwrap_or(false);
            let si = r["si"].as_bool().unwrap_or(true);
            json!({
                "lit": generate_unit_literal(d, sc, UnitLiteralConfig { verbose: v, prefer_si_units: si }),
                "storage": get_storage_unit_name(sc, d, v),
            })
        }
        "text" => json!({
            "plural": core_::make_plural(s(r, "s")),
            "sup": core_::to_unicode_superscript(r["n"].as_i64().unwrap_or(0) as i16, true),
            "sup0": core_::to_unicode_superscript(r["n"].as_i64().unwrap_or(0) as i16, false),
        }),
        "pretty_type" => {
            let d: [i16; 8] = vec16(&r["d"]);
            let sc: [i16; 4] = vec16(&r["s"]);
            json!(whippyunits::print::prettyprint::pretty_print_quantity(
                r["value"].as_f64(), DynDimensionExponents(d), ScaleExponents(sc),
                s(r, "t"), r["verbose"].as_bool().unwrap_or(false), true, r["brand"].as_str(),
            ))
        }
        #[cfg(feature = "lsp")]
        _ if s(r, "c").starts_with("lsp_") => lsp::handle(r),
        other => json!({"unknown": other}),
    }
}

#[cfg(feature = "lsp")]
mod lsp {
    use super::{json, s, Value};
    use whippyunits_lsp_proxy::{DisplayConfig, LspProxy};
    pub fn handle(r: &Value) -> Value {
        let b = |k: &str, d: bool| r[k].as_bool().unwrap_or(d);
        let proxy = LspProxy::with_config(DisplayConfig {
            verbose: b("verbose", false),
            unicode: b("unicode", true),
            include_raw: b("include_raw", false),
        });
        let x = match s(r, "c") {
            "lsp_incoming" => proxy.process_incoming(s(r, "s")),
            "lsp_outgoing" => proxy.process_outgoing(s(r, "s")),
            other => return json!({"unknown": other}),
        };
        match x {
            Ok(x) => json!({"out": x}),
            Err(e) => json!({"err": e.to_string()}),
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let r: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(e) => {
                writeln!(out, "{}", json!({"bad_request": e.to_string()})).unwrap();
                out.flush().unwrap();
                continue;
            }
        };
        let rep = match catch_unwind(AssertUnwindSafe(|| handle(&r))) {
            Ok(v) => json!({"ok": v}),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({"panic": m})
            }
        };
        writeln!(out, "{rep}").unwrap();
        out.flush().unwrap();
    }
}
