"""C29: the macros mean the same in every scope."""
import os
import types_ as ty, model, unittext, vlib

RULE = ("generated scopes (local types, traits, modules, functions, constants, macros, variables and type parameters named like things the library's macros use, the standard prelude or the "
        "units; imports by path, by name, renamed, by glob) x macro invocations (quantity!, unit!, value!, rescale!, from_json!, from_string!, define_generic_dimension!, local declarators) "
        "whose arguments use those local items, in bodies, closures, constants, signatures, wrapper macros, generic functions, early returns and blocks; compared with the plain invocation "
        "at the crate root; the crate depends on whippyunits alone; non-trivial: at least one local item or an argument that is not a literal")
LIBT = ["Quantity", "Scale", "Dimension", "_2", "_3", "_5", "_Pi", "_M", "_L", "_T", "_I", "_N", "_J", "_A", "TargetQuantity", "Helper", "GetSecondGeneric", "MetricTemperatureAffine",
        "MetricLength", "ImperialLength", "LocalLength", "LocalM", "Meter", "Kilometer", "Second", "Gram", "Kelvin", "Length", "Time", "Mass", "Unit", "Brand", "MyBrand", "SerializationError",
        "T", "U", "L", "M", "S", "Output", "Config", "Angle", "Energy"]
STDT = ["Result", "Option", "String", "Vec", "Box", "Some", "None", "Ok", "Err", "Into", "From", "Default", "Clone", "Copy", "Send", "Sized", "Fn", "FnOnce", "Drop", "Iterator", "PartialEq", "Add", "Mul", "Div"]
MODS = ["core", "std", "alloc", "quantity", "api", "default_declarators", "serialization", "whippyunits_core", "whippyunits_proc_macros", "unit", "value", "print", "num", "units", "dimension_traits", "m", "km", "s"]
FNS = ["rescale", "rescale_f64", "rescale_f32", "rescale_i32", "new", "celsius", "feet", "from", "into", "parse_json_input", "parse_string_input", "deserialize_core_quantity", "drop", "value", "result", "m", "km", "kg", "h",
       "declared_quantity", "scaled_value", "unit_str"]
CONSTS = ["DIMENSIONS", "SCALES", "UNIT_INFO", "PI", "SCALE_P2", "SCALE", "MASS", "LENGTH", "EXP", "M", "K", "A", "V", "VALUE"]
MACROS = ["unit", "quantity", "value", "rescale", "from_json", "local_unit", "proc_unit", "compute_unit_dimensions", "format", "panic", "matches", "vec", "assert"]
VARS = ["value", "result", "scaled_value", "declared_quantity", "unit_str", "e", "q", "x", "v", "m", "km", "kg", "s", "unsafe_value", "_phantom", "scale", "dimension", "quantity", "unit", "input", "json", "string", "target"]
ROOT = """
pub type Text = String;
pub type Opt<T> = Option<T>;
pub fn none() -> Option<String> { None }
pub fn maybe(x: f64) -> Option<f64> { if x.is_nan() { None } else { Some(x) } }
thread_local! { static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
pub fn once(x: f64) -> f64 { N.with(|n| n.set(n.get() + 1)); x }
pub fn times() -> u32 { N.with(|n| n.replace(0)) }
pub fn mk<Q: Make>(x: f64) -> Q { Q::make(x) }
pub trait Make { fn make(x: f64) -> Self; }
impl<const M: i16, const L: i16, const TI: i16, const I: i16, const H: i16, const N: i16, const J: i16, const A: i16, const P2: i16, const P3: i16, const P5: i16, const PI: i16, X: FromF, B> Make
    for Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<M>, _L<L>, _T<TI>, _I<I>, _Θ<H>, _N<N>, _J<J>, _A<A>>, X, B> { fn make(x: f64) -> Self { Self::new(X::ff(x)) } }
pub trait FromF { fn ff(x: f64) -> Self; }
macro_rules! ff { ($($t:ty)*) => { $(impl FromF for $t { fn ff(x: f64) -> Self { x as $t } })* } }
ff!(f64 f32 i32 i64 u16 i8 u128);
pub fn text(x: impl HX) -> Option<String> { Some(format!("{};{}", put(x), times())) }
pub fn tell<Q: Exps + Val>(q: Q) -> Option<String> { Some(format!("{};{}", show(q), times())) }
pub fn tell_r<Q: Exps + Val, E>(q: std::result::Result<Q, E>) -> Option<String> { match q { Ok(q) => tell(q), Err(_) => Some("error".into()) } }
pub fn guard(f: fn() -> Option<String>) -> String { match std::panic::catch_unwind(f) { Ok(x) => x.unwrap_or("none".into()), Err(_) => { times(); "panic".into() } } }
pub fn f_of(x: f64) -> f64 { x }
whippyunits::define_unit_declarators!(plain_local, Gram, Centimeter, Minute, Ampere, Kelvin, Mole, Candela, Radian);
whippyunits::define_unit_declarators!(branded_local, OwnBrand, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);
"""
UNITS = {  # dimension key -> texts (storage units), extra texts with a factor
    "length": (["m", "km", "mm", "um"], ["ft", "inch", "mile"]), "time": (["s", "ms", "min", "h"], []), "speed": (["m/s", "km/h", "mm / ms"], ["ft/s"]), "mass": (["kg", "g", "mg"], ["lb"]),
    "energy": (["J", "kJ", "kg.m2/s2", "kg * m^2 / s^2"], []), "force": (["N", "kN", "kg*m/s^2"], []), "angle": (["rad", "deg", "turn"], []), "temperature": (["K", "mK"], []),
    "affine": (["K"], ["degC", "degF"]), "volt": (["V", "mV"], []), "frequency": (["Hz", "1/s", "kHz"], []),
}
DIMT = {"length": "L", "time": "T", "speed": "L / T", "mass": "M", "energy": "M * L^2 / T^2", "force": "Force", "frequency": "1 / T"}
KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while
async await dyn abstract become box do final macro override priv typeof unsized virtual yield try union raw gen auto default macro_rules""".split())
PLAUSIBLE = """a b c d f g i j k n o p r t u w y z tmp temp factor offset conversion_factor affine_offset ratio storage storage_value stored target_value source src dst base converted conversion scaled raw raw_value out output res ret val num
number amount magnitude inner_value evaluated computed target_unit storage_unit quantity_value unit_value value_in_unit rescaled original other data text parsed parse err error ok some none this that arg args param from_unit to_unit
q1 q2 lhs rhs left right sum product exponent dims exponents scales prefix name symbol brand _value _result __value __quantity q_ v_ x_ _x _q _v _tmp""".split()
RESERVED = {"inner", "held", "wrapper", "need", "run", "Holder", "Own9", "z", "Z"}


def dictionary():
    """names a macro expansion might use: those in the sources of the macros, and plausible ones"""
    import glob
    import re
    src = "".join(open(f, encoding="utf-8").read() for f in sorted(glob.glob(vlib.REPO + "/proc-macros/src/**/*.rs", recursive=True) + [vlib.REPO + "/src/" + x for x in ("rescale_macro.rs", "serialization.rs")]) if os.path.exists(f))
    ids = {x for x in re.findall(r"(?<![\w'#])[A-Za-z_]\w*", src) if x.isascii() and len(x) > 1} - KEYWORDS - RESERVED
    lets = {x for x in re.findall(r"\blet\s+(?:mut\s+)?([a-z_]\w*)", src) if x.isascii() and x != "_"} - KEYWORDS - RESERVED
    prim = {"f32", "f64", "str", "bool", "char"} | {a + b for a in "iu" for b in ("8", "16", "32", "64", "128", "size")}
    low = sorted(x for x in ids if x[0].islower() and x not in prim and not x.startswith("__"))
    up = sorted(x for x in ids if x[0].isupper() and any(c.islower() for c in x) or re.fullmatch(r"[A-Z]|_[A-Z2-9]\w?", x))
    caps = sorted(x for x in ids if re.fullmatch(r"[A-Z][A-Z0-9_]+", x))
    fns = {x for x in re.findall(r"\bfn\s+([a-z]\w*)", src + "".join(open(f, encoding="utf-8").read() for f in sorted(glob.glob(vlib.REPO + "/src/*.rs")))) if x.isascii()}
    fns |= {x for x in low if x.startswith(("rescale", "from_", "to_", "into_", "as_"))} | {"rescale_" + x for x in prim if x[0] in "iuf"}
    return sorted(lets | set(PLAUSIBLE)), low, up, caps, sorted(fns - KEYWORDS - RESERVED - prim)


def run():
    ck = vlib.Check("C29", RULE)
    lets_, low_, up_, caps_, fns_ = dictionary()
    rng = ck.rng
    crowds = {      # every name at once: (items of a module to import from, the names, how one is used in an argument)
        "variables": (lambda n, v: f"let {n} = {v};", sorted(set(lets_ + VARS)), "{}"),
        "functions": (lambda n, v: f"pub fn {n}() -> f64 {{ {v} }}", sorted(set(fns_ + FNS)), "{}()"),
        "types": (lambda n, v: f"pub struct {n}; impl {n} {{ pub const V: f64 = {v}; }}", sorted(set(up_ + LIBT + STDT)), "{}::V"),
        "constants": (lambda n, v: f"pub const {n}: f64 = {v};", sorted(set(caps_ + CONSTS)), "{}"),
        "methods": (lambda n, v: f"fn {n}(&self) -> f64 {{ {v} }}", sorted(set(fns_ + FNS)), "crate::crowd_methods::Methods::{}(&1u8)"),
    }
    crowd_src, crowd_use, crowd_sum = "", {}, {}
    for k, (form, ns, how) in crowds.items():
        ns = [n for n in ns if n != "whippyunits" and n not in RESERVED]
        crowd_sum[k] = [(how.format(n), (j % 61 + 1) * .5) for j, n in enumerate(ns)]
        body = " ".join(form(n, (j % 61 + 1) * .5) for j, n in enumerate(ns))
        if k == "variables":
            crowd_use[k] = body
        elif k == "methods":
            crowd_src += f"pub mod crowd_methods {{ pub trait Methods {{ {body} }} impl<T> Methods for T {{}} }}\n"
            crowd_use[k] = "use crate::crowd_methods::Methods;"
        else:
            crowd_src += f"pub mod crowd_{k} {{ {body} }}\n"
            crowd_use[k] = f"use crate::crowd_{k}::*;"
    sv = ty.TypeServer("c29", ROOT + crowd_src)
    # the local macros of a branded module, reached without that module's name being in scope, apart: see known_findings.jsonl
    pr = vlib.Prog("c29path", ty.PRELUDE + "\n".join(l for l in ROOT.splitlines() if "plain_local" not in l) + "\nfn main() {}\n")
    apart = []
    info = []

    class Scope:
        """a module with items; gives value expressions (text, value) that use them"""

        def __init__(self, byname, ctx):
            self.items, self.lets, self.exprs, self.types, self.names = [], [], [], [], set()
            self.byname, self.params, self.const_exprs, self.decoys = byname, [], [], []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                self.add(rng.choice(["type", "type", "type", "std", "std", "trait", "mod", "mod", "fn", "const", "macro", "var", "var", "var", "param"]))
            for _ in range(rng.choice([0, 0, 0, 0, 1, 1])):
                self.crowd(rng.choice(["vars", "vars", "vars", "types", "consts", "fns"]))

        def crowd(self, k):
            """many names at once, of which the argument uses some"""
            pool = {"vars": lets_ if rng.random() < .7 else low_, "types": up_, "consts": caps_, "fns": low_}[k]
            ns = [n for n in rng.sample(pool, min(len(pool), rng.choice([10, 20, 40] if k != "vars" else [20, 40, 80]))) if n not in self.names and n not in STDT]
            vs = {n: (j + 3) * .5 for j, n in enumerate(ns)}
            use = {"vars": "{}", "consts": "{}", "fns": "{}()", "types": "{}::V"}[k]
            form = {"vars": "let {} = {};", "consts": "pub const {}: f64 = {};", "fns": "pub fn {}() -> f64 {{ {} }}", "types": "pub struct {0}; impl {0} {{ pub const V: f64 = {1}; }}"}[k]
            for n in ns:
                self.names.add(n)
                (self.lets if k == "vars" else self.items).append(form.format(n, vs[n]))
            for _ in range(4):
                some = rng.sample(ns, min(len(ns), rng.choice([1, 6, 25])))
                if some:
                    self.exprs.append((" + ".join(use.format(n) for n in some), sum(vs[n] for n in some)))
            if k in ("consts", "types") and ns:
                self.const_exprs.append((use.format(ns[0]), vs[ns[0]]))
            if k == "types":
                self.types += ns[:1]
            self.decoys.append((k, " ".join(ns)))

        def add(self, k):
            v = rng.choice([1.5, 2.25, 4.5, 8.0, 1000.0, -3.0, 12.0])
            n = {"type": LIBT, "std": STDT, "trait": LIBT + STDT, "mod": MODS, "fn": FNS, "const": CONSTS, "macro": MACROS, "var": VARS, "param": ["T", "U", "Q", "S", "D", "Brand", "Scale", "Dimension", "N", "Output"]}[k]
            n = rng.choice(n)
            if n in self.names or n in self.byname:
                return
            self.names.add(n)
            self.decoys.append((k, n))
            if k in ("type", "std"):
                w = rng.randrange(4)
                if w == 0 and n in ("Result", "Option", "Vec", "Box"):
                    self.items.append(f"pub type {n}<X> = ::std::result::Result<X, ::std::fmt::Error>;")
                elif w == 1:
                    self.items.append(f"#[derive(Clone, Copy, PartialEq)] pub enum {n} {{ A, B }} impl {n} {{ pub const V: f64 = {v}; pub fn f() -> f64 {{ {v} }} }}")
                    self.types.append(n)
                    self.exprs += [(f"{n}::V", v), (f"{n}::f()", v), (f"match {n}::A {{ {n}::A => {v}, {n}::B => 0.0 }}", v)]
                    self.const_exprs.append((f"{n}::V", v))
                else:
                    self.items.append(f"#[derive(Clone, Copy, PartialEq)] pub struct {n}; impl {n} {{ pub const V: f64 = {v}; pub fn f() -> f64 {{ {v} }} pub fn new(x: f64) -> f64 {{ x + {v} }} }}")
                    self.types.append(n)
                    self.exprs += [(f"{n}::V", v), (f"{n}::f()", v), (f"{n}::new(1.0)", v + 1), (f"<{n}>::V", v)]
                    self.const_exprs.append((f"{n}::V", v))
            elif k == "trait":
                self.items.append(f"pub trait {n} {{ fn half_{n}(&self) -> f64 {{ {v} }} fn celsius(&self) -> f64 {{ 0.0 }} fn unsafe_value(&self) -> f64 {{ 0.0 }} }} impl {n} for u8 {{}}")
                self.exprs += [(f"7u8.half_{n}()", v), (f"<u8 as {n}>::half_{n}(&1)", v)]
            elif k == "mod":
                self.items.append(f"pub mod {n} {{ pub const V: f64 = {v}; pub fn f() -> f64 {{ {v} }} }}")
                self.exprs += [(f"{n}::V", v), (f"{n}::f()", v), (f"self::{n}::V", v)]
            elif k == "fn":
                self.items.append(f"pub fn {n}() -> f64 {{ {v} }}")
                self.exprs += [(f"{n}()", v), (f"self::{n}()", v)]
            elif k == "const":
                self.items.append(rng.choice([f"pub const {n}: f64 = {v};", f"pub static {n}: f64 = {v};"]))
                self.exprs.append((n, v))
            elif k == "macro":
                self.items.insert(0, f"macro_rules! {n} {{ () => {{ {v} }}; ($($t:tt)*) => {{ () }} }}")
                self.exprs.append((f"{n}!()", v))
            elif k == "var":
                self.lets.append(f"let {n} = {v};")
                self.exprs.append((n, v))
            elif k == "param":
                self.params.append(n)

        def value(self, const=False):
            if const:
                return rng.choice(self.const_exprs + [("2.5", 2.5), ("{ 1.0 + 2.0 }", 3.0)])
            pool = self.exprs * 3 + [("2.5", 2.5), ("-4.0", -4.0), ("1.0 + 2.0", 3.0), ("crate::once(6.0)", 6.0), ("crate::maybe(7.0)?", 7.0),
                                     ("match crate::maybe(9.0) { ::core::option::Option::Some(x) => x, _ => return crate::none() }", 9.0),
                                     ("'a: { if crate::f_of(1.0) > 0.0 { break 'a 11.0 } 0.0 }", 11.0), ("(|| 13.0)()", 13.0), ("if crate::f_of(1.0) > 0.0 { 14.0 } else { 15.0 }", 14.0),
                                     ("crate::f_of(16.0)", 16.0), ("[17.0][0]", 17.0), ("(18.0, 1).0", 18.0), ("{ let result = 9.5; let value = 2.0; result * value }", 19.0),
                                     ("whippyunits::value!(whippyunits::quantity!(20.0, km), m)", 20000.0), ("whippyunits::quantity!(21.0, m).unsafe_value", 21.0),
                                     ("crate::f_of({ crate::once(22.0) })", 22.0), ("1e3", 1000.0), ("5.0_f64", 5.0), ("2.0 * 3.0 - 1.0", 5.0)]
            e, v = rng.choice(pool)
            if rng.random() < .15 and self.exprs:
                f, w = rng.choice(self.exprs)
                e, v = f"({e}) + {f}", v + w
            return e, v

    def macro(sc, name):
        """a way to call the macro -> (path, extra items)"""
        w = rng.randrange(6)
        local = {n for k, n in sc.decoys if k in ("macro", "mod")}
        if w < 2 or name in local:
            return f"whippyunits::{name}!", ""
        if w == 2:
            return f"::whippyunits::{name}!", ""
        if w == 3 and not any(k in ("fn",) and n == name for k, n in sc.decoys):
            return f"{name}!", f"use whippyunits::{name};"
        if w == 4:
            return f"wu_{name}!", f"use whippyunits::{name} as wu_{name};"
        if not any(k == "macro" for k, n in sc.decoys):
            return f"{name}!", "use whippyunits::*;"
        return f"whippyunits::{name}!", ""

    def num(t, v):
        return v if t == "f64" else vlib.f32r(v) if t == "f32" else int(v)

    n = 0
    while n < vlib.tier(900, 4000):
        n += 1
        kind = rng.choice(["quantity", "quantity", "quantity", "quantity", "unit", "value", "value", "rescale", "json", "string", "generic", "local", "local"])
        dk = rng.choice(list(UNITS))
        stor, extra = UNITS[dk]
        sc = Scope(set(), kind)
        t = rng.choice(["f64", "f64", "f64", "f32", "i32"])
        brand = rng.choice(sc.types) if sc.types and rng.random() < .5 else "()"
        i = len(info)
        u = rng.choice(stor + extra) if kind in ("quantity", "value", "json", "string") else rng.choice(stor)
        su = rng.choice(stor)
        fn = f"pub fn run{'<' + ', '.join(sc.params) + '>' if sc.params else ''}() -> crate::Opt<crate::Text> {{ {' '.join(sc.lets)} %s }}"
        gen = f"::<{', '.join('u8' for _ in sc.params)}>" if sc.params else ""
        use = ""
        e, v = sc.value()
        alias = ""
        known = None
        if kind == "quantity":
            p, use = macro(sc, "quantity")
            # the number's type
            tail = "" if brand == "()" and t == "f64" else f", {t}" + ("" if brand == "()" else f", {brand}")
            if rng.random() < .12 and t == "f64":
                an = rng.choice([x for x in LIBT + ["Float", "Real"] if x not in sc.names])
                alias, tail = f"pub type {an} = f64;", f", {an}" + ("" if brand == "()" else f", {brand}")
                sc.decoys.append(("alias", an))
            if "once" not in e and "?" not in e and rng.random() < .15 and u in stor:
                ce, cv = sc.value(const=True)
                body = f"const Q: whippyunits::unit!({u}{tail}) = {p}(({ce}) as {t}, {u}{tail}); crate::tell(Q)"
                v = cv
            elif rng.random() < .15:
                body = f"macro_rules! wrapper {{ ($e:expr) => {{ {p}($e, {u}{tail}) }} }} crate::tell(wrapper!(({e}) as {t}))"
            elif rng.random() < .15:
                body = f"let q = (|| ::core::option::Option::Some({p}(({e}) as {t}, {u}{tail})))()?; crate::tell(q)" if "return" not in e else f"let q = {p}(({e}) as {t}, {u}{tail}); crate::tell(q)"
            else:
                body = f"crate::tell({p}(({e}) as {t}, {u}{tail}))" if t != "f64" or rng.random() < .2 else f"crate::tell({p}({e}, {u}{tail}))"
            ref = f"crate::tell(quantity!(ARG, {u}, {t}))"
        elif kind == "unit":
            p, use = macro(sc, "unit")
            tail = "" if brand == "()" and t == "f64" else f", {t}" + ("" if brand == "()" else f", {brand}")
            un = f"{p}({u}{tail})"
            form = rng.randrange(4)
            if form == 0:
                body = f"let q: {un} = crate::mk(({e}) as f64); crate::tell(q)"
            elif form == 1:
                fn = f"pub fn inner(q: {un}) -> {un} {{ q }} " + fn
                body = f"crate::tell(inner(crate::mk(({e}) as f64)))"
            elif form == 2:
                fn = f"pub struct Holder {{ pub held: {un} }} " + fn if "Holder" not in sc.names else fn
                body = f"let h = Holder {{ held: crate::mk(({e}) as f64) }}; crate::tell(h.held)"
            else:
                fn = f"pub fn held<Z>(z: Z) -> crate::Opt<crate::Text> where {un}: ::core::convert::From<Z>, {un}: crate::Exps + crate::Val {{ crate::tell(<{un}>::from(z)) }} " + fn
                body = f"held::<{un}>(crate::mk(({e}) as f64))"
            v, ref = float(num(t, v)), f"crate::tell(crate::mk::<unit!({u}, {t})>(ARG as f64))"
            v = num(t, v)
        elif kind == "value":
            p, use = macro(sc, "value")
            tail = "" if brand == "()" and t == "f64" else f", {t}" + ("" if brand == "()" else f", {brand}")
            bt = f", {t}" + ("" if brand == "()" else f", {brand}")
            if rng.random() < .4:
                nm = rng.choice(VARS)
                body = f"let {nm} = whippyunits::quantity!(({e}) as {t}, {su}{bt}); crate::text({p}({nm}, {u}{tail}))"
            else:
                body = f"crate::text({p}(whippyunits::quantity!(({e}) as {t}, {su}{bt}), {u}{tail}))"
            ref = f"crate::text(value!(quantity!(ARG, {su}, {t}), {u}, {t}))"
        elif kind == "rescale":
            p, use = macro(sc, "rescale")
            brand = "()"
            body = f"crate::tell({p}(whippyunits::quantity!(({e}) as {t}, {su}, {t}), {u}{'' if t == 'f64' and rng.random() < .5 else ', ' + t}))"
            ref = f"crate::tell(rescale!(quantity!(ARG, {su}, {t}), {u}, {t}))"
        elif kind in ("json", "string"):
            m = "from_json" if kind == "json" else "from_string"
            p, use = macro(sc, m)
            u = rng.choice(stor)
            brand, t = "()", "f64"
            src = f'{{"value": 2.5, "unit": "{su}"}}' if kind == "json" else f"2.5 {su}"
            text = f'r#"{src}"#'
            arg = rng.choice([text, f"{{ let value = {text}; value }}", f"&{text}[..]", f"{{ crate::once(0.0); {text} }}"])
            v = 2.5
            tail = rng.choice(["", ", f64"])
            if rng.random() < .15:
                an = rng.choice([x for x in LIBT + ["Float", "Real"] if x not in sc.names])
                alias, tail = f"pub type {an} = f64;", f", {an}"
                sc.decoys.append(("alias", an))
            body = f"crate::tell_r({p}({arg}, {u}{tail}))"
            ref = f"crate::tell_r({m}!({arg}, {u}))"
            e = arg
        elif kind == "generic":
            dk = rng.choice(list(DIMT))
            u = rng.choice(UNITS[dk][0])
            w = rng.randrange(3)
            free = [x for x in ["Dim", "Thing", "Length", "Mass", "Scale", "Quantity", "T", "U", "Dimension", "Unit", "L", "M", "Velocity"] if x not in sc.names]
            nm = rng.choice(free)
            used = set(DIMT[dk].replace("^2", "").replace("(", " ").replace(")", " ").split())
            if nm in used or nm in ("L", "M", "T") and dk != "force":
                nm = "Dim" if "Dim" not in sc.names else None
            if nm is None:
                continue
            sc.decoys.append(("trait", nm))
            call = ["whippyunits::dimension_traits::define_generic_dimension!", "::whippyunits::dimension_traits::define_generic_dimension!", "define_generic_dimension!"][w]
            fn = ("use whippyunits::dimension_traits::define_generic_dimension; " if w == 2 else "") + f"{call}({nm}, {DIMT[dk]}); pub fn need<Z: {nm}>(z: Z) -> Z {{ z }} " + fn
            brand = "()"
            body = f"crate::tell(need(whippyunits::quantity!(({e}) as {t}, {u}, {t})))"
            ref = f"crate::tell(quantity!(ARG, {u}, {t}))"
        else:
            mod = rng.choice(["plain_local", "branded_local"])
            if mod in sc.names:
                continue
            brand = "()"
            u = rng.choice(UNITS[dk][0])
            w = rng.randrange(4)
            what = "quantity"
            if w < 2:
                path = f"{'crate' if w else 'super'}::{mod}::{what}!"
            elif w == 2:
                use, path = f"use crate::{mod};", f"{mod}::{what}!"
            else:
                use, path = f"use crate::{mod}::{what} as own_{what};", f"own_{what}!"
            if mod == "branded_local" and w != 2:
                known = True
            if what == "quantity":
                body = f"crate::tell({path}(({e}) as {t}, {u}, {t}))"
                ref = f"crate::tell({mod}::quantity!(ARG, {u}, {t}))"
            else:
                body = f"let q: {path}({u}, {t}) = crate::mk(({e}) as f64); crate::tell(q)"
                v, ref = num(t, v), f"crate::tell(crate::mk::<{mod}::unit!({u}, {t})>(ARG as f64))"
        if known:
            if len(apart) < 8:
                pr.add(f"pub mod s{len(apart)} {{ {' '.join(sc.items)} {use} {alias} {fn % body} }}".replace("\n", " "))
                apart.append({"macro": kind, "local items": [f"{a} {b}" for a, b in sc.decoys], "scope": fn % body})
            continue
        if "?" not in body and "return" not in body and rng.random() < .1:
            fn = fn.replace("pub fn run", "pub struct Own9; impl Own9 { pub fn run", 1) + " }"
            gen = "@" + gen
        arg = f"(({v!r}_f64) as {t})"
        once = "crate::once(0.0); " if "once(" in e and kind not in ("json", "string") else ""
        outer = f"pub mod s{i} {{ {' '.join(sc.items)} {use} {alias} {fn % body} }} pub mod r{i} {{ use crate::*; pub fn run() -> crate::Opt<crate::Text> {{ {once}{ref.replace('ARG', arg)} }} }} "
        call = f"s{i}::Own9::run{gen[1:]}()" if gen.startswith("@") else f"s{i}::run{gen}()"
        sv.add(f"let x = crate::guard(|| {call}); let y = crate::guard(|| r{i}::run()); format!(\"{{x}}\\n{{y}}\")", outer=outer)
        info.append({"macro": kind, "local items": [f"{a} {b}" for a, b in sc.decoys], "variables": sc.lets, "scope": outer.split(" pub mod r")[0], "brand": brand, "t": t, "trivial": not sc.decoys and e[0] in "0123456789-"})
    # every name of a kind at once, around every form of every macro
    forms = [(k, t, m, u) for t in ("f64", "f32", "i32", "i64", "u16", "i8", "u128") for k, m, us in (
        ("quantity", "whippyunits::quantity!(E, U, T)", ["km/h", "ft", "degC"]), ("value", "whippyunits::value!(whippyunits::quantity!(E, m, T), U, T)", ["km", "ft"]), ("value", "whippyunits::value!(whippyunits::quantity!(E, K, T), U, T)", ["degC", "degF"]),
        ("rescale", "whippyunits::rescale!(whippyunits::quantity!(E, m, T), U, T)", ["mm"]), ("unit", "crate::mk::<whippyunits::unit!(U, T)>((E) as f64)", ["kg*m/s^2"]),
        ("local", "crate::plain_local::quantity!(E, U, T)", ["m", "s"]), ("local", "branded_local::quantity!(E, U, T)", ["m", "s"])) for u in us
        if not (t in ("i8", "u16", "u128") and (k == "local" or u in ("degC", "degF")))]
    forms += [("json", "f64", 'whippyunits::from_json!({ let _ = E; r#"{"value": 2.5, "unit": "mm"}"# }, m)', ""), ("string", "f64", 'whippyunits::from_string!({ let _ = E; "2.5 mm" }, m)', ""), ("quantity", "f64", "whippyunits::quantity!(E, ft)", ""), ("value", "f64", "whippyunits::value!(whippyunits::quantity!(E, m), ft)", ""),
              ("rescale", "f64", "whippyunits::rescale!(whippyunits::quantity!(E, m), mm)", ""), ("local", "f64", "crate::plain_local::quantity!(E, m)", ""),
              ("generic", "f64", "need(whippyunits::quantity!(E, m/s))", "")]
    for k, t, m, u in forms:
        for c in crowds:
            terms = crowd_sum[c]
            if t in ("i8", "u16", "u128", "i32", "i64"):
                terms = [x for j, x in enumerate(terms) if j % 2]      # whole numbers
            small = t == "i8"
            e = " + ".join(x for x, _ in terms) if not small else " + ".join(f"({x} - {v})" for x, v in terms) + " + 2.0"
            v = sum(v for _, v in terms) if not small else 2.0
            if t == "f32":
                v = vlib.f32r(v)
            if t[0] in "iu":
                v = int(v)
            tell = "crate::text" if k == "value" else "crate::tell_r" if k in ("json", "string") else "crate::tell"
            mac = m.replace("U", u).replace(", T", ", " + t)
            i = len(info)
            call = f"{tell}({mac.replace('E', f'({e}) as {t}', 1)})"
            ref = f"{tell}({mac.replace('E', f'({v!r}_f64) as {t}', 1)})"
            dim = "whippyunits::dimension_traits::define_generic_dimension!(Crowded, Length / Time); pub fn need<Z: Crowded>(z: Z) -> Z { z } " if k == "generic" else ""
            loc = "use crate::branded_local; " if "branded_local" in m else ""
            outer = (f"pub mod s{i} {{ {loc}{crowd_use[c] if c != 'variables' else ''} {dim}pub fn run() -> crate::Opt<crate::Text> {{ {crowd_use[c] if c == 'variables' else ''} {call} }} }} "
                     f"pub mod r{i} {{ use crate::*; {dim}pub fn run() -> crate::Opt<crate::Text> {{ {ref} }} }} ")
            sv.add(f"let x = crate::guard(|| s{i}::run()); let y = crate::guard(|| r{i}::run()); format!(\"{{x}}\\n{{y}}\")", outer=outer)
            info.append({"macro": k, "local items": [f"all the {c} of the list at once"], "variables": [], "scope": f"{mac} with every {c[:-1]} of the list in the argument", "brand": "()", "t": t, "trivial": False})
    bad = sv.build(rounds=12)
    for i, m in bad.items():
        x = info[i]
        ck.report(f"no-compile:{x['macro']}", f"with the local items {x['local items']} this does not compile ({m}): {x['scope']}", x)
    for i, x in enumerate(info):
        ck.count(x["macro"], (i,), not x["trivial"], sample={k: x[k] for k in ("macro", "local items", "scope")})
        if i in bad:
            continue
        st, r = sv.call(i)
        a, _, b = r.partition("\n")
        if st == "ok" and x["brand"] != "()" and a.count(";") == 5:
            w = a.split(";")
            if w[3].endswith(f"::s{i}::{x['brand']}"):
                w[3] = "()"
            a = ";".join(w)
        if st != "ok" or a != b:
            ck.report(f"differs:{x['macro']}", f"with the local items {x['local items']} the result is {a if st == 'ok' else r!r}, at the crate root {b!r}: {x['scope']}", x)
    sv.close()
    ok, errs, other, stderr = pr.check()
    if other:
        raise vlib.CheckError("generated program does not build: " + other[0]["message"][:500])
    for i, x in enumerate(apart):
        ck.count("by path", ("path", i), True, sample=x)
        if i in errs:
            m = errs[i][0]["message"]
            key = "local-macro-by-path" if "branded_local" in m and "in this scope" in m else "no-compile:local"
            ck.report(key, f"a macro of a branded declarator module, used where the module's own name is not in scope, does not compile ({m}): {x['scope']}", x)
    return ck.finish()
