"""A generated program exposing serialization, deserialization and formatting of many quantity types."""
import types_ as ty, vlib

EXTRA = """
#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandA;
use whippyunits::serialization::*;
fn res<Q: Exps + Val, E: std::fmt::Display>(r: Result<Q, E>) -> String { match r { Ok(q) => format!("ok;{}", show(q)), Err(e) => format!("err;{e}") } }
fn text<E: std::fmt::Display>(r: Result<String, E>) -> String { match r { Ok(q) => format!("ok;{q}"), Err(e) => format!("err;{e}") } }
"""
DEPS = ['serde_json = "1.0"']


def args(s, d):
    return ", ".join("{" + str(x) + "}" for x in list(d) + list(s))


def body(s, d, t="f64", brand="()", de=True, ser=True):
    Q = ty.qty(s, d, t, brand)
    Q0 = ty.qty(s, d, t)
    b = f"type Q = {Q}; match a[0].as_str() {{ "
    if de:
        b += ("\"des\" => res(serde_json::from_str::<Q>(&a[1])), "
              "\"desv\" => match serde_json::from_str::<serde_json::Value>(&a[1]) { Ok(v) => res(serde_json::from_value::<Q>(v)), Err(e) => format!(\"err;{e}\") }, "
              "\"vec\" => match serde_json::from_str::<Vec<Q>>(&a[1]) { Ok(v) => { let l: Vec<String> = v.iter().map(|q| show(*q)).collect(); format!(\"ok;{}\", l.join(\"|\")) }, Err(e) => format!(\"err;{e}\") }, "
              f"\"core\" => res(deserialize_core_quantity::<{args(s, d)}, {t}>(get(&a[1]), &a[2])), "
              f"\"core0\" => match deserialize_core::<{args(s, d)}>(get(&a[1]), &a[2]) {{ Ok(v) => format!(\"ok;{{}}\", put(v)), Err(e) => format!(\"err;{{e}}\") }}, ")
    if not ser:
        return b + "x => format!(\"?{x}\") }"
    b += (f"\"ser\" => {{ let q = Q::new(get::<{t}>(&a[1])); text(serde_json::to_string(&q)) }} "
          f"\"serv\" => {{ let q = Q::new(get::<{t}>(&a[1])); text(serde_json::to_value(&q).map(|v| v.to_string())) }} "
          f"\"servec\" => {{ let q = Q::new(get::<{t}>(&a[1])); text(serde_json::to_string(&vec![q, q])) }} ")
    if brand == "()":
        b += (f"\"json\" => {{ let q = Q::new(get::<{t}>(&a[1])); text(serialize_to_json(&q)) }} "
              f"\"ucum\" => {{ let q = Q::new(get::<{t}>(&a[1])); to_ucum_unit(&q) }} ")
    b += (f"\"fmt\" => {{ let q = Q::new(get::<{t}>(&a[1])); let u: &str = &a[2]; "
          "match a[3].as_str() { \"\" => format!(\"{}\", q.fmt(u)), p => { let p: usize = p.parse().unwrap(); format!(\"{:.*}\", p, q.fmt(u)) } } } ")
    return b + "x => format!(\"?{x}\") }"


def server(name):
    return ty.TypeServer(name, EXTRA, deps=DEPS)
