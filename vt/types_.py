"""Generated programs that expose quantity types over a line protocol.

A case is a Rust expression block with `a: &[String]` (the arguments) in scope, evaluating to a String. Requests:
`<case>\\t<hex arg>\\t<hex arg>...`; replies `ok\\t<hex>` or `panic\\t<hex>`."""
import os
import vlib

INTS = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]
FLOATS = ["f32", "f64"]
BITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64,
        "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}


def lo(t):
    return -(1 << (BITS[t] - 1)) if t[0] == "i" else 0


def hi(t):
    return (1 << (BITS[t] - 1)) - 1 if t[0] == "i" else (1 << BITS[t]) - 1


def dim_ty(d):
    return "Dimension<_M<{}>, _L<{}>, _T<{}>, _I<{}>, _Θ<{}>, _N<{}>, _J<{}>, _A<{}>>".format(*(_c(x) for x in d))


def scale_ty(s):
    return "Scale<_2<{}>, _3<{}>, _5<{}>, _Pi<{}>>".format(*(_c(x) for x in s))


def _c(x):
    return str(x) if x >= 0 else "{" + str(x) + "}"


def qty(s, d, t="f64", brand="()"):
    return f"Quantity<{scale_ty(s)}, {dim_ty(d)}, {t}, {brand}>"


def new(s, d, expr, t="f64", brand="()"):
    return f"Quantity::<{scale_ty(s)}, {dim_ty(d)}, {t}, {brand}>::new({expr})"


PRELUDE = """#![allow(unused_imports, unused_macros, dead_code, non_snake_case, non_camel_case_types, unused_variables, unused_mut)]
#![allow(clippy::all)]
#![recursion_limit = "512"]
use whippyunits::quantity::*;
use whippyunits::api::*;
use whippyunits::*;

pub trait HX: Sized { fn put(&self) -> String; fn get(s: &str) -> Self; }
macro_rules! hxi { ($($t:ty)*) => { $(impl HX for $t { fn put(&self) -> String { self.to_string() } fn get(s: &str) -> Self { s.parse().unwrap() } })* } }
hxi!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize bool);
impl HX for f64 { fn put(&self) -> String { format!("{:016x}", self.to_bits()) } fn get(s: &str) -> Self { f64::from_bits(u64::from_str_radix(s, 16).unwrap()) } }
impl HX for f32 { fn put(&self) -> String { format!("{:08x}", self.to_bits()) } fn get(s: &str) -> Self { f32::from_bits(u32::from_str_radix(s, 16).unwrap()) } }
impl HX for String { fn put(&self) -> String { self.clone() } fn get(s: &str) -> Self { s.to_string() } }
fn put<T: HX>(x: T) -> String { x.put() }
fn get<T: HX>(s: &str) -> T { T::get(s) }
/// the exponents of a quantity type, its storage type and brand
pub trait Exps { fn exps(&self) -> ([i16; 8], [i16; 4]); fn tb(&self) -> (&'static str, &'static str); }
impl<const M: i16, const L: i16, const T: i16, const I: i16, const H: i16, const N: i16, const J: i16, const A: i16,
     const P2: i16, const P3: i16, const P5: i16, const PI: i16, X: 'static, B: 'static> Exps
    for Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<M>, _L<L>, _T<T>, _I<I>, _Θ<H>, _N<N>, _J<J>, _A<A>>, X, B> {
    fn exps(&self) -> ([i16; 8], [i16; 4]) { ([M, L, T, I, H, N, J, A], [P2, P3, P5, PI]) }
    fn tb(&self) -> (&'static str, &'static str) { (std::any::type_name::<X>(), std::any::type_name::<B>()) }
}
/// full description of a quantity: type, value
fn show<Q: Exps + Val>(q: Q) -> String { let (d, s) = q.exps(); let (t, b) = q.tb(); format!("{d:?};{s:?};{t};{b};{}", q.val()) }
pub trait Val { fn val(&self) -> String; }
impl<S, D, T: HX, B> Val for Quantity<S, D, T, B> { fn val(&self) -> String { self.unsafe_value.put() } }
"""

MAIN = """
fn unhex(s: &str) -> String { let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect(); String::from_utf8(b).unwrap() }
fn tohex(s: &str) -> String { s.bytes().map(|b| format!("{b:02x}")).collect() }
fn main() {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|_| {}));
    let cases: &[(usize, fn(&[String]) -> String)] = &[%s];
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let mut p = l.split('\\t');
        let n: usize = p.next().unwrap().parse().unwrap();
        let a: Vec<String> = p.map(unhex).collect();
        let f = cases.iter().find(|c| c.0 == n).unwrap().1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&a)));
        let s = match r {
            Ok(s) => format!("ok\\t{}", tohex(&s)),
            Err(e) => format!("panic\\t{}", tohex(&e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        };
        writeln!(out, "{s}").unwrap();
        out.flush().unwrap();
    }
}
"""


class TypeServer:
    def __init__(self, name, extra="", **kw):
        self.prog = vlib.Prog(name, PRELUDE + extra, **kw)
        self.sv = None
        self.bad = {}

    def add(self, body, meta=None, outer=""):
        """body: Rust block content -> String; outer: items to put beside the function"""
        n = len(self.prog.cases)
        body = body.strip()
        return self.prog.add(f"{outer}fn c{n}(a: &[String]) -> String {{ {body} }}".replace("\n", " "), meta)

    def build(self, timeout=800, rounds=4):
        """builds; cases that do not compile are put in self.bad {case: first message} and left out"""
        src = list(self.prog.cases)
        for _ in range(rounds):
            self.prog.cases = [("" if i in self.bad else s, m) for i, (s, m) in enumerate(src)]
            live = [i for i in range(len(src)) if i not in self.bad]
            self.prog.tail = MAIN % ", ".join(f"({i}, c{i})" for i in live)
            ok, errs, other, stderr = self.prog.build(timeout)
            if ok:
                break
            if not errs:
                raise vlib.CheckError("generated program does not build: " + "; ".join(m["message"][:300] for m in other[:5])
                                      + stderr[-1500:])
            for i, ms in errs.items():
                self.bad[i] = ms[0]["message"]
        else:
            raise vlib.CheckError("generated program does not build: " + str(self.bad)[:2000])
        self.prog.cases = src
        self.sv = vlib.Server(self.prog.exe)
        return self.bad

    def call(self, n, *args):
        """-> ("ok"|"panic", text)"""
        try:
            r = self.sv.ask_line("\t".join([str(n)] + [str(x).encode().hex() for x in args]))
        except vlib.Crashed as e:
            return "panic", str(e)
        k, h = r.rstrip("\n").split("\t")
        return k, bytes.fromhex(h).decode()

    def close(self):
        if self.sv:
            self.sv.close()


def parse_show(t):
    """show() text -> (dims, scale, storage type, brand, value text)"""
    d, s, ty, b, v = t.split(";", 4)
    f = lambda x: [int(y) for y in x.strip("[]").split(",")]
    return f(d), f(s), ty, b, v


def put(t, v):
    """python value -> wire text of storage type t"""
    if t == "f64":
        return vlib.hex_f64(v)
    if t == "f32":
        import struct
        return struct.pack(">f", v).hex()
    return str(v)


def get(t, s):
    if t == "f64":
        return vlib.f64_hex(s)
    if t == "f32":
        import struct
        return struct.unpack(">f", bytes.fromhex(s))[0]
    return int(s)
