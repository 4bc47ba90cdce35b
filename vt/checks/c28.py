"""C28: a quantity is stored as exactly its number, in memory and in constants."""
from fractions import Fraction as F
import math
import model, types_ as ty, unittext, vlib
from checks import c05, c06

RULE = ("generated quantity types (exponents anywhere in 16 bits, 60 storage types: numbers, arrays, references, over-aligned, zero-sized, owning, not thread-safe; "
        "brands of any size, with destructors, not thread-safe, not copyable) compared with the bare storage type: size, alignment, spare values, drop glue, auto traits and "
        "Copy/Clone/PartialEq, bytes in memory, what cloning, moving, taking apart and dropping do; and generated declarations, rescalings and readings evaluated in constants "
        "and at run time; non-trivial: exponents not all 0, or value not 0")
PRE = """
use std::cell::Cell;
#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandA;
#[derive(Clone, Copy, PartialEq, Debug)] pub struct BigBrand(pub [u64; 9]);
#[derive(Clone, PartialEq)] pub struct TextBrand(pub String);
pub struct LocalBrand(pub std::rc::Rc<u8>, pub *const u8, pub std::marker::PhantomPinned, pub Cell<i32>, pub std::sync::Mutex<i32>);
pub struct DropBrand; impl Drop for DropBrand { fn drop(&mut self) {} }
pub enum NeverBrand {}
thread_local! { static LOG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
fn note(s: String) { LOG.with(|l| l.borrow_mut().push_str(&s)) }
fn log() -> String { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
#[derive(Debug)] pub struct Noisy(pub i32);
impl Clone for Noisy { fn clone(&self) -> Self { note(format!("c{} ", self.0)); Noisy(self.0 + 1) } }
impl Drop for Noisy { fn drop(&mut self) { note(format!("d{} ", self.0)) } }
impl PartialEq for Noisy { fn eq(&self, o: &Self) -> bool { note(format!("e{},{} ", self.0, o.0)); self.0 % 10 == o.0 % 10 } }
#[derive(Clone, Copy, PartialEq)] #[repr(align(64))] pub struct Al64(pub u8);
#[derive(Clone, Copy, PartialEq)] #[repr(packed)] pub struct Packed(pub u8, pub u32);
#[derive(Clone, Copy, PartialEq)] pub struct Nothing;
#[derive(Clone, Copy, PartialEq)] #[repr(align(8))] pub struct NothingAl;
#[derive(Clone, Copy, PartialEq)] pub struct Complex { pub re: f64, pub im: f64 }
pub struct Plain(pub f64);
#[derive(Clone)] pub struct CloneOnly(pub f64);
macro_rules! probe { ($n:ident, $($b:tt)+) => { pub mod $n { pub trait No { const V: bool = false; } impl<T: ?Sized> No for W<T> {} pub struct W<T: ?Sized>(std::marker::PhantomData<T>); impl<T: ?Sized + $($b)+> W<T> { pub const V: bool = true; } } } }
probe!(p_send, Send); probe!(p_sync, Sync); probe!(p_unpin, Unpin); probe!(p_us, std::panic::UnwindSafe); probe!(p_rus, std::panic::RefUnwindSafe);
probe!(p_clone, Clone); probe!(p_copy, Copy); probe!(p_eq, PartialEq); probe!(p_static, 'static);
macro_rules! traits { ($T:ty) => {{ use p_send::No as _; use p_sync::No as _; use p_unpin::No as _; use p_us::No as _; use p_rus::No as _;
    [("Send", <p_send::W<$T>>::V), ("Sync", <p_sync::W<$T>>::V), ("Unpin", <p_unpin::W<$T>>::V), ("UnwindSafe", <p_us::W<$T>>::V), ("RefUnwindSafe", <p_rus::W<$T>>::V)] }} }
macro_rules! values { ($T:ty) => {{ use p_clone::No as _; use p_copy::No as _; use p_eq::No as _;
    [("Clone", <p_clone::W<$T>>::V), ("Copy", <p_copy::W<$T>>::V), ("PartialEq", <p_eq::W<$T>>::V)] }} }
type O<T> = Option<T>;
macro_rules! layout { ($T:ty) => {{ use std::mem::*;
    [("size", size_of::<$T>()), ("alignment", align_of::<$T>()), ("drop glue", needs_drop::<$T>() as usize), ("size of Option", size_of::<O<$T>>()), ("size of Option<Option>", size_of::<O<O<$T>>>()),
     ("size of array", size_of::<[$T; 3]>()), ("size beside a byte", size_of::<(u8, $T)>()), ("size in Result", size_of::<Result<$T, bool>>())] }} }
fn diff<T: PartialEq + std::fmt::Debug>(q: &[(&str, T)], r: &[(&str, T)]) -> String { q.iter().zip(r).filter(|(a, b)| a.1 != b.1).map(|(a, b)| format!("{} is {:?} where the number's is {:?}; ", a.0, a.1, b.1)).collect() }
fn bytes<T>(x: &T) -> Vec<u8> { let p = x as *const T as *const u8; (0..std::mem::size_of::<T>()).map(|i| unsafe { p.add(i).read_volatile() }).collect() }
/// the same things done to n noisy numbers, wrapped (true) or bare: w wraps, u unwraps
fn noise<X: Clone + PartialEq>(w: fn(Noisy) -> X, u: fn(X) -> Noisy, ops: &str) -> String {
    log();
    let mut v: Vec<X> = Vec::new();
    let mut k = 0;
    for o in ops.chars() {
        match o {
            'n' => { k += 10; v.push(w(Noisy(k))) }
            'c' => if let Some(x) = v.last() { let y = x.clone(); v.insert(0, y) },
            'f' => if v.len() > 1 { let (a, b) = v.split_at_mut(1); a[0].clone_from(&b[0]) },
            'd' => { v.pop(); }
            'm' => { let n = v.len().min(1); v.rotate_left(n); }
            'e' => if v.len() > 1 { let r = v[0] == v[1]; note(format!("={r} ")) },
            'x' => if v.len() > 1 { let r = v[0] != v[v.len() - 1]; note(format!("!={r} ")) },
            'u' => if let Some(x) = v.pop() { let n = u(x); note(format!("u{} ", n.0)); std::mem::forget(n) },
            'b' => if let Some(x) = v.pop() { let b = Box::new(x); v.push(*b) },
            'g' => if let Some(x) = v.pop() { std::mem::forget(x) },
            'r' => if let Some(x) = v.last_mut() { let old = std::mem::replace(x, w(Noisy(7))); drop(old) },
            _ => {}
        }
        note("| ".into());
    }
    drop(v);
    log()
}
"""
# (type, copyable-brand-independent?)
NUM = ty.FLOATS + ty.INTS
OTHER = ["bool", "char", "()", "[f64; 3]", "[u8; 5]", "[[f32; 4]; 4]", "(f64, u8)", "(u8, u64, u16)", "Complex", "Al64", "[Al64; 2]", "Packed", "Nothing", "NothingAl", "[f64; 0]",
         "std::num::NonZeroU8", "std::num::NonZeroI64", "std::num::Wrapping<u32>", "Option<std::num::NonZeroU16>", "Option<f64>", "Result<u8, bool>",
         "&'static str", "&'static f64", "&'static mut f64", "&'static [f64]", "&'static dyn Fn() -> f64", "fn(f64) -> f64", "*const f64", "*mut f64", "std::ptr::NonNull<u8>",
         "String", "Vec<f64>", "Box<f64>", "Box<[f64]>", "Box<dyn Send>", "std::rc::Rc<f64>", "std::sync::Arc<f64>", "std::borrow::Cow<'static, str>", "std::cell::Cell<f64>",
         "std::cell::RefCell<f64>", "std::sync::Mutex<f64>", "std::sync::atomic::AtomicU32", "std::sync::MutexGuard<'static, f64>", "std::marker::PhantomPinned",
         "std::marker::PhantomData<*const u8>", "std::mem::MaybeUninit<f64>", "std::mem::ManuallyDrop<String>", "std::cmp::Ordering", "std::time::Duration", "Noisy", "Plain", "CloneOnly",
         "std::convert::Infallible", "std::cell::UnsafeCell<u32>", "std::collections::HashMap<u8, String>"]
BRANDS = ["()", "()", "BrandA", "BigBrand", "TextBrand", "LocalBrand", "DropBrand", "NeverBrand", "&'static mut u8", "[BrandA; 4]", "std::cell::Cell<u8>"]
COPYABLE = {"()", "BrandA", "BigBrand", "[BrandA; 4]"}
OPS = "ncfdmexubgr"


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C28", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    sp = unittext.Spell(tb)
    sv = ty.TypeServer("c28", PRE)
    info = []

    def exps(n):
        w = rng.random()
        return [rng.choice([0, 0, 1, -1, 2, -3]) if w < .5 else rng.choice([rng.randint(-32768, 32767), -32768, 32767, 0]) for _ in range(n)]

    # -- layout and traits
    kinds = [(t, b) for t in NUM + OTHER for b in (["()"] + rng.sample(BRANDS[2:], vlib.tier(3, 8)))]
    for t, b in kinds:
        s, d = exps(4), exps(8)
        q = ty.qty(s, d, t, b)
        body = f"type T = {t}; type Q = {q}; let mut r = diff(&layout!(Q), &layout!(T)); r += &diff(&traits!(Q), &traits!(T)); "
        if b in COPYABLE:
            body += "r += &diff(&values!(Q), &values!(T)); "
        body += "r"
        sv.add(body)
        info.append(("layout", t, b, d, s))
    # -- bytes in memory
    for t in NUM:
        for b in rng.sample(BRANDS, 2):
            s, d = exps(4), exps(8)
            sv.add(f"let v: {t} = get(&a[0]); type Q = {ty.qty(s, d, t, b)}; let q: Q = Quantity::new(v); let w: {t} = get(&a[1]); let p: Q = Quantity::new(w); "
                   f"let arr = [q, p]; let raw = [v, w]; let back = unsafe {{ std::ptr::read(&arr as *const [Q; 2] as *const [{t}; 2]) }}; "
                   f"format!(\"{{}} {{}} {{}} {{}} {{}}\", bytes(&arr) == bytes(&raw), put(back[0]), put(back[1]), put(arr[0].unsafe_value), put(arr[1].unsafe_value))")
            info.append(("bytes", t, b, d, s))
    # -- cloning, moving, comparing, dropping
    for b in ["()", "BrandA", "TextBrand", "[BrandA; 4]"]:
        s, d = exps(4), exps(8)
        sv.add(f"type Q = {ty.qty(s, d, 'Noisy', b)}; let q = noise::<Q>(Quantity::new, |x| x.unsafe_value, &a[0]); let r = noise::<Noisy>(|x| x, |x| x, &a[0]); if q == r {{ String::new() }} else {{ format!(\"{{q}} where the number gives {{r}}\") }}")
        info.append(("noise", "Noisy", b, d, s))

    # -- constants
    def number(t):
        if t in ty.FLOATS:
            w = rng.random()
            x = rng.uniform(-1000, 1000) if w < .4 else float(rng.randint(-10 ** 6, 10 ** 6)) if w < .7 else math.ldexp(rng.uniform(1, 2), rng.randint(-60, 60)) * rng.choice([1, -1])
            if w > .95:
                x = rng.choice([0.0, -0.0, math.inf, -math.inf, 5e-324, 1.7e308])
            return vlib.f32r(x) if t == "f32" else x
        return rng.randint(max(ty.lo(t), -10 ** rng.randint(1, 30)), min(ty.hi(t), 10 ** rng.randint(1, 30)))

    def lit(t, v):
        return f"{t}::from_bits(0x{ty.put(t, v)})" if t in ty.FLOATS else f"({v} as {t})" if v > ty.lo(t) else f"{t}::MIN"

    n = 0
    while n < vlib.tier(500, 3000):
        t = rng.choice(NUM + ["f64", "f32", "i32", "i64"])
        k = rng.choice([2, 6, 12, 30])
        s1, s2 = ([rng.randint(-k, k), rng.choice([0, rng.randint(-4, 4)]), rng.randint(-k, k), rng.choice([0, 0, 1, -1])] for _ in range(2))
        v = number(t)
        if t in ty.INTS:
            num, den = c06.ratio(s1, s2)
            if num >= c06.LIM or den >= c06.LIM or abs(v) * num >= c06.LIM or not ty.lo(t) <= c06.trunc(v, num, den) <= ty.hi(t):
                continue
        d, b = [rng.choice([0, 0, 1, -1, 2]) for _ in range(8)], rng.choice(["()", "()", "BrandA", "BigBrand"])
        A, B = ty.qty(s1, d, t, b), ty.qty(s2, d, t, b)
        fn = "rescale" if t == "f64" and rng.random() < .5 else f"rescale_{t}"
        form = rng.choice(["const R: B = {fn}(<A>::new({v}));", "static R: B = {fn}(<A>::new({v}));", "const fn f(x: A) -> B {{ {fn}(x) }} const R: B = f(<A>::new({v}));",
                           "const Q: A = <A>::new({v}); const R: B = {fn}(Q);"]).format(fn=fn, v=lit(t, v))
        sv.add(f"type A = {A}; type B = {B}; {form} let v: {t} = get(&a[0]); let r: B = {fn}(<A>::new(std::hint::black_box(v))); format!(\"{{}} {{}}\", put(R.unsafe_value), put(r.unsafe_value))")
        info.append(("const", t, b, d, (s1, s2, v, form)))
        n += 1
    storage = [u for u in tb.units if u["cfv"] == 1.0 and u["afv"] == 0]
    texts = [unittext.text_for(sp, tuple(u["dims"]), storage=True) for u in storage]
    pool = vlib.samples(hs.one_of(texts), vlib.tier(260, 1500), f"c28{vlib.SEED}")
    bydim = {}
    for x in pool:
        bydim.setdefault(tuple(x.dims), []).append(x)
    for x in pool:
        t = rng.choice(NUM + ["f64", "f64", "f32", "i64"])
        y = rng.choice(bydim[tuple(x.dims)])
        v = number(t)
        b = rng.choice(["", "", ", BrandA"])
        if t in ty.INTS:
            num, den = c06.ratio(x.scale, y.scale)
            if num >= c06.LIM or den >= c06.LIM or abs(v) * num >= c06.LIM or not ty.lo(t) <= c06.trunc(v, num, den) <= ty.hi(t):
                y = x
        if t in ty.FLOATS and max(abs(p - q) for p, q in zip(x.scale, y.scale)) > 90:
            y = x
        tail = f", {t}{b}" if b or t != "f64" else rng.choice(["", ", f64"])
        ann = f"unit!({x.text}{tail})"
        sv.add(f"const Q: {ann} = quantity!({lit(t, v)}, {x.text}{tail}); const R: {t} = value!(Q, {y.text}{tail}); let v: {t} = get(&a[0]); let q: {ann} = quantity!(std::hint::black_box(v), {x.text}{tail}); "
               f"let r: {t} = value!(std::hint::black_box(q), {y.text}{tail}); format!(\"{{}} {{}} {{}} {{}}\", put(Q.unsafe_value), put(R), put(q.unsafe_value), put(r))")
        info.append(("macro", t, b, x.text, (y.text, v)))
    bad = sv.build()
    for i, m in bad.items():
        ck.report(f"no-compile:{info[i][0]}", f"{describe(info[i])} does not compile: {m}", info[i])

    kinds = {}
    for i, x in enumerate(info):
        if i not in bad:
            kinds.setdefault(x[0], []).append(i)
    for i in kinds.get("layout", ()):
        st, r = sv.call(i)
        ck.count("layout", (i,), any(info[i][3]) or any(info[i][4]), sample=describe(info[i]))
        if st != "ok" or r:
            ck.report("layout", f"{describe(info[i])}: {r}", info[i])
    for k in ("const", "macro"):
        for i in kinds.get(k, ()):
            t, v = info[i][1], info[i][4][-1] if k == "macro" else info[i][4][2]
            st, r = sv.call(i, ty.put(t, v))
            ck.count("constants", (i,), v != 0, sample=describe(info[i]))
            w = r.split(" ")
            if st != "ok" or w[:len(w) // 2] != w[len(w) // 2:]:
                ck.report("constant", f"{describe(info[i])}: constants and run time give {r}", info[i])

    nb = kinds.get("bytes", [])

    def value(t):
        return c05.floats(t).filter(lambda x: not math.isnan(x)) if t in ty.FLOATS else hs.integers(ty.lo(t), ty.hi(t))

    @hs.composite
    def two(draw):
        i = draw(hs.sampled_from(nb))
        t = info[i][1]
        return i, draw(value(t)), draw(value(t))

    def same(c):
        i, v, w = c
        t = info[i][1]
        st, r = sv.call(i, ty.put(t, v), ty.put(t, w))
        want = " ".join(["true", ty.put(t, v), ty.put(t, w)] + [ty.put(t, v), ty.put(t, w)])
        if st != "ok" or r != want:
            return "bytes", f"{describe(info[i])}: an array of {v!r} and {w!r} is in memory as {r}, wanted {want}"
        return None if v != 0 or w != 0 else False
    ck.explore("bytes", two(), same, vlib.tier(1500, 20000), lambda c: {"type": describe(info[c[0]]), "values": [repr(c[1]), repr(c[2])]})

    nn = kinds.get("noise", [])

    def noise(c):
        i, ops = c
        st, r = sv.call(i, ops)
        if st != "ok" or r:
            return "handling", f"{describe(info[i])}: after {ops!r} the numbers saw {r}"
        return None if len(ops) > 2 else False
    ck.explore("handling", hs.tuples(hs.sampled_from(nn), hs.text(OPS + "nn", min_size=1, max_size=24)), noise, vlib.tier(1500, 20000), lambda c: {"type": describe(info[c[0]]), "operations": c[1]})
    sv.close()
    return ck.finish()


def describe(x):
    k, t, b, d, s = x
    if k == "const":
        return f"rescaling {s[2]!r} ({t}, brand {b}, dimension {d}) from scale {s[0]} to {s[1]} by {s[3]!r}"
    if k == "macro":
        return f"declaring {s[1]!r} ({t}{b}) in {d} and reading it in {s[0]}"
    return f"a quantity of storage type {t}, brand {b}, dimension {d}, scale {s}"
