"""C05: floating-point rescaling multiplies by the exact ratio of the two scales."""
from fractions import Fraction as F
import math, struct
import model, ref, types_ as ty, unittext, vlib

RULE = ("generated scale pairs, by function and by rescale! between generated unit texts (every single-prime exponent difference in range plus random four-prime differences, random dimensions, "
        "brands and base scales) x generated floats; non-trivial: the ratio is not 1 and the value is finite and non-zero")
PI = ref.PI
BRANDS = ["()", "BrandA", "BrandB"]
EPS = {"f64": F(1, 2 ** 52), "f32": F(1, 2 ** 23)}
MIN = {"f64": F(1, 2 ** 1074), "f32": F(1, 2 ** 149)}
MAXV = {"f64": F(2) ** 1024, "f32": F(2) ** 128}
NORM = {"f64": F(1, 2 ** 1022), "f32": F(1, 2 ** 126)}


def ratio(a, b):
    r = F(1)
    for base, x, y in zip((F(2), F(3), F(5), PI), a, b):
        r *= base ** (x - y)
    return r


def floats(t):
    import hypothesis.strategies as hs
    w = 64 if t == "f64" else 32
    return hs.one_of(hs.floats(width=w), hs.floats(min_value=-1e6, max_value=1e6, width=w if w == 64 else 32).map(lambda x: vlib.f32r(x) if w == 32 else x),
                     hs.integers(-1000, 1000).map(float))


def close(t, got, want, ulps):
    """got float vs exact want"""
    if abs(want) >= MAXV[t] * (1 - ulps * EPS[t]):
        return abs(want) < MAXV[t] * (1 + ulps * EPS[t]) and math.isfinite(got) or math.isinf(got) and (got > 0) == (want > 0)
    if not math.isfinite(got):
        return False
    return abs(F(got) - want) <= abs(want) * EPS[t] * ulps + MIN[t] * 2


def macro_texts(hs, rng, types, n):
    """(storage type, three unit texts of one dimension that are also Rust expressions)"""
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    sp = unittext.Spell(tb)
    storage = [u for u in tb.units if u["cfv"] == 1.0 and u["afv"] == 0]
    dims = sorted({tuple(u["dims"]) for u in storage})
    st = hs.sampled_from(dims).flatmap(lambda d: hs.tuples(*[unittext.text_for(sp, d, storage=True)] * 3))
    return [(types[i % len(types)],) + c for i, c in enumerate(vlib.samples(st, n, f"rescale!{vlib.SEED}"))
            if max(abs(p - q) for a in c for b in c for p, q in zip(a.scale, b.scale)) <= 90]


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C05", RULE)
    rng = ck.rng
    sv = ty.TypeServer("c05", "#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandA;\n#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandB;\n")
    cases = []

    def dims():
        return [rng.choice([0, 0, 1, -1, 2, -3, rng.randint(-20, 20)]) for _ in range(8)]

    def add(s1, s2, t, b, s3=None, d=None):
        d = d or dims()
        A, B = ty.qty(s1, d, t, b), ty.qty(s2, d, t, b)
        fn = {"f64": rng.choice(["rescale", "rescale_f64"]), "f32": "rescale_f32"}[t]
        C = ty.qty(s3, d, t, b) if s3 else B
        body = (f"let v: {t} = get(&a[0]); type A = {A}; type B = {B}; type C = {C}; let q: A = Quantity::new(v); "
                f"let r: B = {fn}(q.clone()); let back: A = {fn}(r.clone()); let mid: C = {fn}(q.clone()); let via: B = {fn}(mid); "
                f"let (rd, rs) = r.exps(); "
                f"format!(\"{{}} {{}} {{}} {{rd:?}}{{rs:?}}{{}}\", put(r.unsafe_value), put(back.unsafe_value), put(via.unsafe_value), r.tb().1)")
        cases.append((s1, s2, s3 or s2, t, b, d))
        sv.add(body)

    zero = [0] * 4
    for ax, lim in ((0, 100), (1, 100), (2, 100), (3, 8)):
        for n in range(-lim, lim + 1):
            o = rng.randint(-40, 40) if rng.random() < .5 else 0
            if ax == 3:
                o = rng.choice([0, 0, 1, -2])
            s1, s2 = list(zero), list(zero)
            s1[ax], s2[ax] = n + o, o
            add(s1, s2, "f64" if (n + ax) % 4 else "f32", rng.choice(BRANDS))
    for i in range(vlib.tier(260, 1500)):
        small = rng.random() < .6
        k = rng.choice([3, 12]) if small else 50
        r = lambda: [rng.randint(-k, k), rng.randint(-k, k) if rng.random() < .6 else 0, rng.randint(-k, k),
                     rng.randint(-4, 4) if rng.random() < .4 else 0]
        s1, s2 = r(), r()
        if rng.random() < .08:
            s2 = list(s1)
        # a middle scale within range of both
        s3 = [(x + y) // 2 + rng.choice([-2, 0, 3]) if q < 3 else x for q, (x, y) in enumerate(zip(s1, s2))]
        add(s1, s2, rng.choice(["f64", "f64", "f32"]), rng.choice(BRANDS), s3)
    for t, x, y, z in macro_texts(hs, rng, ty.FLOATS, vlib.tier(120, 900)):
        tt = f", {t}" if t != "f64" or rng.random() < .4 else ""
        A, B, C = (f"unit!({u.text}{tt})" for u in (x, y, z))
        sv.add(f"let v: {t} = get(&a[0]); let q: {A} = Quantity::new(v); let r = rescale!(q, {y.text}{tt}); let r: {B} = r; let back: {A} = rescale!(r.clone(), {x.text}{tt}); "
               f"let via = rescale!(rescale!(Quantity::new(v) as {A}, {z.text}{tt}), {y.text}{tt}); let (rd, rs) = r.exps(); "
               f"format!(\"{{}} {{}} {{}} {{rd:?}}{{rs:?}}{{}}\", put(r.unsafe_value), put(back.unsafe_value), put(via.unsafe_value), r.tb().1)")
        cases.append((list(x.scale), list(y.scale), list(z.scale), t, "()", list(x.dims)))
    bad = sv.build()
    for i, m in bad.items():
        s1, s2, s3, t, b, d = cases[i]
        ck.report("no-compile", f"rescaling {t} quantity of dimension {d} from scale {s1} to {s2} does not compile: {m}", cases[i])

    def judge(i, v):
        s1, s2, s3, t, b, d = cases[i]
        st, r = sv.call(i, ty.put(t, v))
        what = f"rescaling {v!r} ({t}, brand {b}, dimension {d}) from scale {s1} to {s2}"
        if st != "ok":
            return ("panic", f"{what} panics: {r}")
        r, back, via, desc = r.split(" ", 3)
        if desc.replace(" ", "") != f"{d}{s2}".replace(" ", "") + ("()" if b == "()" else f"c05::{b}"):
            return ("type", f"{what} yields type {desc}")
        x, y, z = (ty.get(t, h) for h in (r, back, via))
        if math.isnan(v):
            return None if math.isnan(x) else ("value", f"{what} yields {x!r}")
        if v == 0 or math.isinf(v):
            return None if x == v and math.copysign(1, x) == math.copysign(1, v) else ("value", f"{what} yields {x!r}")
        if s1 == s2 and r != ty.put(t, v):
            return ("identity", f"{what} yields {x!r}")
        want = F(v) * ratio(s1, s2)
        if not close(t, x, want, 16):
            return ("value", f"{what} yields {x!r}, exact value is {ref_show(want)}")
        if math.isfinite(x) and abs(want) >= NORM[t] * 4 and not close(t, y, F(v), 40):
            return ("round-trip", f"{what} and back yields {y!r}")
        mid = F(v) * ratio(s1, s3)
        if NORM[t] * 4 <= abs(mid) < MAXV[t] / 4 and not close(t, z, want, 60):
            return ("via", f"{what} through scale {s3} yields {z!r}, directly {x!r}")
        return s1 != s2

    live = [i for i in range(len(cases)) if i not in bad]
    # every generated type pair with a few values each
    for i in live:
        t = cases[i][3]
        for v in [1.0, -3.0, rng.uniform(-1e5, 1e5)] + ([0.0, -0.0, math.inf, -math.inf, math.nan] if i % 5 == 0 else []):
            v = vlib.f32r(v) if t == "f32" else v
            res = judge(i, v)
            ck.count("pairs", (cases[i][:2], t, v), res is True, {"from": cases[i][0], "to": cases[i][1], "type": t, "value": v})
            if isinstance(res, tuple):
                ck.report(res[0], res[1], {"case": cases[i], "value": v})
    pick = hs.integers(0, len(live) - 1).map(lambda k: live[k]).flatmap(
        lambda i: hs.tuples(hs.just(i), floats(cases[i][3])))
    ck.explore("values", pick, lambda c: judge(*c), vlib.tier(16000, 200000),
               sample=lambda c: {"from": cases[c[0]][0], "to": cases[c[0]][1], "type": cases[c[0]][3], "value": c[1]},
               key=lambda c: (cases[c[0]][:2], c[1]))
    sv.close()
    return ck.finish()


def ref_show(x):
    try:
        return repr(float(x))
    except OverflowError:
        return "out of range"
