"""C11: angles erase to their value in radians and vanish from compound units."""
from fractions import Fraction as F
import math
import model, ref, types_ as ty, vlib
from checks import c05, c06

RULE = ("every angular unit of the library (and generated raw angle scales) to generated powers -9..9, declared by macro or raw, x every "
        "supported (storage, target) pair, erased to a number; compound types with generated other exponents erased to the angle-free "
        "type (value and all other exponents must stay) and further rescaled; non-trivial: value not 0 and scale or compound not trivial")
SAME = ["f32", "f64", "i16", "i32", "i64", "i128", "isize"]
CROSS = [("f32", "f64"), ("f64", "f32"), ("i32", "f32"), ("i32", "f64"), ("i64", "f32"), ("i64", "f64"), ("f32", "i32"), ("f64", "i32"),
         ("f32", "i64"), ("f64", "i64")]


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C11", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    angles = [u for u in tb.units if u["dims"] == [0] * 7 + [1] and u["cfv"] == 1.0 and u["afv"] == 0]
    defs = {u.name: u for u in ref.UNITS}
    sv = ty.TypeServer("c11", "#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandA;\n")
    cases = []     # (kind, src, dst, exponent, scale or None, unit, other dims)
    for src, dst in [(t, t) for t in SAME] * 2 + CROSS * 2:
        for e in [1, 1, -1, 2, rng.choice([3, -2, -3]), rng.randint(4, 9), -rng.randint(4, 9)]:
            # raw scale
            s = [rng.randint(-6, 6), rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(-2, 2) if abs(e) < 4 else rng.choice([0, e if abs(e) <= 8 else 0])]
            scales = [s, [0] * 4] if e == 1 else [s]
            for j in range(4):       # and of a single factor, which a special case could forget
                if rng.random() < .5:
                    scales.append([rng.choice([1, -1, 2, -3]) if k == j else 0 for k in range(4)])
            for s in scales:
                Q = ty.qty(s, [0] * 7 + [e], src)
                sv.add(f"let v: {src} = get(&a[0]); let x: {dst} = <{Q}>::new(v).into(); let y = <{dst}>::from(<{Q}>::new(v)); format!(\"{{}} {{}}\", put(x), put(y))")
                cases.append(("number", src, dst, e, s, None, None))
    for u in angles:
        for src, dst in [("f64", "f64"), ("f32", "f32"), ("i32", "i32"), ("i64", "f64"), ("i32", "f64"), ("f64", "f32"), ("f64", "i64"), ("i128", "i128")]:
            for e in ([1, rng.choice([2, -1, -2, 3])] if src == dst else [1]):
                if any(abs(x * e) > 90 for x in u["scale"]) or abs(u["scale"][3] * e) > 8:
                    continue
                nm = rng.choice([u["name"]] + u["symbols"])
                nm = nm if nm.isidentifier() else u["name"]
                ex = nm + (f"^{e}" if e != 1 else "")
                sv.add(f"let v: {src} = get(&a[0]); let q = quantity!(v, {ex}, {src}); let q2: unit!({ex}, {src}) = q.clone(); let x: {dst} = q.into(); let y = <{dst}>::from(q2); format!(\"{{}} {{}}\", put(x), put(y))")
                cases.append(("unit", src, dst, e, [x * e for x in u["scale"]], u["name"], None))
    for i in range(vlib.tier(150, 900)):
        src = SAME[i % 7]
        e = rng.choice([1, -1, 2, -2, rng.randint(-9, 9) or 5])
        d = [rng.choice([0, 1, -1, 2, rng.randint(-30, 30)]) for _ in range(7)]
        if not any(d) and rng.random() < .7:
            d[1] = 1
        s = [rng.randint(-20, 20) for _ in range(3)] + [rng.randint(-3, 3)]
        A, B = ty.qty(s, d + [e], src), ty.qty(s, d + [0], src)
        extra = ""
        if src in ("f64", "f32"):     # and after rescaling to the coherent scale
            C = ty.qty([0] * 4, d + [0], src)
            extra = f"let c: {C} = rescale_{src}(b.clone());"
            out = "put(c.unsafe_value)"
        else:
            out = "put(b.unsafe_value)"
        sv.add(f"let v: {src} = get(&a[0]); let b: {B} = <{A}>::new(v).into(); let b2 = <{B}>::from(<{A}>::new(v)); {extra} format!(\"{{}} {{}} {{}}\", put(b.unsafe_value), put(b2.unsafe_value), {out})")
        cases.append(("compound", src, src, e, s, None, d))
    bad = sv.build()
    for i, m in bad.items():
        ck.report(f"no-compile", f"erasing angle of {cases[i]} does not compile: {m}", cases[i])
    live = [i for i in range(len(cases)) if i not in bad]

    def judge(c):
        i, v = c
        kind, src, dst, e, s, unit, d = cases[i]
        what = f"{v!r} {src} at " + (f"unit {unit}^{e}" if unit else f"scale {s}, dimension {d or []}·angle^{e}")
        if src[0] == "f" and not math.isfinite(v):
            return False
        exact = F(v) * c05.ratio(s, [0] * 4)
        if unit and unit in defs:
            exact = F(v) * defs[unit].value ** e
        if kind == "compound":
            st, r = sv.call(i, ty.put(src, v))
            if st != "ok":
                return ("panic", f"erasing the angle of {what} panics: {r}")
            x, y, z = (ty.get(src, t) for t in r.split(" "))
            if x != v or y != v:
                return ("compound", f"erasing the angle of {what} changes the stored value to {x!r} / {y!r}")
            if src[0] == "f":
                if 4 * c05.NORM[src] < abs(exact) < c05.MAXV[src] / 4 and not c05.close(src, z, exact, 16):
                    return ("compound-magnitude", f"erasing the angle of {what} and rescaling gives {z!r}, the magnitude is {float(exact)!r}")
            return v != 0
        if dst[0] == "f":
            lim = "f32" if "f32" in (src, dst) else "f64"
            if not (abs(exact) < c05.MAXV[lim] / 4):
                return False
            ok = lambda x: c05.close(lim, x, exact, 24)
            want = float(exact)
        else:
            if src[0] != "f":
                num, den = c06.ratio(s, [0] * 4)
                if num >= c06.LIM or den >= c06.LIM or abs(v) * num >= c06.LIM:
                    return False
                w2 = c06.trunc(v, num, den)
            else:
                w2 = None
            tol = abs(exact) * 8 * (c05.EPS[src] if src[0] == "f" else 0)
            a, b = math.trunc(exact - tol), math.trunc(exact + tol)
            if s == [0] * 4:
                a = b = math.trunc(exact)
            if w2 is not None:
                a, b = min(a, w2), max(b, w2)
                if s[3] == 0:
                    a = b = w2
            if not (ty.lo(dst) <= a and b <= ty.hi(dst)):
                return False
            ok = lambda x: a <= x <= b
            want = math.trunc(exact)
        st, r = sv.call(i, ty.put(src, v))
        if st != "ok":
            return ("panic", f"converting {what} to {dst} panics: {r}; its magnitude is {want}")
        for x in r.split(" "):
            x = ty.get(dst, x)
            if not ok(x):
                return ("number", f"converting {what} to {dst} gives {x!r}; its magnitude in radians^{e} is {want!r}")
        return v != 0

    def values(i):
        kind, src, dst, e, s, unit, d = cases[i]
        if src[0] == "f":
            w = int(src[1:])
            rnd = (lambda x: x) if w == 64 else vlib.f32r
            return hs.one_of(hs.floats(width=w), hs.floats(-1e4, 1e4).map(rnd), hs.integers(-400, 400).map(float))
        num, den = c06.ratio(s, [0] * 4)
        return hs.one_of(c06.values(src, num, den), hs.integers(-400, 400))
    show = lambda c: {"case": str(cases[c[0]]), "value": str(c[1])}
    for i in live:
        src = cases[i][1]
        num, den = c06.ratio(cases[i][4], [0] * 4)
        vs = [1.0, -90.0, 0.125, 0.0] if src[0] == "f" else [1, -3, 180, den if den < ty.hi(src) else 7]
        for v in vs:
            r = judge((i, v))
            ck.count("grid-" + cases[i][0], (i, v), r is True, show((i, v)))
            if isinstance(r, tuple):
                ck.report(r[0], r[1], show((i, v)))
    pick = hs.integers(0, len(live) - 1).map(lambda k: live[k]).flatmap(lambda i: hs.tuples(hs.just(i), values(i)))
    ck.explore("values", pick, judge, vlib.tier(5000, 80000), sample=show, key=lambda c: (c[0], str(c[1])))
    sv.close()
    return ck.finish()
