"""C10: a dimensionless quantity becomes exactly the plain number it denotes."""
from fractions import Fraction as F
import math
import types_ as ty, vlib
from checks import c05, c06

RULE = ("all 14x14 (storage type, target type) pairs x generated scales (identity, powers of ten, mixed, pi) x generated values aimed at "
        "type limits, 2^24/2^53 neighbourhoods and multiples of the denominator; both conversion spellings; non-trivial: value not 0/1")
ALL = ty.FLOATS + ty.INTS


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C10", RULE)
    rng = ck.rng
    sv = ty.TypeServer("c10")
    cases = []
    for src in ALL:
        for dst in ALL:
            for style in (["id", "ten", "mix"] if not vlib.THOROUGH else ["id"] + ["ten", "mix", "pi"] * 4):
                if style == "mix" and rng.random() < .25:
                    style = "pi"
                k = rng.choice([1, 2, 3, 6, 12])
                n = rng.randint(1, k) * rng.choice([1, 1, -1])
                s = {"id": [0] * 4, "ten": [n, 0, n, 0], "mix": [rng.randint(-k, k), rng.randint(-3, 3), rng.randint(-3, 3), 0],
                     "pi": [rng.randint(-3, 3), rng.randint(-2, 2), rng.randint(-2, 2), rng.choice([1, -1])]}[style]
                Q = ty.qty(s, [0] * 8, src)
                sv.add(f"let v: {src} = get(&a[0]); type Q = {Q}; let x: {dst} = Q::new(v).into(); let y = <{dst}>::from(Q::new(v)); "
                       f"fn g<T: Into<{dst}>>(t: T) -> {dst} {{ t.into() }} format!(\"{{}} {{}} {{}}\", put(x), put(y), put(g(Q::new(v))))")
                cases.append((src, dst, s))
    bad = sv.build()
    for i, m in bad.items():
        ck.report(f"no-compile", f"converting a dimensionless {cases[i][0]} quantity of scale {cases[i][2]} to {cases[i][1]} does not compile: {m}", cases[i])
    live = [i for i in range(len(cases)) if i not in bad]

    def judge(c):
        i, v = c
        src, dst, s = cases[i]
        pi = s[3] != 0
        fl = src[0] == "f" or dst[0] == "f"
        if src[0] == "f" and not math.isfinite(v):
            if dst[0] != "f":
                return False
        what = f"dimensionless {src} quantity {v!r} of scale {s} converted to {dst}"
        if not fl:
            num, den = c06.ratio(s, [0] * 4)
            want = c06.trunc(v, num, den)
            if not (ty.lo(dst) <= want <= ty.hi(dst)) or abs(v) * num >= c06.LIM or (src == dst and not ty.lo(src) <= want <= ty.hi(src)):
                return False
            alt = math.trunc(F(v) * c05.ratio(s, [0] * 4))      # pi or its approximation 355/113
            if not ty.lo(dst) <= alt <= ty.hi(dst):
                return False
            ok = lambda x: min(want, alt) <= x <= max(want, alt)
        elif src[0] == "f" and not math.isfinite(v):
            want = v
            ok = lambda x: x == v or (x != x and v != v)
        else:
            exact = F(v) * c05.ratio(s, [0] * 4)
            if dst[0] != "f":
                # a float a few roundings away may truncate to the neighbour
                e = abs(exact) * c05.EPS[src] * 8
                a, b = math.trunc(exact - e), math.trunc(exact + e)
                if not (ty.lo(dst) <= a and b <= ty.hi(dst)):
                    return False
                want = math.trunc(exact)
                if s == [0] * 4:
                    a = b = want
                ok = lambda x: a <= x <= b
            else:
                want = c05.ref_show(exact)
                if s == [0] * 4 and src == dst:
                    ok = lambda x: x == v
                else:
                    t = "f32" if "f32" in (src, dst) else "f64"
                    if abs(exact) >= c05.MAXV[dst] / 2 or src == "f32" and abs(exact) >= c05.MAXV["f32"] / 2:
                        return False
                    if s == [0] * 4 and abs(exact) < 2 ** (24 if t == "f32" else 53) and exact.denominator == 1:
                        ok = lambda x: F(x) == exact
                    else:
                        ok = lambda x: c05.close(t, x, exact, 12)
        st, r = sv.call(i, ty.put(src, v))
        if st != "ok":
            return ("panic", f"{what} panics: {r}; it denotes {want}")
        for form, x in zip((".into()", "from()", "generic Into"), r.split(" ")):
            x = ty.get(dst, x)
            if not ok(x):
                return (f"value:{'int' if src[0] != 'f' else 'float'}-{'int' if dst[0] != 'f' else 'float'}",
                        f"{what} by {form} gives {x!r}; it denotes {want}")
        return v not in (0, 1)

    def values(i):
        src, dst, s = cases[i]
        num, den = c06.ratio(s, [0] * 4)
        if src[0] == "f":
            w = int(src[1:])
            top = min(ty.hi(dst) * den // num if dst[0] != "f" else 10 ** 30, 10 ** 30)
            rnd = (lambda x: x) if w == 64 else vlib.f32r
            return hs.one_of(hs.floats(width=w), hs.floats(-1e9, 1e9).map(rnd), hs.integers(-10 ** 6, 10 ** 6).map(lambda n: rnd(float(n))),
                             hs.integers(-top, top).map(lambda n: rnd(float(n))), hs.sampled_from([0.0, -0.0, 0.5, -0.5, 2.5]))
        base = c06.values(src, num, den)
        lim = min(ty.hi(src), (ty.hi(dst) if dst[0] != "f" else ty.hi(src)) * den // num)
        lo = max(ty.lo(src), -lim)
        edge = hs.tuples(hs.sampled_from([2 ** 24, 2 ** 53, 2 ** 63, 2 ** 31, 2 ** 62, 10 ** 18, lim]), hs.integers(-5, 5), hs.sampled_from([1, -1])).map(
            lambda z: max(lo, min(lim, z[2] * (z[0] + z[1]))))
        return hs.one_of(base, edge, edge, hs.integers(lo, lim))
    show = lambda c: {"from": cases[c[0]][0], "to": cases[c[0]][1], "scale": cases[c[0]][2], "value": str(c[1])}
    for i in live:
        src, dst, s = cases[i]
        num, den = c06.ratio(s, [0] * 4)
        vs = [0.0, 1.0, -2.5, 1e6, 12345.678] if src[0] == "f" else [0, 1, 7 * den, ty.lo(src), ty.hi(src), 2 ** 53 + 1, min(ty.hi(src), 2 ** 62 + 1), -5 * den]
        for v in vs:
            if src[0] == "f":
                v = vlib.f32r(v) if src == "f32" else v
            elif not ty.lo(src) <= v <= ty.hi(src):
                continue
            r = judge((i, v))
            ck.count("grid", (i, v), r is True, show((i, v)))
            if isinstance(r, tuple):
                ck.report(r[0], r[1], show((i, v)))
    pick = hs.integers(0, len(live) - 1).map(lambda k: live[k]).flatmap(lambda i: hs.tuples(hs.just(i), values(i)))
    ck.explore("values", pick, judge, vlib.tier(6000, 100000), sample=show, key=lambda c: (cases[c[0]], str(c[1])))
    sv.close()
    return ck.finish()
