"""C08: comparing quantities is comparing their stored numbers."""
from fractions import Fraction as F
import math
import ref, types_ as ty, vlib
from checks import c05

RULE = ("generated quantity types (all storage types, branded or not) x value pairs aimed at ties, neighbours, NaN, infinities and "
        "signed zeros; all six operators, eq/ne, partial_cmp, sort and max/min folds against the plain numbers; and comparisons after "
        "rescaling to a common unit against exact magnitudes; non-trivial: the two values differ or are special")
EXTRA = "#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandA;\n"


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C08", RULE)
    rng = ck.rng
    sv = ty.TypeServer("c08", EXTRA)
    cases = []
    for i in range(vlib.tier(84, 420)):
        t = (ty.INTS + ["f32", "f64"])[i % 14]
        d = [rng.choice([0, 0, 1, -1, 3, rng.randint(-200, 200)]) for _ in range(8)]
        s = [rng.choice([0, 0, 1, -3, rng.randint(-200, 200)]) for _ in range(4)]
        b = rng.choice(["()", "()", "BrandA"])
        Q = ty.qty(s, d, t, b)
        sv.add(f"let v: {t} = get(&a[0]); let w: {t} = get(&a[1]); type Q = {Q}; let p = Q::new(v); let q = Q::new(w); let pc = p; "
               "let f = |b: bool| if b { '1' } else { '0' }; "
               "let l: String = [p == q, p != q, p < q, p <= q, p > q, p >= q, PartialOrd::lt(&p, &q), PartialOrd::ge(&p, &q), PartialEq::eq(&p, &q), PartialEq::ne(&p, &q), pc == p, p.clone() == pc].map(f).iter().collect(); "
               "let r: String = [v == w, v != w, v < w, v <= w, v > w, v >= w, v < w, v >= w, v == w, v != w, v == v, v == v].map(f).iter().collect(); "
               "let l2 = format!(\"{:?}{}{}\", p.partial_cmp(&q), f(Some(p) < Some(q)), f([p, q] == [q, p])); "
               "let r2 = format!(\"{:?}{}{}\", v.partial_cmp(&w), f(Some(v) < Some(w)), f([v, w] == [w, v])); "
               "format!(\"{l} {l2}|{r} {r2}\")")
        cases.append((s, d, t, b, None))
    for i in range(vlib.tier(60, 400)):
        t = ["f64", "f64", "f32", "i64", "i32", "i128", "u64", "i16"][i % 8]
        k = 12
        d = [rng.choice([0, 1, -1]) for _ in range(8)]
        n = rng.randint(0, 4)
        if t[0] == "f":
            s1 = [rng.randint(-k, k), rng.randint(-5, 5), rng.randint(-k, k), rng.choice([0, 0, 1, -1])]
            s2 = [rng.randint(-k, k), rng.randint(-5, 5), rng.randint(-k, k), rng.choice([0, 0, 1, -1])]
        else:    # the finer scale is the common one, so integer rescaling is exact
            s2 = [rng.randint(-k, k) for _ in range(3)] + [0]
            s1 = [s2[0] + rng.randint(0, n), s2[1] + rng.randint(0, 2), s2[2] + rng.randint(0, n), 0]
        b = rng.choice(["()", "BrandA"])
        A, B = ty.qty(s1, d, t, b), ty.qty(s2, d, t, b)
        sv.add(f"let v: {t} = get(&a[0]); let w: {t} = get(&a[1]); let p: {A} = Quantity::new(v); let q: {B} = Quantity::new(w); "
               f"let r: {B} = rescale_{t}(p); let f = |b: bool| if b {{ '1' }} else {{ '0' }}; "
               "[r == q, r != q, r < q, r <= q, r > q, r >= q].map(f).iter().collect::<String>()")
        cases.append((s1, d, t, b, s2))
    bad = sv.build()
    for i, m in bad.items():
        ck.report("no-compile", f"comparing {cases[i][2]} quantities of scale {cases[i][0]} dimension {cases[i][1]} does not compile: {m}", cases[i])
    same = [i for i in range(len(cases)) if i not in bad and cases[i][4] is None]
    resc = [i for i in range(len(cases)) if i not in bad and cases[i][4] is not None]

    def pair(t):
        if t[0] == "f":
            w = int(t[1:])
            x = hs.one_of(hs.floats(width=w), hs.sampled_from([0.0, -0.0, 1.0, math.nan, math.inf, -math.inf, 5e-324 if w == 64 else 2.0 ** -149]))
            nb = lambda v: math.nextafter(v, math.inf) if w == 64 else vlib.f32r(v * (1 + 2.0 ** -23))
        else:
            lo, hi = ty.lo(t), ty.hi(t)
            x = hs.one_of(hs.integers(lo, hi), hs.integers(max(lo, -9), 9), hs.sampled_from([lo, hi]))
            nb = lambda v: min(hi, v + 1)
        return hs.tuples(x, x, hs.sampled_from(["ab", "ab", "aa", "an", "na"])).map(
            lambda z: {"ab": (z[0], z[1]), "aa": (z[0], z[0]), "an": (z[0], nb(z[0])), "na": (nb(z[0]), z[0])}[z[2]])

    def plain(c):
        i, (v, w) = c
        t = cases[i][2]
        st, r = sv.call(i, ty.put(t, v), ty.put(t, w))
        if st != "ok":
            return ("panic", f"comparing {v!r} and {w!r} ({t}): {r}")
        l, rr = r.split("|")
        if l != rr:
            return ("compare", f"comparing quantities {v!r} and {w!r} ({t}, scale {cases[i][0]}, dimension {cases[i][1]}, brand {cases[i][3]}): "
                    f"==,!=,<,<=,>,>=.. give {l}, the plain numbers give {rr}")
        return None if v != w else False

    def after(c):
        i, (v, w) = c
        s1, d, t, b, s2 = cases[i]
        if t[0] == "f":
            if not (math.isfinite(v) and math.isfinite(w)):
                return False
            x = F(v) * c05.ratio(s1, s2)
            if abs(x) >= c05.MAXV[t] / 4 or 0 < abs(x) < c05.NORM[t] * 4 or abs(x - F(w)) <= abs(x) * c05.EPS[t] * 40:
                return False      # rounding may legitimately decide
        else:
            r = c05.ratio(s1, s2)
            x = F(v) * r
            if not (ty.lo(t) <= x <= ty.hi(t)):
                return False
        st, r = sv.call(i, ty.put(t, v), ty.put(t, w))
        what = f"{v!r} at scale {s1} rescaled to {s2} and compared with {w!r} ({t}, dimension {d})"
        if st != "ok":
            return ("panic", f"{what}: {r}")
        y = F(w)
        want = "".join("1" if z else "0" for z in (x == y, x != y, x < y, x <= y, x > y, x >= y))
        return None if r == want else ("rescaled", f"{what}: ==,!=,<,<=,>,>= give {r}, exact magnitudes give {want}")

    def rpair(i):
        s1, d, t, b, s2 = cases[i]
        r = c05.ratio(s1, s2)

        def tie(z):
            v, k = z
            if t[0] == "f":
                if not math.isfinite(v):
                    return (v, v)
                try:
                    w = float(F(v) * r * (1 + F(k, 1000)))
                except OverflowError:
                    w = v
                return (v, vlib.f32r(w) if t == "f32" else w)
            w = int(F(v) * r) + k
            return (v, max(ty.lo(t), min(ty.hi(t), w)))
        m = hs.tuples(pair(t).map(lambda p: p[0]) if t[0] == "f" else
                      hs.integers(max(ty.lo(t), -int(ty.hi(t) / r)), int(ty.hi(t) / r)), hs.integers(-2, 2)).map(tie)
        return hs.one_of(m, m, pair(t))
    show = lambda c: {"type": cases[c[0]][2], "scale": cases[c[0]][0], "common": cases[c[0]][4], "values": [str(x) for x in c[1]]}
    key = lambda c: (c[0], str(c[1]))
    for i in same:
        t = cases[i][2]
        sp = [0.0, -0.0, 1.5, -2.25, math.nan, math.inf] if t[0] == "f" else [ty.lo(t), 0, 1, 5, ty.hi(t)]
        for v in sp:
            for w in sp:
                r = plain((i, (v, w)))
                ck.count("same-type-grid", (i, str(v), str(w)), r is None, show((i, (v, w))))
                if isinstance(r, tuple):
                    ck.report(r[0], r[1], show((i, (v, w))))
    if same:
        ck.explore("same-type", hs.integers(0, len(same) - 1).map(lambda k: same[k]).flatmap(lambda i: hs.tuples(hs.just(i), pair(cases[i][2]))),
                   plain, vlib.tier(3000, 60000), sample=show, key=key)
    if resc:
        ck.explore("after-rescale", hs.integers(0, len(resc) - 1).map(lambda k: resc[k]).flatmap(lambda i: hs.tuples(hs.just(i), rpair(i))),
                   after, vlib.tier(3000, 60000), sample=show, key=key)
    sv.close()
    return ck.finish()
