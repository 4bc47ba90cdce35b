"""C06: integer rescaling is exact, truncating toward zero, whenever the result fits."""
from fractions import Fraction as F
import types_ as ty, vlib

RULE = ("generated scale pairs, by function and by rescale! between generated unit texts, for all 12 integer types x generated values aimed at the edges (type limits, limits divided by the "
        "ratio, multiples of the denominator and their neighbours, intermediate-overflow zone); non-trivial: ratio is not 1 and the "
        "exact result fits the storage type")
LIM = 1 << 127


def ratio(a, b):
    """(num, den) as products of the powers, or None when outside 128-bit arithmetic"""
    num = den = 1
    for (bn, bd), x, y in zip(((2, 1), (3, 1), (5, 1), (355, 113)), a, b):
        n = x - y
        if n >= 0:
            num, den = num * bn ** n, den * bd ** n
        else:
            num, den = num * bd ** -n, den * bn ** -n
    return num, den


def trunc(v, num, den):
    q = abs(v) * num // den
    return -q if v < 0 else q


def values(t, num, den):
    import hypothesis.strategies as hs
    lo, hi = ty.lo(t), ty.hi(t)
    clamp = lambda x: max(lo, min(hi, x))
    near = []
    for b in (0, lo, hi, hi * den // num, lo * den // num, hi // num, lo // num, den, -den, 10 * den, (LIM - 1) // num, -((LIM - 1) // num),
              (1 << 64) * den // num):
        near.append(clamp(b))
    m = max(1, min(hi, (LIM - 1) // num))
    mult = max(0, min(hi, hi * den // num, m) // den)
    return hs.one_of(
        hs.tuples(hs.sampled_from(near), hs.integers(-3, 3)).map(lambda x: clamp(x[0] + x[1])),
        hs.integers(max(lo, -m), m), hs.integers(max(lo, -1000), min(hi, 1000)),
        hs.tuples(hs.integers(-mult, mult), hs.integers(-1, 1)).map(lambda x: clamp(x[0] * den + x[1])),
        hs.tuples(hs.integers(0, m.bit_length()), hs.integers(0, 2 ** 64), hs.booleans()).map(
            lambda x: clamp((-1 if x[2] else 1) * ((x[1] << 64 >> 64 | 1) % (1 << max(1, x[0]))))))


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C06", RULE)
    rng = ck.rng
    sv = ty.TypeServer("c06", "#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandA;\n")
    cases = []
    want_n = vlib.tier(640, 2400)
    tries = 0
    while len(cases) < want_n:
        tries += 1
        t = ty.INTS[len(cases) % 12]
        k = rng.choice([1, 3, 6, 12, 20, 40])
        style = rng.random()
        o = [rng.randint(-5, 5) for _ in range(3)] + [rng.choice([0, 0, 1, -1])]
        if style < .45:        # powers of ten, as SI prefixes give
            n = rng.randint(-k, k)
            df = [n, 0, n, 0]
        elif style < .7:       # time, angle and the like: small mixed factors
            df = [rng.randint(-k, k), rng.randint(-min(k, 6), min(k, 6)), rng.randint(-min(k, 8), min(k, 8)), 0]
        elif style < .85:
            df = [rng.randint(-6, 6), rng.randint(-4, 4), rng.randint(-4, 4), rng.choice([1, -1, 1, -1, 2, -2, 3])]
        else:
            df = [rng.randint(-k * 3, k * 3), rng.randint(-k, k), rng.randint(-k, k), rng.randint(-2, 2)]
        num, den = ratio(df, [0] * 4)
        if num >= LIM or den >= LIM:
            continue
        d = [rng.choice([0, 0, 1, -1, 2]) for _ in range(8)]
        s1, s2, b = [x + y for x, y in zip(o, df)], o, rng.choice(["()", "()", "BrandA"])
        A, B = ty.qty(s1, d, t, b), ty.qty(s2, d, t, b)
        cases.append((s1, s2, t, b, d, num, den))
        sv.add(f"let v: {t} = get(&a[0]); let q: {A} = Quantity::new(v); let r: {B} = rescale_{t}(q); put(r.unsafe_value)")
    from checks import c05
    for t, x, y, z in c05.macro_texts(hs, rng, ty.INTS, vlib.tier(180, 900)):
        num, den = ratio(x.scale, y.scale)
        if num < LIM and den < LIM:
            sv.add(f"let v: {t} = get(&a[0]); let q: unit!({x.text}, {t}) = Quantity::new(v); let r = rescale!(q, {y.text}, {t}); let r: unit!({y.text}, {t}) = r; put(r.unsafe_value)")
            cases.append((list(x.scale), list(y.scale), t, "()", list(x.dims), num, den))
    bad = sv.build()
    for i, m in bad.items():
        s1, s2, t, b, d, _, _ = cases[i]
        ck.report("no-compile", f"rescaling {t} quantity of dimension {d} from scale {s1} to {s2} does not compile: {m}", cases[i])
    live = [i for i in range(len(cases)) if i not in bad]

    def judge(i, v):
        s1, s2, t, b, d, num, den = cases[i]
        want = trunc(v, num, den)
        fits = ty.lo(t) <= want <= ty.hi(t) and abs(v) * num < LIM
        if not fits:
            return False
        st, r = sv.call(i, v)
        what = f"rescaling {v}_{t} from scale {s1} to {s2} (ratio {num}/{den})"
        if st != "ok":
            return (f"panic", f"{what} panics: {r}; the exact truncated result is {want}")
        if int(r) != want:
            return ("value", f"{what} gives {r}, the exact truncated result is {want}")
        return num != den

    for i in live:
        s1, s2, t, b, d, num, den = cases[i]
        lo, hi = ty.lo(t), ty.hi(t)
        m = (LIM - 1) // num
        vs = {0, 1, -1, lo, hi, hi * den // num, -(-lo * den // num), hi // num, hi // num + 1, m, -m, den, den - 1, den + 1, -den - 1, 7 * den}
        for v in sorted(v for v in vs if lo <= v <= hi):
            res = judge(i, v)
            ck.count("edges", (s1, s2, t, v), res is True, {"from": s1, "to": s2, "type": t, "value": str(v)})
            if isinstance(res, tuple):
                ck.report(res[0], res[1], {"case": cases[i], "value": v})
    pick = hs.integers(0, len(live) - 1).map(lambda k: live[k]).flatmap(
        lambda i: hs.tuples(hs.just(i), values(cases[i][2], cases[i][5], cases[i][6])))
    ck.explore("values", pick, lambda c: judge(*c), vlib.tier(16000, 200000),
               sample=lambda c: {"from": cases[c[0]][0], "to": cases[c[0]][1], "type": cases[c[0]][2], "value": str(c[1])},
               key=lambda c: (cases[c[0]][:3], c[1]))
    sv.close()
    return ck.finish()
