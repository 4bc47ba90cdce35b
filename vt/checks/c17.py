"""C17: printed units denote the quantity's true dimension and scale."""
from fractions import Fraction as F
import math, re
import model, reader, types_ as ty, vlib

RULE = ("generated dimension vectors (named, powers, compounds, none) x scales (powers of ten, unit scales, arbitrary 2/3/5/pi "
        "exponents) x short/long form, plus Display/Debug of generated quantity types x values; the text is read back by an independent "
        "reader; non-trivial: some exponent of dimension or scale is non-zero")
EXTRA = "#[derive(Clone, Copy)] pub struct BrandA;\n"
NAMES = ["mass", "length", "time", "current", "temperature", "amount", "luminosity", "angle"]
TERM = r"(?:2|3|5|π|mass|length|time|current|temperature|amount|luminosity|angle)[⁰¹²³⁴⁵⁶⁷⁸⁹⁻]+"


def gen(rng, tb, wide):
    k = rng.random()
    if k < .35:
        d = list(rng.choice(tb.dims)["exponents"])
    elif k < .65:
        d = [0] * 8
        d[rng.randrange(8)] = rng.choice([1, 1, 1, 2, 3, -1, -2, 4, -3, 12, -11, 100 if wide else 5])
    elif k < .68:
        d = [0] * 8
    elif k < .75:
        u = rng.choice(tb.dims)["exponents"]
        n = rng.choice([2, -1, -2, 3])
        d = [x * n for x in u]
    else:
        d = [0] * 8
        for _ in range(rng.randint(2, 5)):
            d[rng.randrange(8)] = rng.randint(-4, 4)
    k = rng.random()
    if k < .12:
        s = [0] * 4
    elif k < .5:
        n = rng.choice([1, 2, 3, -1, -2, -3, 6, -6, 9, -9, 4, 5, 7, -4, -5, 12, -12, 15, 18, 21, 24, 27, 30, -15, -18, -21, -24, -27, -30, 31, -31, 90])
        s = [n, 0, n, 0]
    elif k < .75:
        us = [u for u in tb.units if list(u["dims"]) == d] or tb.units
        s = list(rng.choice(us)["scale"])
        n = rng.choice([0, 0, 0, 3, -3, 1, -2])
        s[0] += n
        s[2] += n
        if rng.random() < .2:
            m = rng.choice([-1, 2, -2])
            s = [x * m for x in s]
    else:
        s = [rng.randint(-9, 9) for _ in range(3)] + [rng.randint(-2, 2)]
        if rng.random() < .3:
            s[rng.randrange(4)] = 0
    return d, s


def split(text, brand):
    """printed quantity -> (value text or None, unit text, dimension name, scale brackets, dim brackets, type, brand)"""
    m = re.fullmatch(r"(?:(\S+) )?Quantity<(.*)>", text, re.S)
    if not m:
        return None
    v, body = m.groups()
    parts = body.split(", ")
    b = None
    if brand:
        b = parts.pop()
    t = parts.pop()
    body = ", ".join(parts)
    br = {}
    while True:
        m = re.search(rf" \[({TERM}(?:, {TERM})*)\]$", body)
        if not m:
            break
        for x in m.group(1).split(", "):
            n, e = re.fullmatch(r"(\D+?|\d)([⁰¹²³⁴⁵⁶⁷⁸⁹⁻]+)", x).groups()
            if n in br:
                return None
            br[n] = reader.unsup(e)
        body = body[:m.start()]
    m = re.search(r" \(([A-Z][A-Za-z ]*)\)$", body)
    name = None
    if m:
        name, body = m.group(1), body[:m.start()]
    return v, body, name, br, t, b


def check_text(tb, text, d, s, verbose, tname, brand, value):
    """-> None | (key, what)"""
    p = split(text, brand is not None)
    if p is None:
        return "form", f"{text!r} is not of the form 'value Quantity<unit, type[, brand]>'"
    v, unit, name, br, t, b = p
    if t != tname:
        return "type", f"{text!r} names storage type {t!r} instead of {tname!r}"
    if b != brand:
        return "brand", f"{text!r} names brand {b!r} instead of {brand!r}"
    if any(d):
        w = reader.denotes(tb, unit, d, s)
        if w:
            return "unit", f"{text!r}: {w}"
    else:
        u = unit if unit not in ("?",) else "1"
        w = reader.denotes(tb, u, d, s)
        if w:
            return "unit", f"{text!r}: {w}"
    if verbose:
        want = {n: x for n, x in zip(["2", "3", "5", "π"] + NAMES, list(s) + list(d)) if x}
        if br != want:
            return "brackets", f"{text!r}: brackets say {br}, the type has {want}"
        if name is not None:
            dd = [x for x in tb.dims if x["name"] == name]
            if not dd or list(dd[0]["exponents"]) != list(d):
                return "dimension-name", f"{text!r} calls dimension {d} {name!r}"
    elif br or name:
        return "form", f"{text!r}: unexpected brackets"
    if value is None:
        return None if v is None else ("form", f"{text!r} has a value")
    try:
        got = float(v)
    except (TypeError, ValueError):
        return "value", f"{text!r} does not start with a number"
    if math.isnan(value) or math.isinf(value):
        ok = (math.isnan(got) and math.isnan(value)) or got == value
    elif value == 0:
        ok = got == 0
    else:
        a = abs(F(value))
        e = math.floor(math.log10(abs(value))) if abs(value) > 1e-300 else math.floor(float(math.log2(a.numerator) - math.log2(a.denominator)) * math.log10(2))
        ok = math.isfinite(got) and abs(F(v) - F(value)) <= F(505, 1000) * F(10) ** (e - 4) + F(value) / 10 ** 12 * (1 if value > 0 else -1)
    if not ok:
        return "value", f"{value!r} is printed as {v!r} (in {text[:200]!r})"
    return None


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C17", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    triv = lambda d, s: not (any(d) or any(s))

    # -- 1. the unit text for any dimension and scale
    def lit(c):
        d, s, verbose = c
        st, r = drv.call("literal", d=d, s=s, verbose=verbose, si=True)
        if st != "ok":
            return ("panic", f"dimension {d} scale {s}: {r}")
        for k in ("lit",):
            w = reader.denotes(tb, r[k], d, s)
            if w:
                return ("unit", f"dimension {d} scale {s} ({'long' if verbose else 'short'} form) is printed {r[k]!r}: {w}")
        return False if triv(d, s) else None

    seen = set()
    for dd in tb.dims:          # every named dimension x every prefix, every unit x prefix x power
        for n in sorted(set(tb.prefixes.values()) | set(range(-33, 34))):
            for v in (False, True):
                seen.add((tuple(dd["exponents"]), (n, 0, n, 0), v))
    for u in tb.units:
        for n in sorted({0, *tb.prefixes.values()}):
            for p in (1, -1, 2, -2, 3):
                s = u["scale"]
                seen.add((tuple(x * p for x in u["dims"]), tuple((s[0] + n) * p if k == 0 else (s[2] + n) * p if k == 2 else s[k] * p for k in range(4)), (n + p) % 2 == 0))
    for i in range(8):
        for p in (1, -1, 2, 3, -2, 12):
            for n in range(-36, 37):
                d = [0] * 8
                d[i] = p
                for v in (False, True):
                    seen.add((tuple(d), (n, 0, n, 0), v))
    fails = 0
    for c in sorted(seen):
        c = (list(c[0]), list(c[1]), c[2])
        r = lit(c)
        ck.count("unit-grid", repr(c), r is None, {"dims": c[0], "scale": c[1], "long": c[2]})
        if isinstance(r, tuple) and fails < 5:
            fails += 1
            ck.report(r[0] + "-grid" * (fails > 1) + str(fails) * (fails > 1), r[1], c)
    ex = hs.integers(-6, 6)
    dims = hs.one_of(hs.sampled_from([list(d["exponents"]) for d in tb.dims]),
                     hs.lists(hs.one_of(hs.just(0), hs.just(0), ex, hs.integers(-120, 120)), min_size=8, max_size=8),
                     hs.tuples(hs.integers(0, 7), hs.integers(-20, 20)).map(lambda z: [z[1] if i == z[0] else 0 for i in range(8)]))
    scales = hs.one_of(hs.integers(-100, 100).map(lambda n: [n, 0, n, 0]), hs.sampled_from([list(u["scale"]) for u in tb.units]),
                       hs.tuples(hs.sampled_from(tb.units), hs.integers(-12, 12), hs.sampled_from([1, -1, 2, -3])).map(
                           lambda z: [(z[0]["scale"][0] + z[1]) * z[2], z[0]["scale"][1] * z[2], (z[0]["scale"][2] + z[1]) * z[2], z[0]["scale"][3] * z[2]]),
                       hs.one_of(hs.tuples(hs.integers(-40, 40), hs.integers(-12, 12), hs.integers(-40, 40), hs.integers(-4, 4)), hs.tuples(*[hs.integers(-100, 100)] * 3, hs.integers(-8, 8))).map(list))
    ck.explore("unit-text", hs.tuples(dims, scales, hs.booleans()), lit, vlib.tier(8000, 150000),
               sample=lambda c: {"dims": c[0], "scale": c[1], "long": c[2]}, key=repr)

    # -- 2. whole text, any value (run-time entry point)
    fin = hs.one_of(hs.floats(allow_nan=False, allow_infinity=False), hs.floats(-1e6, 1e6), hs.sampled_from([5e-324, 1e-307, 1.7e308, 9.99995, 99999.5, 1e22, 1e-5]))

    def whole(c):
        d, s, verbose, v, t, b = c
        st, r = drv.call("pretty_type", d=d, s=s, verbose=verbose, t=t, value=v, brand=b)
        if st != "ok":
            return ("panic", f"dimension {d} scale {s} value {v!r}: {r}")
        w = check_text(tb, r, d, s, verbose, t, b if b != "()" else None, v)
        if w:
            return (w[0], f"dimension {d} scale {s}: {w[1]}")
        return False if triv(d, s) else None
    ck.explore("pretty", hs.tuples(dims, scales, hs.booleans(), hs.one_of(hs.none(), fin), hs.sampled_from(["f64", "i32", "my::Type"]),
                                   hs.sampled_from([None, "()", "BrandA", "crate::x::B"])), whole, vlib.tier(6000, 100000),
               sample=lambda c: {"dims": c[0], "scale": c[1], "long": c[2], "value": str(c[3]), "type": c[4], "brand": c[5]}, key=repr)
    drv.close()

    # -- 3. Display and Debug of real quantities
    sv = ty.TypeServer("c17", EXTRA)
    cases = []
    TY = ty.INTS + ["f32", "f64", "f64", "f64"]
    for i in range(vlib.tier(120, 900)):
        d, s = gen(rng, tb, True)
        t = TY[i % len(TY)]
        b = rng.choice(["()", "()", "BrandA"])
        sv.add(f"let v: {t} = get(&a[0]); let q: {ty.qty(s, d, t, b)} = Quantity::new(v); format!(\"{{}}|{{:?}}|{{q}}|{{}}\", q, q, q.to_string())")
        cases.append((s, d, t, b))
    bad = sv.build()
    for i, m in bad.items():
        ck.report("no-compile", f"printing a {cases[i][2]} quantity of scale {cases[i][0]} dimension {cases[i][1]} does not compile: {m}", cases[i])
    live = [i for i in range(len(cases)) if i not in bad]

    def vals(t):
        if t == "f64":
            return hs.one_of(hs.floats(), fin)
        if t == "f32":
            return hs.floats(width=32)
        return hs.one_of(hs.integers(ty.lo(t), ty.hi(t)), hs.integers(max(ty.lo(t), -99), 99), hs.sampled_from([ty.lo(t), ty.hi(t)]))

    def real(c):
        i, v = c
        s, d, t, b = cases[i]
        st, r = sv.call(i, ty.put(t, v))
        if st != "ok":
            return ("panic", f"printing {v!r} ({t}, dimension {d}, scale {s}): {r}")
        disp, dbg, d2, d3 = r.split("|")
        if disp != d2 or disp != d3:
            return ("display", f"three ways to display {v!r} give {disp!r}, {d2!r}, {d3!r}")
        fv = float(v)
        for text, verbose in ((disp, False), (dbg, True)):
            w = check_text(tb, text, d, s, verbose, t, None if b == "()" else "c17::BrandA", fv)
            if w:
                return (w[0], f"{t} quantity of dimension {d} scale {s}: {w[1]}")
        return False if triv(d, s) else None
    ck.explore("display", hs.sampled_from(live).flatmap(lambda i: hs.tuples(hs.just(i), vals(cases[i][2]))), real, vlib.tier(4000, 60000),
               sample=lambda c: {"type": cases[c[0]][2], "scale": cases[c[0]][0], "dims": cases[c[0]][1], "value": str(c[1])},
               key=lambda c: (c[0], str(c[1])))
    sv.close()
    return ck.finish()
