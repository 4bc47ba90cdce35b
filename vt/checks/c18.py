"""C18: formatting in a named unit prints the equivalent reading, or says it cannot."""
from fractions import Fraction as F
import math, re
import model, ref, serde_, types_ as ty, unittext, vlib
from checks.c19 import targets

RULE = ("generated quantity types (dimension x scale x storage x brand) x target unit texts of the dimension x precisions x values; expected "
        "reading in exact rationals; and units of other dimensions, unknown and malformed texts (error text); non-trivial: a non-zero finite "
        "reading in a unit other than the quantity's own, or an error")
STORE = ["f64", "f64", "f32", "i8", "i16", "i32", "u8", "u16", "u32"]


def inr(*xs):
    return all(x == 0 or F(10) ** -280 < abs(x) < F(10) ** 280 for x in xs)


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C18", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    sp = unittext.Spell(tb)
    sv = serde_.server("c18")
    cases = []
    for i, (s, d) in enumerate(targets(rng, tb, vlib.tier(90, 300))):
        b, t = ("BrandA" if i % 7 == 3 else "()"), STORE[i % len(STORE)]
        sv.add(serde_.body(s, d, t, b, False, True))
        cases.append({"s": s, "d": d, "t": t, "b": b})
    bad = sv.build()
    for i, m in bad.items():
        ck.report("no-compile", f"formatting {cases[i]} does not compile: {m}", cases[i])
    live = [i for i in range(len(cases)) if i not in bad]

    def vals(t):
        if t[0] == "f":
            w = 64 if t == "f64" else 32
            return hs.one_of(hs.floats(width=w), hs.floats(-65536, 65536, width=w), hs.integers(-10 ** 6, 10 ** 6).map(float), hs.sampled_from([0.5, -1.0, 300.0, 1e10, 0.0]))
        return hs.one_of(hs.integers(ty.lo(t), ty.hi(t)), hs.sampled_from([ty.lo(t), ty.hi(t), 1, 7, 0]))

    @hs.composite
    def gen(draw):
        i = draw(hs.sampled_from(live))
        v = draw(vals(cases[i]["t"]))
        if cases[i]["t"] == "f32":
            v = vlib.f32r(v)
        return i, v, draw(unittext.text_for(sp, cases[i]["d"])), draw(hs.sampled_from(["", "", "0", "1", "2", "3", "6", "10", "17"]))

    def o_read(z):
        i, v, t, p = z
        c = cases[i]
        what = f"{v!r} ({c['t']}, dimension {c['d']}, scale {c['s']}) formatted in {t.text!r}" + (f" with precision {p}" if p else "")
        st, r = sv.call(i, "fmt", ty.put(c["t"], v), t.text, p)
        if st != "ok":
            return "panic", f"{what}: {r}"
        if not r.endswith(" " + t.text):
            return "text", f"{what} gives {r!r}"
        n = r[:-len(t.text) - 1]
        if math.isnan(v) or math.isinf(v):
            return None if n == ("NaN" if math.isnan(v) else "inf" if v > 0 else "-inf") else ("value", f"{what} gives {r!r}")
        ratio = ref.scale_value(c["s"]) / ref.scale_value(t.scale)
        x = F(v) * ratio / t.cf
        want, mag = x - t.af, abs(x) + abs(t.af)
        if not inr(F(v), ratio, F(v) * ratio, x, want):
            return False
        m = re.fullmatch(r"-?\d+(\.(\d+))?", n)
        if not m:
            return "value", f"{what} gives {r!r}"
        if p and len(m.group(2) or "") != int(p):
            return "precision", f"{what} gives {r!r}"
        tol = mag / 10 ** 11 + (F(1, 2) / 10 ** int(p) if p else 0)
        if abs(F(n) - want) > tol:
            return "value", f"{what} gives {r!r}, not {float(want)!r}"
        return False if v == 0 or (t.scale == c["s"] and t.cf == 1) else None
    ck.explore("reading", gen(), o_read, vlib.tier(12000, 200000), sample=lambda z: {"type": cases[z[0]], "value": str(z[1]), "unit": z[2].text, "precision": z[3]},
               key=lambda z: (z[0], repr(z[1]), z[2].text, z[3]))

    dims_all = [list(d["exponents"]) for d in tb.dims] + [[0] * 8, [0, 1, -2, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, -1]]

    @hs.composite
    def bad_(draw):
        i = draw(hs.sampled_from(live))
        c = cases[i]
        v = draw(vals(c["t"]))
        if c["t"] == "f32":
            v = vlib.f32r(v)
        k = draw(hs.integers(0, 3))
        if k == 0:
            u = draw(unittext.text_for(sp, draw(hs.sampled_from([x for x in dims_all if x != list(c["d"])])))).text
        else:
            t = draw(unittext.text_for(sp, c["d"], affine=False)).text
            if k == 1:
                b = draw(hs.sampled_from(["m", "s", "kg", "rad", "A", "K", "mol", "cd", "deg"]))
                u = draw(hs.sampled_from([f"{t}/{b}", f"({t})*{b}"]))
            elif k == 2:
                j = draw(hs.sampled_from(["xyz", "metre", "Meter", "kft", "kkm", "foo"]))
                u = draw(hs.sampled_from([j, f"{t}*{j}", f"{t}/{j}", f"{j}.({t})"]))
                return i, v, u, draw(hs.sampled_from(["", "2"])), False
            else:
                u = draw(hs.sampled_from(["", " ", t + "/", "*" + t, "(" + t, t + ")", t + "^", t + "^1.5", "5*" + t, "$" + t, t + " " + t]))
                return i, v, u, draw(hs.sampled_from(["", "2"])), False
        return i, v, u, draw(hs.sampled_from(["", "2"])), True

    def o_bad(z):
        i, v, u, p, dim = z
        c = cases[i]
        what = f"{v!r} ({c['t']}, dimension {c['d']}, scale {c['s']}) formatted in {u!r}"
        st, r = sv.call(i, "fmt", ty.put(c["t"], v), u, p)
        if st != "ok":
            return "panic", f"{what}: {r}"
        if not dim:
            return None if r == f"Error: Failed to parse unit: {u}" else ("error-text", f"{what} gives {r!r}")
        a, b = "Error: Dimension mismatch: cannot convert from ", " to " + u
        if not (r.startswith(a) and r.endswith(b)):
            return "error-text", f"{what} gives {r!r}"
        x = r[len(a):-len(b)]
        if x == "unknown unit":
            if any(list(q["exponents"]) == list(c["d"]) and q["units"] for q in tb.dims):
                return "error-text", f"{what} gives {r!r}"
            return None
        try:
            ok = unittext.parse(tb, x)[0] == list(c["d"])
        except unittext.Bad:
            ok = any(q["symbol"] == x and list(q["exponents"]) == list(c["d"]) for q in tb.dims)
        return None if ok else ("error-text", f"{what} gives {r!r}, but {x!r} is not a unit of the quantity's dimension")
    ck.explore("error", bad_(), o_bad, vlib.tier(4000, 60000), sample=lambda z: {"type": cases[z[0]], "value": str(z[1]), "unit": z[2]},
               key=lambda z: (z[0], repr(z[1]), z[2]))
    sv.close()
    return ck.finish()
