"""C20: serializing and deserializing gives the same amount back."""
from fractions import Fraction as F
import json, math
import model, ref, serde_, types_ as ty, unittext, vlib
from checks.c19 import targets

RULE = ("generated quantity types (dimension x scale x storage x brand) x values: to_string / to_value / vectors / serialize_to_json, the JSON "
        "object's value and unit against the exact amount, read back into the same type and into other scales and brands of the "
        "dimension; non-trivial: a non-zero value whose amount stays within float range")
STORE = ["f64", "f64", "f64", "f32", "i8", "i16", "i32", "u8", "u16", "u32"]


def inr(*xs):
    return all(x == 0 or F(10) ** -290 < abs(x) < F(10) ** 290 for x in xs)


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C20", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    sv = serde_.server("c20")
    cases = []
    for i, (s, d) in enumerate(targets(rng, tb, vlib.tier(60, 200))):
        b = "BrandA" if i % 7 == 3 else "()"
        t = STORE[i % len(STORE)]
        s2 = [x + rng.choice([0, 3, -2, 1]) if k != 3 else x for k, x in enumerate(s)]
        # case 3k: this type; 3k+1: another scale, f64; 3k+2: this scale, f64 and other brand
        for ss, tt, bb in ((s, t, b), (s2, "f64", b), (s, "f64", "()" if b == "BrandA" and rng.random() < .5 else "BrandA")):
            sv.add(serde_.body(ss, d, tt, bb, tt == "f64", True))
            cases.append({"s": ss, "d": d, "t": tt, "b": bb})
    bad = sv.build()
    for i, m in bad.items():
        ck.report("no-compile", f"serializing {cases[i]} does not compile: {m}", cases[i])
    groups = [i for i in range(0, len(cases), 3) if not any(j in bad for j in (i, i + 1, i + 2))]
    fin = hs.floats(allow_nan=False, allow_infinity=False)

    def vals(t):
        if t == "f64":
            return hs.one_of(fin, hs.floats(-1e9, 1e9), hs.integers(-10 ** 6, 10 ** 6).map(float), hs.sampled_from([0.1, 1 / 3, 2.0 ** 53 + 2, -0.0, 98.6, 1e22, 1e-9, math.pi]))
        if t == "f32":
            return hs.floats(width=32, allow_nan=False, allow_infinity=False)
        return hs.one_of(hs.integers(ty.lo(t), ty.hi(t)), hs.sampled_from([ty.lo(t), ty.hi(t), 1, 7]))

    @hs.composite
    def gen(draw):
        g = draw(hs.sampled_from(groups))
        i = g + draw(hs.sampled_from([0, 0, 1, 2]))
        t = cases[i]["t"]
        ops = ["ser", "ser", "serv", "servec"] + (["json"] if cases[i]["b"] == "()" else [])
        return i, draw(vals(t)), draw(hs.sampled_from(ops))

    def oracle(z):
        i, v, op = z
        c = cases[i]
        x = F(v)
        si = x * ref.scale_value(c["s"])
        if not inr(x, si, ref.scale_value(c["s"])):
            return False
        who = f"{v!r} ({c['t']}, dimension {c['d']}, scale {c['s']}, brand {c['b']}, {op})"
        st, r = sv.call(i, op, ty.put(c["t"], v))
        if st != "ok" or not r.startswith("ok;"):
            return "serialize", f"{who} does not serialize: {r}"
        text = r[3:]
        try:
            j = json.loads(text)
        except ValueError:
            return "json", f"{who} serializes to invalid JSON {text!r}"
        for o in (j if op == "servec" else [j]):
            if set(o) != {"value", "unit"} or isinstance(o["value"], (bool, str)) or not isinstance(o["unit"], str):
                return "shape", f"{who} serializes to {text!r}"
            try:
                u = unittext.parse(tb, o["unit"])
            except unittext.Bad as e:
                return "unit", f"{who} serializes to {text!r}, whose unit does not parse ({e})"
            if u[0] != c["d"]:
                return "unit", f"{who} serializes to {text!r}, whose unit has dimension {u[0]}"
            amount = F(o["value"]) * u[2] * ref.scale_value(u[1])
            if u[3] or abs(amount - si) > abs(si) / 10 ** 12:
                return "amount", f"{who} serializes to {text!r}, not an amount of {float(si)!r} in coherent units"
        # back: into the f64 type of every scale and brand of the group
        g = i - i % 3
        for k in range(g, g + 3):
            e = cases[k]
            if e["t"] != "f64":
                continue
            want = si / ref.scale_value(e["s"])
            if not inr(want, ref.scale_value(e["s"])):
                continue
            for o2 in (["vec"] if op == "servec" else ["des", "desv"]):
                st, r = sv.call(k, o2, text)
                if st != "ok" or not r.startswith("ok;"):
                    return "refused", f"{who} serializes to {text!r}, which does not deserialize into scale {e['s']}: {r}"
                l = r[3:].split("|")
                if len(l) != (2 if op == "servec" else 1):
                    return "count", f"{who} -> {text!r} -> {r}"
                for q in l:
                    d, s, t, b, w = ty.parse_show(q)
                    if (d, s, t, b.split("::")[-1]) != (e["d"], e["s"], "f64", e["b"]):
                        return "type", f"{who} -> {text!r} -> {q}"
                    w = vlib.f64_hex(w)
                    if not math.isfinite(w) or abs(F(w) - want) > abs(want) / 10 ** 12:
                        return "roundtrip", f"{who} serializes to {text!r} and comes back at scale {e['s']} as {w!r}, not {float(want)!r}"
                    if k == i and not any(c["s"]) and w != v and abs(v) < 1e15:
                        # coherent scale: nothing but printing and reading is involved
                        if abs(F(w) - x) > abs(x) / 2 ** 51:
                            return "roundtrip", f"{who} -> {text!r} -> {w!r}"
        # not into another dimension
        o = groups[(groups.index(g) + 1 + len(text) % max(1, len(groups) - 1)) % len(groups)] + 1
        if cases[o]["d"] != c["d"] and op != "servec":
            st, r = sv.call(o, "des", text)
            if st != "ok" or not r.startswith("err;"):
                return "mismatch", f"{who} serializes to {text!r}, which deserializes as dimension {cases[o]['d']}: {r}"
        return False if v == 0 else None
    ck.explore("round-trip", gen(), oracle, vlib.tier(12000, 200000), sample=lambda z: {"type": cases[z[0]], "value": str(z[1]), "how": z[2]},
               key=lambda z: (z[0], repr(z[1]), z[2]))

    # UCUM text of the type alone
    for i, c in enumerate(cases):
        if i in bad or c["b"] != "()":
            continue
        st, r = sv.call(i, "ucum", ty.put(c["t"], 1 if c["t"][0] != "f" else 1.0))
        what = None
        try:
            u = unittext.parse(tb, r)
            if st != "ok" or (u[0], u[1], u[2], u[3]) != (c["d"], [0] * 4, 1, 0):
                what = f"to_ucum_unit of dimension {c['d']} is {r!r}"
        except unittext.Bad as e:
            what = f"to_ucum_unit of dimension {c['d']} is {r!r}, which does not parse ({e})"
        ck.count("ucum", (tuple(c["d"]), r), any(c["d"]), {"dims": c["d"], "text": r})
        if what:
            ck.report("ucum", what, c)
    sv.close()
    return ck.finish()
