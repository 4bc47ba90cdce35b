"""C19: deserialized quantities carry the physical amount the text states."""
from fractions import Fraction as F
import json, math
import model, ref, serde_, types_ as ty, unittext, vlib

RULE = ("generated target types (dimension x scale x brand) x unit texts of that dimension (all units, prefixes, compounds, layouts) x "
        "numbers x JSON / string layouts, read through serde, deserialize_core*, from_json! and from_string!; expected amount in exact "
        "rationals; mismatching, unknown, malformed texts must be refused; non-trivial: a non-zero finite amount in a unit other than the "
        "target's own, or a refusal for a reason other than empty text")
EXTRA = """
#[derive(Clone, Copy, PartialEq, Debug)] pub struct W(f64);
impl From<f64> for W { fn from(x: f64) -> W { W(x) } }
impl HX for W { fn put(&self) -> String { self.0.put() } fn get(s: &str) -> Self { W(f64::get(s)) } }
"""


def targets(rng, tb, n):
    out = []
    named = [d for d in tb.dims]
    for i in range(n):
        k = rng.random()
        if i < len(named):
            d = list(named[i]["exponents"])
        elif k < .5:
            d = list(rng.choice(named)["exponents"])
        elif k < .6:
            d = [0] * 8
        else:
            d = [0] * 8
            for _ in range(rng.randint(1, 4)):
                d[rng.randrange(8)] = rng.randint(-3, 3)
        k = rng.random()
        if k < .3:
            s = [0] * 4
        elif k < .65:
            e = rng.choice([1, 2, 3, -1, -2, -3, 6, -6, 9, 12, -9, -18, 24, -30])
            s = [e, 0, e, 0]
        elif k < .9:
            us = [u for u in tb.units if list(u["dims"]) == d] or tb.units
            s = list(rng.choice(us)["scale"])
        else:
            s = [rng.randint(-9, 9), rng.randint(-4, 4), rng.randint(-9, 9), rng.randint(-1, 1)]
        out.append((s, d))
    return out


def numbers(hs):
    """numbers as written: (text, exact value, needs_json) -- text valid both as JSON number and Rust float"""
    dec = hs.tuples(hs.booleans(), hs.integers(0, 10 ** 9), hs.integers(0, 12), hs.integers(0, 10 ** 6)).map(
        lambda z: ("-" if z[0] else "") + str(z[1]) + ("." + str(z[3]).rjust(z[2] % 7 + 1, "0") if z[2] % 3 else ""))
    return hs.one_of(hs.integers(-1000, 1000).map(str), dec, hs.floats(-1e12, 1e12).map(repr),
                     hs.tuples(dec, hs.sampled_from("eE"), hs.sampled_from(["", "+", "-"]), hs.integers(0, 40)).map(lambda z: f"{z[0]}{z[1]}{z[2]}{z[3]}"),
                     hs.sampled_from(["0", "-0", "0.0", "1", "-1", "1e3", "1E-7", "98.6", "-40", "9007199254740993", "18446744073709551615",
                                      "18446744073709551616", "123456789012345678901234567890", "-9223372036854775809", "1e200", "2.5e-200"]))


def expected(t, s, v):
    """exact stored number, and the magnitude that sets the rounding scale"""
    r = ref.scale_value(t.scale) / ref.scale_value(s)
    return (v * t.cf + t.af) * r, (abs(v) * t.cf + abs(t.af)) * abs(r)


def in_range(*xs):
    return all(x == 0 or F(10) ** -290 < abs(x) < F(10) ** 290 for x in xs)


def close(got, want, mag):
    return math.isfinite(got) and abs(F(got) - want) <= mag * F(1, 10 ** 11)


def js(hs):
    """arbitrary JSON values"""
    leaf = hs.one_of(hs.none(), hs.booleans(), hs.integers(-9999, 9999), hs.text(max_size=6), hs.floats(-1e9, 1e9))
    return hs.recursive(leaf, lambda c: hs.one_of(hs.lists(c, max_size=3), hs.dictionaries(hs.one_of(hs.text(max_size=5), hs.sampled_from(["value", "unit"])), c, max_size=3)), max_leaves=6)


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C19", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    sp = unittext.Spell(tb)
    sv = serde_.server("c19")
    sv.prog.prelude += EXTRA
    cases = []
    for i, (s, d) in enumerate(targets(rng, tb, vlib.tier(48, 160))):
        b = "BrandA" if i % 9 == 4 else "()"
        t = "W" if i % 11 == 7 else "f64"
        sv.add(serde_.body(s, d, t, b, True, ser=t == "f64"))
        cases.append({"s": s, "d": d, "b": b, "t": t, "macro": None})
    # macros with a target unit named at compile time
    import random
    from hypothesis import find, settings, Phase
    st = hs.sampled_from([d["exponents"] for d in tb.dims] + [(0, 1, -2, 0, 0, 0, 0, 0), (2, 0, 0, 0, 0, 0, 0, 0), (1, -1, 0, 0, -1, 0, 0, 0), (0, 0, 0, 0, 0, 0, 0, 1), (0, -1, 0, 0, 0, 0, 0, 1)]
                         ).flatmap(lambda d: unittext.text_for(sp, d, storage=True))
    for i, t in enumerate(vlib.samples(st, vlib.tier(28, 120), f"{vlib.SEED}/c19")):
        if not all(ord(c) < 128 or c.isidentifier() for c in t.text if not c.isspace()):
            continue
        ss = [t.text, t.text + ", f64", t.text + ", W"][i % 3]
        T = "W" if i % 3 == 2 else "f64"
        sv.add("match a[0].as_str() { \"fj\" => res(from_json!(a[1].as_str(), %s)), \"fs\" => res(from_string!(a[1].as_str(), %s)), x => format!(\"?{x}\") }" % (ss, ss))
        cases.append({"s": list(t.scale), "d": list(t.dims), "b": "()", "t": T, "macro": ss})
    bad = sv.build()
    for i, m in bad.items():
        ck.report("no-compile", f"reading into {cases[i]} does not compile: {m}", cases[i])
    live = [i for i in range(len(cases)) if i not in bad]
    ml = [i for i in live if cases[i]["macro"]]
    cl = [i for i in live if not cases[i]["macro"]]
    nums = numbers(hs)

    def judge(i, rs, want, what):
        """rs: reply; want: (value, mag) or None for a refusal"""
        c = cases[i]
        st, r = rs
        if st != "ok":
            return "panic", f"{what}: {r}"
        k, _, rest = r.partition(";")
        if want is None:
            return None if k == "err" else ("accepted", f"{what} into dimension {c['d']} is accepted, as {rest}")
        if k != "ok":
            return "refused", f"{what} into dimension {c['d']} scale {c['s']} is refused: {rest}"
        d, s, t, b, v = ty.parse_show(rest)
        if (d, s) != (c["d"], c["s"]) or t.split("::")[-1] != c["t"] or b.split("::")[-1] != ("()" if what.startswith("core") else c["b"]):
            return "type", f"{what} gives type {rest}"
        got = vlib.f64_hex(v)
        if not close(got, *want):
            return "amount", f"{what} into dimension {c['d']} scale {c['s']} gives {got!r}, not {float(want[0])!r}"
        return None

    # -- 1. well-formed amounts
    ws = hs.sampled_from(["", "", "", " ", "\n  ", "\t"])

    @hs.composite
    def obj(draw, num, unit):
        """JSON object text (layout varied)"""
        k = [("value", num), ("unit", draw(hs.sampled_from([json.dumps(unit, ensure_ascii=False), json.dumps(unit)])))]
        if draw(hs.integers(0, 4)) == 0:
            k[1] = ("unit", '"' + "".join("\\u%04x" % ord(ch) if draw(hs.booleans()) else ("\\\"" if ch == '"' else ch) for ch in unit) + '"')
        for _ in range(draw(hs.sampled_from([0, 0, 0, 1, 2]))):
            n = draw(hs.one_of(hs.sampled_from(["Value", "units", "", "note", "value ", "uni", "x"]), hs.text(max_size=4)).filter(lambda x: x not in ("value", "unit")))
            k.append((n, json.dumps(draw(js(hs)))))
        k = draw(hs.permutations(k))
        w = [draw(ws) for _ in range(4)]
        return w[0] + "{" + w[1] + ",".join(w[2] + json.dumps(n) + w[3] + ":" + w[2] + v + w[3] for n, v in k) + "}" + w[0]

    @hs.composite
    def good(draw):
        i = draw(hs.sampled_from(live if draw(hs.integers(0, 2)) else ml or live))
        t = draw(unittext.text_for(sp, cases[i]["d"]))
        n = draw(nums)
        if cases[i]["macro"]:
            op = draw(hs.sampled_from(["fj", "fs", "fs"]))
        else:
            op = draw(hs.sampled_from(["des", "des", "desv", "vec", "core", "core0"]))
        if op in ("des", "desv", "fj"):
            return i, op, t, n, [draw(obj(n, t.text))]
        if op == "vec":
            return i, op, t, n, ["[" + ",".join([draw(obj(n, t.text)) for _ in range(draw(hs.integers(1, 3)))]) + "]"]
        if op in ("core", "core0"):
            x = float(n)
            return i, op, t, n, [ty.put("f64", x), t.text]
        if draw(hs.integers(0, 3)) == 0:
            n = draw(hs.sampled_from(["+5", ".5", "5.", "-.25", "+1e3", "007", "1.e2", "+0.5E-3"]))
        sep = draw(hs.sampled_from(["", "", " ", "  ", "\t", " \n"]))
        if not (t.text[0].isalpha() or t.text[0] == "("):
            sep = sep or " "
        if t.text[0] in "eE" and t.text[1:2].isdigit():
            sep = " "
        o = draw(hs.sampled_from(["", "", " ", "\t", "\n"]))
        return i, op, t, n, [o + n + sep + t.text + o]

    def o_good(z):
        i, op, t, n, args = z
        x = F(float(n))
        want, mag = expected(t, cases[i]["s"], x)
        if not in_range(x, want, ref.scale_value(t.scale) / ref.scale_value(cases[i]["s"]), t.cf, x * t.cf):
            return False
        st, r = sv.call(i, op, *args)
        what = f"{op} {args!r}"
        if op == "core0":
            if st == "ok" and r.startswith("ok;"):
                got = vlib.f64_hex(r[3:])
                if not close(got, want, mag):
                    return "amount", f"{what} into dimension {cases[i]['d']} scale {cases[i]['s']} gives {got!r}, not {float(want)!r}"
                return None
            return "refused", f"{what} into dimension {cases[i]['d']}: {r}"
        if op == "vec" and st == "ok" and r.startswith("ok;"):
            for q in r[3:].split("|"):
                w = judge(i, ("ok", "ok;" + q), (want, mag), what)
                if w:
                    return w
            if len(r[3:].split("|")) != args[0].count('"unit"') and args[0].count('"unit"') <= 3 and False:
                return "count", f"{what}: {r}"
            return None
        w = judge(i, (st, r), (want, mag), what)
        return w or (False if x == 0 or (t.scale == cases[i]["s"] and t.cf == 1) else None)
    ck.explore("amount", good(), o_good, vlib.tier(9000, 150000), sample=lambda z: {"target": cases[z[0]], "op": z[1], "text": z[4], "number": z[3]},
               key=lambda z: (z[0], z[1], z[4]))

    # -- 2. texts that must be refused
    dims_all = [list(d["exponents"]) for d in tb.dims] + [[0] * 8]

    @hs.composite
    def badunit(draw, d):
        k = draw(hs.integers(0, 4))
        if k <= 1:
            e = draw(hs.sampled_from([x for x in dims_all if x != list(d)]))
            return "dimension", draw(unittext.text_for(sp, e)).text
        if k == 2:      # one exponent off by one
            t = draw(unittext.text_for(sp, d, affine=False)).text
            b = draw(hs.sampled_from(["m", "s", "kg", "rad", "A", "K", "mol", "cd"]))
            return "dimension", draw(hs.sampled_from([f"{t}/{b}", f"({t})*{b}", f"{b}.{t}" if t[0].isalpha() and "/" not in t else f"({t}).{b}"]))
        t = draw(unittext.text_for(sp, d, affine=False)).text
        junk = draw(hs.sampled_from(["xyz", "metre", "foo", "qux", "mm_", "Meter", "kilo", "u", "µ", "kft", "minn", "kkm", "KG", "sec"]).filter(lambda x: not tb.candidates(x)))
        if k == 3:
            return "unknown", draw(hs.sampled_from([junk, f"{t}*{junk}", f"{junk}/({t})", f"{t}/{junk}", f"({t})*{junk}/{junk}"]))
        return "syntax", draw(hs.sampled_from([t + "/", t + "*", "*" + t, "/" + t, "(" + t, t + ")", t + "^", t + "^^2", t + " " + t, t + "^x", t + "^1.5", t + "+", t + "$", "{" + t + "}", "", " ", "()", "3*" + t, "0*" + t]))

    @hs.composite
    def refuse(draw):
        i = draw(hs.sampled_from(live))
        c = cases[i]
        n = draw(nums.filter(lambda x: math.isfinite(float(x))))
        k = draw(hs.integers(0, 3))
        ops = ["fj", "fs"] if c["macro"] else ["des", "desv", "core", "core0"]
        op = draw(hs.sampled_from(ops))
        if k or op in ("core", "core0"):
            why, u = draw(badunit(c["d"]))
            if op in ("core", "core0"):
                return i, op, why, [ty.put("f64", float(n)), u]
            if op == "fs":
                return i, op, why, [f"{n} {u}"]
            return i, op, why, [draw(obj(n, u))]
        t = draw(unittext.text_for(sp, c["d"])).text
        if op == "fs":
            return i, op, "layout", [draw(hs.sampled_from(["", " ", n, n + " ", t, t + " " + n, "x" + n + t, "five " + t, n + ";" + t, "--" + n + " " + t, n + " , " + t, "\u0665 " + t, "1__0 " + t, n + "\u00a0$" + t]))]
        ju = json.dumps(t)
        good_ = '{"value":%s,"unit":%s}' % (n, ju)
        l = ["", "null", "5", "[]", "{}", '"%s"' % n, '{"value":%s}' % n, '{"unit":%s}' % ju, '{"value":null,"unit":%s}' % ju, '{"value":%s,"unit":null}' % n,
             '{"value":[%s],"unit":%s}' % (n, ju), '{"value":%s,"unit":[%s]}' % (n, ju), '{"value":true,"unit":%s}' % ju, '{"value":%s,"unit":5}' % n,
             '{"Value":%s,"unit":%s}' % (n, ju), good_[:-1], good_ + "}", good_ + "x", "[" + good_ + "]", '{"value":NaN,"unit":%s}' % ju,
             '{"value":1e999,"unit":%s}' % ju, '{"q":%s}' % good_, '{"value":%s;"unit":%s}' % (n, ju), '{"value":"abc","unit":%s}' % ju]
        if op == "des":
            l += ['{"value":%s,"unit":%s,"value":%s}' % (n, ju, n), '{"unit":%s,"value":%s,"unit":%s}' % (ju, n, ju)]
        return i, op, "layout", [draw(hs.sampled_from(l))]

    def o_refuse(z):
        i, op, why, args = z
        w = judge(i, sv.call(i, op, *args), None, f"{op} {args!r} ({why})")
        return w or (False if args[-1].strip() == "" else None)
    ck.explore("refusal", refuse(), o_refuse, vlib.tier(5000, 80000), sample=lambda z: {"target": cases[z[0]], "op": z[1], "why": z[2], "text": z[3]},
               key=lambda z: (z[0], z[1], z[3]))
    sv.close()
    return ck.finish()
