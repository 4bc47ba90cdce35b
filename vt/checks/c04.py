"""C04: any text at the run-time unit entry points gives a correct result or an error."""
from fractions import Fraction as F
import json, math
import model, ref, serde_, types_ as ty, unittext, vlib

RULE = ("arbitrary strings, token soups, mutated and near-miss unit texts, huge/negative exponents, deep nesting, long and non-ASCII texts, "
        "malformed JSON through expression parsing, deserialize_core, serde, from_json!, from_string! and fmt: no panic, no hang; within the lexical subset "
        "the reference parser models, accepted exactly when the reference accepts, with the same meaning; non-trivial: longer than 2 "
        "characters and not plain whitespace")
TARGETS = [((0, 1, 0, 0, 0, 0, 0, 0), (0, 0, 0, 0)), ((0, 0, 0, 0, 0, 0, 0, 0), (0, 0, 0, 0)), ((1, 1, -2, 0, 0, 0, 0, 0), (3, 0, 3, 0)),
           ((0, 0, 0, 0, 1, 0, 0, 0), (0, -2, 1, 0)), ((0, 0, -1, 0, 0, 0, 0, 1), (1, 0, 0, 1)), ((0, 2, -2, 0, 0, 0, 0, 0), (3, 0, 3, 0))]
MACRO = ["m", "1", "kN", "degR", "turn/s", "J/g"]
EXTRA = ""


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C04", RULE)
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    sp = unittext.Spell(tb)
    sv = serde_.server("c04")
    for d, s in TARGETS:
        sv.add(serde_.body(s, d, "f64", "()", True, True))
    for (d, s), u in zip(TARGETS, MACRO):
        sv.add("match a[0].as_str() { \"fj\" => res(from_json!(a[1].as_str(), %s)), \"fs\" => res(from_string!(a[1].as_str(), %s)), x => format!(\"?{x}\") }" % (u, u))
    bad = sv.build()
    for i, m in bad.items():
        ck.report("no-compile", f"case {i} does not compile: {m}", i)
        return ck.finish()
    names = sorted({n for l in sp.of.values() for n, _ in l})
    words = hs.one_of(hs.sampled_from(names), hs.sampled_from(["m", "s", "kg", "rad", "K", "1", "10", "m2", "s3"]),
                      hs.sampled_from(["in", "as", "r#m", "r#in", "_", "dimensionless", "power_of_10", "Self", "fn", "true", "e", "E", "e3", "5m", "0x1F", "1_000", "10u8",
                                       "1e3", "1.5", "2", "0", "100", "1000000000000000000000", "99999999999999999999999999999999999999999", "'a", "\"m\"", "b'm'", "//", "/*", "*/", "m32767", "m32768",
                                       "m-2", "Å", "µm", "μm", "Ω", "℃", "°C", "²", "m²", "m⁻¹", "％", "m·s", "\u200b", "\ufeff", "\0", "日", "ｍ", "e\u0301"]),
                      hs.integers(-40000, 40000).map(str), hs.text(max_size=3))
    ops = hs.sampled_from(["*", ".", "/", "^", "^-", "(", ")", " ", "-", "+", "**", "//", "^^", ",", "::", "!", "{", "}", "[", "]", ";", "\n", "*", "/", "."])
    soup = hs.lists(hs.one_of(words, ops), max_size=14).map("".join)
    valid = hs.sampled_from([d["exponents"] for d in tb.dims] + [d for d, _ in TARGETS] * 3).flatmap(lambda d: unittext.text_for(sp, d)).map(lambda t: t.text)

    @hs.composite
    def mutated(draw):
        t = draw(valid)
        for _ in range(draw(hs.integers(1, 3))):
            p = draw(hs.integers(0, len(t)))
            k = draw(hs.integers(0, 3))
            x = draw(hs.one_of(words, ops))
            t = t[:p] + x + t[p:] if k < 2 else t[:p] + t[p + 1:] if k == 2 else t[:p] + x + t[p + 1:]
        return t

    @hs.composite
    def near(draw):
        """unknown identifiers close to known ones, in an otherwise valid text"""
        n = draw(hs.sampled_from(names))
        k = draw(hs.integers(0, 6))
        p = draw(hs.integers(0, len(n) - 1))
        n = (n[:p] + n[p + 1:] if k == 0 else n[:p] + n[p] + n[p:] if k == 1 else n.swapcase() if k == 2 else draw(hs.sampled_from(["k", "da", "µ", "kilo", "micro", "M", "u"])) + n if k == 3
             else n + draw(hs.sampled_from(["s", "_", "es", "x", "2", "2x"])) if k == 4 else n.capitalize() if k == 5 else n[:p] + "_" + n[p:])
        t = draw(hs.one_of(hs.just(""), valid))
        return n if not t else draw(hs.sampled_from([f"{t}*{n}", f"{n}/({t})", f"({t}).{n}^2", f"{t}/{n}", f"({n}*{t})/{n}"]))

    @hs.composite
    def extreme(draw):
        k = draw(hs.integers(0, 8))
        u = draw(hs.sampled_from(names))
        e = draw(hs.sampled_from([0, 1, -1, 127, 128, 200, 255, 256, 1000, 5000, 16384, 32767, 32768, -32768, -32769, 65535, 65536, 65537, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 10 ** 25, -2 ** 31, -2 ** 64]))
        if k == 0:
            return f"{u}^{e}"
        if k == 1:
            return f"10^{e}"
        if k == 2:
            return f"({u}^{e})^{draw(hs.integers(-300, 300))}"
        if k == 3:
            return f"{u}^{e}*{u}^{draw(hs.sampled_from([e, -e, 1, 32767]))}"
        if k == 4:
            n = draw(hs.sampled_from([1, 5, 29, 31, 32, 33, 40, 100]))
            return "(" * n + u + ")" * draw(hs.sampled_from([n, n, n - 1, n + 1]))
        if k == 5:
            n = draw(hs.sampled_from([2, 50, 200, 340, 341, 500, 512, 1000, 3000, 20000]))
            return draw(hs.sampled_from(["*", "/", "."])).join([u] * n)
        if k == 6:
            return u + str(abs(e))
        if k == 7:
            return "10" * 1 + "0" * draw(hs.integers(0, 45)) + draw(hs.sampled_from(["", "*m", "^2", "^-3000", "^32767"]))
        return draw(hs.sampled_from(["*", "^", "-", "1/", "(", "m ", "m^", "é"])) * draw(hs.sampled_from([1, 30, 500, 1025, 5000]))
    texts = hs.one_of(soup, mutated(), near(), near(), extreme(), valid, hs.text(max_size=20))

    def meaning(t):
        """None: not modelled; False: no unit; else parse result"""
        if not unittext.plain(t):
            return None
        try:
            return unittext.parse(tb, t)
        except unittext.Bad:
            return False

    def depth(t):
        d = m = 0
        for ch in t:
            d = d + 1 if ch == "(" else max(0, d - 1) if ch == ")" else d
            m = max(m, d)
        return m

    def nontriv(t):
        return None if len(t.strip()) > 2 else False

    # -- 1. the expression parser itself
    def o_eval(t):
        t = t[:1024]        # the library's own limit on unit text read at run time
        if depth(t) > 60:
            t = t.replace("(", "", depth(t) - 60)
        st, r = drv.call("eval", s=t)
        if st != "ok":
            return "panic", f"parsing {t[:300]!r}: {r}"
        m = meaning(t)
        if m is None:
            return nontriv(t)
        err = "err" in r
        if m is False:
            # the parser leaves unknown names to its callers, who ask for the identifiers
            return nontriv(t)
        if err:
            return "refused", f"{t[:300]!r} is refused: {r}"
        if list(r["td"]) != m[0] or list(r["ts"]) != m[1]:
            return "meaning", f"{t[:300]!r} evaluates to {r}, not dimension {m[0]} scale {m[1]}"
        return nontriv(t)
    ck.explore("expression", texts, o_eval, vlib.tier(8000, 150000), sample=lambda t: t[:200])

    # -- 2. deserialization and formatting
    num = hs.one_of(hs.floats(), hs.sampled_from([1.0, 0.0, -1.0, 1e308, -5e-324]))

    def one(c):
        t, i, op, v = c
        d, s = TARGETS[i]
        m = meaning(t)
        long_ = len(t.encode("utf-8", "surrogatepass")) > 1024 or depth(t) > 32
        if op in ("core", "core0"):
            a = (i, op, ty.put("f64", v), t)
        elif op == "fmt":
            a = (i, op, ty.put("f64", v), t, "")
        elif op == "fs":
            a = (i + len(TARGETS), op, "%s %s" % (repr(v) if math.isfinite(v) else "inf", t))
            m = meaning(" ".join(t.split())) if t.strip() else False
        else:
            v = v if math.isfinite(v) else 2.0
            a = (i if op != "fj" else i + len(TARGETS), op, json.dumps({"value": v, "unit": t}))
        st, r = sv.call(*a)
        what = f"{op} {[str(x)[:300] for x in a[2:]]!r} at dimension {d} scale {s}"
        if st != "ok":
            return "panic", f"{what}: {r}"
        if op == "fs" and (not t.strip() or t[0] in "0123456789."):
            m = None
        if m is None:
            return nontriv(t)
        good = m is not False and not long_ and m[0] == list(d)
        if long_ and m is not False:
            # texts this long or deep may be refused; never misread
            if r.startswith(("err;", "Error: ")):
                return nontriv(t)
            good = m[0] == list(d)
        if op == "fmt":
            bad = r.startswith("Error: ")
            if bad == good:
                return "accepted" if bad is False else "refused", f"{what} gives {r[:300]!r}"
            if good and m[2] is not None and m[3] == 0 and math.isfinite(v):
                want = F(v) * ref.scale_value(s) / ref.scale_value(m[1]) / m[2] if max(map(abs, m[1])) < 400 else None
                if want is not None and (want == 0 or F(10) ** -280 < abs(want) < F(10) ** 280) and F(10) ** -200 < ref.scale_value(m[1]) < F(10) ** 200 and (v == 0 or 1e-250 < abs(v) < 1e250) and F(10) ** -40 < m[2] < F(10) ** 40:
                    try:
                        got = F(r[:len(r) - len(t) - 1])
                    except ValueError:
                        return "value", f"{what} gives {r[:300]!r}"
                    if not r.endswith(" " + t) or abs(got - want) > abs(want) / 10 ** 10:
                        return "value", f"{what} gives {r[:300]!r}, not {float(want)!r}"
            return nontriv(t)
        k, _, rest = r.partition(";")
        if (k == "ok") != good:
            return "accepted" if k == "ok" else "refused", f"{what} gives {r[:300]!r}" + ("" if m is False else f" (the text means dimension {m[0]})")
        if good and m[2] is not None and m[3] == 0 and math.isfinite(v) and max(map(abs, m[1])) < 400:
            ratio = ref.scale_value(m[1]) / ref.scale_value(s)
            want = F(v) * m[2] * ratio
            if F(10) ** -200 < ratio < F(10) ** 200 and F(10) ** -40 < m[2] < F(10) ** 40 and (v == 0 or 1e-50 < abs(v) < 1e50):
                got = vlib.f64_hex(rest if op == "core0" else ty.parse_show(rest)[4])
                if not math.isfinite(got) or abs(F(got) - want) > abs(want) / 10 ** 10:
                    return "value", f"{what} gives {got!r}, not {float(want)!r}"
        return nontriv(t)
    ck.explore("entry-points", hs.tuples(texts, hs.integers(0, len(TARGETS) - 1), hs.sampled_from(["core", "core0", "des", "desv", "fmt", "fmt", "fj", "fs"]), num), one,
               vlib.tier(16000, 300000), sample=lambda c: {"text": c[0][:200], "target": MACRO[c[1]], "op": c[2], "value": str(c[3])})
    # every entry point on every valid text of the right dimension (so acceptance is exercised often)
    vt = hs.integers(0, len(TARGETS) - 1).flatmap(lambda i: hs.tuples(unittext.text_for(sp, TARGETS[i][0]).map(lambda t: t.text), hs.just(i),
                                                  hs.sampled_from(["core", "core0", "des", "desv", "fmt", "fj", "fs"]), num))
    ck.explore("matching", vt, one, vlib.tier(4000, 60000), sample=lambda c: {"text": c[0][:200], "target": MACRO[c[1]], "op": c[2], "value": str(c[3])})

    # -- 3. whole inputs: JSON and value-with-unit text
    jtok = hs.sampled_from(['{', '}', '"value"', '"unit"', ':', ',', '5', '-1e9', '1e999', '"m"', '"kg.m2"', '"\\u006d"', '"\\ud800"', 'null', 'true', '[', ']', ' ', '"', '\\', '1', '0x', 'NaN',
                            '{"value":5,"unit":"m"}', '"value":3,', '"unit":"m",'])
    whole = hs.one_of(hs.lists(jtok, max_size=12).map("".join), hs.text(max_size=24),
                      hs.tuples(texts, hs.floats(), hs.sampled_from(["", " ", "\t\u2003"])).map(lambda z: f"{z[1]!r}{z[2]}{z[0]}"),
                      hs.tuples(hs.sampled_from(["", "-", "+", "."]), hs.text("0123456789.eE+-_ ", max_size=12), texts).map("".join),
                      hs.sampled_from(["[" * 200, "[" * 3000, '{"unit":' * 500, "9" * 400 + " m", "1e" + "9" * 30 + " m", "0." + "0" * 400 + "1 m", "1" * 20000 + "m", "5 " + "m*" * 5000 + "m", "." * 3000, "e" * 3000, "5e" * 2000]))

    def o_whole(c):
        t, i, op = c
        n = i + len(TARGETS) if op in ("fs", "fj") else i
        st, r = sv.call(n, op, t)
        if st != "ok":
            return "panic", f"{op} {t[:300]!r}: {r}"
        if r.startswith("ok;") and op == "fs" and not any(ch.isdigit() or ch in "nN" for ch in t):
            return "accepted", f"{op} {t[:300]!r} gives {r}"
        return nontriv(t)
    ck.explore("whole-input", hs.tuples(whole, hs.integers(0, len(TARGETS) - 1), hs.sampled_from(["fs", "fj", "des", "vec", "desv"])), o_whole,
               vlib.tier(8000, 150000), sample=lambda c: {"input": c[0][:200], "op": c[2]})
    sv.close()
    drv.close()
    return ck.finish()
