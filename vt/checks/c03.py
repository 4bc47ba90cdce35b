"""C03: unit expressions evaluate as products, quotients and powers of their parts."""
from fractions import Fraction as F
import math
import model, vlib

RULE = ("random unit-expression trees over all units, prefixes, literals, exponents and nesting, rendered in random layouts; "
        "non-trivial: the expression has at least two operators or an exponent and names at least one unit")


# trees: ("u", name) ("ui", name, n) ("one",) ("ten", n) ("pow", t, n) ("mul", [t...]) ("div", [t...]) ("par", t)
def value(tb, t):
    """(dims, scale, cf as (float, relative error bound), ok)"""
    k = t[0]
    if k == "u" or k == "ui":
        d, s, cf, af = tb.atom(t[1])
        n = t[2] if k == "ui" else 1
        return [x * n for x in d], [x * n for x in s], F(cf) ** n
    if k == "one":
        return [0] * 8, [0] * 4, F(1)
    if k == "ten":
        return [0] * 8, [t[1], 0, t[1], 0], F(1)
    if k == "pow":
        d, s, c = value(tb, t[1])
        return [x * t[2] for x in d], [x * t[2] for x in s], c ** t[2]
    if k == "par":
        return value(tb, t[1])
    if k in ("mul", "div"):
        d, s, c = value(tb, t[1][0])
        for x in t[1][1:]:
            d2, s2, c2 = value(tb, x)
            g = 1 if k == "mul" else -1
            d = [a + g * b for a, b in zip(d, d2)]
            s = [a + g * b for a, b in zip(s, s2)]
            c = c * c2 ** g
        return d, s, c


def units(t):
    if t[0] in ("u", "ui"):
        return [t[1]]
    if t[0] in ("pow", "par"):
        return units(t[1])
    if t[0] in ("mul", "div"):
        return [u for x in t[1] for u in units(x)]
    return []


def ops(t):
    if t[0] in ("pow", "par"):
        return 1 + ops(t[1])
    if t[0] in ("mul", "div"):
        return len(t[1]) - 1 + sum(ops(x) for x in t[1])
    return 1 if t[0] in ("ui", "ten") else 0


def peak(tb, t):
    """largest absolute exponent anywhere inside (the library computes in 16 bits)"""
    d, s, c = value(tb, t)
    m = max(map(abs, d + s))
    m = max(m, abs(math.log2(float(c))) if 0 < c < F(10) ** 300 and c > F(1, 10 ** 300) else 9999)
    if t[0] in ("pow", "par"):
        m = max(m, peak(tb, t[1]))
    if t[0] in ("mul", "div"):
        m = max([m] + [peak(tb, x) for x in t[1]])
    return m


def render(t, lay, plain=False):
    """lay(): small random int deciding the layout"""
    def sp():
        return "" if plain else ["", "", " ", "  "][lay() % 4]
    k = t[0]
    if k == "u":
        return t[1]
    if k == "ui":
        return f"{t[1]}{t[2]}"
    if k == "one":
        return "1"
    if k == "ten":
        return "10" if t[1] == 1 and (plain or lay() % 2) else f"10{sp()}^{sp()}{t[1]}"
    if k == "pow":
        return render(t[1], lay, plain) + sp() + "^" + sp() + str(t[2])
    if k == "par":
        return "(" + sp() + render(t[1], lay, plain) + sp() + ")"
    if k == "mul":
        out = render(t[1][0], lay, plain)
        for x in t[1][1:]:
            op = "*" if plain or lay() % 2 else "."
            r = render(x, lay, plain)
            s1 = sp()
            if op == "." and s1 == "" and (out[-1].isdigit()):
                s1 = " "      # "10.m" would lex as a float
            s2 = sp()
            if op == "." and s2 == "" and r[0].isdigit():
                s2 = " "
            out += s1 + op + s2 + r
        return out
    if k == "div":
        return (sp() + "/" + sp()).join(render(x, lay, plain) for x in t[1])


def strategies(tb, exps, max_leaves=10, implicit=True):
    import hypothesis.strategies as hs
    aff = {u["name"] for u in tb.units if u["afv"] != 0}
    names = [n for n in sorted(set(tb.by_symbol) | set(tb.by_name)) if tb.resolve(n)[0]["name"] not in aff]
    names = [n for n in names if n.isidentifier() and not any(c.isdigit() for c in n)]
    pref = [p + b for p in sorted(tb.prefixes) for b in sorted(tb.base_symbol)] + \
           [p + b for p in sorted(tb.prefix_names) for b in sorted(tb.base_name)]
    pref = [n for n in pref if n.isidentifier() and len(tb.candidates(n)) == 1 and tb.resolve(n)[0]["name"] not in aff]
    base = [n for n in ("m", "s", "kg", "A", "K", "mol", "cd", "rad", "g", "h", "deg", "ft", "lb", "N", "J")]
    name = hs.one_of(hs.sampled_from(base), hs.sampled_from(names), hs.sampled_from(pref))
    leaf = [name.map(lambda n: ("u", n)), name.map(lambda n: ("u", n)), name.map(lambda n: ("u", n)), hs.just(("one",)),
            hs.integers(-12, 12).map(lambda n: ("ten", n))]
    if implicit:
        leaf.append(hs.tuples(name.filter(str.isascii), hs.integers(0, 4)).map(lambda x: ("ui", x[0], x[1])))
    leaf = hs.one_of(*leaf)

    def atomize(t):      # what may stand under ^, * or /
        return t

    def par(t):
        return ("par", t)

    def as_factor(t):    # operand of '*': anything but a bare mul/div
        return par(t) if t[0] in ("mul", "div") else t

    def as_term(t):      # operand of '/': anything but a bare div
        return par(t) if t[0] == "div" else t

    def as_base(t):      # operand of '^': an atom
        return par(t) if t[0] in ("mul", "div", "pow", "ten") else t

    def ext(ch):
        return hs.one_of(
            hs.lists(ch, min_size=2, max_size=4).map(lambda l: ("mul", [as_factor(x) for x in l])),
            hs.lists(ch, min_size=2, max_size=4).map(lambda l: ("div", [as_term(x) for x in l])),
            hs.tuples(ch, exps).map(lambda x: ("pow", as_base(x[0]), x[1])),
            ch.map(par))
    tree = hs.recursive(leaf, ext, max_leaves=max_leaves)
    return tree


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C03", RULE)
    sv = vlib.Server(vlib.build_driver())
    tb = model.load(sv)
    tree = strategies(tb, hs.one_of(hs.integers(-4, 4), hs.integers(-30, 30)))

    def judge_text(t, text):
        d, s, c = value(tb, t)
        st, e = sv.call("eval", s=text)
        if st != "ok":
            return ("panic", f"evaluating {text!r} panics: {e}", text)
        if "err" in e:
            return ("reject", f"{text!r} is a well-formed unit expression but does not parse: {e['err']}", text)
        us = units(t)
        strict = all(tb.resolve(u)[0]["cfv"] == 1.0 for u in us)
        if e["td"] != d:
            return ("dimension", f"{text!r} evaluates to dimension {e['td']}, its parts give {d}", text)
        if e["ts"] != s:
            return ("scale", f"{text!r} evaluates to scale {e['ts']}, its parts give {s}", text)
        got = vlib.f64_hex(e["cf"])
        if not math.isfinite(got) or abs(F(got) - c) > abs(c) * F(1, 10 ** 12):
            return ("factor", f"{text!r} has conversion factor {got!r}, its parts give {float(c)!r}", text)
        if vlib.f64_hex(e["af"]) != 0:
            return ("offset", f"{text!r} has zero offset {vlib.f64_hex(e['af'])!r} but names no offset unit", text)
        if (e["strict_err"] is None) != strict:
            return ("strict", f"{text!r}: strict check says {e['strict_err']}, units {us}", text)
        if strict and got != 1.0:
            return ("storage-factor", f"{text!r} names only storage units but has conversion factor {got!r}", text)
        if strict and (e["sd"] != d or e["ss"] != s):
            return ("strict-value", f"{text!r}: strict evaluation gives {e['sd']} {e['ss']}, should be {d} {s}", text)
        if set(e["idents"]) - {"dimensionless", "power_of_10"} != set(us):
            return ("names", f"{text!r} names units {e['idents']}, should be {sorted(set(us))}", text)
        return None

    def oracle(c):
        t, lays = c
        if peak(tb, t) > 900:
            return False
        it = [0]

        def lay():
            it[0] += 1
            return lays[it[0] % len(lays)]
        plain = render(t, lay, True)
        for text in (plain, render(t, lay), "(" + plain + ")"):
            bad = judge_text(t, text)
            if bad:
                return bad
        return None if ops(t) >= 2 and units(t) else False

    cases = hs.tuples(tree, hs.lists(hs.integers(0, 11), min_size=1, max_size=6))
    show = lambda c: render(c[0], lambda: 0, True)
    ck.explore("expressions", cases, oracle, vlib.tier(8000, 150000), sample=show, key=show)

    # equivalent spellings: permuted factors, regrouped quotients, distributed powers
    small = strategies(tb, hs.integers(-3, 3), 4)

    def equiv(c):
        a, b, g, n = c
        if max(peak(tb, x) for x in (a, b, g)) > 150:
            return False
        r = lambda t: render(t, lambda: 0, True)
        A, B, G = f"({r(a)})", f"({r(b)})", f"({r(g)})"
        for l, rr in ((f"{A}*{B}", f"{B} . {A}"), (f"{A}/{B}/{G}", f"{A}/({B}*{G})"), (f"{A}/{B}*{G}", f"{A}/({B}*{G})"),
                      (f"({A}*{B})^{n}", f"{A}^{n}*{B}^{n}"), (f"({A}/{B})^{n}", f"{A}^{n}/{B}^{n}"),
                      (f"{A}^-{n}", f"1/{A}^{n}"), (f"({A}*{B})*{G}", f"{A}*({B}*{G})"), (f"{A}*1", A)):
            x, y = sv.call("eval", s=l), sv.call("eval", s=rr)
            if x[0] != "ok" or y[0] != "ok" or "err" in x[1] or "err" in y[1]:
                return ("equiv-reject", f"{l!r}: {x}; {rr!r}: {y}", [l, rr])
            for k in ("td", "ts", "sd", "ss"):
                if x[1][k] != y[1][k] and (k[0] == "t" or x[1]["strict_err"] is None):
                    return ("equiv", f"{l!r} and {rr!r} are the same unit but evaluate to {x[1]} and {y[1]}", [l, rr])
            p, q = vlib.f64_hex(x[1]["cf"]), vlib.f64_hex(y[1]["cf"])
            if abs(p - q) > 1e-11 * abs(p):
                return ("equiv-factor", f"{l!r} and {rr!r}: conversion factors {p} and {q}", [l, rr])
        return None
    ck.explore("equivalences", hs.tuples(small, small, small, hs.integers(1, 4)), equiv, vlib.tier(700, 15000),
               sample=lambda c: [render(x, lambda: 0, True) for x in c[:3]] + [c[3]])
    sv.close()
    return ck.finish()
