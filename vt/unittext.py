"""Unit texts of a chosen dimension (strategies), and an independent parser of unit text."""
from fractions import Fraction as F
import re
import ref


class Spell:
    """every spelling the table's rules allow, grouped by unit"""

    def __init__(self, tb):
        self.tb = tb
        self.cache = {}
        self.of = {}            # unit name -> [(spelling, log10)]
        for u in tb.units:
            l = [(n, 0) for n in list(u["symbols"]) + [u["name"]]]
            if u["first"] and u["system"] == "Metric":
                l += [(p + s, k) for p, k in tb.prefixes.items() for s in u["symbols"]]
                l += [(p + u["name"], k) for p, k in tb.prefix_names.items()]
            ok = []
            for n, k in l:
                c = tb.candidates(n)
                if n.isidentifier() and not any(ch.isdigit() for ch in n) and len(c) == 1 and c[0][0]["name"] == u["name"] and c[0][1] == k:
                    ok.append((n, k))
            self.of[u["name"]] = ok
        self.by_dims = {}
        for u in tb.units:
            if self.of[u["name"]]:
                self.by_dims.setdefault(tuple(u["dims"]), []).append(u)
        self.linear = [u for u in tb.units if u["afv"] == 0 and self.of[u["name"]]]


class Text:
    """a unit text with its meaning: one unit = cf * scale, reading r -> (r*cf + af) scale units"""

    def __init__(self, text, dims, scale, cf, af, names):
        self.text, self.dims, self.scale, self.cf, self.af, self.names = text, dims, scale, cf, af, names

    @property
    def si(self):
        return self.cf * ref.scale_value(self.scale)

    def __repr__(self):
        return self.text


def text_for(sp, dims, storage=False, affine=True, simple=False, ten=True):
    """strategy of Text with exactly these dims. storage: only units with conversion factor 1 (incl. affine: no)"""
    k = (tuple(dims), storage, affine, simple, ten)
    if k not in sp.cache:
        sp.cache[k] = _text_for(sp, *k)
    return sp.cache[k]


def _text_for(sp, dims, storage, affine, simple, ten):
    import hypothesis.strategies as hs
    pool = [u for u in sp.linear if not storage or u["cfv"] == 1.0]
    bases = {}
    for i in range(8):
        v = tuple(1 if j == i else 0 for j in range(8))
        bases[i] = [u for u in pool if tuple(u["dims"]) == v]
    whole = [u for u in sp.by_dims.get(dims, []) if (u in pool) or (affine and not storage and u["afv"] != 0)]

    @hs.composite
    def f(draw):
        def spell(u):
            l = sp.of[u["name"]]
            if len(l) > 6 and draw(hs.booleans()):
                return draw(hs.sampled_from(l[:3]))
            return draw(hs.sampled_from(l))
        if whole and draw(hs.integers(0, 2)) == 0:
            u = draw(hs.sampled_from(whole))
            n, k = spell(u)
            s = list(u["scale"])
            s[0] += k
            s[2] += k
            return Text(n, dims, s, F(u["cfv"]), F(u["afv"]), [n])
        parts = []          # (name, exponent, unit, log10)
        res = list(dims)
        for _ in range(0 if simple else draw(hs.sampled_from([0, 0, 0, 1, 1, 2]))):
            u = draw(hs.sampled_from(pool))
            e = draw(hs.sampled_from([1, 1, -1, 2, -2]))
            n, k = spell(u)
            parts.append((n, e, u, k))
            res = [a - e * b for a, b in zip(res, u["dims"])]
        for i in range(8):
            r = res[i]
            while r:
                e = r if abs(r) == 1 or simple or draw(hs.integers(0, 3)) else draw(hs.sampled_from([r - 1, 1])) or r
                u = draw(hs.sampled_from(bases[i]))
                n, k = spell(u)
                parts.append((n, e, u, k))
                r -= e
        tens = []
        if ten and not simple and draw(hs.integers(0, 5)) == 0:
            tens.append(draw(hs.integers(-9, 9)))
        parts = draw(hs.permutations(parts))
        s, cf = [0] * 4, F(1)
        for n, e, u, k in parts:
            us = list(u["scale"])
            us[0] += k
            us[2] += k
            s = [a + e * b for a, b in zip(s, us)]
            cf *= F(u["cfv"]) ** e
        for t in tens:
            s = [s[0] + t, s[1], s[2] + t, s[3]]
        style = draw(hs.integers(0, 3))
        ws = draw(hs.sampled_from(["", "", " "]))
        mul = draw(hs.sampled_from(["*", ".", "."]))

        def atom(n, e):
            if e == 1:
                return n
            if e > 0 and n.isascii() and draw(hs.booleans()):
                return f"{n}{e}"
            return f"{n}^{e}"

        def join(l):
            out = l[0]
            for x in l[1:]:
                m = mul
                if m == "." and (out[-1].isdigit() or x[0].isdigit()) and (out.rsplit("^")[-1].isdigit() or x[0].isdigit()):
                    m = "*"
                out += ws + m + ws + x
            return out
        lit = [f"10^{t}" if t != 1 else "10" for t in tens]
        if style == 0:
            l = lit + [atom(n, e) for n, e, _, _ in parts]
            text = join(l) if l else "1"
        else:
            num = lit + [atom(n, e) for n, e, _, _ in parts if e > 0]
            den = [atom(n, -e) for n, e, _, _ in parts if e < 0]
            text = join(num) if num else "1"
            sl = ws + "/" + ws
            if den:
                if style == 1:
                    text = sl.join([text] + den)
                elif style == 2:
                    text = text + sl + join(den)
                else:
                    text = f"({text}){sl}({join(den)})"
        return Text(text, dims, s, cf, F(0), [p[0] for p in parts])
    return f()


# ---------------------------------------------------------------- independent parser
class Bad(Exception):
    pass


TOK = re.compile(r"\s*(?:([^\W\d][\w]*)|(\d+)|([*/.^()\-]))")
LIM = 32767


def tokens(text):
    pos, out = 0, []
    text = text.rstrip()
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise Bad(f"character {text[pos:pos + 1]!r}")
        out.append((m.lastindex, m.group(m.lastindex), m.start(m.lastindex)))
        pos = m.end()
    return out


def plain(text):
    """is text within the part of the lexical grammar this parser models exactly?"""
    return (re.fullmatch(r"[\w*/.^()\- ]*", text) is not None and "//" not in text and "/*" not in text
            and not re.search(r"\d_|\d\s*\.\s*\d|(?<![^\W\d])(?<!\w)\d+[^\W\d]|(?<!\w)\d+\.(?!\s*[^\W\d])|\bb?r#|(?<!\w)_(?!\w)", text)
            and all(ord(c) < 128 or c.isidentifier() for c in text)
            and not any(c.isdigit() and not ("0" <= c <= "9") for c in text) and "(" * 30 not in text
            and text.isprintable())


def parse(tb, text):
    """-> (dims, scale, cf, af, names); raises Bad when the text is no unit expression"""
    t = tokens(text)
    i = 0

    def peek(x):
        return i < len(t) and t[i][1] == x and t[i][0] == 3

    def chk(v):
        if any(abs(x) > LIM for x in v[0] + v[1]):
            raise Bad("exponents out of range")
        return v

    def integer():
        nonlocal i
        neg = False
        if peek("-"):
            neg = True
            i += 1
        if i >= len(t) or t[i][0] != 2:
            raise Bad("integer expected")
        n = int(t[i][1])
        i += 1
        n = -n if neg else n
        if not -32768 <= n <= 32767:
            raise Bad("exponent out of range")
        return n

    def power(v, n):
        if not v[2]:
            raise Bad("zero")
        big = abs(n) * max(1, abs(v[2].numerator).bit_length() + v[2].denominator.bit_length())
        return chk(([x * n for x in v[0]], [x * n for x in v[1]], v[2] ** n if big < 6000 or v[2] == 1 else None, v[3], v[4]))

    def atom():
        nonlocal i
        if i >= len(t):
            raise Bad("unexpected end")
        k, s, _ = t[i]
        if peek("("):
            i += 1
            v = expr()
            if not peek(")"):
                raise Bad("')' expected")
            i += 1
            return v
        if k == 2:
            if len(s) > 39:
                raise Bad("number")
            n = int(s)
            e = len(str(n)) - 1
            if n < 1 or n != 10 ** e:
                raise Bad("number")
            i += 1
            x = 1
            if peek("^"):
                i += 1
                x = integer()
            return chk(([0] * 8, [e * x, 0, e * x, 0], F(1), F(0), []))
        if k == 1:
            i += 1
            m = re.match(r"([^0-9]*)([0-9]+)$", s)
            n, x = s, 1
            if m and int(m.group(2)) <= 32767:
                n, x = m.group(1), int(m.group(2))
            a = tb.atom(n)
            if a is None:
                raise Bad(f"unknown unit {n}")
            return power((list(a[0]), list(a[1]), F(a[2]), F(a[3]), [n]), x)
        raise Bad("unit expected")

    def pw():
        nonlocal i
        v = atom()
        if peek("^"):
            i += 1
            return power(v, integer())
        return v

    def comb(a, b, g):
        cf = None if a[2] is None or b[2] is None else a[2] * b[2] ** g
        return chk(([x + g * y for x, y in zip(a[0], b[0])], [x + g * y for x, y in zip(a[1], b[1])], cf, None if a[3] or b[3] else F(0), a[4] + b[4]))

    def factor():
        nonlocal i
        v = pw()
        while peek("*") or peek("."):
            i += 1
            v = comb(v, pw(), 1)
        return v

    def expr():
        nonlocal i
        v = factor()
        while peek("/"):
            i += 1
            v = comb(v, factor(), -1)
        return v
    v = expr()
    if i != len(t):
        raise Bad("trailing text")
    return v
