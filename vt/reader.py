"""Reads printed unit text back: text -> (dims, exact scale exponents or None, factor as Fraction, relative precision).
The grammar is what a person reads: [number] [prefix] ( product ) | product of prefix+unit+superscript joined by '·'."""
from fractions import Fraction as F
import re
import ref

SUP = {c: d for d, c in zip("0123456789-", "⁰¹²³⁴⁵⁶⁷⁸⁹⁻")}
SUPRE = "[⁰¹²³⁴⁵⁶⁷⁸⁹⁻]"


class Unreadable(Exception):
    pass


def unsup(s):
    t = "".join(SUP.get(c, "?") for c in s)
    try:
        return int(t)
    except ValueError:
        raise Unreadable(f"exponent {s!r}")


def read_atom(tb, t):
    """'km²' -> dims, scale"""
    m = re.fullmatch(rf"(.*?)({SUPRE}*)", t, re.S)
    name, ex = m.group(1), m.group(2)
    n = unsup(ex) if ex else 1
    c = tb.candidates(name)
    if len(c) != 1:
        raise Unreadable(f"{name!r} is no unit")
    u, p = c[0]
    if u["cfv"] != 1.0:
        raise Unreadable(f"{name!r} is not a storage unit")
    s = list(u["scale"])
    s[0] += p
    s[2] += p
    return [x * n for x in u["dims"]], [x * n for x in s]


def read_product(tb, t):
    d, s = [0] * 8, [0] * 4
    if t in ("1", ""):
        return d, s
    for part in t.split("·"):
        a, b = read_atom(tb, part)
        d = [x + y for x, y in zip(d, a)]
        s = [x + y for x, y in zip(s, b)]
    return d, s


def read(tb, t):
    """-> (dims, scale exponents without the factor, factor Fraction, relative tolerance of the factor)"""
    factor, tol, ten = F(1), F(0), 0
    m = re.match(r"\((\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)\)", t)
    if m:
        txt = m.group(1)
        factor = F(txt)
        if factor == 0:
            raise Unreadable(f"factor {txt}")
        e = 0               # three significant digits are shown: half a unit of the third one
        while F(10) ** (e + 1) <= factor:
            e += 1
        while F(10) ** e > factor:
            e -= 1
        tol = F(101, 200) * F(10) ** (e - 2) / factor
        t = t[m.end():]
    else:
        m = re.match(rf"10({SUPRE}*) ", t)
        if m:
            ten = unsup(m.group(1)) if m.group(1) else 1
            t = t[m.end():]
    m = re.fullmatch(r"([^()]*)\(([^()]*)\)", t)
    pre = 0
    if m:
        if m.group(1):
            pre = tb.prefixes.get(m.group(1), tb.prefix_names.get(m.group(1)))
            if pre is None:
                raise Unreadable(f"prefix {m.group(1)!r}")
        t = m.group(2)
    elif "(" in t or ")" in t:
        raise Unreadable(t)
    d, s = read_product(tb, t)
    k = pre + ten
    return d, [s[0] + k, s[1], s[2] + k, s[3]], factor, tol


def denotes(tb, t, dims, scale):
    """None when text t denotes (dims, scale), else a description"""
    try:
        d, s, f, tol = read(tb, t)
    except Unreadable as e:
        return f"cannot be read ({e})"
    if list(d) != list(dims):
        return f"reads as dimension {d}"
    if f == 1 and tol == 0:
        if list(s) != list(scale):
            return f"reads as scale {s}"
        return None
    got = ref.scale_value(s) * f
    want = ref.scale_value(scale)
    if abs(got - want) > want * (tol + F(1, 10 ** 9)):
        return f"reads as {float(got):.6g} SI units instead of {float(want):.6g}"
    return None
