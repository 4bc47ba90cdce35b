"""Generated editor / compiler text embedding quantity types, and the reading of prettified text.
A text is a list of segments: str (must come through unchanged) or Q (a quantity type)."""
import re
import hypothesis.strategies as hs
from checks import c17

SN = ["_2", "_3", "_5", "_Pi"]
DN = ["_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"]
STORES = ["f64", "f32", "i32", "u8", "i64", "usize", "i128", "MyNum", "num::Complex<f64>", "[f64; 3]", "(f64, f32)", "Matrix<f64, 3, 1>", "Vec<Option<u8>>",
          "DimensionOf", "Scale3", "Fixed<_2>", "Ratio<i64>"]
BRANDS = ["BrandA", "BrandA", "my::BrandB", "Tag<u8>", "Scale2", "DimensionTag", "FrameDimension", "BrandDimension<u8>", "Local_M"]
PATHS = ["whippyunits::", "whippyunits::quantity::", "crate::", "quantity::"]


class Q:
    def __init__(self, text, d, s, t, b, resolved, path=""):
        self.text, self.d, self.s, self.t, self.b, self.resolved, self.path = text, d, s, t, b, resolved, path

    def __repr__(self):
        return f"Q({self.text!r})"


def squeeze(t):
    return re.sub(r"\s+", "", t)


def strategies(tb, wide=False):
    """-> strategy of Q"""
    @hs.composite
    def exps(draw):
        rng = draw(hs.randoms(use_true_random=False))
        return c17.gen(rng, tb, wide)

    @hs.composite
    def q(draw, unresolved=.12, source=True, paths=True):
        d, s = draw(exps())
        t = draw(hs.sampled_from(["f64", "f64", "f64", "f64", "i32", "f32"] + STORES))
        b = draw(hs.sampled_from([None, None, None, None, "()"] + BRANDS))
        style = draw(hs.sampled_from(["full", "short", "short", "short", "mix"]))
        form = draw(hs.sampled_from(["{}"] * 12 + ["{{{}}}", "{{ {} }}"])) if source else "{}"
        sep = draw(hs.sampled_from([", "] * 6 + [",", ", \n    "])) if source else ", "
        res = not (draw(hs.floats(0, 1)) < unresolved)
        hole = None
        if not res:
            hole = draw(hs.sampled_from(["_", "_", "N", "{ A + B }", "...", "all", "scale", "dim", "first", "_ms"]))
        prefix = draw(hs.sampled_from([""] * 8 + PATHS)) if paths else ""
        pp = draw(hs.sampled_from(["", "whippyunits::quantity::"])) if prefix else ""
        pick = draw(hs.randoms(use_true_random=False))

        def args(names, vals, which):
            items = [(n, v) for n, v in zip(names, vals)]
            if hole == "all" or hole == which:
                return [f"{n}<_>" for n in names]
            holes = set()
            if hole in ("_", "N", "{ A + B }") and which == "dim":
                holes = {pick.randrange(8)}
            if hole == "_ms" and which == "dim":
                holes = {pick.randrange(8)}
            last = max([i for i, v in enumerate(vals) if v] + list(holes), default=-1)
            k = len(names) if style == "full" else last + 1 if style == "short" else pick.randint(last + 1, len(names))
            out = []
            for i, (n, v) in enumerate(items[:k]):
                if i in holes:
                    out.append("_" if hole == "_ms" else f"{n}<{hole}>")
                elif v == 0 and style != "full" and (style == "short" or pick.random() < .5):
                    out.append(pp + n)
                else:
                    out.append(f"{pp}{n}<{form.format(v)}>")
            return out
        a, c = args(SN, s, "scale"), args(DN, d, "dim")
        if hole == "...":
            c = c[:pick.randint(0, len(c))] + ["..."]
        sc = pp + ("Scale<" + sep.join(a) + ">" if a else "Scale")
        di = pp + ("Dimension<" + sep.join(c) + ">" if c else "Dimension")
        if hole == "first":
            if pick.random() < .5:
                sc = "_"
            else:
                di = "_"
        parts = [sc, di]
        if t != "f64" or b is not None or style == "full" or pick.random() < .5:
            parts.append(t)
        if b is not None:
            parts.append(b)
        elif style == "full" and pick.random() < .3:
            parts.append("()")
        text = f"{prefix}Quantity<" + sep.join(parts) + ">"
        return Q(text, d, s, t, b, res, prefix)
    return q


# ---------------------------------------------------------------- surroundings
WORDS = ["pub struct Quantity<Scale, Dimension, T = f64, Brand = ()> {", "Quantity", "Quantity<…", "Quantity<Scale…", "Quantity<Scale<…", "Quantity<Scale; ", "Quantity<f64>", "Quantity<Scale>", "MyQuantity<Scale, Dimension<_M, _L<1>>, f64>", "Quantity2<Scale, Dimension>",
         "Quantity<Other, Dimension>", "Scale", "Dimension", "Dimension<_M<1>>", "_2<3>", "_L<1>", "Scale<_2<1>>", "struct Holder<T = f64>", "quantity<Scale, Dimension>",
         "Quantity<Scale, Dimension…", "PreQuantity<Scale, Dimension>", "Quantity <Scale, Dimension>"]
CODE = ["let x: ", "let mut speed_µ: ", "fn f(x: ", ") -> ", " = ", "Option<", ">", "Vec<(", ", ", ")>", "&mut ", "impl Fn(", ") -> i32", "where T: ", " + ", "`", "expected `", "`, found `",
        " --> src/main.rs:5:9", "   |", "   = note: ", "error[E0308]: mismatched types", "a < b", "x -> y", "->", "=>", "<", ">", "<<", ">>", "[", "]", "// size = 8, align = 0x8",
        "\t", "  ", "λ→µΘ⁻¹", "日本語", "🚀🚀", "é", "\u200b", "$x", "\\n", "\"quoted\"", "'a", "#[derive(Clone)]", "10 %", "100.0", "pub struct ", "const ℓ: "]


def lits(newlines, fences=False):
    """strategy of literal text; pieces are separated so that they cannot join into a type by accident"""
    ws = hs.sampled_from(WORDS).map(lambda w: " " + w + " ")
    an = hs.text(alphabet=hs.characters(blacklist_categories=("Cs", "Cc"), blacklist_characters="<>\u2028\u2029\x85"), max_size=12)
    opts = [hs.sampled_from(CODE), hs.sampled_from(CODE), hs.sampled_from(CODE), an, ws]
    if newlines:
        opts += [hs.sampled_from(["\n", "\n", "\n\n", "\n---\n", "\n    "])]
    if fences:
        opts += [hs.sampled_from(["\n```rust\n", "\n```\n", "\n```\n\n---\n\n", "```text\n", "`", "**bold**", "[link](https://example.com/Quantity)", "\n```rust\nmod::path\n```\n\n"])]
    return hs.lists(hs.one_of(opts), min_size=0, max_size=5).map("".join)


def texts(q, newlines=True, fences=False, maxq=4, minq=0):
    """strategy of segment lists [lit, Q, lit, Q, ..., lit]"""
    l = lits(newlines, fences)

    @hs.composite
    def f(draw):
        n = draw(hs.sampled_from([x for x in [0, 1, 1, 1, 2, 2, 3, maxq] if minq <= x <= maxq]))
        segs = [draw(l)]
        for _ in range(n):
            x = draw(q)
            # an identifier or a path right before a type would be another type
            if re.search(r"[\w:#]$|[^\x00-\x7f]$", segs[-1]) or segs[-1].endswith("Quantity<"):
                segs[-1] += " "
            segs += [x, draw(l)]
            if re.match(r"[\w<:]", segs[-1]):
                segs[-1] = " " + segs[-1]
        return segs
    return f()


def render(segs):
    return "".join(x if isinstance(x, str) else x.text for x in segs)


# ---------------------------------------------------------------- reading prettified text
def close(text, i):
    """index after the '>' closing the '<' at i"""
    d = 0
    for j in range(i, len(text)):
        if text[j] == "<":
            d += 1
        elif text[j] == ">" and text[j - 1] not in "-=":
            d -= 1
            if d == 0:
                return j + 1
    return None


def split_args(body):
    out, d, cur = [], 0, ""
    for i, c in enumerate(body):
        if c in "<([{":
            d += 1
        elif c in ")]}" or c == ">" and body[i - 1] not in "-=":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def judge(tb, q, got, verbose):
    """is text `got` right for type q? -> None | (key, what)"""
    body = got[len("Quantity<"):-1]
    parts = split_args(body)
    want_b = None if q.b in (None, "()") else q.b
    if q.b == "()" and len(parts) == 3 and parts[2] == "()":
        parts.pop()
    if len(parts) != (2 if want_b is None else 3):
        return "form", f"{q.text!r} is shown as {got!r}"
    if squeeze(parts[1]) != squeeze(q.t):
        return "storage", f"{q.text!r} is shown with storage type {parts[1]!r} ({got!r})"
    if want_b is not None and squeeze(parts[2]) != squeeze(want_b):
        return "brand", f"{q.text!r} is shown with brand {parts[2]!r} ({got!r})"
    unit = parts[0]
    w = c17.check_text(tb, f"Quantity<{unit}, f64>", q.d, q.s, verbose, "f64", None, None)
    if w:
        return w[0], f"{q.text!r} is shown as {got!r}: {w[1]}"
    return None


def match_at(tb, segs, out, pos, verbose):
    """compare prettified text from pos with the segments -> (None | (key, what), position after them)"""
    for x in segs:
        if isinstance(x, str):
            if not out.startswith(x, pos):
                i = next((i for i in range(len(x)) if out[pos + i:pos + i + 1] != x[i]), len(x))
                return ("surroundings", f"text outside quantity types changed: {x[max(0, i - 30):i + 30]!r} became "
                        f"{out[pos + max(0, i - 30):pos + i + 30]!r} (in {render(segs)[:600]!r})"), pos
            pos += len(x)
            continue
        if not x.resolved and out.startswith(x.text, pos):
            pos += len(x.text)
            continue
        p = pos
        if x.path and out.startswith(x.path, p):
            p += len(x.path)
        e = close(out, p + 8) if out.startswith("Quantity<", p) else None
        if e is None:
            return ("type-lost", f"{x.text!r} became {out[pos:pos + 60]!r}"), pos
        got = out[p:e]
        if not x.resolved:
            if "?" not in got and "ˀ" not in got:
                return ("unresolved", f"the unresolved type {x.text!r} is shown as {got!r}"), pos
        elif out.startswith(x.text, pos):
            return ("unformatted", f"the type {x.text!r} is left as it is (in {render(segs)[:600]!r})"), pos
        else:
            w = judge(tb, x, got, verbose)
            if w:
                return w, pos
        pos = e
    return None, pos


def match(tb, segs, out, verbose):
    w, e = match_at(tb, segs, out, 0, verbose)
    if not w and out[e:]:
        w = "surroundings", f"{out[e:e + 60]!r} was added at the end"
    return w


# ---------------------------------------------------------------- an independent reading of raw text
def exponents(arg, name, params):
    """'Scale<_2<-3>, _3>' -> ([ints], resolved) or None"""
    m = re.fullmatch(r"(?:\w+::)*" + name + r"(?:<(.*)>)?", arg, re.S)
    if not m:
        return None
    v, ok = [0] * len(params), True
    for x in split_args(m.group(1)) if m.group(1) else []:
        m2 = re.fullmatch(r"(?:\w+::)*(\w+)(?:<(.*)>)?", x, re.S)
        if x in ("_", "..."):
            ok = False
        elif not m2 or m2.group(1) not in params:
            return None
        elif m2.group(2) is not None:
            n = re.fullmatch(r"\{?\s*(-?\d+)\s*\}?", m2.group(2))
            if n:
                v[params.index(m2.group(1))] = int(n.group(1))
            else:
                ok = False
    return v, ok


def scan(text):
    """raw text -> segments"""
    segs, pos = [""], 0
    for m in re.finditer(r"(?<![\w:])((?:\w+::)*)Quantity<", text):
        if m.start() < pos:
            continue
        e = close(text, m.end() - 1)
        if e is None:
            continue
        a = split_args(text[m.end():e - 1])
        if not 2 <= len(a) <= 4 or any("=" in x.replace("=>", "") for x in a):
            continue
        if "_" in a[:2] or "..." in a:
            s, d = ([0] * 4, False), ([0] * 8, False)
        else:
            s, d = exponents(a[0], "Scale", SN), exponents(a[1], "Dimension", DN)
        if s is None or d is None:
            continue
        segs[-1] += text[pos:m.start()]
        t = a[2] if len(a) > 2 else "f64"
        b = a[3] if len(a) > 3 else None
        segs += [Q(text[m.start():e], d[0], s[0], t, b, s[1] and d[1], m.group(1)), ""]
        pos = e
    segs[-1] += text[pos:]
    return segs
