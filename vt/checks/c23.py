"""C23: prettified types in hovers name the right unit and leave other text alone."""
import json, re
import lspgen, model, vlib

RULE = ("generated hover responses (markup, marked strings, plain strings, arrays; several code blocks, documentation, ranges, actions, unicode, look-alikes) with 0-4 "
        "generated quantity types in the ways the server spells them, through the proxy's message processing with every display option; the text is read back, the rest "
        "compared, and the result prettified again; non-trivial: a hover with a quantity type")


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C23", RULE)
    drv = vlib.Server(vlib.build_driver(lsp=True))
    tb = model.load(drv)
    q = lspgen.strategies(tb)
    free = lspgen.texts(q(), newlines=True, fences=True)
    one = lspgen.texts(q(), newlines=False, maxq=3)
    ident = hs.sampled_from(["x", "speed", "größe", "Δt", "r#type", "_y", "距離"])

    @hs.composite
    def decl(draw):
        """what rust-analyzer shows for an item"""
        k = draw(hs.integers(0, 7))
        n, a, b = draw(ident), draw(q()), draw(q())
        tail = draw(hs.sampled_from(["", "", " // size = 8, align = 0x8", " = 5.0.meters()", " // size = 16 (0x10), align = 8, no Drop"]))
        return {0: [f"let {n}: ", a, tail], 1: [f"let mut {n}: ", a, tail], 2: [f"pub const {n}: ", a, " = Quantity::new(1.0)"], 3: [f"pub fn {n}(a: ", a, ", b: i32) -> ", b, ""],
                4: [f"{n}: Vec<", a, f">{tail}"], 5: [f"let {n}: Option<(", a, ", &'a ", b, ")>" + tail], 6: [f"let {n}: impl Fn(", a, ") -> ", b, tail],
                7: [f"pub struct S {{\n    {n}: ", a, ",\n    y: ", b, ",\n}"]}[k]

    @hs.composite
    def markdown(draw):
        segs = [""]

        def put(x):
            if isinstance(x, str):
                segs[-1] += x
            else:
                segs.extend([x, ""])
        for _ in range(draw(hs.integers(1, 3))):
            if draw(hs.booleans()):
                put(draw(hs.sampled_from(["\n```rust\nmycrate::module\n```\n\n", "```rust\nmycrate\n```\n", "\n", "text\n\n"])))
            put(draw(hs.sampled_from(["```rust\n", "```rust\n", "```rust\n    ", "```rust\n\n"])))
            for x in draw(decl()):
                put(x)
            put(draw(hs.sampled_from(["\n```", "\n```\n", "\n\n```", "```"])))
            put(draw(hs.sampled_from(["", "\n\n---\n\nSome docs.\n", "\n---\n", "\n\n---\n\n# Example\n\n```rust\nlet x = 1;\n```\n", "\n\n", " ", "\n\n___\n\nsize = 8"])))
        return segs
    text = hs.one_of(markdown(), markdown(), free, one)
    scalar = hs.one_of(hs.none(), hs.booleans(), hs.integers(-2 ** 53, 2 ** 53), hs.text(max_size=10), hs.sampled_from([0.5, 1.25, -3.0, 1e10]))
    other = hs.recursive(scalar, lambda x: hs.one_of(hs.lists(x, max_size=3), hs.dictionaries(hs.text(max_size=6), x, max_size=3)), max_leaves=6)
    pos = hs.fixed_dictionaries({"line": hs.integers(0, 9999), "character": hs.integers(0, 200)})

    @hs.composite
    def msg(draw):
        shape = draw(hs.sampled_from(["markup", "markup", "markup", "marked", "string", "array", "plaintext"]))
        k = 1 if shape != "array" else draw(hs.integers(1, 3))
        ts = [draw(text) for _ in range(k)]
        items = []
        for t in ts:
            v = lspgen.render(t)
            kind = draw(hs.sampled_from(["marked", "string"])) if shape == "array" else shape
            items.append({"markup": {"kind": "markdown", "value": v}, "plaintext": {"kind": "plaintext", "value": v},
                          "marked": {"language": "rust", "value": v}, "string": v}[kind])
        r = {"contents": items if shape == "array" else items[0]}
        if draw(hs.booleans()):
            r["range"] = {"start": draw(pos), "end": draw(pos)}
        if draw(hs.booleans()):
            r["actions"] = draw(hs.lists(hs.fixed_dictionaries({"title": hs.text(max_size=5), "commands": hs.lists(other, max_size=2)}), max_size=2))
        if draw(hs.booleans()):
            r[draw(hs.sampled_from(["extra", "Größe", "data"]))] = draw(other)
        m = {"jsonrpc": "2.0", "id": draw(hs.one_of(hs.integers(0, 2 ** 53), hs.text(min_size=1, max_size=6), hs.none())), "result": r}
        if draw(hs.integers(0, 5)) == 0:
            m["_meta"] = draw(other)
        return m, ts, draw(hs.booleans()), draw(hs.booleans()), draw(hs.integers(0, 3)) == 0, draw(hs.booleans())

    def frame(j, ascii_):
        b = json.dumps(j, ensure_ascii=ascii_, separators=(",", ":"))
        return f"Content-Length: {len(b.encode('utf-8', 'surrogatepass'))}\r\n\r\n{b}"

    def unframe(t):
        m = re.match(r"(?:Content-Type: [^\r\n]*\r\n)?Content-Length: (\d+)\r\n(?:[^\r\n]+\r\n)*\r\n", t)
        if not m or int(m.group(1)) != len(t[m.end():].encode()):
            return None
        return json.loads(t[m.end():])

    def process(m, verbose, nouni, raw, ascii_):
        st, r = drv.call("lsp_incoming", s=frame(m, ascii_), verbose=verbose, unicode=not nouni, include_raw=raw)
        if st != "ok":
            return None, ("panic", f"prettifying the hover {json.dumps(m, ensure_ascii=False)[:600]} fails: {r}")
        if "err" in r:
            return None, ("error", f"prettifying the hover {json.dumps(m, ensure_ascii=False)[:600]} fails: {r['err']}")
        j = unframe(r["out"])
        if j is None:
            return None, ("frame", f"the hover {json.dumps(m, ensure_ascii=False)[:600]} comes back badly framed: {r['out'][:300]!r}")
        return j, None

    def parts(m):
        c = m["result"]["contents"] if isinstance(m.get("result"), dict) else None
        c = c if isinstance(c, list) else [c]
        return [x if isinstance(x, str) else x.get("value") if isinstance(x, dict) else None for x in c]

    def strip(m):
        m = json.loads(json.dumps(m))
        c = m["result"]["contents"]
        if isinstance(c, list):
            m["result"]["contents"] = ["" if isinstance(x, str) else dict(x, value="") for x in c]
        else:
            m["result"]["contents"] = "" if isinstance(c, str) else dict(c, value="")
        return m
    RAW = re.compile(r"\s*---\s*Raw:\s*```rust\n(.*?)\n```\n", re.S)

    def oracle(c):
        m, ts, verbose, nouni, raw, ascii_ = c
        j, w = process(m, verbose, nouni, raw, ascii_)
        if w:
            return w
        try:
            same = strip(j) == strip(m)
            got = parts(j)
        except (KeyError, AttributeError, TypeError):
            same = False
        if not same:
            return "fields", f"fields of {json.dumps(m, ensure_ascii=False)[:500]} changed: {json.dumps(j, ensure_ascii=False)[:500]}"
        for t, g in zip(ts, got):
            if raw:
                # the raw types are shown in sections of their own
                src = lspgen.render(t)
                if "Raw:" not in src:
                    for x in RAW.finditer(g):
                        if re.sub(r"\s", "", x.group(1)) not in re.sub(r"\s", "", src):
                            return "raw", f"the raw section {x.group(1)[:300]!r} is not from {src[:600]!r}"
                    g2 = RAW.sub("", g)
                    # around the sections white space is not compared
                    w = lspgen.match(tb, t, g2, verbose)
                    if w and w[0] == "surroundings":
                        st = process(m, verbose, nouni, False, ascii_)[0]
                        if st is None:
                            return w
                        k = ts.index(t)
                        if re.sub(r"\s", "", parts(st)[k]) == re.sub(r"\s", "", g2):
                            w = None
                    if w:
                        return "raw:" + w[0], f"with raw text: {w[1]}"
                continue
            w = lspgen.match(tb, t, g, verbose)
            if w:
                return w
        if not raw:
            j2, w = process(j, verbose, nouni, raw, ascii_)
            if w:
                return w
            # an unresolved type may be left as it is; everything else must be stable
            if j2 != j:
                return "idempotent", f"prettifying {json.dumps(m, ensure_ascii=False)[:500]} twice gives {json.dumps(j2, ensure_ascii=False)[:500]} instead of {json.dumps(j, ensure_ascii=False)[:500]}"
        if not any(len(t) > 1 for t in ts):
            return False
        return None

    ck.explore("hovers", msg(), oracle, vlib.tier(12000, 120000), sample=lambda c: [lspgen.render(t) for t in c[1]], key=lambda c: repr([lspgen.render(t) for t in c[1]]) + repr(c[2:]))
    ck.assumptions.append("signatures of trait implementations (impl<..> Add for Quantity<..>) outside code blocks, which the proxy deliberately abbreviates, are not generated")
    return ck.finish()
