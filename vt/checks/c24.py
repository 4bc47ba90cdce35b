"""C24: inlay hints show the right unit, and the code they insert names the same type."""
import json, re
import lspgen, model, vlib

RULE = ("generated inlay-hint responses (lists and resolved single hints; type, return, chaining and parameter hints; labels as text or split into parts in the ways the server "
        "splits them and in other ways; wrappers, several types, look-alikes, text edits, links, extra fields) through the proxy's message processing; labels are read back and "
        "inserted annotations evaluated, a sample compiled against the true type; non-trivial: a hint with a quantity type")
PRELUDE = """#![allow(unused, non_snake_case)]
use whippyunits::quantity::*;
use whippyunits::unit;
use std::{boxed::Box, collections::HashMap, sync::Arc};
pub struct MyNum; pub mod num { pub struct Complex<T>(T); } pub struct Matrix<T, const R: usize, const C: usize>(T);
pub struct DimensionOf; pub struct Scale3; pub struct Fixed<T>(T); pub struct Ratio<T>(T);
pub struct BrandA; pub mod my { pub struct BrandB; } pub struct Tag<T>(T); pub struct Scale2; pub struct DimensionTag; pub struct FrameDimension; pub struct BrandDimension<T>(T); pub struct Local_M;
"""
WRAP = [["", None, ""]] * 6 + [["Vec<", None, ">"], ["Option<", None, ">"], ["&", None, ""], ["&'a mut ", None, ""], ["[", None, "; 3]"], ["Vec<Option<", None, ">>"], ["(", None, ", i32)"],
                               ["(", None, ", ", None, ")"], ["Result<", None, ", ", None, ">"], ["HashMap<String, ", None, ">"], ["impl Fn(", None, ") -> ", None, ""],
                               ["Box<dyn Fn(", None, ") -> i32>"], ["fn(", None, ", ", None, ") -> ", None, ""], ["Arc<[", None, "]>"]]


def unit_macro(text, pos):
    """index after `unit!(...)` at pos, or None"""
    if not text.startswith("unit!(", pos):
        return None
    d = 0
    for j in range(pos + 5, len(text)):
        d += {"(": 1, ")": -1}.get(text[j], 0)
        if d == 0:
            return j + 1
    return None


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C24", RULE)
    drv = vlib.Server(vlib.build_driver(lsp=True))
    tb = model.load(drv)
    q = lspgen.strategies(tb)

    def labels(qs):
        words = lspgen.texts(qs, newlines=False, maxq=2)

        @hs.composite
        def f(draw):
            """-> (kind, segments)"""
            k = draw(hs.sampled_from(["type"] * 6 + ["ret", "ret", "chain", "chain", "param", "plain", "words"]))
            if k == "param":
                return k, [draw(hs.sampled_from(["x:", "speed:", "größe:", "&mut x:", "Quantity:"]))]
            if k == "plain":
                return k, [draw(hs.sampled_from([": i32", ": Vec<f64>", " -> String", ": Quantity", ": Scale", "Dimension", ": Quantity<Scale, f64>", ": …", "'a", "fn main", "unsafe", ": MyQuantity<Scale, Dimension>"]))]
            if k == "words":
                return k, draw(words)
            segs = [{"type": ": ", "ret": " -> ", "chain": ""}[k]]
            for x in draw(hs.sampled_from(WRAP)):
                if x is None:
                    segs += [draw(qs), ""]
                else:
                    segs[-1] += x
            segs[-1] += draw(hs.sampled_from([""] * 8 + [" ", " = "])) if k == "type" else ""
            return k, segs
        return f()

    pos = hs.fixed_dictionaries({"line": hs.integers(0, 9999), "character": hs.integers(0, 200)})
    rng_ = hs.fixed_dictionaries({"start": pos, "end": pos})
    loc = hs.fixed_dictionaries({"uri": hs.sampled_from(["file:///a/src/quantity.rs", "file:///größe/x%20y.rs"]), "range": rng_})
    scalar = hs.one_of(hs.none(), hs.booleans(), hs.integers(-2 ** 53, 2 ** 53), hs.text(max_size=8), hs.sampled_from([0.5, -3.25]))
    other = hs.recursive(scalar, lambda x: hs.one_of(hs.lists(x, max_size=3), hs.dictionaries(hs.text(max_size=6), x, max_size=3)), max_leaves=5)

    @hs.composite
    def parts(draw, segs):
        """split the label into parts -> JSON label"""
        text = lspgen.render(segs)
        mode = draw(hs.sampled_from(["ra", "ra", "ra", "ra", "tokens", "tokens", "one", "string", "prefix"]))
        if mode == "string":
            return text
        if mode == "one":
            cut = [text]
        elif mode == "prefix":          # ": " and the rest
            n = len(segs[0])
            cut = [x for x in (text[:n], text[n:]) if x]
        else:
            toks = re.findall(r"\w+|\W", text)
            cut, link = [""], []
            lone = draw(hs.booleans())       # ": " stays by itself
            for t in toks:
                name = re.match(r"[A-Za-z_]", t) and t not in ("mut", "fn", "dyn", "impl", "a")
                if mode == "ra":
                    new = name or cut[-1] and re.fullmatch(r"\w+", cut[-1])
                else:
                    new = draw(hs.integers(0, 2)) == 0
                if new and cut[-1]:
                    cut.append("")
                cut[-1] += t
            if not lone and len(cut) > 1 and cut[0].strip() in (":", "->"):
                cut[:2] = [cut[0] + cut[1]]
        out = []
        for c in cut:
            p = {"value": c}
            if re.match(r"\w", c) and draw(hs.integers(0, 3)) or draw(hs.integers(0, 12)) == 0:
                p["location"] = draw(loc)
            if draw(hs.integers(0, 12)) == 0:
                p[draw(hs.sampled_from(["tooltip", "command", "extra"]))] = draw(other)
            out.append(p)
        if draw(hs.integers(0, 20)) == 0:
            out.insert(draw(hs.integers(0, len(out))), {"value": ""})
        return out

    def hints(qs):
        @hs.composite
        def hint(draw, resolve):
            k, segs = draw(labels(qs))
            h = {"position": draw(pos), "label": draw(parts(segs))}
            if draw(hs.booleans()):
                h["kind"] = 2 if k == "param" else 1
            edits = []
            if k in ("type", "ret", "words", "chain") and draw(hs.booleans()):
                # the server's edit: spelled like the label or in full
                es = [segs]
                if draw(hs.integers(0, 4)) == 0:
                    es.append(draw(hs.sampled_from([["("], [")"], [")"], ["", draw(qs), ""]])))
                    if draw(hs.booleans()):
                        es.reverse()
                h["textEdits"] = [dict({"range": draw(rng_), "newText": lspgen.render(e)}, **draw(hs.sampled_from([{}, {}, {"annotationId": "x"}]))) for e in es]
                edits = es
            for name in ("paddingLeft", "paddingRight"):
                if draw(hs.booleans()):
                    h[name] = draw(hs.booleans())
            if draw(hs.integers(0, 3)) == 0:
                h["tooltip"] = draw(hs.one_of(hs.text(max_size=8), hs.just({"kind": "markdown", "value": "```rust\nQuantity\n```"})))
            if draw(hs.integers(0, 2)) == 0:
                h["data"] = draw(other)
            return h, segs, edits, k

        @hs.composite
        def msg(draw):
            resolve = draw(hs.booleans())
            hs_ = [draw(hint(resolve)) for _ in range(1 if resolve else draw(hs.integers(0, 4)))]
            if hs_ and not resolve and draw(hs.integers(0, 24)) == 0:  # a large document: the same hints over and over
                hs_ = (hs_ * 700)[:draw(hs.sampled_from([20, 70, 130, 260, 520, 700]))]
            m = {"jsonrpc": "2.0", "id": draw(hs.one_of(hs.integers(0, 2 ** 53), hs.text(min_size=1, max_size=6))), "result": hs_[0][0] if resolve else [h[0] for h in hs_]}
            return m, hs_, resolve, draw(hs.booleans()), draw(hs.integers(0, 3)) == 0, draw(hs.booleans())
        return msg()

    def frame(j, ascii_):
        b = json.dumps(j, ensure_ascii=ascii_, separators=(",", ":"))
        return f"Content-Length: {len(b.encode('utf-8', 'surrogatepass'))}\r\n\r\n{b}"

    def process(m, verbose, nouni, ascii_):
        src = json.dumps(m, ensure_ascii=False)[:700]
        st, r = drv.call("lsp_incoming", s=frame(m, ascii_), verbose=verbose, unicode=not nouni, include_raw=False)
        if st != "ok":
            return None, ("panic", f"converting the hints {src} fails: {r}")
        if "err" in r:
            return None, ("error", f"converting the hints {src} fails: {r['err']}")
        x = re.match(r"Content-Length: (\d+)\r\n\r\n", r["out"])
        if not x or int(x.group(1)) != len(r["out"][x.end():].encode()):
            return None, ("frame", f"the hints {src} come back badly framed: {r['out'][:300]!r}")
        return json.loads(r["out"][x.end():]), None

    def annotation(unit, x):
        """does the text of a unit! macro name the type x -> None | (key, what)"""
        a = lspgen.split_args(unit[len("unit!("):-1])
        shown = f"the code {unit!r} inserted for {x.text!r}"
        b = None if x.b in (None, "()") else x.b
        if x.b == "()" and len(a) == 3 and a[2] == "()":
            a.pop()
        if len(a) > 3 or lspgen.squeeze(a[1] if len(a) > 1 else "f64") != lspgen.squeeze(x.t):
            return "edit-storage", f"{shown} has another storage type"
        if (lspgen.squeeze(a[2]) if len(a) > 2 else None) != (lspgen.squeeze(b) if b else None):
            return "edit-brand", f"{shown} has another brand"
        st, r = drv.call("eval", s=a[0])
        if st != "ok" or "err" in r or r["strict_err"]:
            return "edit-invalid", f"{shown} is not a unit: {r}"
        if list(r["sd"]) != list(x.d) or list(r["ss"]) != list(x.s):
            return "edit-unit", f"{shown} has dimension {r['sd']} and scale {r['ss']}, not {x.d} and {x.s}"
        return None

    def edit(segs, out, found):
        """compare inserted code with the segments of the type -> None | (key, what)"""
        p = 0
        for x in segs:
            if isinstance(x, str):
                if not out.startswith(x, p):
                    return "edit-text", f"inserted code {lspgen.render(segs)[:600]!r} became {out[:600]!r}"
                p += len(x)
                continue
            if out.startswith(x.text, p):
                p += len(x.text)
                continue
            p0 = p + len(x.path) if x.path and out.startswith(x.path, p) else p
            e = unit_macro(out, p0)
            if e is None:
                return "edit-text", f"inserted code {lspgen.render(segs)[:600]!r} became {out[:600]!r}"
            if x.resolved:
                if p0 != p:
                    return "edit-path", f"inserted code {lspgen.render(segs)[:600]!r} became {out[:600]!r}, with a path before the macro"
                w = annotation(out[p0:e], x)
                if w:
                    return w
                found.append((out[p0:e], x))
            p = e
        if out[p:]:
            return "edit-text", f"inserted code {lspgen.render(segs)[:600]!r} became {out[:600]!r}"
        return None

    def check_hint(h, segs, edits, k, o, resolve, verbose, found):
        types = [x for x in segs if not isinstance(x, str)]
        shown = json.dumps(h, ensure_ascii=False)[:600]
        if not types and o.get("label") != h["label"]:
            return "fields", f"the label of {shown} changed: {json.dumps(o, ensure_ascii=False)[:500]}"
        rest = {a: b for a, b in h.items() if a not in ("label", "textEdits")}
        if not isinstance(o, dict) or {a: b for a, b in o.items() if a not in ("label", "textEdits")} != rest:
            return "fields", f"fields of the hint {shown} changed: {json.dumps(o, ensure_ascii=False)[:500]}"
        lab, old = o.get("label"), h["label"]
        if isinstance(old, str) != isinstance(lab, str) or not isinstance(lab, str) and not (isinstance(lab, list) and all(isinstance(p, dict) and isinstance(p.get("value"), str) for p in lab)):
            return "label", f"the label of {shown} became {json.dumps(lab, ensure_ascii=False)[:500]}"
        text = lab if isinstance(lab, str) else "".join(p["value"] for p in lab)
        w = lspgen.match(tb, segs, text, False)     # hints are short with every option
        if w:
            return w
        if isinstance(lab, list):
            # the parts outside the types survive as they were, in order
            spans, p = [], 0
            for x in segs:
                n = len(x if isinstance(x, str) else x.text)
                if not isinstance(x, str):
                    spans.append((p, p + n))
                p += n
            keep, p = [], 0
            for a in old:
                e = p + len(a["value"])
                if a["value"] and all(e <= s or p >= t for s, t in spans):
                    keep.append(a)
                p = e
            it = iter(lab)
            for a in keep:
                if not any(a == b for b in it):
                    return "parts", f"the part {json.dumps(a, ensure_ascii=False)} of the label of {shown} is lost: {json.dumps(lab, ensure_ascii=False)[:500]}"
        te, oe = h.get("textEdits"), o.get("textEdits")
        if te is not None:
            if not isinstance(oe, list) or len(oe) != len(te) or any({**a, "newText": ""} != {**b, "newText": ""} for a, b in zip(te, oe)):
                return "edits", f"the edits of {shown} became {json.dumps(oe, ensure_ascii=False)[:500]}"
            for e, b in zip(edits, oe):
                w = edit(e, b["newText"], found)
                if w:
                    return w
        elif oe is not None:
            # an edit the proxy adds: inserting the annotation where the hint stands
            if not resolve or k != "type" and not segs[0].startswith(": ") or not types:
                return "edits", f"{shown} gets the edits {json.dumps(oe, ensure_ascii=False)[:500]}"
            if len(oe) != 1 or oe[0].get("range") != {"start": h["position"], "end": h["position"]} or set(oe[0]) != {"range", "newText"}:
                return "edits", f"{shown} gets the edits {json.dumps(oe, ensure_ascii=False)[:500]}"
            w = edit(segs, oe[0]["newText"], found)
            if w:
                return w
        return None

    def oracle(c, found=None):
        m, hints_, resolve, verbose, nouni, ascii_ = c
        j, w = process(m, verbose, nouni, ascii_)
        if w:
            return w
        r = [j.get("result")] if resolve else j.get("result")
        if {**j, "result": 0} != {**m, "result": 0} or not isinstance(r, list) or len(r) != len(hints_):
            return "fields", f"the response {json.dumps(m, ensure_ascii=False)[:500]} becomes {json.dumps(j, ensure_ascii=False)[:500]}"
        for (h, segs, edits, k), o in zip(hints_, r):
            w = check_hint(h, segs, edits, k, o, resolve, verbose, [] if found is None else found)
            if w:
                return w
        if not any(len(h[1]) > 1 for h in hints_):
            return False
        return None

    show = lambda c: [lspgen.render(h[1]) for h in c[1]]
    ck.explore("hints", hints(q()), oracle, vlib.tier(12000, 120000), sample=show, key=lambda c: json.dumps(c[0], sort_keys=True)[:4000])

    # -- the inserted code really compiles to the type
    found = []
    for c in vlib.samples(hints(q(unresolved=0, paths=False)), vlib.tier(3000, 12000), f"C24 compile {vlib.SEED}"):
        oracle(c, found)
    seen = {}
    for u, x in found:
        seen.setdefault((u, x.text), (u, x))
    todo = sorted(seen.values(), key=lambda p: (p[0], p[1].text))
    ck.rng.shuffle(todo)
    todo = todo[:vlib.tier(500, 3000)]
    pr = vlib.Prog("c24_edits", PRELUDE)
    for i, (u, x) in enumerate(todo):
        t = re.sub(r"\s+", " ", x.text)
        pr.add(f"fn f{i}<'a>(x: {t}) -> {re.sub(chr(10), ' ', u)} {{ x }}", (u, x))
    pr.tail = "fn main() {}"
    ok, errs, oth, log = pr.check()
    if not ok and not errs:
        raise vlib.CheckError("inserted code: " + log[-3000:])
    for i, (u, x) in enumerate(todo):
        ck.count("compiled edits", u + x.text, True, [u, x.text])
        if i in errs:
            ck.report("edit-compile", f"the code {u!r} inserted for {x.text!r} is not that type: {errs[i][0]['message']}", {"code": u, "type": x.text})
    return ck.finish()
