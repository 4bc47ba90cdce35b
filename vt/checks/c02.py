"""C02: unit names resolve uniquely, prefixes multiply by their power of ten."""
import string
import model, vlib

RULE = ("exhaustive over every (prefix spelling or none) x (unit spelling) concatenation, then random concatenations and "
        "mutations of them and arbitrary identifiers; non-trivial: the text is a unit spelling, or contains one, or is one "
        "edit away from one")
ZERO = [0] * 8


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C02", RULE)
    sv = vlib.Server(vlib.build_driver())
    tb = model.load(sv)
    # uniqueness of the spellings themselves
    for n in sorted(set(tb.by_symbol) | set(tb.by_name)):
        c = tb.candidates(n)
        ck.count("unique", n, True, n)
        if len(c) > 1:
            ck.report(f"ambiguous:{n}", f"{n!r} is a spelling of {[u['name'] for u, _ in c]}", n)

    def judge(n):
        cand = tb.candidates(n)
        st, info = sv.call("info", s=n)
        if st != "ok":
            return (f"lookup-panic", f"looking up {n!r} panics: {info}", n)
        if len(cand) > 1:
            return (f"ambiguous:{n}", f"{n!r} can be read as {[(u['name'], p) for u, p in cand]}", n)
        want = cand[0] if cand else None
        if (info is None) != (want is None) or (info and info["name"] != want[0]["name"]):
            return ("resolve", f"{n!r} resolves to {info and info['name']}, should be {want and want[0]['name']}", n)
        if n.isidentifier() and not any(ch.isdigit() for ch in n) and n not in ("power_of_10", "dimensionless", "_"):
            st, e = sv.call("eval", s=n)
            if st != "ok":
                return ("eval-panic", f"evaluating {n!r} panics: {e}", n)
            if want:
                if "err" in e:
                    return ("eval-reject", f"{n!r} is a spelling of {want[0]['name']} but does not parse: {e['err']}", n)
                d, s, cf, af = tb.atom(n)
                if tuple(e["td"]) != d or tuple(e["ts"]) != s or vlib.f64_hex(e["cf"]) != cf or vlib.f64_hex(e["af"]) != af:
                    return ("eval", f"{n!r} evaluates to dims {e['td']} scale {e['ts']} cf {vlib.f64_hex(e['cf'])}, "
                            f"should be {list(d)} {list(s)} {cf}", n)
                if (e["strict_err"] is None) != (cf == 1.0):
                    return ("strict", f"{n!r} (conversion factor {cf}) strict check says {e['strict_err']}", n)
            elif "err" not in e and (e["td"] != ZERO or e["ts"] != [0] * 4 or vlib.f64_hex(e["cf"]) != 1.0):
                return ("eval-unknown", f"{n!r} is no unit but evaluates to {e}", n)
        st, l = sv.call("lookup", s=n)
        if st != "ok":
            return ("lookup-panic", f"looking up {n!r} panics: {l}", n)
        exn, exs = tb.by_name.get(n), tb.by_symbol.get(n)
        if (l["name"] and l["name"][0]) != (exn and exn[0]["name"]):
            return ("by-name", f"find_unit_by_name({n!r}) = {l['name']}", n)
        if (l["symbol"] and l["symbol"][0]) != (exs and exs[0]["name"]):
            return ("by-symbol", f"find_unit_by_symbol({n!r}) = {l['symbol']}", n)
        if l["prefix"] is not None or n in tb.prefixes:
            want_p = tb.prefixes.get(n)
            if want_p is None or l["prefix"] is None or tb.prefix_names[l["prefix"]] != want_p:
                return ("prefix-symbol", f"prefix symbol {n!r} is read as {l['prefix']}, should be 10^{want_p}", n)
        # the literal lookup: names a unit (possibly plural); whenever n itself is a unit or a prefixed base unit it must agree
        lit = l["literal"]
        if lit and want:
            got = (lit[0], tb.prefix_names[lit[2]] if lit[2] else 0)
            if got != (want[0]["name"], want[1]):
                return ("literal", f"find_by_literal({n!r}) = {lit}, but {n!r} means {want[0]['name']} x 10^{want[1]}", n)
        if want and lit is None and want[1] == 0:
            return ("literal", f"find_by_literal({n!r}) finds nothing, but {n!r} means {want[0]['name']}", n)
        if l["base"] is not None:
            w = [u for u in tb.by_symbol.get(n, [])]
            if not w or w[0]["name"] != l["base"]:
                return ("base", f"find_base({n!r}) = {l['base']}", n)
        if l["multiple"] is not None:
            m = (l["multiple"][0], tb.prefix_names[l["multiple"][1]] if l["multiple"][1] else 0)
            if want and m != (want[0]["name"], want[1]) and n[0].islower():
                return ("multiple", f"multiple_to_base_unit({n!r}) = {l['multiple']}, but it means {want[0]['name']} x 10^{want[1]}", n)
        if want:
            return None
        near = any(x in n for x in list(tb.by_name)) or len(n) <= 4
        return None if near else False

    def direct(part, n):
        r = judge(n)
        ck.count(part, n, r is not False, n)
        if r:
            ck.report(r[0] + ("" if ":" in r[0] else ":" + n), r[1], {"text": r[2]})

    pre = [""] + sorted(tb.prefixes) + sorted(tb.prefix_names) + [p.capitalize() for p in sorted(tb.prefix_names)]
    spell = sorted(set(tb.by_symbol) | set(tb.by_name))
    for p in pre:
        for s in spell:
            direct("prefix x spelling", p + s)
    # random neighbours
    alpha = string.ascii_letters + "µΩ_°'é"
    word = hs.sampled_from([p + s for p in pre for s in spell])
    piece = hs.one_of(hs.sampled_from(pre[1:]), hs.sampled_from(spell), hs.text(alphabet=alpha, min_size=1, max_size=2))
    concat = hs.lists(piece, min_size=1, max_size=4).map("".join)

    def edit(t):
        w, k, i, ch = t
        i %= len(w)
        return [w[:i] + ch + w[i:], w[:i] + w[i + 1:], w[:i] + ch + w[i + 1:], w + ch, ch + w, w[:i] + w[i].swapcase() + w[i + 1:],
                w + "s", w + w, w[:i] + w[i:][::-1]][k]
    mut = hs.tuples(word, hs.integers(0, 8), hs.integers(0, 60), hs.sampled_from(alpha)).map(edit)
    ident = hs.text(alphabet=alpha, min_size=1, max_size=9)
    wild = hs.text(min_size=1, max_size=12)
    n = vlib.tier(2500, 60000)
    ck.explore("concatenation", concat, judge, n)
    ck.explore("mutation", mut.filter(bool), judge, 2 * n)
    ck.explore("identifier", ident, judge, n)
    ck.explore("any text", wild, judge, n)
    sv.close()
    return ck.finish()
