"""C12: declaration forms agree, and reading a value back inverts declaring it."""
from fractions import Fraction as F
import math
import model, ref, types_ as ty, unittext, vlib
from checks import c05, c06

RULE = ("every storage unit x every applicable prefix, each declared by macro (symbol, name), macro with a storage type (14) and brand, "
        "method (f64, i32), local annotation and literal (plain and suffixed), generated values; read back with value! in the declared unit, in "
        "other units and in generated storage unit expressions of the dimension; non-trivial: value not 0 and the reading is in another unit "
        "or the form is not the plain macro")
LITT = ["f64", "f32", "i32", "i64", "u32", "u64"]
ALL = ty.FLOATS + ty.INTS
PRE = """use whippyunits::default_declarators::*;
#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandA;
#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandB;
"""


KEYWORDS = {"as", "in", "do", "if", "fn"}      # no Rust macro can be given these as a unit name


def suffix_ok(n):
    """can n follow a number literal? (an exponent marker may not)"""
    return n.isidentifier() and n[0] not in "eE_" and not n.startswith(("f32", "f64", "i8", "u8"))


def prefixes(tb):
    """name -> (log10, spellings)"""
    return {n: (k, [s for s, kk in tb.prefixes.items() if kk == k]) for n, k in tb.prefix_names.items()}


def read_exact(t, v, src, dst, cf=F(1), af=F(0)):
    """acceptable readings of stored value v (scale src) in a unit of scale dst, factor cf, offset af -> predicate, wanted"""
    r = c05.ratio(src, dst)
    if t in ty.FLOATS:
        exact = F(v) * r / cf - af
        if not (4 * c05.NORM[t] < abs(F(v) * r) < c05.MAXV[t] / 4 or v == 0) or not (4 * c05.NORM[t] < abs(exact) < c05.MAXV[t] / 4 or exact == 0):
            return None
        slack = abs(F(v) * r / cf) * c05.EPS[t] * 24 + abs(af) * c05.EPS[t] * 4
        return (lambda x: math.isfinite(x) and abs(F(x) - exact) <= slack), float(exact)
    num, den = c06.ratio(src, dst)
    if num >= c06.LIM or den >= c06.LIM or abs(v) * num >= c06.LIM:
        return None
    w = c06.trunc(v, num, den)
    if not ty.lo(t) <= w <= ty.hi(t):
        return None
    if cf == 1 and af == 0:
        return (lambda x: x == w), w
    # the fractional part may be lost before or after the conversion
    c = [F(w) / cf - af, F(v) * r / cf - af]
    tol = (abs(c[0]) + abs(af)) * 16 * F(1, 1 << 53)
    a, b = math.trunc(min(c) - tol), math.trunc(max(c) + tol)
    if not (ty.lo(t) <= a and b <= ty.hi(t)):
        return None
    return (lambda x: a <= x <= b), math.trunc(c[0])


def lit_value(rng, t):
    if t in ty.FLOATS:
        return rng.choice(["1.0", "2.5", "0.125", "1000.0", "12.75", "3.0", "1_000.5", "0.1", "98.6", "1e3", "2.5e-2"])
    return rng.choice(["1", "5", "42", "1_000", "255", "7", "90"])


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C12", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    sp = unittext.Spell(tb)
    pf = prefixes(tb)
    sv = ty.TypeServer("c12", PRE, deps=['culit = "*"'])
    storage = [u for u in tb.units if u["cfv"] == 1.0 and u["afv"] == 0]
    cases = []
    todo = []
    for u in storage:
        todo.append((u, None))
        if u["system"] == "Metric":
            todo += [(u, p) for p in pf]
    todo = todo + [x for x in todo if x[1] is None] * 3
    for n, (u, p) in enumerate(todo):
        k, psyms = pf[p] if p else (0, [""])
        s = list(u["scale"])
        s[0] += k
        s[2] += k
        macro = p is None or u["first"]          # prefixes apply to the first metric unit of a dimension
        T = ALL[(n * 5 + n // 14) % 14]
        B = rng.choice(["()", "BrandA", "BrandB"])
        forms = []           # (label, expr, storage, brand, arg index or literal)
        sym = rng.choice(psyms) + rng.choice(u["symbols"]) if macro else None
        if macro and not (sym.isidentifier() and sym not in KEYWORDS and tb.resolve(sym) and tb.resolve(sym)[0]["name"] == u["name"] and tb.resolve(sym)[1] == k):
            macro = False    # a spelling that reads as another unit: C02
        name = (p or "") + u["name"]
        arg = {"f64": 0, "i32": 2}
        outer = ""
        if macro:
            forms.append(("quantity!(symbol)", f"quantity!(v, {sym})", "f64", "()", 0))
            forms.append(("quantity!(name)", f"quantity!(v, {name})", "f64", "()", 0))
            forms.append(("typed quantity!", f"quantity!(x, {sym}, {T}, {B})" if B != "()" else f"quantity!(x, {name}, {T})", T, B, 1))
            forms.append(("type annotation", f"{{ let q: unit!({name}, {T}, {B}) = Quantity::new(x); q }}", T, B, 1))
        meth = (p or "") + u["plural"]
        forms.append(("method on f64", f"v.{meth}()", "f64", "()", 0))
        forms.append(("method on i32", f"w.{meth}()", "i32", "()", 2))
        cap = "".join(x[0].upper() + x[1:] for x in [name]) if name.isidentifier() else None
        if macro and suffix_ok(sym) and (p is None or rng.choice(psyms) is not None):
            for lt in (None, rng.choice(LITT)):
                t = lt or rng.choice(["f64", "i32"])
                lit = lit_value(rng, t)
                fn = f"l{n}_{lt or 'x'}"
                lsym = sym if p is None else None
                if p is not None:      # the literals use the prefix's own symbol
                    main = {"micro": "μ"}.get(p)
                    lsym = sym if sym[:1] not in "uμµ" or main is None else None
                if lsym is None:
                    continue
                outer += (f"#[culit::culit(whippyunits::default_declarators::literals)] fn {fn}() -> String {{ "
                          f"show({lit}{lsym}{'_' + lt if lt else ''}) }} ")
                forms.append(("literal" + (f" _{lt}" if lt else ""), f"@{fn}()", t, "()", lit))
        reads = []           # (label, expr, storage, source form scale, dst Text)
        dims = tuple(u["dims"])
        if macro:
            own = unittext.Text(sym, dims, s, F(1), F(0), [])
            others = [own]
            for q in vlib.samples(unittext.text_for(sp, dims, storage=True, affine=False), 3, f"{vlib.SEED}/{n}"):
                if not KEYWORDS & set(q.names) and all(abs(x) <= 60 for x in q.scale[:3]) and abs(q.scale[3]) <= 6:
                    others.append(q)
            for q in others:
                reads.append((q.text, f"value!(quantity!(v, {name}), {q.text})", "f64", 0, q))
            q = rng.choice(others)
            bt = f", {T}, {B}" if B != "()" else f", {T}"
            reads.append((q.text + bt, f"value!(quantity!(x, {sym}{bt}), {q.text}{bt})", T, 1, q))
        body = (f"let v: f64 = get(&a[0]); let x: {T} = get(&a[1]); let w: i32 = get(&a[2]); let mut o: Vec<String> = Vec::new(); "
                + " ".join(f"o.push({e[1:]});" if e[0] == "@" else f"o.push(show({e}));" for _, e, *_ in forms)
                + " ".join((" " if t == "f64" and a == 0 else ' if a[3] == "1" ') + f"{{ o.push(put({e})); }}" for _, e, t, a, _ in reads) + " o.join(\"\\n\")")
        sv.add(body, outer=outer)
        cases.append({"u": u, "p": p, "name": name, "s": s, "T": T, "B": B, "forms": forms, "reads": reads})
    bad = sv.build()
    for i, m in bad.items():
        c = cases[i]
        ck.report(f"no-compile:{c['name']}", f"declaring {c['name']} ({', '.join(f[1] for f in c['forms'])}) or reading it back "
                  f"({', '.join(r[1] for r in c['reads'])}) does not compile: {m}", {"unit": c["name"]})
    live = [i for i in range(len(cases)) if i not in bad]

    def judge(z):
        i, v, x, w = z
        c = cases[i]
        args = (v, x, w)
        typed = all(t == "f64" and src == 0 or t in ty.FLOATS or q.scale == c["s"] or read_exact(t, args[src], c["s"], q.scale)
                    for _, _, t, src, q in c["reads"])
        st, r = sv.call(i, ty.put("f64", v), ty.put(c["T"], x), ty.put("i32", w), int(typed))
        if st != "ok":
            return ("panic", f"declaring {c['name']} with {args} or reading it back panics: {r}")
        lines = r.split("\n")
        nf = len(c["forms"])
        for (label, e, t, b, src), l in zip(c["forms"], lines):
            d, s, gt, gb, val = ty.parse_show(l)
            want = args[src] if isinstance(src, int) else (float if t in ty.FLOATS else int)(src.replace("_", ""))
            if t == "f32":
                want = vlib.f32r(want)
            gb = gb.rsplit("::", 1)[-1]
            if (d, s, gt, gb) != (list(c["u"]["dims"]), c["s"], t, b):
                return ("type:" + label.split(" ")[0], f"{label} of {c['name']} ({e.lstrip('@')}) gives a quantity of dimension {d}, scale {s}, storage "
                        f"{gt}, brand {gb}; the unit has dimension {list(c['u']['dims'])}, scale {c['s']} (storage {t}, brand {b} asked)")
            if val != ty.put(t, want):
                return ("value:" + label.split(" ")[0], f"{label} of {c['name']} stores {ty.get(t, val)!r} for {want!r}")
        for (label, e, t, src, q), l in zip(c["reads"], lines[nf:]):
            val = args[src]
            if t in ty.FLOATS and not math.isfinite(val):
                continue
            got = ty.get(t, l)
            if q.scale == c["s"]:
                if got != val:
                    return ("identity", f"{e} with {val!r} {c['name']} reads {got!r}")
                continue
            ok = read_exact(t, val, c["s"], q.scale)
            if ok and not ok[0](got):
                return ("reading", f"{e} with {val!r} {c['name']} reads {got!r}; the value in {q.text} is {ok[1]!r}")
        return v != 0 and x != 0

    fin = hs.one_of(hs.floats(allow_nan=False), hs.floats(-1e6, 1e6), hs.integers(-10 ** 6, 10 ** 6).map(float))

    def typed(T):
        if T == "f64":
            return fin
        if T == "f32":
            return hs.one_of(hs.floats(width=32, allow_nan=False), hs.integers(-4000, 4000).map(float))
        return hs.one_of(hs.integers(ty.lo(T), ty.hi(T)), hs.integers(max(ty.lo(T), -1000), min(ty.hi(T), 1000)))
    show = lambda z: {"unit": cases[z[0]]["name"], "f64": z[1], cases[z[0]]["T"]: str(z[2]), "i32": z[3], "forms": [f[1] for f in cases[z[0]]["forms"]]}
    for i in live:
        T = cases[i]["T"]
        for v in (1.0, 0.1, -273.5):
            x = v if T == "f64" else vlib.f32r(v) if T == "f32" else (max(ty.lo(T), int(v * 10)) if v < 0 else int(v * 100))
            if T not in ty.FLOATS:
                x = min(x, ty.hi(T))
            z = (i, v, x, int(v * 100))
            r = judge(z)
            ck.count("all-units", (i, v), r is True, show(z))
            if isinstance(r, tuple):
                ck.report(r[0], r[1], show(z))
    pick = hs.integers(0, len(live) - 1).map(lambda k: live[k]).flatmap(
        lambda i: hs.tuples(hs.just(i), fin, typed(cases[i]["T"]), hs.integers(-2 ** 31, 2 ** 31 - 1)))
    ck.explore("values", pick, judge, vlib.tier(24000, 300000), sample=show, key=lambda z: repr(z))
    ck.notes["units_x_prefixes"] = len({c["name"] for c in cases})
    ck.notes["forms"] = sum(len(c["forms"]) for c in cases)
    ck.notes["readings"] = sum(len(c["reads"]) for c in cases)
    sv.close()
    return ck.finish()
