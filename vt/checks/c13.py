"""C13: non-storage and affine units convert on the way in and back out."""
from fractions import Fraction as F
import math
import model, ref, types_ as ty, unittext, vlib
from checks import c05
from checks.c12 import ALL, KEYWORDS, LITT, PRE, lit_value, read_exact, suffix_ok

RULE = ("every unit with its own conversion factor or zero offset, declared by macro (symbol, name; all 14 storage types and brands), method "
        "(f64, i32, i64) and literals (plain and suffixed), and generated compound expressions of such units, with generated values; the stored amount "
        "against the exact physical one; read back with value! in the same unit and in other storage, non-storage and affine units of the "
        "dimension; non-trivial: value not 0")


def stored_exact(t, v, cf, af):
    """acceptable stored values of v units = v*cf + af"""
    exact = F(v) * cf + af
    tol = (abs(F(v) * cf) + abs(af)) * c05.EPS["f32" if t == "f32" else "f64"] * 8 + abs(F(v) * cf) * F(1, 1 << 50)
    if t in ty.FLOATS:
        if not (4 * c05.NORM[t] < abs(exact) + tol < c05.MAXV[t] / 4 or v == 0):
            return None
        return (lambda x: math.isfinite(x) and abs(F(x) - exact) <= tol + c05.MIN[t]), float(exact)
    a, b = math.trunc(exact - tol), math.trunc(exact + tol)
    if not (ty.lo(t) <= a and b <= ty.hi(t)):
        return None
    return (lambda x: a <= x <= b), math.trunc(exact)


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C13", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    defs = {u.name: u for u in ref.UNITS}
    sp = unittext.Spell(tb)
    sv = ty.TypeServer("c13", PRE, deps=['culit = "*"'])
    odd = [u for u in tb.units if u["cfv"] != 1.0 or u["afv"] != 0]
    cases = []

    def reads_for(q, rngkey, n=4):
        """texts of the dimension to read in"""
        out = [q]
        for x in vlib.samples(hs.one_of(unittext.text_for(sp, q.dims, affine=True, simple=True), unittext.text_for(sp, q.dims, affine=True)), n, rngkey):
            if not KEYWORDS & set(x.names) and all(abs(z) <= 60 for z in x.scale[:3]) and abs(x.scale[3]) <= 6 and x.text not in [o.text for o in out]:
                out.append(x)
        return out

    def add(q, forms, outer, T, B, n):
        rd = reads_for(q, f"{vlib.SEED}/{n}", vlib.tier(3, 6))
        reads = [(f"value!(quantity!(v, {q.text}), {x.text})" if typ is None else f"value!(quantity!(x, {q.text}, {T}, {B}), {x.text}, {T}, {B})", typ or "f64", 1 if typ else 0, x)
                 for x in rd for typ in ([None] if x is not rd[0] else [None, T])]
        y = rng.choice(rd)
        if y is not rd[0]:
            reads.append((f"value!(quantity!(x, {q.text}, {T}, {B}), {y.text}, {T}, {B})", T, 1, y))
        body = (f"let v: f64 = get(&a[0]); let x: {T} = get(&a[1]); let w: i32 = get(&a[2]); let w64: i64 = get(&a[3]); let mut o: Vec<String> = Vec::new(); "
                + " ".join(f"o.push({e[1:]});" if e[0] == "@" else f"o.push(show({e}));" for _, e, *_ in forms)
                + " ".join((" " if t == "f64" and src == 0 else ' if a[4] == "1" ') + f"{{ o.push(put({e})); }}" for e, t, src, _ in reads) + " o.join(\"\\n\")")
        sv.add(body, outer=outer)
        cases.append({"q": q, "forms": forms, "reads": reads, "T": T, "B": B})

    n = 0
    for rep in range(vlib.tier(6, 20)):
        for u in odd:
            n += 1
            T = ALL[(n * 5 + rep) % 14]
            B = rng.choice(["()", "BrandA", "BrandB"])
            cands = [x for x in u["symbols"] + [u["name"]] if x not in KEYWORDS]
            sym = cands[rep % len(cands)]
            affine = u["afv"] != 0
            q = unittext.Text(sym, tuple(u["dims"]), list(u["scale"]), F(u["cfv"]), F(u["afv"]), [sym])
            forms = [("quantity!", f"quantity!(v, {sym})", "f64", "()", 0), ("typed quantity!", f"quantity!(x, {sym}, {T}, {B})", T, B, 1),
                     ("typed quantity!", f"quantity!(x, {u['name']}, {T})", T, "()", 1),
                     ("method on f64", f"v.{u['plural']}()", "f64", "()", 0),
                     ("method on i32", f"w.{u['plural']}()", "f64" if affine else "i32", "()", 2)]
            if not affine:
                forms.append(("method on i64", f"w64.{u['plural']}()", "i64", "()", 3))
            outer = ""
            for lt in (None, None, rng.choice(LITT)):
                lsym = rng.choice(cands)
                if not suffix_ok(lsym):
                    continue
                t = lt or rng.choice(["f64", "i32"])
                lit = lit_value(rng, t)
                fn = f"l{n}_{len(forms)}"
                outer += (f"#[culit::culit(whippyunits::default_declarators::literals)] fn {fn}() -> String {{ "
                          f"show({lit}{lsym}{'_' + lt if lt else ''}) }} ")
                forms.append((f"literal {lit}{lsym}{'_' + lt if lt else ''}", f"@{fn}()", t, "()", lit))
            add(q, forms, outer, T, B, n)
    # powers and compounds
    lin = [u for u in odd if u["afv"] == 0]

    def texts():
        @hs.composite
        def f(draw):
            parts = draw(hs.lists(hs.tuples(hs.sampled_from(lin), hs.sampled_from([1, 1, 2, -1, -2, 3])), min_size=1, max_size=3))
            dims = [0] * 8
            for u, e in parts:
                dims = [a + e * b for a, b in zip(dims, u["dims"])]
            x = draw(hs.integers(0, 2))
            if x:
                dims[draw(hs.integers(0, 4))] += draw(hs.sampled_from([1, -1, -2]))
            return tuple(dims)
        return f().flatmap(lambda d: unittext.text_for(sp, d, affine=False))
    for i, q in enumerate(vlib.samples(texts(), vlib.tier(500, 2500), f"{vlib.SEED}/compound")):
        if q.cf == 1 or KEYWORDS & set(q.names) or any(abs(z) > 60 for z in q.scale[:3]) or abs(q.scale[3]) > 6:
            continue
        n += 1
        T = ALL[i % 14]
        B = rng.choice(["()", "BrandA"])
        add(q, [("quantity!", f"quantity!(v, {q.text})", "f64", "()", 0), ("typed quantity!", f"quantity!(x, {q.text}, {T}, {B})", T, B, 1)], "", T, B, n)
    bad = sv.build()
    for i, m in bad.items():
        c = cases[i]
        ck.report(f"no-compile:{c['q'].text}", f"declaring {c['q'].text} ({', '.join(f[1] for f in c['forms'])}) or reading it back "
                  f"({', '.join(r[0] for r in c['reads'])}) does not compile: {m}", {"unit": c["q"].text})
    live = [i for i in range(len(cases)) if i not in bad]

    def judge(z):
        i, v, x, w, w64 = z
        c = cases[i]
        q = c["q"]
        args = (v, x, w, w64)
        typed_ok = True
        st_x = stored_exact(c["T"], x, q.cf, q.af)
        stored = {}
        if c["T"] not in ty.FLOATS:
            # integer rescaling may overflow (and then panics): decide from the value the library stored
            st, r = sv.call(i, ty.put("f64", v), ty.put(c["T"], x), w, w64, 0)
            if st == "ok":
                for (label, e, t, b, src), l in zip(c["forms"], r.split("\n")):
                    if label == "typed quantity!":
                        stored[1] = int(ty.parse_show(l)[4])
            if 1 not in stored:
                typed_ok = False
            else:
                typed_ok = all(src == 0 or read_exact(t, stored[1], q.scale, y.scale, y.cf, y.af) for _, t, src, y in c["reads"])
        st, r = sv.call(i, ty.put("f64", v), ty.put(c["T"], x), w, w64, int(typed_ok))
        if st != "ok":
            return ("panic", f"declaring {q.text} with {args} or reading it back panics: {r}")
        lines = r.split("\n")
        for (label, e, t, b, src), l in zip(c["forms"], lines):
            d, s, gt, gb, val = ty.parse_show(l)
            gb = gb.rsplit("::", 1)[-1]
            kind = "literal" if label.startswith("literal") else label
            if (d, s, gt, gb) != (list(q.dims), q.scale, t, b):
                return ("type:" + kind, f"{label} of {q.text} ({e.lstrip('@')}) gives a quantity of dimension {d}, scale {s}, storage {gt}, brand {gb}; "
                        f"the unit has dimension {list(q.dims)}, scale {q.scale} (storage {t}, brand {b} asked)")
            given = args[src] if isinstance(src, int) else (float if t in ty.FLOATS else int)(src.replace("_", ""))
            if t == "f32":
                given = vlib.f32r(given)
            got = ty.get(t, val)
            if isinstance(given, float) and not math.isfinite(given):
                continue
            ok = stored_exact(t, given, q.cf, q.af)
            if ok and not ok[0](got):
                return ("stored:" + kind, f"{label} of {q.text} with {given!r} stores {got!r} in scale {s}; the equivalent amount is {ok[1]!r}")
            u = tb.resolve(q.names[0]) if len(q.names) == 1 else None
            if ok and t == "f64" and u and len(q.names) == 1 and q.text == q.names[0] and u[0]["name"] in defs and given:
                D = defs[u[0]["name"]]          # against the published definition as well
                want = (F(given) + F(D.offset)) * D.value if getattr(D, "offset", 0) else F(given) * D.value
                si = F(got) * ref.scale_value(q.scale)
                if abs(si - want) > (abs(F(given) * D.value) + abs(F(getattr(D, "offset", 0)) * D.value)) * F(1, 10 ** 6):
                    return ("physical:" + kind, f"{label} of {q.text} with {given!r} stores {float(si)!r} in coherent SI units; by definition it is {float(want)!r}")
        # reading
        base = {0: None, 1: None}
        for (label, e, t, b, src), l in zip(c["forms"], lines):
            if label in ("quantity!", "typed quantity!") and src in base:
                base[src] = ty.get(t, ty.parse_show(l)[4])
        live_reads = [r for r in c["reads"] if (r[1] == "f64" and r[2] == 0) or typed_ok]
        for (e, t, src, y), l in zip(live_reads, lines[len(c["forms"]):]):
            val, got = args[src], ty.get(t, l)
            if isinstance(val, float) and not math.isfinite(val) or isinstance(base[src], float) and not math.isfinite(base[src]):
                continue
            if isinstance(val, float) and not stored_exact(t, val, q.cf, q.af):
                continue
            ok = read_exact(t, base[src], q.scale, y.scale, y.cf, y.af)
            if ok and not ok[0](got):
                return ("reading", f"{e} with {val!r}: reads {got!r}; the stored {base[src]!r} is {ok[1]!r} {y.text}")
            if ok and t in ty.FLOATS:        # and against the declared value itself
                want = (F(val) * q.cf + q.af) * c05.ratio(q.scale, y.scale) / y.cf - y.af
                slack = (abs(F(val) * q.cf) + abs(q.af)) * c05.ratio(q.scale, y.scale) / y.cf * c05.EPS[t] * 40 + abs(y.af) * c05.EPS[t] * 8
                if abs(F(got) - want) > slack:
                    return ("round-trip", f"{e} with {val!r} reads {got!r}; the equivalent is {float(want)!r}")
            if ok and t not in ty.FLOATS and y is q:
                # each way truncates once: at most one stored unit is lost
                lost = 1 / q.cf + 1
                if stored_exact(t, val, q.cf, q.af) and abs(got - val) > lost + abs(val) * F(1, 1 << 48):
                    return ("round-trip", f"{e} with {val!r} reads {got!r}")
        return v != 0 and x != 0

    fin = hs.one_of(hs.floats(-1e6, 1e6), hs.floats(-1e60, 1e60), hs.integers(-10 ** 6, 10 ** 6).map(float), hs.sampled_from([-40.0, -459.67, -273.15, 32.0, 98.6, 0.1]))

    def typed(T):
        if T == "f64":
            return fin
        if T == "f32":
            return hs.one_of(hs.floats(-2.0 ** 40, 2.0 ** 40, width=32), hs.integers(-4000, 4000).map(float))
        return hs.one_of(hs.integers(ty.lo(T) // 4, ty.hi(T) // 4), hs.integers(max(ty.lo(T), -1000), min(ty.hi(T), 1000)))
    show = lambda z: {"unit": cases[z[0]]["q"].text, "f64": z[1], cases[z[0]]["T"]: str(z[2]), "i32": z[3], "i64": z[4], "forms": [f[1] for f in cases[z[0]]["forms"]]}
    for i in live:
        T = cases[i]["T"]
        for v in (1.0, 0.1, -273.5):
            x = v if T == "f64" else vlib.f32r(v) if T == "f32" else min(ty.hi(T), max(ty.lo(T), int(v * 20)))
            z = (i, v, x, int(v * 1000), int(v * 10 ** 6))
            r = judge(z)
            ck.count("grid", (i, v), r is True, show(z))
            if isinstance(r, tuple):
                ck.report(r[0], r[1], show(z))
    pick = hs.integers(0, len(live) - 1).map(lambda k: live[k]).flatmap(
        lambda i: hs.tuples(hs.just(i), fin, typed(cases[i]["T"]), hs.integers(-2 ** 28, 2 ** 28), hs.integers(-2 ** 50, 2 ** 50)))
    ck.explore("values", pick, judge, vlib.tier(30000, 400000), sample=show, key=lambda z: repr(z))
    ck.notes["forms"] = sum(len(c["forms"]) for c in cases)
    ck.notes["readings"] = sum(len(c["reads"]) for c in cases)
    ck.notes["compounds"] = sum(1 for c in cases if len(c["forms"]) == 2)
    sv.close()
    return ck.finish()
