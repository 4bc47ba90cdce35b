"""C15: locally chosen base scales change storage, never the quantity."""
from fractions import Fraction as F
import math
import model, ref, types_ as ty, unittext, vlib
from checks import c05, c06
from checks.c12 import KEYWORDS, lit_value, prefixes, read_exact, suffix_ok

RULE = ("generated declarator modules (a base scale per dimension drawn from every storage unit and prefix; with and without brand; brand only) x "
        "generated declarations in them: macro with simple, named, prefixed, powered and compound units and each accepted storage type, methods "
        "(f64, i32, i64), literals; type must be the chosen scales', the amount the declared one; sums and readings of local quantities; "
        "non-trivial: value not 0 and the chosen scale differs from the declared one")
LOCAL_T = ["f64", "f32", "i32", "i64", "isize", "usize"]
BASIS = ["Mass", "Length", "Time", "Current", "Temperature", "Amount", "Luminosity", "Angle"]
USUAL = ["Kilogram", "Meter", "Second", "Ampere", "Kelvin", "Mole", "Candela", "Radian"]


def cap(n):
    return n[0].upper() + n[1:]


def bounded(s, k=60):
    return all(abs(x) <= k for x in s[:3]) and abs(s[3]) <= 6


def stage_ints(t, v, src, dst, cf, af):
    """interval of acceptable integers for v units (cf, af, scale src) stored at scale dst"""
    num, den = c06.ratio(src, dst)
    if num >= c06.LIM or den >= c06.LIM or not ty.lo(t) <= v <= ty.hi(t):
        return None
    exact = F(v) * cf + af
    if cf == 1 and af == 0:
        if abs(v) * num >= c06.LIM:
            return None
        w = c06.trunc(v, num, den)
        r = w, w
    else:
        tol = (abs(exact) + abs(af)) * F(1, 1 << 49)
        a, b = math.trunc(exact - tol), math.trunc(exact + tol)
        if not (ty.lo(t) <= a and b <= ty.hi(t)) or max(abs(a), abs(b)) * num >= c06.LIM:
            return None
        w = [c06.trunc(a, num, den), c06.trunc(b, num, den), math.trunc((exact - tol) * num / den), math.trunc((exact + tol) * num / den)]
        r = min(w), max(w)
    if not (ty.lo(t) <= r[0] and r[1] <= ty.hi(t)):
        return None
    return r


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C15", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    sp = unittext.Spell(tb)
    pf = prefixes(tb)
    scales = {}          # basis index -> {identifier: scale}
    for i in range(8):
        scales[i] = {}
        for u in tb.units:
            if u["dims"] == [int(i == j) for j in range(8)] and u["cfv"] == 1.0:
                scales[i][cap(u["name"])] = list(u["scale"])
                if u["first"]:
                    for p, (k, _) in pf.items():
                        scales[i][cap(p + u["name"])] = [u["scale"][0] + k, u["scale"][1], u["scale"][2] + k, u["scale"][3]]
    spaces = []          # (ns, brand or None, scale per basis or None)
    items = ""
    for n in range(vlib.tier(7, 20)):
        brand = f"Br{n}" if n % 3 == 1 or n == 0 else None
        if n == 0:
            pick = None
        elif n == 1:
            pick = ["Kilogram", "Millimeter"] + USUAL[2:]
        else:
            pick = []
            for i in range(8):
                ids = sorted(scales[i])
                plain = [x for x in ids if not any(x.startswith(cap(p)) for p in pf)]
                near = [x for x in ids if all(abs(z) <= 9 for z in scales[i][x])]
                pick.append(rng.choice([USUAL[i], rng.choice(plain), rng.choice(near), rng.choice(near), rng.choice(ids)] if n != 2 else [rng.choice(plain)]))
        ns = f"ns{n}"
        if pick is None:
            items += f"define_unit_declarators!({ns}, {brand});\n"
            spaces.append((ns, brand, None))
        else:
            items += f"define_unit_declarators!({ns}, {brand + ', ' if brand else ''}{', '.join(pick)});\n"
            spaces.append((ns, brand, [scales[i][pick[i]] for i in range(8)], pick))
    sv = ty.TypeServer("c15", items, deps=['culit = "*"'])
    cases = []
    basis_first = {i: next(u for u in tb.units if u["first"] and u["dims"] == [int(i == j) for j in range(8)]) for i in range(8)}

    def target(space, dims, own):
        if space[2] is None:
            return own
        return [sum(dims[i] * space[2][i][k] for i in range(8)) for k in range(4)]

    def add(space, q, forms, outer=""):
        """forms: (label, expr, storage, argument index or literal)"""
        tgt = target(space, q.dims, q.scale)
        b = f"{space[0]}::{space[1]}" if space[1] else "()"
        body = ("let v: f64 = get(&a[0]); let v32: f32 = get(&a[1]); let w: i32 = get(&a[2]); let l: i64 = get(&a[3]); let z: isize = get(&a[4]); let y: usize = get(&a[5]); "
                f"let mut o: Vec<String> = Vec::new(); {{ #[allow(unused)] use {space[0]}::*; "
                + " ".join(f'if a[6].as_bytes()[{j}] == b\'1\' {{ o.push({e[1:]}); }} else {{ o.push(String::new()); }}' if e[0] == "@" else
                           f'if a[6].as_bytes()[{j}] == b\'1\' {{ o.push(show({e})); }} else {{ o.push(String::new()); }}' for j, (_, e, *_) in enumerate(forms))
                + " } o.join(\"\\n\")")
        sv.add(body, outer=outer)
        cases.append({"space": space, "q": q, "forms": forms, "target": tgt})

    n = 0
    ARG = {"f64": ("v", 0), "f32": ("v32", 1), "i32": ("w", 2), "i64": ("l", 3), "isize": ("z", 4), "usize": ("y", 5)}
    for space in spaces:
        ns = space[0]
        mac = f"{ns}::quantity!"
        brand_t = f"{ns}::{space[1]}" if space[1] else "()"
        # simple units: every unit, a sample of prefixes
        todo = []
        for u in tb.units:
            todo += [(u["symbols"][0], 0, u), (u["name"], 0, u)]
            if u["first"] and u["system"] == "Metric":
                for p in rng.sample(sorted(pf), vlib.tier(3, 12)):
                    k, syms = pf[p]
                    todo += [(rng.choice(syms) + rng.choice(u["symbols"]), k, u)] + ([(p + u["name"], k, u)] if rng.random() < .5 else [])
        rng.shuffle(todo)
        for sym, k, u in todo[:vlib.tier(70, 400)]:
            r = tb.resolve(sym)
            if not sym.isidentifier() or sym in KEYWORDS or not r or r[0]["name"] != u["name"] or r[1] != k:
                continue
            n += 1
            q = unittext.Text(sym, tuple(u["dims"]), [u["scale"][0] + k, u["scale"][1], u["scale"][2] + k, u["scale"][3]], F(u["cfv"]), F(u["afv"]), [sym])
            if not bounded([a - b for a, b in zip(q.scale, target(space, q.dims, q.scale))], 90):
                continue
            T = rng.choice(LOCAL_T)
            forms = [("quantity!", f"{mac}(v, {sym})", "f64", 0), ("typed quantity!", f"{mac}({ARG[T][0]}, {sym}, {T})", T, ARG[T][1])]
            if u["afv"] == 0 and rng.random() < .4:
                e = rng.choice([2, 3, -1, -2])
                qq = unittext.Text(f"{sym}^{e}", tuple(x * e for x in q.dims), [x * e for x in q.scale], q.cf ** e, F(0), [sym])
                if bounded([a - b for a, b in zip(qq.scale, target(space, qq.dims, qq.scale))], 90) and bounded(qq.scale, 90):
                    sp2 = qq.text if e < 0 or not sym.isascii() or rng.random() < .5 else f"{sym}{e}"
                    qq.text = sp2
                    add(space, qq, [("quantity!", f"{mac}(v, {sp2})", "f64", 0), ("typed quantity!", f"{mac}({ARG[T][0]}, {sp2}, {T})", T, ARG[T][1])])
            outer = ""
            if suffix_ok(sym) and (k == 0 and (sym in u["symbols"] or u["cfv"] != 1 or u["afv"]) or sym in ("km", "mm", "kg", "ms", "kJ", "mW", "kN", "mmol", "mA")):
                lt = rng.choice([None, "f64", "f32", "i32", "i64"])
                t = lt or rng.choice(["f64", "i32"])
                lit = lit_value(rng, t)
                outer = (f"#[culit::culit({ns}::literals)] fn l{n}() -> String {{ show({lit}{sym}{'_' + lt if lt else ''}) }} ")
                forms.append((f"literal {lit}{sym}{'_' + lt if lt else ''}", f"@l{n}()", t, lit))
            add(space, q, forms, outer)
        # methods
        for i in range(8):
            u = basis_first[i]
            ps = [None] + (rng.sample(sorted(pf), vlib.tier(4, 24)) if space[2] is not None else [])
            for p in ps:
                k = pf[p][0] if p else 0
                q = unittext.Text((p or "") + u["name"], tuple(u["dims"]), [u["scale"][0] + k, u["scale"][1], u["scale"][2] + k, u["scale"][3]], F(1), F(0), [])
                m = (p or "") + u["plural"]
                if not bounded([a - b for a, b in zip(q.scale, target(space, q.dims, q.scale))], 90):
                    continue
                add(space, q, [("method on f64", f"v.{m}()", "f64", 0), ("method on i32", f"w.{m}()", "i32", 2), ("method on i64", f"l.{m}()", "i64", 3)])
        # compounds
        def texts():
            return hs.lists(hs.sampled_from([0, 0, 0, 1, -1, 1, -2, 2, 3]), min_size=8, max_size=8).filter(any).flatmap(
                lambda d: unittext.text_for(sp, tuple(d), affine=False))
        for q in vlib.samples(texts(), vlib.tier(24, 120), f"{vlib.SEED}/{ns}"):
            if KEYWORDS & set(q.names) or not bounded(q.scale) or not bounded([a - b for a, b in zip(q.scale, target(space, q.dims, q.scale))], 90):
                continue
            T = rng.choice(LOCAL_T)
            forms = [("quantity!", f"{mac}(v, {q.text})", "f64", 0), ("typed quantity!", f"{mac}({ARG[T][0]}, {q.text}, {T})", T, ARG[T][1])]
            # a sum of two local quantities declared in different units has the local type; a reading restores the amount
            forms.append(("sum", f"{mac}(v, {q.text}) + {ty.new(target(space, q.dims, q.scale), q.dims, '0.0', 'f64', brand_t)}", "f64", 0))
            add(space, q, forms)
    bad = sv.build(rounds=6)
    for i, m in bad.items():
        c = cases[i]
        ck.report(f"no-compile:{c['space'][0]}:{c['q'].text}", f"in declarators {c['space']}, declaring {c['q'].text} ({', '.join(f[1] for f in c['forms'])}) does not compile: {m}",
                  {"space": str(c["space"]), "unit": c["q"].text})
    live = [i for i in range(len(cases)) if i not in bad]

    def judge(zz):
        i, args = zz[0], zz[1:]
        c = cases[i]
        q, tgt, space = c["q"], c["target"], c["space"]
        r = c05.ratio(q.scale, tgt)
        brand = space[1] or "()"
        plan, mask = [], ""
        for label, e, t, src in c["forms"]:
            given = args[src] if isinstance(src, int) else (float if t in ty.FLOATS else int)(src.replace("_", ""))
            if t == "f32":
                given = vlib.f32r(given)
            if t in ty.FLOATS:
                exact = (F(given) * q.cf + q.af) * r
                mid = F(given) * q.cf + q.af
                inside = all(x == 0 or 8 * c05.NORM[t] < abs(x) < c05.MAXV[t] / 8 for x in (exact, mid, F(given) * q.cf))
                slack = (abs(F(given) * q.cf) + abs(q.af)) * r * c05.EPS[t] * 40
                plan.append((given, (exact - slack, exact + slack) if inside else None, float(exact) if inside else None))
                mask += "1"
            else:
                w = stage_ints(t, given, q.scale, tgt, q.cf, q.af)
                plan.append((given, w, w and w[0]))
                mask += "1" if w else "0"
        st, out = sv.call(i, ty.put("f64", args[0]), ty.put("f32", args[1]), *args[2:], mask)
        if st != "ok":
            return ("panic", f"in declarators {space}, declaring {q.text} with {args} panics: {out}")
        for (label, e, t, src), l, (given, w, want) in zip(c["forms"], out.split("\n"), plan):
            if l == "":
                continue
            d, s, gt, gb, val = ty.parse_show(l)
            gb = gb.rsplit("::", 1)[-1]
            kind = label.split(" ")[0]
            if (d, s, gt, gb) != (list(q.dims), tgt, t, brand):
                return ("type:" + kind, f"in declarators {space}, {label} of {q.text} ({e}) gives dimension {d}, scale {s}, storage {gt}, brand {gb}; "
                        f"the chosen scales give dimension {list(q.dims)}, scale {tgt} ({t}, brand {brand})")
            got = ty.get(t, val)
            if w is not None and not (math.isfinite(got) and w[0] <= F(got) <= w[1]):
                return ("amount:" + kind, f"in declarators {space}, {label} of {q.text} ({e}) with {given!r} stores {got!r} in scale {s}; the same amount is {want!r}")
        return args[0] != 0 and (q.scale != tgt or q.cf != 1 or q.af != 0)

    fl = hs.one_of(hs.floats(-1e9, 1e9), hs.floats(-1e90, 1e90), hs.integers(-10 ** 6, 10 ** 6).map(float))
    f32 = hs.one_of(hs.floats(-2.0 ** 30, 2.0 ** 30, width=32), hs.integers(-4000, 4000).map(float))

    def ints(t):
        return hs.one_of(hs.integers(ty.lo(t), ty.hi(t)), hs.integers(max(0, ty.lo(t)), 10 ** 6), hs.integers(max(ty.lo(t), -1000), 1000))
    show = lambda z: {"declarators": str(cases[z[0]]["space"]), "unit": cases[z[0]]["q"].text, "values": str(z[1:]), "forms": [f[1] for f in cases[z[0]]["forms"]]}
    for i in live:
        for v in (1.0, -2.5, 1000.0):
            k = int(abs(v) * 40)
            z = (i, v, v, -k, k * 10 ** 6, k, k)
            r = judge(z)
            ck.count("grid", (i, v), r is True, show(z))
            if isinstance(r, tuple):
                ck.report(r[0] + f":{cases[i]['space'][0]}", r[1], show(z))
    pick = hs.integers(0, len(live) - 1).map(lambda k: live[k]).flatmap(
        lambda i: hs.tuples(hs.just(i), fl, f32, ints("i32"), ints("i64"), ints("isize"), ints("usize")))
    ck.explore("values", pick, judge, vlib.tier(12000, 200000), sample=show, key=lambda z: repr(z))
    ck.notes["modules"] = [str(s) for s in spaces]
    ck.notes["declarations"] = sum(len(c["forms"]) for c in cases)
    sv.close()
    return ck.finish()
