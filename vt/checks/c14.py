"""C14: a unit expression names one type, however it is written."""
from fractions import Fraction as F
import model, ref, types_ as ty, unittext, vlib

RULE = ("families of generated unit expressions (random products, quotients, nested powers, prefixes, names, powers of ten): rearrangements and "
        "compensated rewrites of one another, and near misses; per family the types named by unit!/quantity! for a random storage type and brand, "
        "compared pairwise and with the type of the expression's dimension and scale computed by an independent parser, plus declarator aliases and methods; "
        "non-trivial: two differently written expressions")
ALL = ty.INTS + ty.FLOATS
OUT = """
pub struct BrandA; pub struct BrandB;
pub trait TExps: 'static { fn e() -> String; }
impl<const M: i16, const L: i16, const T: i16, const I: i16, const H: i16, const N: i16, const J: i16, const A: i16,
     const P2: i16, const P3: i16, const P5: i16, const PI: i16, X: 'static, B: 'static> TExps
    for Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<M>, _L<L>, _T<T>, _I<I>, _Θ<H>, _N<N>, _J<J>, _A<A>>, X, B> {
    fn e() -> String { format!("{:?};{:?};{};{}", [M, L, T, I, H, N, J, A], [P2, P3, P5, PI], std::any::type_name::<X>(), std::any::type_name::<B>()) }
}
fn e<Q: TExps>() -> String { Q::e() }
fn id<Q: 'static>() -> std::any::TypeId { std::any::TypeId::of::<Q>() }
fn same<A: 'static, B: 'static>() -> bool { id::<A>() == id::<B>() }
fn of<Q: 'static>(_: &Q) -> std::any::TypeId { std::any::TypeId::of::<Q>() }
"""


class Term:
    """n^e, or 10^e when n is None"""

    def __init__(self, n, e, u=None, k=0):
        self.n, self.e, self.u, self.k = n, e, u, k


def meaning(terms):
    d, s = [0] * 8, [0] * 4
    for t in terms:
        us = [1, 0, 1, 0] if t.u is None else [t.u["scale"][0] + t.k, t.u["scale"][1], t.u["scale"][2] + t.k, t.u["scale"][3]]
        s = [a + t.e * b for a, b in zip(s, us)]
        if t.u:
            d = [a + t.e * b for a, b in zip(d, t.u["dims"])]
    return d, s


def write(rng, terms):
    """a random way of writing the product of the terms"""
    def atom(t, e):
        if t.n is None:
            if rng.random() < .4 and 0 < e < 6:
                return "1" + "0" * e
            return f"10^{e}" if e != 1 else "10"
        if e == 1:
            return t.n
        if e > 0 and t.n.isascii() and rng.random() < .5:
            return f"{t.n}{e}"
        return f"{t.n}^{e}"

    def paren(s):
        return s if s.isidentifier() and not s[-1].isdigit() else f"({s})"

    def prod(ts):
        """text of a product at 'factor' level: no top-level quotient"""
        if len(ts) == 1:
            t = ts[0]
            if t.n is not None and abs(t.e) > 1 and rng.random() < .25:
                for f in (2, 3, 5, -1):
                    if t.e % f == 0:
                        return f"({atom(t, t.e // f)})^{f}"
            return atom(t, t.e)
        if rng.random() < .2:
            for f in (2, 3, -1, -2):
                if all(t.e % f == 0 and (t.n or t.e // f) for t in ts):
                    return f"({quot([Term(t.n, t.e // f, t.u, t.k) for t in ts])})^{f}"
        cut = rng.randrange(1, len(ts))
        m = rng.choice(["*", " * ", " . "])
        l, r = prod(ts[:cut]), prod(ts[cut:])
        if rng.random() < .3 or cut < len(ts) - 1 and rng.random() < .3:
            r = f"({quot(ts[cut:])})"
        if "." in m and (l[-1].isdigit() or r[0].isdigit()):
            m = "*"
        return l + m + r

    def quot(ts):
        num = [t for t in ts if t.e > 0 or rng.random() < .3]
        den = [Term(t.n, -t.e, t.u, t.k) for t in ts if t not in num]
        rng.shuffle(num)
        rng.shuffle(den)
        if not den or rng.random() < .25:
            return prod(ts)
        out = prod(num) if num else "1"
        while den:
            c = rng.randrange(1, len(den) + 1)
            out += rng.choice(["/", " / "]) + prod(den[:c])
            den = den[c:]
        return out
    ts = list(terms)
    # split one power into two factors, or a pair that cancels
    if ts and rng.random() < .3:
        i = rng.randrange(len(ts))
        t = ts[i]
        x = rng.choice([1, -1, 2])
        if t.e != x:
            ts[i:i + 1] = [Term(t.n, x, t.u, t.k), Term(t.n, t.e - x, t.u, t.k)]
    rng.shuffle(ts)
    return quot(ts) if ts else "1"


def respell(rng, sp, terms):
    """the same factors with other spellings of the same unit and prefix, and powers of ten moved about"""
    out, shift = [], 0
    for t in terms:
        if t.u is None:
            shift += t.e
            continue
        l = sp.of[t.u["name"]]
        same = [x for x in l if x[1] == t.k]
        if rng.random() < .35:
            n, k = rng.choice(l)
            shift += (t.k - k) * t.e
        else:
            n, k = rng.choice(same)
        out.append(Term(n, t.e, t.u, k))
    # absorb the shift in the prefix of a first power, else in a literal
    for i, t in enumerate(out):
        if shift and abs(t.e) == 1 and rng.random() < .5:
            l = [x for x in sp.of[t.u["name"]] if x[1] == t.k + shift * t.e]
            if l:
                out[i] = Term(*rng.choice(l)[:1], t.e, t.u, t.k + shift * t.e)
                shift = 0
    if shift:
        out.append(Term(None, shift))
    return out


def miss(rng, sp, terms, storage):
    """a near miss"""
    out = list(terms)
    units = [i for i, t in enumerate(out) if t.u]
    w = rng.randrange(4)
    if not units or w == 0:
        return out + [Term(None, rng.choice([1, -1, 3, -3]))]
    i = rng.choice(units)
    t = out[i]
    if w == 1:
        e = t.e + rng.choice([1, -1])
        out[i:i + 1] = [Term(t.n, e, t.u, t.k)] if e else []
    elif w == 2:
        n, k = rng.choice(sp.of[t.u["name"]])
        out[i] = Term(n, t.e, t.u, k)
    else:
        u = rng.choice([u for u in storage if u["dims"] == t.u["dims"]])
        n, k = rng.choice([x for x in sp.of[u["name"]] if x[1] == 0])
        out[i] = Term(n, t.e, u, k)
    return out


def value(rng, t):
    if t in ty.FLOATS:
        return vlib.f32r(rng.uniform(-1e3, 1e3))
    return rng.randint(max(ty.lo(t), -100), 100)


def run():
    ck = vlib.Check("C14", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    sp = unittext.Spell(tb)
    storage = [u for u in tb.units if u["cfv"] == 1.0 and u["afv"] == 0 and sp.of[u["name"]]]
    sv = ty.TypeServer("c14", OUT)
    cases = []
    for _ in range(vlib.tier(420, 3000)):
        n = rng.choice([1, 1, 2, 2, 3, 3, 4, 6, 8])
        big = rng.random() < .1
        base = []
        for _ in range(n):
            u = rng.choice(storage)
            s, k = rng.choice(sp.of[u["name"]]) if rng.random() < .6 else rng.choice([x for x in sp.of[u["name"]] if x[1] == 0])
            base.append(Term(s, rng.choice([1, 1, 1, 2, 3, -1, -1, -2, -3, 4, 6]) if not big else rng.choice([12, -37, 100, -61, 81]), u, k))
        if rng.random() < .25:
            base.append(Term(None, rng.choice([1, 2, 3, -3, 6, -9])))
        ts = [base, respell(rng, sp, base), respell(rng, sp, base), miss(rng, sp, base, storage), miss(rng, sp, respell(rng, sp, base), storage)]
        ex = []
        for t in ts:
            d, s = meaning(t)
            if any(abs(x) > 3000 for x in d + s):
                continue
            txt = write(rng, t)
            p = unittext.parse(tb, txt) if unittext.plain(txt) else None
            if p and (list(p[0]), list(p[1])) != (d, s):
                raise vlib.CheckError(f"generator: {txt} means {p}, not {(d, s)}")
            if p is None:
                continue
            ex.append((txt, d, s))
        if len(ex) < 2:
            continue
        # the same, with other storage types and brands
        T, B = rng.choice(ALL), rng.choice(["()", "BrandA", "BrandB"])
        variants = []
        for i, (txt, d, s) in enumerate(ex):
            variants.append((f"unit!({txt})", d, s, "f64", "()"))
            if i < 2:
                variants.append((f"unit!({txt}, {T})", d, s, T, "()"))
            if i < 3:
                variants.append((f"unit!({txt}, {T}, {B})", d, s, T, B))
        rng.shuffle(variants)
        variants = variants[:7]
        qs = []
        for i, (txt, d, s) in enumerate(ex[:4]):
            f = rng.randrange(3)
            t, b = [("f64", "()"), (T, "()"), (T, B)][f]
            qs.append((f"quantity!(get::<{t}>(&a[{len(qs)}]), {txt}{['', ', ' + T, ', ' + T + ', ' + B][f]})", d, s, t, b, value(rng, t)))
        body = "let mut o: Vec<String> = Vec::new(); let mut t = Vec::new(); "
        for x, d, s, t, b in variants:
            body += f"o.push(e::<{x}>()); o.push(same::<{x}, {ty.qty(s, d, t, b)}>().to_string()); t.push(id::<{x}>()); "
        for x, d, s, t, b, v in qs:
            body += f"{{ let q = {x}; t.push(of(&q)); o.push(show(q)); }} "
        body += 'for x in &t { o.push(t.iter().map(|y| if x == y { "1" } else { "0" }).collect()); } o.join("\\n")'
        sv.add(body)
        cases.append(("family", variants, qs))
    # names of the default declarators: the type alias, and the literal constructor methods
    for u in tb.units:
        if u["cfv"] != 1.0 or u["afv"] != 0 or u["system"] != "Metric":
            continue
        l = [(u["name"], 0)]
        if u["first"]:
            l += [(p + u["name"], k) for p, k in tb.prefix_names.items()]
        for n, k in l:
            if (n, k) not in sp.of[u["name"]]:
                continue
            s = [u["scale"][0] + k, u["scale"][1], u["scale"][2] + k, u["scale"][3]]
            T = rng.choice(ALL)
            al = "default_declarators::" + n[0].upper() + n[1:]
            vs = [(f"{al}", list(u["dims"]), s, "f64", "()"), (f"{al}<{T}>", list(u["dims"]), s, T, "()"), (f"unit!({n}, {T})", list(u["dims"]), s, T, "()")]
            body = "let mut o: Vec<String> = Vec::new(); let mut t = Vec::new(); "
            for x, d, s_, t, b in vs:
                body += f"o.push(e::<{x}>()); o.push(same::<{x}, {ty.qty(s_, d, t, b)}>().to_string()); t.push(id::<{x}>()); "
            body += 'for x in &t { o.push(t.iter().map(|y| if x == y { "1" } else { "0" }).collect()); } o.join("\\n")'
            sv.add(body)
            cases.append(("alias", vs, []))
    bad = sv.build(rounds=6)
    for i, m in bad.items():
        ck.report(f"no-compile:{cases[i][0]}:{cases[i][1][0][0]}", f"one of {[v[0] for v in cases[i][1] + cases[i][2]]} does not compile: {m}", {"expressions": str(cases[i][1])})
    for i, (kind, vs, qs) in enumerate(cases):
        if i in bad:
            continue
        args = [ty.put(q[3], q[5]) for q in qs]
        st, out = sv.call(i, *args)
        info = {"kind": kind, "expressions": [v[0] for v in vs] + [q[0] for q in qs]}
        if st != "ok":
            ck.report(f"panic:{vs[0][0]}", f"naming the types {info['expressions']} panics: {out}", info)
            continue
        o = out.split("\n")
        types = [(v[1], v[2], v[3], v[4]) for v in vs + qs]
        for j, (x, d, s, t, b) in enumerate(vs):
            gd, gs, gt, gb = o[2 * j].split(";")
            got = ([int(z) for z in gd.strip("[]").split(",")], [int(z) for z in gs.strip("[]").split(",")], gt, gb.rsplit("::", 1)[-1])
            if got != (d, s, t, b) or o[2 * j + 1] != "true":
                ck.report(f"type:{x}", f"{x} names dimension {got[0]}, scale {got[1]}, storage {got[2]}, brand {got[3]}; its factors give dimension {d}, scale {s}, storage {t}, brand {b}", info)
        for j, (x, d, s, t, b, v) in enumerate(qs):
            gd, gs, gt, gb, val = ty.parse_show(o[2 * len(vs) + j])
            if (gd, gs, gt, gb.rsplit("::", 1)[-1]) != (d, s, t, b):
                ck.report(f"quantity:{x}", f"{x} has dimension {gd}, scale {gs}, storage {gt}, brand {gb}; the unit names dimension {d}, scale {s}, storage {t}, brand {b}", info)
            elif ty.get(t, val) != v:
                ck.report(f"value:{x}", f"{x} with {v} stores {ty.get(t, val)}", info)
        m = o[2 * len(vs) + len(qs):]
        all_ = vs + qs
        for j in range(len(all_)):
            for k in range(j):
                same = types[j] == types[k]
                ck.count(kind + (": same type" if same else ": different types"), (all_[j][0], all_[k][0]), all_[j][0] != all_[k][0],
                         {"a": all_[j][0], "b": all_[k][0], "same type": same})
                if (m[j][k] == "1") != same:
                    ck.report(f"pair:{all_[j][0]}:{all_[k][0]}", f"{all_[j][0]} and {all_[k][0]} name {'the same type' if m[j][k] == '1' else 'different types'}, but "
                              f"their dimensions, scales, storage types and brands are {types[j]} and {types[k]}", info)
    ck.notes["families"] = len(cases)
    sv.close()
    return ck.finish()
