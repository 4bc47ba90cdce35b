"""C16: a generic dimension admits exactly the quantities of its dimensions."""
import model, types_ as ty, vlib

RULE = ("generated lists of dimension expressions (products with * and ., quotient chains, parentheses, nested and negative powers, implicit exponents, names and symbols "
        "of base and derived dimensions, 1) against quantity types inside and outside, with random scale and storage type: membership asked of the compiler without a "
        "compile error, the expected answer from the expression tree; generic functions over the traits against the same body on the concrete types, bit for bit; "
        "misnamed and malformed expressions must not compile; non-trivial: every (definition, type) pair, every operation on two values")
ALL = ty.INTS + ty.FLOATS
BASE = ["Mass", "Length", "Time", "Current", "Temperature", "Amount", "Luminosity", "Angle"]


def z8():
    return (0,) * 8


def add(a, b, g=1):
    return tuple(x + g * y for x, y in zip(a, b))


class Gen:
    def __init__(self, rng, names):
        self.rng, self.names = rng, names      # [(spelling, dims)]
        self.base = [n for n in names if sum(abs(x) for x in n[1]) == 1]

    def name(self):
        return self.rng.choice(self.base if self.rng.random() < .75 else self.names)

    def exp(self):
        return self.rng.choice([2, 2, 3, -1, -1, -2, 1, 4, -3, 0, 5, 9, 12, -11])

    def atom(self, depth):
        r = self.rng.random()
        if r < .06:
            return "1", z8()
        if r < .2 and depth < 3:
            t, d = self.expr(depth + 1)
            return f"({t})", d
        n, d = self.name()
        return n, d

    def power(self, depth):
        t, d = self.atom(depth)
        r = self.rng.random()
        if r < .2 and t[0] not in "(1":
            e = self.rng.choice([2, 2, 3, 4, 1, 0, 6, 10])
            t, d = f"{t}{e}", tuple(e * x for x in d)
            if self.rng.random() > .15:
                return t, d
        if r < .45:
            e = self.exp()
            return t + self.rng.choice(["^", " ^ ", "^ "]) + str(e), tuple(e * x for x in d)
        return t, d

    def factor(self, depth, n=None):
        t, d = self.power(depth)
        for _ in range(self.rng.choice([0, 0, 1, 1, 2, 3]) if n is None else n):
            u, e = self.power(depth)
            m = self.rng.choice(["*", " * ", ".", " . "])
            if m == "." and (t[-1].isdigit() or u[0].isdigit() or u[0] == "("):
                m = " . " if self.rng.random() < .5 or not u[0].isalpha() else m
            t, d = t + m + u, add(d, e)
        return t, d

    def expr(self, depth=0):
        t, d = self.factor(depth)
        for _ in range(self.rng.choice([0, 0, 1, 1, 1, 2, 3])):
            u, e = self.factor(depth)
            t, d = t + self.rng.choice(["/", " / "]) + u, add(d, e, -1)
        return t, d


VALS = ["3.25", "-0.5", "1e10", "7.0"]


def run():
    ck = vlib.Check("C16", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    names = []
    for d in tb.dims:
        for s in {d["name"], d["symbol"]}:
            if s and s.isidentifier():
                names.append((s, tuple(d["exps"] if "exps" in d else d["dims"] if "dims" in d else d["exponents"])))
    names += [(s, tuple(int(j == i) for j in range(8))) for i, s in enumerate("MLTIΘNJA")]        # the documented symbols
    names = sorted(set(names))
    g = Gen(rng, names)

    def scale():
        return [rng.choice([0, 0, 3, -3, 1, rng.randint(-40, 40)]) for _ in range(3)] + [rng.choice([0, 0, 1, -1, 2])]

    defs = []       # (list text, [dims])
    for n in names:
        defs.append((n[0], [n[1]]))
        defs.append((n[0] + "2", [tuple(2 * x for x in n[1])]))
    for b, i in zip(BASE, range(8)):
        defs.append((None, [tuple(int(j == i) for j in range(8))]))      # the predefined trait
    for _ in range(vlib.tier(260, 2000)):
        k = rng.choice([1, 1, 1, 2, 3, 4, 6])
        ex = []
        for _ in range(k):
            e = g.expr()
            while max(abs(x) for x in e[1]) > 2000:
                e = g.expr()
            if k > 1 and rng.random() < .1 and ex:
                e = (f"1*({ex[-1][0]})", ex[-1][1])        # the same dimension twice
            ex.append(e)
        defs.append((", ".join(t for t, _ in ex) + rng.choice(["", "", ","]), [d for _, d in ex]))

    srv = ty.TypeServer("c16")
    info = {}
    for i, (txt, ds) in enumerate(defs):
        types = []
        for d in ds:
            for _ in range(3):
                types.append((tuple(d), scale(), rng.choice(ALL), True))
            near = []
            for j in range(8):
                for s in (1, -1):
                    near.append(tuple(x + s * (j == q) for q, x in enumerate(d)))
            near += [tuple(-x for x in d), z8(), tuple(2 * x for x in d), add(d, rng.choice(names)[1]), add(d, rng.choice(names)[1], -1), rng.choice(names)[1]]
            a, b = rng.sample(range(8), 2)
            w = list(d)
            w[a], w[b] = w[b], w[a]
            near.append(tuple(w))
            if len(ds) > 1:
                o = rng.choice(ds)
                near += [add(d, o), add(d, o, -1)]
            for x in near:
                if max(abs(q) for q in x) <= 4000:
                    types.append((x, scale(), rng.choice(ALL), x in [tuple(q) for q in ds]))
        path = f"t{i}::D" if txt is not None else f"whippyunits::dimension_traits::{BASE[ds[0].index(1)]}"
        decl = "" if txt is None else rng.choice([f"define_generic_dimension!(D, {txt});", f"whippyunits::dimension_traits::define_generic_dimension! {{ D, {txt} }}"])
        outer = (f"mod t{i} {{ use whippyunits::dimension_traits::define_generic_dimension; {decl} pub trait No {{ const V: bool = false; }} impl<T> No for W<T> {{}} "
                 f"pub struct W<T>(core::marker::PhantomData<T>); impl<T: {path.replace(f't{i}::', '')}> W<T> {{ pub const V: bool = true; }} }} ")
        n = srv.add(f"use t{i}::No as _; [" + ", ".join(f"<t{i}::W<{ty.qty(s, d, t)}>>::V" for d, s, t, _ in types) + "].iter().map(|b| if *b { '1' } else { '0' }).collect()", outer=outer)
        info[n] = (txt, ds, types)

    # generic code and the same code written for the concrete types
    gen = []
    OPS = {
        "mul": ("Mul", "a * b"), "div": ("Div", "a / b"), "add": ("Add", "a + b"), "sub": ("Sub", "a - b"), "rem": ("Rem", "a % b"),
    }
    for _ in range(vlib.tier(120, 700)):
        op = rng.choice(list(OPS))
        t = rng.choice(["f64", "f64", "f32", "i32", "i64", "u32"])
        (ta, da), (tb_, db) = g.expr(), g.expr()
        while max(map(abs, da + db)) > 40:
            (ta, da), (tb_, db) = g.expr(), g.expr()
        if op in ("add", "sub", "rem"):
            tb_, db = ta, da
        sa = scale()
        sb = list(sa) if op in ("add", "sub", "rem") else scale()
        dc = add(da, db) if op == "mul" else add(da, db, -1) if op == "div" else da
        tc = {"mul": f"({ta})*({tb_})", "div": f"({ta})/({tb_})"}.get(op, f"1*({ta})")
        gen.append((op, t, (ta, da, sa), (tb_, db, sb), (tc, dc)))
    base = len(srv.prog.cases)
    pairs = {}
    for k, (op, t, (ta, da, sa), (tb_, db, sb), (tc, dc)) in enumerate(gen):
        tr, body = OPS[op]
        A, B = ty.qty(sa, da, t), ty.qty(sb, db, t)
        sym = {"mul": "*", "div": "/", "add": "+", "sub": "-", "rem": "%"}[op]
        lists = lambda x: x + (f", 1/({x})^7*M^13" if rng.random() < .4 else "")
        outer = f"mod g{k} {{ use whippyunits::dimension_traits::define_generic_dimension; define_generic_dimension!(A, {lists(ta)}); define_generic_dimension!(B, {lists(tb_)}); define_generic_dimension!(C, {lists(tc)}); " \
                f"pub fn plain<P: A, Q: B>(a: P, b: Q) -> <P as core::ops::{tr}<Q>>::Output where P: core::ops::{tr}<Q>, <P as core::ops::{tr}<Q>>::Output: C {{ {body} }} "
        w = ["plain"]
        if t in ("f64", "i32"):
            outer += f"#[whippyunits::op_result] pub fn opr<P: A, Q: B, R: C>(a: P, b: Q) -> R where [(); P {sym} Q = R]:, {{ {body} }} "
            w.append("opr")
        if op in ("add", "sub"):
            outer += f"pub struct Acc<P: A> {{ pub x: P }} impl<P: A + Copy + core::ops::{tr}<Output = P>> Acc<P> {{ pub fn go(&mut self, b: P) -> P {{ self.x = self.x {sym} b; self.x }} }} pub fn acc<P: A + Copy + core::ops::{tr}<Output = P>>(a: P, b: P) -> P {{ Acc {{ x: a }}.go(b) }} "
            w.append("acc")
        outer += f"pub fn concrete(a: {A.replace('Quantity<', 'whippyunits::quantity::Quantity<')}, b: {B}) -> impl super::Exps + super::Val + C {{ {body} }} ".replace("Scale<", "whippyunits::quantity::Scale<") if False else ""
        outer += "} "
        n = srv.add(f"let a = <{A}>::new(get::<{t}>(&a[0])); let b = <{B}>::new(get::<{t}>(&a[1])); " .replace("let a = <", "let x = <").replace("let b = <", "let y = <")
                    + "[" + ", ".join([f"show(x {sym} y)"] + [f"show(g{k}::{z}(x, y))" for z in w]) + "].join(\"\\n\")", outer=outer)
        pairs[n] = (op, t, w, A, B, ta, tb_)

    bad = srv.build()
    for n, m in bad.items():
        if n in info:
            ck.report("definition rejected", f"define_generic_dimension!(D, {info[n][0]}) does not compile: {m}", {"definition": info[n][0]})
        else:
            ck.report("generic code rejected:" + pairs[n][0], f"generic {pairs[n][0]} over ({pairs[n][5]}) and ({pairs[n][6]}) does not compile for {pairs[n][3]} and {pairs[n][4]}: {m}", {"case": pairs[n]})
    wrong = []
    for n, (txt, ds, types) in info.items():
        if n in bad:
            continue
        st, r = srv.call(n)
        for (d, s, t, want), got in zip(types, r):
            part = "member" if want else "outsider"
            ck.count(part, (txt, d, tuple(s), t), True, {"definition": txt, "type": ty.qty(s, d, t), "satisfied": got})
            if (got == "1") != want:
                wrong.append((len(txt or ""), txt, d, s, t, want))
    wrong.sort(key=lambda w: (w[0], sum(map(abs, w[2]))))
    for _, txt, d, s, t, want in wrong[:3]:
        ck.report(f"membership:{'lost' if want else 'extra'}", f"a generic dimension defined as {txt or 'the predefined base dimension'} is {'not ' if want else ''}satisfied by dimension {d} ({ty.qty(s, d, t)})",
                  {"definition": txt, "type": ty.qty(s, d, t)})
    for n, (op, t, w, A, B, ta, tb_) in pairs.items():
        if n in bad:
            continue
        for _ in range(vlib.tier(4, 12)):
            if t in ty.FLOATS:
                v = [rng.choice([rng.uniform(-9, 9), 10 ** rng.uniform(-30, 30), 0.0, -0.0, 1.5]) for _ in range(2)]
                v = [vlib.f32r(x) if t == "f32" else x for x in v]
            else:
                v = [rng.randint(0 if t[0] == "u" else -40, 40) for _ in range(2)]
                if op in ("div", "rem"):
                    v[1] = v[1] or 3
                if op == "sub" and t[0] == "u":
                    v.sort(reverse=True)
            st, r = srv.call(n, *[ty.put(t, x) for x in v])
            l = r.split("\n")
            ck.count("generic " + op, (n, tuple(map(str, v))), True, {"A": ta, "B": tb_, "op": op, "values": v, "results": l[:2]})
            if st != "ok":
                ck.report("generic code panics", f"{op} of {v} as {A}, {B}: {r}", {"A": A, "B": B, "values": v})
                continue
            for name, x in zip(w, l[1:]):
                if x != l[0]:
                    ck.report("generic code differs:" + op, f"generic {op} ({name}) of {v} as {A} and {B} gives {x}, concrete code {l[0]}", {"A": A, "B": B, "values": v, "form": name})
    srv.close()

    # what must not compile
    badp = vlib.Prog("c16bad", ty.PRELUDE)
    badp.tail = "fn main() {}"
    known = {n for n, _ in names}
    wl = []
    for n in [x for x, _ in names] + BASE:
        for v in {n.lower(), n.upper(), n[:-1], n + "s", n + "x", n[0] + n, n[::-1], n.capitalize(), n + "_2", n + "2x"}:
            if v and v not in known and v.isidentifier() and v.rstrip("0123456789") not in known:
                wl.append(v)
    wl += [x for x in ("m", "kg", "s", "meter", "Meter", "rad", "Hz", "Kilogram", "foo", "Dimensionless", "One", "X", "LT", "ML2") if x not in known]
    rng.shuffle(wl)
    items = []
    for v in wl[:vlib.tier(150, 400)]:
        f = rng.choice(["{}", "{}2", "L*{}", "M/{}", "({})^2", "L, {}", "{} / T", "1/({}.L)", "M . {}2 / T2", "T, L/{}^2"])
        items.append(("unknown name", f.replace("{}", v)))
    for _ in range(vlib.tier(60, 150)):
        t, _ = g.expr()
        items.append(("malformed", rng.choice([f"{t}^x", f"{t} + L", f"2*{t}", f"{t}*3", f"({t}", f"{t}*", f"/{t}", f"{t} T", f"({t})^2.5", f"({t})^2^3", f"{t}**2", f"({t})^", f"{t} - M", f"10^3*{t}", f"\"L\"*{t}", f"({t})^(2)", f"{t};L"])))
    for k, (_, x) in enumerate(items):
        badp.add(f"mod b{k} {{ use whippyunits::dimension_traits::define_generic_dimension; define_generic_dimension!(D, {x}); }}" if x.count("(") == x.count(")") else "compile_error!(\"generator\");")
    src, gone = list(badp.cases), {}
    for _ in range(40):
        badp.cases = [("" if j in gone else s, m) for j, (s, m) in enumerate(src)]
        ok, errs, other, stderr = badp.check()
        if ok:
            break
        if not errs:
            raise vlib.CheckError("rejected program fails outside its cases: " + "; ".join(m["message"][:200] for m in other[:4]) + stderr[-800:])
        for j, ms in errs.items():
            gone[j] = ms[0]["message"]
    for j, (kind, x) in enumerate(items):
        ck.count(kind, x, True, {"definition": x, "rejected with": gone.get(j, "")[:160]})
        if j not in gone:
            ck.report("accepted:" + kind, f"define_generic_dimension!(D, {x}) compiles ({kind})", {"definition": x})
    return ck.finish()
