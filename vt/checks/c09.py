"""C09: mixing dimensions, scales, brands or storage types does not compile."""
import model, types_ as ty, unittext, vlib

RULE = ("program pairs from templates (operators, comparisons, bindings, calls, collections, products, quotients, rescaling, erasure, reading, "
        "unit names, declarators, literals) over generated quantity types: the legal program must compile, and its twin, made illegal by changing one "
        "facet (each dimension exponent, each scale exponent, a swap, a compensated scale, brand, storage type, an unknown name), must be rejected; "
        "illegal programs are re-checked without the ones already rejected until no new one is; non-trivial: the illegal twin of a compiling program")
ALL = ty.INTS + ty.FLOATS
SIGNED = [t for t in ALL if t[0] != "u"]
DIMF = [f"dim{i}" for i in range(8)]
SCALEF = [f"scale{i}" for i in range(4)]
EVERY = DIMF + SCALEF + ["swap", "compensate", "brand", "storage", "negdim", "negscale"]
EXTRA = """
#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandA;
#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandB;
pub struct Holder<T> { pub x: T }
define_unit_declarators!(la, BrandL, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);
define_unit_declarators!(lb, BrandL, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);
define_unit_declarators!(lc, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);
define_unit_declarators!(ld, BrandOnly);
"""


class Q:
    def __init__(self, d, s, t, b):
        self.d, self.s, self.t, self.b = list(d), list(s), t, b

    @property
    def ty(self):
        return ty.qty(self.s, self.d, self.t, self.b)

    def __eq__(self, o):
        return (self.d, self.s, self.t, self.b) == (o.d, o.s, o.t, o.b)

    def mul(self, o, g=1):
        return Q([x + g * y for x, y in zip(self.d, o.d)], [x + g * y for x, y in zip(self.s, o.s)], self.t, self.b)

    def inv(self):
        return Q([-x for x in self.d], [-x for x in self.s], self.t, self.b)


def vary(rng, q, facet):
    r = Q(q.d, q.s, q.t, q.b)
    if facet.startswith("dim"):
        i = int(facet[3:])
        r.d[i] += rng.choice([1, -1, 1, -1, 2, -r.d[i] or 1])
    elif facet.startswith("scale"):
        i = int(facet[5:])
        r.s[i] += rng.choice([1, -1, 1, -1, 3, -r.s[i] or 1])
    elif facet == "swap":
        for _ in range(50):
            i, j = rng.sample(range(8), 2)
            if r.d[i] != r.d[j]:
                r.d[i], r.d[j] = r.d[j], r.d[i]
                return r
        r.d[rng.randrange(8)] += 1
    elif facet == "compensate":     # another scale with close total value: 2^10 for 10^3, 3^2 for 2^3, pi for 3
        a, b = rng.choice([((10, 0, 0, 0), (3, 0, 3, 0)), ((0, 2, 0, 0), (3, 0, 0, 0)), ((0, 1, 0, 0), (0, 0, 0, 1)), ((0, 0, 1, 0), (2, 0, 0, 0))])
        g = rng.choice([1, -1])
        r.s = [x + g * (y - z) for x, y, z in zip(r.s, a, b)]
    elif facet == "brand":
        r.b = rng.choice([x for x in ("()", "BrandA", "BrandB") if x != r.b])
    elif facet == "storage":
        r.t = rng.choice([x for x in ALL if x != r.t])
    elif facet == "negdim":
        if any(r.d):
            r.d = [-x for x in r.d]
        else:
            r.d[rng.randrange(8)] = 1
    elif facet == "negscale":
        if any(r.s):
            r.s = [-x for x in r.s]
        else:
            r.s[rng.randrange(4)] = 1
    return r


# templates over a: A, b: B (legal: B is A)
SAME = {
    "add": "let _ = a + b;", "sub": "let _ = a - b;", "rem": "let _ = a % b;",
    "add_assign": "let mut x = a; x += b;", "sub_assign": "let mut x = a; x -= b;", "rem_assign": "let mut x = a; x %= b;",
    "eq": "let _ = a == b;", "ne": "let _ = a != b;", "lt": "let _ = a < b;", "le": "let _ = a <= b;", "gt": "let _ = a > b;", "ge": "let _ = a >= b;",
    "eq by reference": "let _ = &a == &b;", "lt by reference": "let _ = &a < &b;", "partial_cmp": "let _ = a.partial_cmp(&b);",
    "PartialOrd::gt": "let _ = PartialOrd::gt(&a, &b);", "option eq": "let _ = Some(a) == Some(b);", "slice eq": "let _ = [a] == [b];", "tuple lt": "let _ = (a, 1) < (b, 1);",
    "let": "let x: TYA = b;", "assign": "let mut x = a; x = b;", "pass": "fn f(_: TYA) {} f(b);", "pass two": "fn f<T: PartialEq>(_: T, _: T) {} f(a, b);",
    "return": "fn f(b: TYB) -> TYA { b } f(b);", "closure": "let f = |x: TYA| x; f(b);", "field": "let mut h = Holder { x: a }; h.x = b;",
    "array": "let _ = [a, b];", "vec": "let mut v = vec![a]; v.push(b);", "if": "let _ = if true { a } else { b };", "match": "let _ = match 1 { 1 => a, _ => b };",
    "option": "let mut x = Some(a); x = Some(b);", "swap": "let (mut a, mut b) = (a, b); std::mem::swap(&mut a, &mut b);",
    "fold": "let _ = [b].into_iter().fold(a, |x, y| x + y);", "Add::add": "let _ = core::ops::Add::add(a, b);", "SubAssign": "let mut x = a; core::ops::SubAssign::sub_assign(&mut x, b);",
    "generic sum": "fn f<T: core::ops::Add<U, Output = T>, U>(x: T, y: U) -> T { x + y } f(a, b);", "scaled sum": "let _ = a * K + b;", "scaled sum 2": "let _ = a + K * b;", "quotient sum": "let _ = a / K - b;",
    "min": "let _ = if a < b { a } else { b };", "reference": "let mut r = &a; r = &b;", "box": "let x: Box<TYA> = Box::new(b);", "product sum": "let _ = a * c + b * c;",
    "quotient order": "let _ = a / c > b / c;", "result type": "let x: Result<TYA, ()> = Ok(b);", "from": "let _ = <TYA>::from(b);", "new": "let x: TYA = <TYB>::new(b.unsafe_value);",
    "partial ord bound": "fn f<T: PartialOrd<U>, U>(x: &T, y: &U) -> bool { x < y } f(&a, &b);", "remainder sum": "let _ = a % K + b;",
}
SIGN = {"negated": "let _ = -a + b;", "negated assign": "let x: TYA = -b;"}


def run():
    ck = vlib.Check("C09", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    sp = unittext.Spell(tb)
    pairs = []          # (template, facet, phase, legal item, illegal item)

    def dims():
        return [rng.choice([0, 0, 0, 1, -1, 2, -2, 3, rng.randint(-9, 9)]) for _ in range(8)] if rng.random() < .8 else [0] * 8

    def scale():
        return [rng.choice([0, 0, 3, -3, 1, rng.randint(-12, 12)]) for _ in range(3)] + [rng.choice([0, 0, 0, 1, -1])]

    def base(ts=ALL, brand=True):
        return Q(dims(), scale(), rng.choice(ts), rng.choice(["()", "()", "BrandA", "BrandB"]) if brand else "()")

    def lit(t):
        return ("2.0" if t in ty.FLOATS else "2") + t

    def pair(name, facet, legal, illegal, sig_l, sig_i, phase="types"):
        pairs.append((name, facet, phase, f"fn NAME({sig_l}) {{ {legal} }}", f"fn NAME({sig_i}) {{ {illegal} }}"))

    rounds = vlib.tier(1, 6)
    for _ in range(rounds):
        for name, body in list(SAME.items()) + list(SIGN.items()):
            for f in EVERY:
                A = base(SIGNED if name in SIGN else ALL)
                B = vary(rng, A, f)
                C = Q(dims(), scale(), A.t, A.b)
                if name == "from" and (f == "dim7" and not A.b != "()"):
                    continue                     # angles may vanish
                if ("c + b" in body or "/ c" in body) and f in ("storage", "brand"):
                    C2 = C
                done = lambda X: body.replace("TYA", A.ty).replace("TYB", X.ty).replace("K", lit(A.t)) if "K" in body.replace("TYA", "").replace("TYB", "") else body.replace("TYA", A.ty).replace("TYB", X.ty)
                pair(name, f, done(A), done(B), f"a: {A.ty}, b: {A.ty}, c: {C.ty}", f"a: {A.ty}, b: {B.ty}, c: {C.ty}")
        # products and quotients
        for op, g in (("*", 1), ("/", -1)):
            for f in EVERY:
                A = base()
                C = Q(dims(), scale(), A.t, A.b)
                P = A.mul(C, g)
                sig = f"a: {A.ty}, c: {C.ty}"
                X = vary(rng, P, f)
                if X != P:
                    w = rng.choice(["let x: TYX = a OP c;", "fn f(_: TYX) {} f(a OP c);", "let mut x = <TYX>::new(K); x = a OP c;", "let _ = <TYX>::new(K) + a OP c;", "let _ = a OP c == <TYX>::new(K);"]).replace("OP", op).replace("K", lit(A.t))
                    w2 = w.replace(lit(A.t), lit(X.t))
                    pair(f"{op} result", f, w.replace("TYX", P.ty), w2.replace("TYX", X.ty), sig, sig)
                if f in ("brand", "storage"):
                    D = vary(rng, C, f)
                    pair(f"{op} operands", f, f"let _ = a {op} c;", f"let _ = a {op} c;", sig, f"a: {A.ty}, c: {D.ty}")
                R = A.inv()
                X = vary(rng, R, f)
                if op == "/" and X != R:
                    pair("inverse", f, f"let x: {R.ty} = {lit(A.t)} / a;", f"let x: {X.ty} = {lit(A.t)} / a;", f"a: {A.ty}", f"a: {A.ty}")
                X = vary(rng, A, f)
                w = rng.choice([f"a {op} {lit(A.t)}", f"{lit(A.t)} * a"])
                pair(f"{op} by number", f, f"let x: {A.ty} = {w};", f"let x: {X.ty} = {w};", f"a: {A.ty}", f"a: {A.ty}")
            A = base()
            t = rng.choice([x for x in ALL if x != A.t])
            for w in (f"let _ = a {op} K;", f"let mut x = a; x {op}= K;", "let _ = a % K;", f"let _ = K {op} a;"):
                pair(f"{w} other number type", "storage", w.replace("K", lit(A.t)), w.replace("K", lit(t)), f"a: {A.ty}", f"a: {A.ty}")
            for w in ("let _ = a + K;", "let _ = a - K;", "let _ = a == K;", "let _ = a < K;", "let mut x = a; x += K;", "let _ = K + a;", "let mut x = a; x = K;"):
                k, one = lit(A.t), f"<{A.ty}>::new({lit(A.t)})"
                pair(f"{w} a bare number", "number", w.replace("K", one), w.replace("K", k), f"a: {A.ty}", f"a: {A.ty}")
            for w in ("*=", "/="):
                C = Q(vary(rng, Q([0] * 8, [0] * 4, A.t, A.b), rng.choice(DIMF)).d, scale(), A.t, A.b)
                pair(f"a {w} quantity", "dimension", f"let mut x = a; x {w} {lit(A.t)};", f"let mut x = a; x {w} c;", f"a: {A.ty}, c: {C.ty}", f"a: {A.ty}, c: {C.ty}")
        # rescaling
        for f in DIMF + ["swap", "negdim", "brand", "storage"]:
            A = base()
            B = Q(A.d, scale(), A.t, A.b)
            X = vary(rng, B, f)
            w = rng.choice(["let x: TYX = rescale_T(a);", "fn f(_: TYX) {} f(rescale_T(a));", "let _ = <TYX>::new(K) + rescale_T(a);", "let _ = rescale_T(a) as TYX;"]).replace("rescale_T", f"rescale_{A.t}")
            pair("rescale", f, w.replace("TYX", B.ty).replace("K", lit(A.t)), w.replace("TYX", X.ty).replace("K", lit(X.t)), f"a: {A.ty}", f"a: {A.ty}")
            if f == "storage":
                t = rng.choice([x for x in ALL if x != A.t])
                pair("rescale of another type", f, f"let x: {B.ty} = rescale_{A.t}(a);", f"let x: {B.ty} = rescale_{t}(a);", f"a: {A.ty}", f"a: {A.ty}")
            A.t = B.t = X.t = "f64"
            if f != "storage":
                pair("rescale()", f, f"let x: {B.ty} = rescale(a);", f"let x: {X.ty} = rescale(a);", f"a: {A.ty}", f"a: {A.ty}")
        # erasure to a number
        for f in DIMF[:7] + ["swap"]:
            t = rng.choice(["f32", "f64", "i16", "i32", "i64", "i128", "isize"])
            A = Q([0] * 7 + [rng.choice([0, 0, 1, -2])], scale(), t, "()")
            X = vary(rng, A, f if f != "swap" else rng.choice(DIMF[:7]))
            w = rng.choice([f"let x: {t} = a.into();", f"let x = <{t}>::from(a);", f"fn f(_: impl Into<{t}>) {{}} f(a);"])
            if A.d[7] == 0 and A.s == [0] * 4 or True:
                pair("erase", f, w, w, f"a: {A.ty}", f"a: {X.ty}")
        for f in ("float trig",):
            A = Q([0] * 7 + [1], [0] * 4, "f64", "()")
            X = vary(rng, Q([0] * 8, [0] * 4, "f64", "()"), rng.choice(DIMF[:7]))
            pair("sin of", "dimension", "let _ = f64::sin(a.into());", "let _ = f64::sin(a.into());", f"a: {A.ty}", f"a: {X.ty}")
        # angles vanish, nothing else does
        for f in EVERY:
            if f in ("storage", "dim7"):
                continue
            t = rng.choice(["f32", "f64", "i16", "i32", "i64", "i128", "isize"])
            d = dims()
            d[1] = d[1] or 1
            A = Q(d[:7] + [rng.choice([1, -1, 2, -3])], scale(), t, "()")
            B = Q(d[:7] + [0], A.s, t, "()")
            X = vary(rng, B, f)
            if X.d[:7] == B.d[:7] and X.s == B.s and X.b == B.b:
                continue
            if f in ("negdim", "swap") and X.d[7]:
                continue
            w = rng.choice(["let x: TYX = a.into();", "let x = <TYX>::from(a);"])
            pair("angle erasure", f, w.replace("TYX", B.ty), w.replace("TYX", X.ty), f"a: {A.ty}", f"a: {A.ty}")
        # reading in a unit, and units as text
        texts = []
        for _ in range(14):
            d = [rng.choice([0, 0, 0, 1, -1, 2]) for _ in range(8)]
            d[rng.randrange(8)] = rng.choice([1, -1, 2, 3])
            texts.append(d)
        for f in DIMF + ["swap", "negdim"]:
            d = rng.choice(texts)
            A = Q(d, scale(), rng.choice(ALL), rng.choice(["()", "BrandA"]))
            X = vary(rng, A, f)
            l = [vlib.samples(unittext.text_for(sp, tuple(z.d), affine=False), 4, f"{vlib.SEED}/{len(pairs)}/{k}")[-1] for k, z in enumerate((A, X))]
            tail = {0: "" if A.t == "f64" and A.b == "()" else f", {A.t}" + (f", {A.b}" if A.b != "()" else "")}[0]
            if l[0].cf == 1 or A.t in ("f64",) or True:
                pair("value!", f, f"let _ = value!(a, {l[0].text}{tail});", f"let _ = value!(a, {l[1].text}{tail});", f"a: {A.ty}", f"a: {A.ty}")
        for f in ("brand", "storage"):
            d = rng.choice(texts)
            A = Q(d, scale(), rng.choice(ALL), "BrandA")
            l = vlib.samples(unittext.text_for(sp, tuple(d), affine=False), 4, f"{vlib.SEED}/{len(pairs)}")[-1]
            X = vary(rng, A, f)
            pair("value! parameters", f, f"let _ = value!(a, {l.text}, {A.t}, {A.b});", f"let _ = value!(a, {l.text}, {X.t}, {X.b});", f"a: {A.ty}", f"a: {A.ty}")
        # parameters left out stand for f64 and for no brand
        for w, full in [("let _ = value!(a, U);", 0), ("let _ = value!(a, U, T);", 1), ("let x: unit!(U) = a;", 0), ("let x: unit!(U, T) = a;", 1), ("fn f(_: unit!(U)) {} f(a);", 0),
                        ("fn f<X: PartialOrd>(_: X, _: X) {} f(quantity!(K, U), a);", 0), ("let _ = quantity!(K, U, T) + a;", 1), ("let _ = a == quantity!(K, U, T);", 1),
                        ("let mut x = a; x -= quantity!(K, U);", 0), ("let _ = [Some(a), Some(quantity!(K, U, T))];", 1), ("let _ = value!(a.clone(), U, T) + value!(a * K, U, T);", 1)]:
            for f in ("brand", "storage"):
                t = rng.choice(ALL) if full else "f64"
                A = Q(rng.choice(texts), [0] * 4, t, "()")
                u = vlib.samples(unittext.text_for(sp, tuple(A.d), storage=True, affine=False), 4, f"{vlib.SEED}/{len(pairs)}/o")[-1]
                A.s = list(u.scale)
                X = vary(rng, A, f)
                b = w.replace("K", lit(t)).replace("T)", t + ")").replace("U", u.text)
                pair("parameters left out", f, b, b, f"a: {A.ty}", f"a: {X.ty}")
        for f in EVERY:
            if f in ("negscale", "compensate"):
                continue
            d = rng.choice(texts)
            A = Q(d, [0] * 4, rng.choice(ALL), rng.choice(["()", "BrandA"]))
            la = vlib.samples(unittext.text_for(sp, tuple(d), storage=True, affine=False), 4, f"{vlib.SEED}/{len(pairs)}/a")[-1]
            A.s = list(la.scale)
            X = vary(rng, A, f)
            if f in DIMF + ["swap", "negdim"]:
                lx = vlib.samples(unittext.text_for(sp, tuple(X.d), storage=True, affine=False), 4, f"{vlib.SEED}/{len(pairs)}/b")[-1].text
            elif f in SCALEF:
                ls = [z for z in vlib.samples(unittext.text_for(sp, tuple(d), storage=True, affine=False), 12, f"{vlib.SEED}/{len(pairs)}/b") if list(z.scale) != A.s]
                if not ls:
                    continue
                lx = rng.choice(ls).text
            else:
                lx = la.text
            tl, tx = f", {A.t}, {A.b}", f", {X.t}, {X.b}"
            w = rng.choice(["let x: unit!(UX) = quantity!(K, UA);", "fn f(_: unit!(UX)) {} f(quantity!(K, UA));", "let _ = quantity!(§X, UX) + quantity!(K, UA);",
                            "let mut x = quantity!(§X, UX); x -= quantity!(K, UA);", "let _ = quantity!(§X, UX) >= quantity!(K, UA);"])
            g = lambda u, tail, k: w.replace("K", lit(A.t)).replace("UX", "¤").replace("UA", la.text + tl).replace("¤", u + tail).replace("§X", k)
            pair("unit text", f, g(la.text, tl, lit(A.t)), g(lx, tx, lit(X.t)), "", "")
    # unit names
    known = sorted({n for l in sp.of.values() for n, _ in l})
    nonst = sorted(n for u in tb.units if u["cfv"] != 1.0 for n, _ in sp.of[u["name"]])

    def unknown():
        while True:
            n = rng.choice(known)
            w = rng.randrange(5)
            m = (n + rng.choice("xqz") if w == 0 else n[:-1] if w == 1 else rng.choice(["kilo", "k", "m", "nano", "µ"]) + n if w == 2
                 else rng.choice(["kk", "foo", "zorkmid"]) + n if w == 3 else n.upper() if n.upper() != n else n + n)
            if m.isidentifier() and len(m) > 1 and not tb.candidates(m) and tb.atom(m) is None and not any(c.isdigit() for c in m) and m not in unittext_keywords and unittext.plain(m):
                return m
    from checks.c12 import KEYWORDS as unittext_keywords
    for _ in range(vlib.tier(60, 400)):
        n, m = rng.choice([x for x in known if x not in unittext_keywords]), unknown()
        st = rng.choice([x for x in known if x not in nonst and x not in unittext_keywords])
        w = rng.choice(["@", "@", "@^2", "§*@", "§/@^2", "(§/@)^-1", "@/§", "1/@"])
        f = rng.choice(["unit", "quantity", "value"])
        if f == "unit":
            n = st
            b = "let x: Option<unit!(W)> = None;"
        elif f == "quantity":
            b = "let _ = quantity!(1.0, W);"
        else:
            b = None
        u = next(v for v, l in sp.of.items() if any(x[0] == n for x in l))
        if next(v for v in tb.units if v["name"] == u)["afv"] != 0:
            continue
        if b:
            pair(f"{f}! of unknown unit", "name", b.replace("W", w.replace("§", st).replace("@", n)), b.replace("W", w.replace("§", st).replace("@", m)), "", "", "names")
        else:
            pair("value! of unknown unit", "name", f"let _ = value!(quantity!(1.0, {n}), {n});", f"let _ = value!(quantity!(1.0, {n}), {m});", "", "", "names")
        if rng.random() < .5:
            k = rng.choice(nonst)
            if k not in unittext_keywords:
                b = "let x: Option<unit!(W)> = None;"
                pair("type of a non-storage unit", "name", b.replace("W", w.replace("§", st).replace("@", st)), b.replace("W", w.replace("§", st).replace("@", k)), "", "", "names")
    # declarators, methods and literals
    for a, b, ok in [("la", "la", 1), ("la", "lb", 0), ("lb", "lb", 1), ("la", "lc", 0), ("lc", "ld", 0), ("la", "ld", 0), ("ld", "ld", 1), ("lb", "lc", 0)]:
        if ok:
            continue
        for w in ("let _ = X::quantity!(1.0, m) + Y::quantity!(2.0, m);", "let _ = X::quantity!(1.0, kg*m/s^2) == Y::quantity!(2.0, N);", "let mut x = X::quantity!(1, s, i32); x -= Y::quantity!(1, s, i32);",
                  "let _ = X::quantity!(1.0, J) < Y::quantity!(1.0, J);", "let _ = X::quantity!(1.0, m) * Y::quantity!(1.0, m);" if {a, b} != {"lc", "ld"} or True else ""):
            pair("local declarators", "brand", w.replace("X", a).replace("Y", a), w.replace("X", a).replace("Y", b), "", "")
    DEF = ["meters", "seconds", "kilograms", "amperes", "kelvins", "moles", "candelas", "radians", "millimeters", "kiloseconds", "minutes", "hours", "newtons", "joules", "watts", "volts", "hertz"]
    def_unit = {}
    for u in tb.units:
        if u["cfv"] == 1.0 and u["afv"] == 0:
            def_unit[u["plural"]] = (u["dims"], u["scale"])
    DEF = [m for m in DEF if m in def_unit]
    for _ in range(vlib.tier(40, 200)):
        x, y = rng.sample(DEF, 2)
        if def_unit[x] == def_unit[y]:
            continue
        op = rng.choice(["+", "-", "%", "==", "<", ">="])
        k = rng.choice(["1.5", "3i32"])
        pair("methods", "unit", f"use default_declarators::*; let _ = {k}.{x}() {op} {k}.{x}();", f"use default_declarators::*; let _ = {k}.{x}() {op} {k}.{y}();", "", "")
        k2 = rng.choice([z for z in ("1.5", "3i32") if z != k])
        pair("methods", "storage", f"use default_declarators::*; let _ = {k}.{x}() {op} {k}.{x}();", f"use default_declarators::*; let _ = {k}.{x}() {op} {k2}.{x}();", "", "")
    for x, y in [("m", "s"), ("m", "mm"), ("kg", "g"), ("J", "N"), ("s", "ms"), ("K", "A"), ("mol", "cd"), ("W", "J"), ("V", "mV"), ("rad", "m")]:
        for t in ("", "_i32", "_f32"):
            op = rng.choice(["+", "-", "==", "<", "%"])
            n = "2" if t == "_i32" else "2.0"
            w = "#[culit::culit(whippyunits::default_declarators::literals)] fn f() { let _ = L OP R; } f();".replace("OP", op)
            pair("literals", "unit", w.replace("L", f"{n}{x}{t}", 1).replace(" R;", f" {n}{x}{t};"), w.replace("L", f"{n}{x}{t}", 1).replace(" R;", f" {n}{y}{t};"), "", "")
    for i, (name, f, ph, l, x) in enumerate(pairs):
        if l.split("{", 1)[1] == x.split("{", 1)[1] and l.split("{", 1)[0] == x.split("{", 1)[0]:
            raise vlib.CheckError(f"generator: twin {name}/{f} does not differ: {l}")
    # the legal programs compile
    tail = "fn main() {}"
    deps = ['culit = "*"']
    legal = vlib.Prog("c09legal", ty.PRELUDE + EXTRA, deps=deps)
    legal.tail = tail
    for i, p in enumerate(pairs):
        legal.add(p[3].replace("NAME", f"c{i}").replace("\n", " "))
    src = list(legal.cases)
    badl = {}
    for _ in range(6):
        legal.cases = [("" if i in badl else s, m) for i, (s, m) in enumerate(src)]
        ok, errs, other, stderr = legal.check()
        if ok:
            break
        if not errs:
            raise vlib.CheckError("the legal program does not compile: " + "; ".join(m["message"][:200] for m in other[:4]) + stderr[-800:])
        for i, ms in errs.items():
            badl[i] = ms[0]["message"]
    for i, m in badl.items():
        n, f = pairs[i][:2]
        ck.report(f"legal rejected:{n}", f"{n}: the program {pairs[i][3]} mixes nothing but does not compile: {m}", {"program": pairs[i][3]})
    # the illegal twins do not
    left_over = []
    for phase in ("names", "types"):
        idx = [i for i, p in enumerate(pairs) if p[2] == phase and i not in badl]
        if not idx:
            continue
        pr = vlib.Prog("c09" + phase, ty.PRELUDE + EXTRA, deps=deps)
        pr.tail = tail
        for i in idx:
            pr.add(pairs[i][4].replace("NAME", f"c{i}").replace("\n", " "))
        src = list(pr.cases)
        gone = {}
        for _ in range(8):
            pr.cases = [("" if j in gone else s, m) for j, (s, m) in enumerate(src)]
            ok, errs, other, stderr = pr.check()
            if ok:
                # constant evaluation and monomorphisation errors only show when building
                pr.tail = "fn main() {}"
                ok, errs, other, stderr = pr.build()
            if ok or len(gone) == len(src):
                break
            if not errs:
                raise vlib.CheckError("the illegal program fails outside its cases: " + "; ".join(m["message"][:200] for m in other[:4]) + stderr[-800:])
            for j, ms in errs.items():
                gone[j] = ms[0]["message"]
        for j, i in enumerate(idx):
            n, f, _, l, x = pairs[i]
            ck.count(n, (x,), True, {"legal": l, "illegal": x, "rejected with": gone.get(j, "")[:200]})
            if j not in gone:
                left_over.append(i)
    for i in left_over:
        n, f, _, l, x = pairs[i]
        ck.report(f"illegal accepted:{n}:{f}", f"{n}, {f} differs, and it compiles: {x}", {"program": x, "legal twin": l})
    ck.notes["pairs"] = len(pairs)
    return ck.finish()
