"""C26: exponent vectors form the algebra of dimensions."""
import itertools, random
import ref, types_ as ty, vlib

RULE = ("generated exponent vectors (up to the edge of 16 bits), integer multiples and scale vectors against componentwise integer "
        "arithmetic; the same sums, differences at the type level in a generated program; all vectors with at most two non-zero entries in -3..3, "
        "named dimensions and their neighbours for lookup; non-trivial: not all entries zero")
BASIS = [("Mass", "M"), ("Length", "L"), ("Time", "T"), ("Current", "I"), ("Temperature", "Θ"), ("Amount", "N"), ("Luminosity", "J"), ("Angle", "A")]


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C26", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    st, tables = drv.call("tables")
    if st != "ok":
        raise vlib.CheckError(tables)
    named = {}
    for d in tables["dims"]:
        if tuple(d["exponents"]) in named:
            ck.report(f"duplicate:{d['name']}", f"dimensions {d['name']} and {named[tuple(d['exponents'])]} have the same exponents", d)
        named[tuple(d["exponents"])] = d["name"]
    # every named dimension of the reference is found by its exponents
    for n, key in ref.DIMS.items():
        e = list(ref.D[key])
        st, r = drv.call("dimexp", d=e)
        ck.count("named", n, True, n)
        if st != "ok" or r["name"] != n:
            ck.report(f"named:{n}", f"looking up exponents {e} finds {r}, should be {n}", n)
    for d in tables["dims"]:
        for text, want in ((d["name"], d["name"]), (d["symbol"], None), (d["name"].lower(), None), (d["name"] + "x", False), (d["name"][:-1], False)):
            st, r = drv.call("lookup", s=text)
            ck.count("by-name", text, True, text)
            if st != "ok":
                ck.report("lookup-panic", f"looking up {text!r} panics", text)
                continue
            hit = [x["name"] for x in tables["dims"] if text in (x["name"], x["symbol"])]
            if want is not None and want is not False and r["dim"] != d["name"]:
                ck.report(f"by-name:{text}", f"looking up dimension {text!r} finds {r['dim']}, should find {d['name']}", text)
            if text == d["symbol"] and (r["dim"] not in hit):
                ck.report(f"by-symbol:{text}", f"looking up dimension symbol {text!r} finds {r['dim']}, should find {hit}", text)
            if not hit and r["dim"] is not None:
                ck.report(f"by-name:{text}", f"looking up {text!r}, which names no dimension, finds {r['dim']}", text)

    def lookup(d):
        st, r = drv.call("dimexp", d=list(d))
        if st != "ok":
            return ("lookup-panic", f"looking up exponents {list(d)} panics: {r}")
        want = named.get(tuple(d))
        if r["name"] != want:
            return ("by-exponents", f"exponents {list(d)} are found as {r['name']}, should be {want}")
        nz = [i for i, x in enumerate(d) if x]
        basis = BASIS[nz[0]][0] if len(nz) == 1 and d[nz[0]] == 1 else None
        if r["basis"] != basis:
            return ("basis", f"exponents {list(d)} are reported as base dimension {r['basis']}, should be {basis}")
        if r["zero"] != (not nz):
            return ("zero", f"exponents {list(d)}: is_zero says {r['zero']}")
        text = " * ".join(f"{BASIS[i][1]}^{d[i]}" for i in nz) or "1"
        if r["text"] != text:
            return ("text", f"exponents {list(d)} print as {r['text']!r}, should be {text!r}")
        for (n, s), i, b in zip(BASIS, range(8), r["basis_list"]):
            if b != [n, [1 if j == i else 0 for j in range(8)], s]:
                return ("basis-table", f"base dimension {i} is {b}")
        return bool(nz)
    grid = set()
    for i, j in itertools.combinations(range(8), 2):
        for x in range(-3, 4):
            for y in range(-3, 4):
                v = [0] * 8
                v[i], v[j] = x, y
                grid.add(tuple(v))
    for e in named:
        for i in range(8):
            for x in (-1, 1):
                v = list(e)
                v[i] += x
                grid.add(tuple(v))
        grid.add(e)
        grid.add(tuple(-x for x in e))
    for v in sorted(grid):
        r = lookup(v)
        ck.count("lookup-grid", v, r is True, v)
        if isinstance(r, tuple):
            ck.report(r[0], r[1], v)
    vec = lambda k, m: hs.lists(hs.one_of(hs.integers(-4, 4), hs.integers(-m, m)), min_size=k, max_size=k)
    near = hs.tuples(hs.sampled_from(sorted(named)), hs.lists(hs.tuples(hs.integers(0, 7), hs.integers(-2, 2)), max_size=2)).map(
        lambda z: [x + sum(dv for i, dv in z[1] if i == k) for k, x in enumerate(z[0])])
    ck.explore("lookup", hs.one_of(vec(8, 32000), near), lookup, vlib.tier(2500, 40000))

    def alg(c):
        a, b, n, x, y = c
        st, r = drv.call("alg", a=a, b=b, n=n, x=x, y=y)
        if st != "ok":
            return ("alg-panic", f"arithmetic on {a}, {b}, {x}, {y} with {n} panics: {r}")
        want = {"add": [p + q for p, q in zip(a, b)], "neg": [-p for p in a], "mul": [p * n for p in a],
                "smul": [p + q for p, q in zip(x, y)], "sneg": [-p for p in x], "sexp": [p * n for p in x],
                "log10": x[0] if x[0] == x[2] and x[1] == x[3] == 0 else None,
                "s10": [n, 0, n, 0], "s6": [n, n, 0, 0], "s2": [n, 0, 0, 0], "s3": [0, n, 0, 0], "s5": [0, 0, n, 0], "spi": [0, 0, 0, n],
                "ident": [0] * 4, "eq": [a == b, x == y]}
        for k, w in want.items():
            if r[k] != w:
                return ("alg-" + k, f"{k} of a={a} b={b} n={n} x={x} y={y} is {r[k]}, should be {w}")
        return any(a) and any(b)
    ten = hs.integers(-30, 30).map(lambda n: [n, 0, n, 0])
    small = hs.tuples(vec(8, 1000), vec(8, 30000), hs.integers(-32, 32), hs.one_of(vec(4, 1000), ten), vec(4, 30000))
    same = small.map(lambda c: (c[0], c[0], c[2], c[3], c[3]))
    ck.explore("algebra", hs.one_of(small, small, same), alg, vlib.tier(4000, 60000))

    # type level
    sv = ty.TypeServer("c26", "use whippyunits_core::dimension_exponents as de;\n", deps=['whippyunits-core = { path = "%s/whippyunits-core" }' % vlib.REPO])
    cases = []
    tde = lambda d: "de::TypeDimensionExponents<de::_M<{}>, de::_L<{}>, de::_T<{}>, de::_I<{}>, de::_Θ<{}>, de::_N<{}>, de::_J<{}>, de::_A<{}>>".format(*(ty._c(x) for x in d))
    for i in range(vlib.tier(120, 700)):
        k = rng.choice([3, 20, 100])
        a = [rng.randint(-k, k) if rng.random() < .7 else 0 for _ in range(8)]
        b = [rng.randint(-k, k) if rng.random() < .7 else 0 for _ in range(8)]
        if rng.random() < .1:
            b = list(a)
        A, B = tde(a), tde(b)
        sv.add(f"use de::DimensionExponents; let s = <{A}>::new() + <{B}>::new(); let d = <{A}>::default() - <{B}>::default(); let a = de::DynDimensionExponents({a}); "
               f"format!(\"{{:?}};{{:?}};{{:?}};{{:?}};{{:?}}\", s.value_const().0, d.value().0, <{A}>::new().value().0, (a + <{B}>::new()).0, s.as_basis())")
        cases.append((a, b))
    bad = sv.build()
    for i, m in bad.items():
        ck.report("type-level-no-compile", f"type-level sum and difference of {cases[i]} do not compile: {m}", cases[i])
    for i, (a, b) in enumerate(cases):
        if i in bad:
            continue
        add, sub = [p + q for p, q in zip(a, b)], [p - q for p, q in zip(a, b)]
        nz = [j for j, x in enumerate(add) if x]
        basis = f"Some({BASIS[nz[0]][0]})" if len(nz) == 1 and add[nz[0]] == 1 else "None"
        want = f"{add};{sub};{a};{add};{basis}"
        st, r = sv.call(i)
        ck.count("type-level", (a, b), True, [a, b])
        if st != "ok" or r != want:
            ck.report("type-level", f"type-level a+b, a-b, a, dyn a+b, basis for a={a} b={b} are {r}, should be {want}", [a, b])
    sv.close()
    drv.close()
    return ck.finish()
