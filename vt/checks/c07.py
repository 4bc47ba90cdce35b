"""C07: quantity arithmetic is raw arithmetic plus exponent bookkeeping."""
import math
import types_ as ty, vlib

RULE = ("generated operand type pairs (random dimensions and scales up to the edge of the supported exponent range, all 14 storage "
        "types, branded and not) x every operator and operand order x generated values (limits, zero, NaN, infinities); oracle: the "
        "same operator on the stored numbers in the same program, result exponents computed componentwise; non-trivial: operands are "
        "not both 0 or 1")
EXTRA = """#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandA;
fn t<F: FnOnce() -> String>(f: F) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(s) => s,
        Err(e) => format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) } }
"""
BIN2 = ["*", "/"]                 # quantity with any quantity
SAME = ["+", "-", "%"]            # same type
SCAL = ["*", "/", "%"]            # quantity with number


def program(name, n, rng, profile=None):
    sv = ty.TypeServer(name, EXTRA, profile=profile)
    cases = []

    def exps(k, edge):
        r = []
        for _ in range(k):
            x = rng.random()
            r.append(0 if x < .35 else rng.randint(-4, 4) if x < .8 or not edge else rng.choice([rng.randint(-100, 100), 100, -100, 99, 50]))
        return r
    for i in range(n):
        t = (ty.INTS + ty.FLOATS + ["f64", "f64", "i32"])[i % 17]
        edge = rng.random() < .4
        d1, d2, s1, s2 = exps(8, edge), exps(8, edge), exps(4, edge), exps(4, edge)
        if rng.random() < .15:
            d2, s2 = [-x for x in d1], [-x for x in s1]
        if rng.random() < .15:
            d2, s2 = list(d1), list(s1)
        b = rng.choice(["()", "()", "BrandA"])
        A, B = ty.qty(s1, d1, t, b), ty.qty(s2, d2, t, b)
        arms = []
        ops = []

        def arm(key, q, raw):
            ops.append(key)
            arms.append(f'"{key}" => (t(|| {{ {q} }}), t(|| put({raw})))')
        for o in BIN2:
            arm("qq" + o, f"show(p {o} r)", f"v {o} w")
        for o in SAME:
            arm("qs" + o, f"show(p {o} p2)", f"v {o} w")
            arm("qa" + o, f"let mut x = p; x {o}= p2; show(x)", f"v {o} w")
        for o in SCAL:
            arm("qn" + o, f"show(p {o} w)", f"v {o} w")
            arm("na" + o, f"let mut x = p; x {o}= w; show(x)", f"v {o} w")
        arm("nq*", "show(v * r)", "v * w")
        arm("nq/", "show(v / r)", "v / w")
        if t[0] != "u":
            arm("neg", "show(-p)", "-v")
        body = (f"let v: {t} = get(&a[1]); let w: {t} = get(&a[2]); type A = {A}; type B = {B}; "
                f"let p = A::new(v); let p2 = A::new(w); let r = B::new(w); "
                f"let (x, y) = match a[0].as_str() {{ {', '.join(arms)}, _ => unreachable!() }}; format!(\"{{x}}|{{y}}\")")
        sv.add(body)
        cases.append((d1, s1, d2, s2, t, b, ops))
    return sv, cases


def expected(op, c):
    d1, s1, d2, s2, t, b, _ = c
    add, sub, neg = (lambda a, b: [x + y for x, y in zip(a, b)]), (lambda a, b: [x - y for x, y in zip(a, b)]), (lambda a: [-x for x in a])
    if op == "qq*":
        return add(d1, d2), add(s1, s2)
    if op == "qq/":
        return sub(d1, d2), sub(s1, s2)
    if op == "nq*":
        return d2, s2
    if op == "nq/":
        return neg(d2), neg(s2)
    return d1, s1


def values(t):
    import hypothesis.strategies as hs
    if t[0] == "f":
        w = int(t[1:])
        return hs.one_of(hs.floats(width=w), hs.integers(-50, 50).map(float), hs.sampled_from([0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan]))
    lo, hi = ty.lo(t), ty.hi(t)
    return hs.one_of(hs.integers(max(lo, -12), 12), hs.integers(lo, hi), hs.sampled_from([lo, hi, lo + 1, hi - 1, 0, 1, max(lo, -1)]),
                     hs.integers(0, ty.BITS[t] - 2).map(lambda k: 1 << k))


def judge(sv, cases, i, op, v, w):
    c = cases[i]
    t = c[4]
    st, r = sv.call(i, op, ty.put(t, v), ty.put(t, w))
    what = f"{op} with {v!r} and {w!r} ({t}, brand {c[5]}, types {c[0]}{c[1]} and {c[2]}{c[3]})"
    if st != "ok":
        return ("crash", f"{what}: {r}")
    q, raw = r.split("|", 1)
    if q.startswith("panic: ") or raw.startswith("panic: "):
        return None if q.startswith("panic: ") == raw.startswith("panic: ") else ("panic", f"{what}: quantity gives {q}, plain numbers give {raw}")
    d, s, ty_, br, val = ty.parse_show(q)
    ed, es = expected(op, c)
    if d != ed or s != es:
        return ("type", f"{what}: result has dimension {d} scale {s}, should be {ed} {es}")
    if ty_ != t or (br == "()") != (c[5] == "()") or not br.endswith(c[5]):
        return ("type", f"{what}: result has storage type {ty_} and brand {br}")
    if val != raw:
        if t[0] == "f" and math.isnan(ty.get(t, val)) and math.isnan(ty.get(t, raw)):
            return None
        return ("value", f"{what}: quantity gives {ty.get(t, val)!r}, plain numbers give {ty.get(t, raw)!r}")
    return None if not (v in (0, 1) and w in (0, 1)) else False


def explore(ck, part, sv, cases, n):
    import hypothesis.strategies as hs
    bad = sv.build()
    for i, m in bad.items():
        ck.report("no-compile", f"arithmetic on {cases[i][4]} quantities of types {cases[i][:4]} does not compile: {m}", cases[i])
    live = [i for i in range(len(cases)) if i not in bad]
    if not live:
        return
    show = lambda c: {"types": cases[c[0]][:6], "op": c[1], "values": [str(c[2]), str(c[3])]}
    for i in live:     # every operator of every type pair at least twice
        t = cases[i][4]
        for op in cases[i][6]:
            for v, w in ((7, 3), (12, 5)) if t[0] != "f" else ((7.5, 2.25), (-0.1, 3.0)):
                if t == "f32":
                    v, w = vlib.f32r(v), vlib.f32r(w)
                r = judge(sv, cases, i, op, v, w)
                ck.count(part + "-all", (i, op, v, w), r is None, show((i, op, v, w)))
                if isinstance(r, tuple):
                    ck.report(r[0] + ":" + op, r[1], show((i, op, v, w)))
    pick = hs.integers(0, len(live) - 1).map(lambda k: live[k]).flatmap(lambda i: hs.tuples(
        hs.just(i), hs.sampled_from(cases[i][6]), values(cases[i][4]), values(cases[i][4])))
    ck.explore(part, pick, lambda c: judge(sv, cases, *c), n, sample=show, key=lambda c: (c[0], c[1], str(c[2]), str(c[3])))
    sv.close()


def run():
    ck = vlib.Check("C07", RULE)
    sv, cases = program("c07", vlib.tier(102, 425), ck.rng)
    explore(ck, "arithmetic", sv, cases, vlib.tier(6000, 100000))
    sv, cases = program("c07r", vlib.tier(17, 102), ck.rng, "release")
    explore(ck, "arithmetic-release", sv, cases, vlib.tier(1500, 40000))
    return ck.finish()
