"""C21: every build configuration computes the same thing."""
import math, os, re, subprocess, threading, time
import model, types_ as ty, vlib

RULE = ("the same generated programs (operator trees, rescaling, erasure, declarations, readings, generic dimensions, local base scales, comparisons, printed text) built in several "
        "configurations (stable and nightly generic-const-exprs, debug and release, with std, with alloc only, with neither) and run on the same generated values: types and result "
        "bits must agree; every pair of exponents in -200..200 added, subtracted and negated at the type level (and random 16-bit ones with generic-const-exprs); "
        "non-trivial: values not 0 or 1, at least two configurations compile the program")
CONFIGS = [  # name, toolchain, default features, features, profile
    ("stable debug", "stable", True, [], None),
    ("stable release", "stable", True, [], "release"),
    ("stable alloc", "stable", False, ["alloc"], None),
    ("stable none release", "stable", False, [], "release"),
    ("cge debug", "nightly", True, ["cge"], None),
    ("cge none release", "nightly", False, ["cge"], "release"),
    ("std without serde", "stable", False, ["std"], None),
    ("nightly without cge", "nightly", True, [], None),
]
EXTRA = "#[derive(Clone, Copy, PartialEq, Debug)] pub struct BrandA;\n"
ALL = ty.INTS + ty.FLOATS
NAN = re.compile(r"\b(?:7ff|fff)(?!0000000000000)[0-9a-f]{13}\b|\b(?!7f800000|ff800000)(?:7f|ff)[89a-f][0-9a-f]{5}\b")


def programs(rng, tb, n):
    """-> [(body, outer, [argument types], kind, nice value range)]"""
    out = []

    def exps(k, m):
        return [rng.choice([0, 0, 1, -1, 2, rng.randint(-m, m)]) for _ in range(k)]

    def add_(a, b, g=1):
        return [x + g * y for x, y in zip(a, b)]
    names = [u for u in tb.units if u["afv"] == 0 and u["cfv"] == 1.0 and u["name"].isidentifier() and u["name"] not in ("as", "in")]
    affine = [u for u in tb.units if (u["afv"] != 0 or u["cfv"] != 1.0) and u["name"].isidentifier()]

    def tree(depth, vs, t):
        """-> (code, dims, scale) over variables vs"""
        if depth == 0 or rng.random() < .15:
            return rng.choice(vs)
        k = rng.choice(["mul", "mul", "div", "div", "neg", "scal", "scal", "inv", "sum", "sum", "rem"])
        a = tree(depth - 1, vs, t)
        if k in ("mul", "div"):
            b = tree(depth - 1, vs, t)
            g = 1 if k == "mul" else -1
            d, s = add_(a[1], b[1], g), add_(a[2], b[2], g)
            if max(map(abs, d + s)) > 190:
                return a
            return f"({a[0]} {'*' if g > 0 else '/'} {b[0]})", d, s
        if k == "neg":
            return (f"(-{a[0]})" if t[0] != "u" else a[0]), a[1], a[2]
        if k == "scal":
            return rng.choice([f"({a[0]} * n)", f"({a[0]} / n)", f"(n * {a[0]})"]), a[1], a[2]
        if k == "inv":
            return f"(n / {a[0]})", [-x for x in a[1]], [-x for x in a[2]]
        b = f"({a[0]} {rng.choice(['+', '-'])} {a[0]} * n)" if k == "sum" else f"({a[0]} % n)"
        return b, a[1], a[2]

    for i in range(n):
        kind = ["tree"] * 6 + ["rescale", "rescale", "erase", "angle", "declare", "declare", "affine", "generic", "local", "text", "text", "pretty", "cmp", "assign"]
        kind = kind[i % len(kind)]
        t = rng.choice(["f64", "f64", "f32", "i32", "i64"] + ALL)
        b = rng.choice(["()", "()", "()", "BrandA"])
        if kind == "tree":
            ts = [(exps(8, 30), exps(4, 30)) for _ in range(3)]
            vs = [(f"x{k}", d, s) for k, (d, s) in enumerate(ts)]
            code, d, s = tree(4, vs, t)
            lets = "".join(f"let x{k} = <{ty.qty(s_, d_, t, b)}>::new(get(&a[{k}]));" for k, (d_, s_) in enumerate(ts))
            out.append((f"{lets} let n: {t} = get(&a[3]); show({code})", "", [t] * 4, kind))
        elif kind == "rescale":
            t = rng.choice(["f64", "f32"] + ty.INTS)
            lim = 40 if t[0] == "f" else 6
            s1, s2, d = exps(4, lim), exps(4, lim), exps(8, 30)
            s1[3], s2[3] = rng.randint(-2, 2), rng.randint(-2, 2)
            out.append((f"let q = <{ty.qty(s1, d, t, b)}>::new(get(&a[0])); let r: {ty.qty(s2, d, t, b)} = rescale_{t}(q); show(r)", "", [t], kind))
        elif kind == "erase":
            src, dst = rng.choice([("f64", "f64"), ("f32", "f32"), ("i32", "i32"), ("i64", "i64"), ("i32", "f64"), ("f64", "i32"), ("f32", "f64"), ("i64", "f64"), ("i16", "i16"), ("i128", "i128")])
            s = [rng.randint(-8, 8), rng.randint(-4, 4), rng.randint(-6, 6), rng.randint(-2, 2)]
            out.append((f"let x: {dst} = <{ty.qty(s, [0] * 8, src)}>::new(get(&a[0])).into(); put(x)", "", [src], kind))
        elif kind == "angle":
            src = rng.choice(["f64", "f32", "i32", "i64"])
            e = rng.choice([1, -1, 2, -3])
            s = [rng.randint(-8, 8), rng.randint(-4, 4), rng.randint(-6, 6), rng.randint(-2, 2)]
            d = exps(7, 20)
            out.append((f"let q = <{ty.qty(s, d + [e], src)}>::new(get(&a[0])); let r: {ty.qty(s, d + [0], src)} = q.into(); show(r)", "", [src], kind))
        elif kind in ("declare", "affine"):
            u = rng.choice(names if kind == "declare" else affine)
            t = rng.choice(["f64", "f64", "f32", "i32", "i64"])
            e = rng.choice(["", "", "^2", "^-1"]) if kind == "declare" else ""
            v = rng.choice([x for x in names if x["dims"] == u["dims"]] or [u])
            out.append((f"let v: {t} = get(&a[0]); let q = quantity!(v, {u['name']}{e}, {t}); let r = value!(q.clone(), {v['name']}{e}, {t}); format!(\"{{}} {{}}\", show(q), put(r))", "", [t], kind))
        elif kind == "generic":
            e1, e2 = rng.choice(["Length", "Mass", "Current"]), rng.choice(["Time", "Temperature", "Angle"])
            op = rng.choice("*/")
            ds = {x["name"]: list(x["exponents"]) for x in tb.dims}
            d1, d2 = ds[e1], ds[e2]
            g = 1 if op == "*" else -1
            s1, s2 = exps(4, 20), exps(4, 20)
            t = rng.choice(["f64", "f32", "i32"])
            outer = (f"mod g{i} {{ use super::*; use whippyunits::dimension_traits::*; use core::ops::*; define_generic_dimension!(D, {e1} {op} {e2}); "
                     f"pub fn f<A: {e1}, B: {e2}>(x: A, y: B) -> <A as {'Mul' if g > 0 else 'Div'}<B>>::Output where A: {'Mul' if g > 0 else 'Div'}<B>, <A as {'Mul' if g > 0 else 'Div'}<B>>::Output: D {{ x {op} y }} }} ")
            out.append((f"show(g{i}::f(<{ty.qty(s1, d1, t)}>::new(get(&a[0])), <{ty.qty(s2, d2, t)}>::new(get(&a[1]))))", outer, [t, t], kind))
        elif kind == "local":
            pick = [rng.choice(x) for x in (["Kilogram", "Gram", "Milligram", "Megagram"], ["Meter", "Kilometer", "Millimeter", "Centimeter"], ["Second", "Millisecond", "Minute", "Hour"],
                                            ["Ampere", "Milliampere"], ["Kelvin", "Millikelvin"], ["Mole"], ["Candela"], ["Radian", "Degree", "Milliradian"])]
            outer = f"define_unit_declarators!(loc{i}, {', '.join(pick)}); "
            u = rng.choice(["m", "km/h", "N", "J", "kg*m^2", "g", "s", "m/s^2"])
            t = rng.choice(["f64", "f32", "i64"])
            out.append((f"let v: {t} = get(&a[0]); let q = loc{i}::quantity!(v, {u}, {t}); show(q)", outer, [t], kind))
        elif kind in ("text", "pretty"):
            u = rng.choice(names)
            s, d = exps(4, 9), exps(8, 5)
            s[3] = rng.randint(-1, 1)
            t = rng.choice(["f64", "f64", "f32", "i32", "u8"])
            e = f"<{ty.qty(s, d, t, b)}>::new(v)" if rng.random() < .5 else f"quantity!(v, {u['name']}, {t})"
            if kind == "text":
                out.append((f"let v: {t} = get(&a[0]); let q = {e}; format!(\"{{}} {{:?}}\", q, q)", "", [t], kind))
            else:
                w = rng.choice([x for x in names if x["dims"] == u["dims"]])
                out.append((f"let v: {t} = get(&a[0]); let q = quantity!(v, {u['name']}, {t}); format!(\"{{}}\", q.fmt(\"{w['name']}\"))", "", [t], kind))
        elif kind == "cmp":
            s, d = exps(4, 60), exps(8, 60)
            Q = ty.qty(s, d, t, b)
            out.append((f"let x = <{Q}>::new(get(&a[0])); let y = <{Q}>::new(get(&a[1])); format!(\"{{}}{{}}{{}}{{}}{{:?}}\", x == y, x < y, x >= y, x != y, x.partial_cmp(&y))", "", [t, t], kind))
        elif kind == "assign":
            s, d = exps(4, 60), exps(8, 60)
            Q = ty.qty(s, d, t, b)
            ops = " ".join(rng.choice(["x += y;", "x -= y;", "x *= n;", "x /= n;", "x %= n;"]) for _ in range(4))
            out.append((f"let mut x = <{Q}>::new(get(&a[0])); let y = <{Q}>::new(get(&a[1])); let n: {t} = get(&a[2]); {ops} show(x)", "", [t] * 3, kind))
    return out


def values(t):
    import hypothesis.strategies as hs
    if t[0] == "f":
        w = int(t[1:])
        return hs.one_of(hs.floats(width=w), hs.floats(min_value=-1024, max_value=1024, width=w), hs.integers(-50, 50).map(float), hs.sampled_from([0.0, -0.0, 1.0, math.inf, math.nan]))
    lo, hi = ty.lo(t), ty.hi(t)
    return hs.one_of(hs.integers(max(lo, -12), 12), hs.integers(max(lo, -1000), min(hi, 1000)), hs.integers(lo, hi), hs.sampled_from([lo, hi, 0, 1]))


def table(ck):
    """every exponent pair, stable; random 16-bit pairs with generic const expressions"""
    d = os.path.join(vlib.GEN, "c21_table")
    pairs = [(a, b) for a in range(-200, 201) for b in range(-200, 201)]
    shards = 8
    rng = ck.rng
    i16 = lambda x: -32768 <= x <= 32767
    wide = []
    while len(wide) < vlib.tier(3000, 20000):
        m = rng.choice([10, 250, 2000, 32767])
        a, b = rng.randint(-m, m), rng.randint(-m, m)
        if i16(a + b) and i16(a - b) and i16(-a):
            wide.append((a, b))
    wide += [(32767, 0), (-32767, 0), (0, -32767), (32767, -0), (201, 200), (-32767, 32767 - 32767), (-16384, 16383)]

    def source(ps, attr):
        o = [attr + "use whippyunits_core::num::*; use core::ops::*;"]
        names = []
        for k in range(0, len(ps), 1000):
            names.append(f"R{k}")
            o.append(f"static R{k}: &[(i16, i16, i16)] = &[" + ",".join(
                f"(<<N<{a}> as Add<N<{b}>>>::Output as Num>::N,<<N<{a}> as Sub<N<{b}>>>::Output as Num>::N,<<N<{a}> as Neg>::Output as Num>::N)" for a, b in ps[k:k + 1000]) + "];")
        o.append("fn main() { let mut s = String::new(); for t in [" + ", ".join(names) + "] { for r in t { s += &format!(\"{} {} {}\\n\", r.0, r.1, r.2); } } print!(\"{s}\"); }")
        return "\n".join(o)

    def crate(path, feats, shards_, attr):
        os.makedirs(path + "/src/bin", exist_ok=True)
        vlib._write(path + "/Cargo.toml", f"""[package]
name = "{os.path.basename(path)}"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
whippyunits-core = {{ path = "{vlib.REPO}/whippyunits-core"{feats} }}
[profile.dev]
debug = 0
opt-level = 0
incremental = false
""")
        import shutil
        shutil.copyfile(os.path.join(vlib.VERIF, "harness", "gen.lock"), path + "/Cargo.lock")
        for i, ps in enumerate(shards_):
            vlib._write(f"{path}/src/bin/{os.path.basename(path)}_{i}.rs", source(ps, attr))
    size = (len(pairs) + shards - 1) // shards
    ss = [pairs[k:k + size] for k in range(0, len(pairs), size)]
    jobs = [("stable", "stable", "", ss), ("cge", "nightly", ', features = ["cge"]', [wide])]
    for name, tool, feats, sh in jobs:
        path = f"{d}_{name}"
        crate(path, feats, sh, "#![feature(generic_const_exprs)] #![allow(incomplete_features)]\n" if name == "cge" else "")
        target = os.path.join(vlib.TARGET, "c21", "table_" + name)
        p = vlib.cargo(["build", "--offline"], path, tool, target)
        err = p.stderr.decode(errors="replace")
        if p.returncode != 0:
            if "could not compile `whippyunits-core" in err:
                raise vlib.CheckError("whippyunits-core does not build: " + err[-2000:])
            m = re.search(r"^error.*?(?=^error|\Z)", err, re.S | re.M)
            ck.report("table-compile:" + name, f"type-level arithmetic on supported exponents does not compile ({name}): {m.group(0)[:600] if m else err[-600:]}", {"config": name})
            continue
        for i, ps in enumerate(sh):
            out = subprocess.run([f"{target}/debug/{os.path.basename(path)}_{i}"], stdout=subprocess.PIPE).stdout.decode().split("\n")
            for (a, b), l in zip(ps, out):
                got = tuple(map(int, l.split()))
                ck.count("type-level arithmetic " + name, f"{name}{a},{b}", not (a in (0, 1) and b in (0, 1)), [a, b])
                if got != (a + b, a - b, -a):
                    ck.report("table", f"at the type level ({name}) {a}+{b}, {a}-{b}, -{a} are {got}", {"config": name, "a": a, "b": b, "got": got})
                    break


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C21", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    progs = programs(rng, tb, vlib.tier(300, 1500))
    configs = CONFIGS[:vlib.tier(6, 8)]
    servers, errors, times = {}, [], {}

    def build(c):
        name, tool, df, feats, prof = c
        try:
            key = name.replace(" ", "_")
            sv = ty.TypeServer("c21_" + key, EXTRA, deps=['culit = "*"'], features=feats, default_features=df, toolchain=tool, target=os.path.join(vlib.TARGET, "c21", key), profile=prof)
            for k, (body, outer, _, kind) in enumerate(progs):
                sv.add(body, outer=outer)
                # printing needs an allocator, reading a unit name at run time the text formats
                if kind == "text" and not df and not feats or kind == "text" and feats == ["cge"] and not df or kind == "pretty" and not df:
                    sv.bad[k] = "not available"
            t0 = time.time()
            sv.build(800, rounds=6)
            times[name] = round(time.time() - t0, 1)
            servers[name] = sv
        except BaseException as e:
            errors.append((name, e))
    th = [threading.Thread(target=build, args=(c,)) for c in configs]
    for t in th:
        t.start()
    t0 = time.time()
    table(ck)
    times["table"] = round(time.time() - t0, 1)
    for t in th:
        t.join()
    if errors:
        raise vlib.CheckError("; ".join(f"{n}: {e}" for n, e in errors)[:4000])
    ck.notes["configurations"] = {n: {"programs": len(progs) - len(sv.bad), "build_s": times[n]} for n, sv in servers.items()}
    ck.notes["table_s"] = times["table"]
    first = configs[0][0]
    live = [i for i in range(len(progs)) if sum(i not in sv.bad for sv in servers.values()) > 1]
    ck.notes["programs in several configurations"] = len(live)
    unexpected = {n: [f"{progs[i][3]}: {m[:150]}" for i, m in sv.bad.items() if m != "not available"][:5] for n, sv in servers.items()}
    ck.notes["programs that do not compile somewhere"] = {n: x for n, x in unexpected.items() if x}

    @hs.composite
    def case(draw):
        i = draw(hs.sampled_from(live))
        return i, [draw(values(t)) for t in progs[i][2]]

    def oracle(c):
        i, vs = c
        body, outer, ts, kind = progs[i]
        got = {}
        for n, sv in servers.items():
            if i in sv.bad:
                continue
            st, r = sv.call(i, *[ty.put(t, v) for t, v in zip(ts, vs)])
            if st != "ok" and "overflow" in r or st != "ok" and "out of range" in r:
                return False        # debug and release builds differ by Rust's rules for overflow
            got[n] = st + " " + NAN.sub("nan", r.replace(sv.prog.name, "crate"))
        k0 = first if first in got else next(iter(got))
        for n, r in got.items():
            if r != got[k0]:
                return kind, f"{kind} program with {[str(v) for v in vs]}: {n!r} gives {r[:300]}, {k0!r} gives {got[k0][:300]}; {body[:600]}", {"body": body, "outer": outer, "values": [str(v) for v in vs], "results": got}
        return False if all(v in (0, 1) for v in vs) else None

    ck.explore("programs", case(), oracle, vlib.tier(16000, 160000), sample=lambda c: {"program": progs[c[0]][0][:300], "values": [str(v) for v in c[1]]}, key=lambda c: repr((c[0], c[1])))
    for sv in servers.values():
        sv.close()
    return ck.finish()
