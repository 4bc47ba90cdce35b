"""C27: error messages for unknown names name the culprit and suggest only names that work there."""
import re
import model, types_ as ty, unittext, vlib

RULE = ("misspellings (a letter added, dropped, replaced or swapped, case changed, another prefix) of generated unit, dimension and base-scale names, and arbitrary identifiers, "
        "alone and inside expressions, in every macro that takes such names: the compiler's error must name the unknown identifier, and each name it suggests must be known to "
        "the same macro in the same place (by compiling it); non-trivial: a misspelling with at least one suggestion")
BASES = ["Kilogram", "Meter", "Second", "Ampere", "Kelvin", "Mole", "Candela", "Radian"]
KEY = set("as in do if fn let mut ref use mod pub for dyn box try gen type impl enum else loop move self Self super crate match where while trait const false true async await "
          "break static struct return unsafe extern continue abstract become final macro override priv typeof unsized virtual yield union".split())


KIND = {"unit": "unit", "dim": "dimension", "scale": "scale"}


def misspell(rng, n):
    w = rng.randrange(8)
    i = rng.randrange(len(n))
    c = rng.choice("abcdefghijklmnopqrstuvwxyz")
    if w == 0:
        return n[:i] + c + n[i:]
    if w == 1:
        return n[:i] + n[i + 1:]
    if w == 2:
        return n[:i] + c + n[i + 1:]
    if w == 3 and i + 1 < len(n):
        return n[:i] + n[i + 1] + n[i] + n[i + 2:]
    if w == 4:
        return n.swapcase() if rng.random() < .5 else n.capitalize()
    if w == 5:
        return n + rng.choice(["s", "es", "x", n[-1]])
    if w == 6:
        return rng.choice(["kilo", "milli", "k", "m", "u", "deka", "deci"]) + n
    return n[:i] + "_" + n[i:]


def suggestions(msg):
    m = re.search(r"Did you mean: (.*)\?$", msg, re.S)
    if m:
        return re.findall(r"'([^']*)'", m[1])
    return [x.strip() for l in re.findall(r"Supported dimension (?:names|symbols): ([^.]*)", msg) for x in l.split(",")]


def ident(x):
    return x.isidentifier() and x not in KEY and x != "_"


# a place for a name: (kind, source with X for the name)
UNIT_PLACES = ["fn NAME(_: unit!(X)) {}", "fn NAME() { let _ = quantity!(1.0, X); }", "fn NAME() { let _ = quantity!(1.0, m * X / s^2); }", "fn NAME(_: unit!(kg * X^2, f32)) {}",
               "fn NAME() { let _ = quantity!(2, (X) / mol, i32); }", "fn NAME(_: unit!(1 / X, f64, BrandA)) {}", "mod NAME { use super::loc::*; fn f() { let _ = quantity!(1.0, X); } }",
               "mod NAME { use super::loc::*; fn f() { let _ = quantity!(1.0, s * X, f32); } }", "fn NAME() { let _ = quantity!(1.0f32, X.s2, f32); }"]
VALUE_PLACE = "fn NAME<T>(q: T) { let _: f64 = value!(q, X); }"
VALUE_GOOD = "fn NAME() { let q = quantity!(1.0, X); let _: f64 = value!(q, X); }"
UNIT_PLACES += [VALUE_PLACE]
DIM_PLACES = ["mod NAME { use whippyunits::dimension_traits::*; define_generic_dimension!(Tr, X); }", "mod NAME { use whippyunits::dimension_traits::*; define_generic_dimension!(Tr, Mass, X^2 / Time); }",
              "mod NAME { use whippyunits::dimension_traits::*; define_generic_dimension!(Tr, M * (L / X), 1); }", "mod NAME { use whippyunits::dimension_traits::*; define_generic_dimension!(Tr, 1 / X^-3); }"]


def scale_place(rng, i):
    b = list(BASES)
    b[i] = "X"
    return "mod NAME { whippyunits::define_unit_declarators!(inner_NAME, " + ("BrandA, " if rng.random() < .3 else "") + ", ".join(b) + "); pub struct BrandA; }"


def base_of(place):
    """the position of the name in the list of base scales"""
    l = [x for x in re.search(r"\((.*)\)", place)[1].split(", ") if x != "BrandA"][1:]
    return l.index("X")


def run():
    ck = vlib.Check("C27", RULE)
    rng = ck.rng
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    units = sorted(n for n in {n for u in tb.units for n in [u["name"]] + u["symbols"]} | {p + n for p in tb.prefix_names for n in tb.base_name} | {p + n for p in tb.prefixes for n in tb.base_symbol} if ident(n))
    dims = sorted({s for d in tb.dims for s in (d["name"], d["symbol"]) if s})
    scales = {i: [] for i in range(8)}
    for u in tb.units:
        for i in range(8):
            if u["dims"] == [int(i == j) for j in range(8)] and u["cfv"] == 1.0:
                scales[i].append(u["name"][0].upper() + u["name"][1:])
                if u["first"]:
                    scales[i] += [p.capitalize() + u["name"] for p in tb.prefix_names]

    def bad(kind, names):
        for _ in range(500):
            n = rng.choice(names)
            m = misspell(rng, n.replace(" ", "")) if rng.random() < .93 else "".join(rng.choice("abcdefghijklmnopqrstuvwxyzµ_ABCXYZ") for _ in range(rng.randint(2, 40)))
            if len(m) < 2 or not ident(m) or m.startswith("_") or m in BASES + ["loc", "BrandA", "X", "NAME"]:
                continue
            if kind == "unit" and (tb.candidates(m) or tb.atom(m) is not None or any(c.isdigit() for c in m) or m == "dimensionless" or not unittext.plain(m)):
                continue
            if kind == "unit" and tb.candidates(m.rstrip("s")):
                continue            # plurals are accepted in places
            if kind == "dim" and (m in dims or m in "M L T I Θ θ N J A".split() or any(c.isdigit() for c in m)):
                continue
            if kind == "scale" and any(m.lower() == s.lower() for l in scales.values() for s in l):
                continue
            return m
        raise vlib.CheckError("no misspelling found")

    cases = []
    for k in ["unit"] * vlib.tier(500, 3000) + ["dim"] * vlib.tier(200, 1200) + ["scale"] * vlib.tier(8, 60):      # a base scale list takes rustc seconds
        i = rng.randrange(8)
        cases.append((k, rng.choice(UNIT_PLACES) if k == "unit" else rng.choice(DIM_PLACES) if k == "dim" else scale_place(rng, i), bad(k, units if k == "unit" else dims if k == "dim" else scales[i])))
    prelude = ty.PRELUDE + "\nstruct BrandA;\nwhippyunits::define_unit_declarators!(loc, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);\n"

    def program(name, srcs):
        pr = vlib.Prog(name, prelude)
        pr.tail = "fn main() {}"
        for s in srcs:
            pr.add(s)
        return pr
    fill = lambda place, n, x: place.replace("NAME", n).replace("X", x)
    src = [fill(p, f"c{j}", x) for j, (k, p, x) in enumerate(cases)]
    msgs = {}
    gone = set()
    for _ in range(8):
        pr = program("c27bad", ["" if j in gone else s for j, s in enumerate(src)])
        ok, errs, other, stderr = pr.check()
        if ok or not errs and not other:
            break
        if not errs:
            raise vlib.CheckError("the program fails outside its cases: " + "; ".join(m["message"][:200] for m in other[:4]) + stderr[-800:])
        for j, ms in errs.items():
            msgs.setdefault(j, [m["message"] for m in ms])
            gone.add(j)
        if len(gone) == len(src):
            break
    asked = set()
    again = []                # (case, suggestion)
    for j, (k, p, x) in enumerate(cases):
        ms = msgs.get(j)
        if ms is None:
            ck.report(f"accepted:{k}", f"the unknown {k} name {x!r} is accepted: {src[j]}", {"program": src[j]})
            continue
        named = [m for m in ms if f"'{x}'" in m or f"`{x}`" in m]
        if not named:
            ck.report(f"unnamed:{k}", f"the error for {src[j]} does not name {x!r}: {ms[:3]}", {"program": src[j], "errors": ms})
        su = sorted({s for m in named if KIND[k] in m for s in suggestions(m)})
        ck.count(k, (p, x), bool(su), {"program": src[j], "error": named[:1]})
        for s in su:
            if (p, s) not in asked:
                asked.add((p, s))
                again.append((j, s))
    # suggestions of one base scale position each can share an invocation
    good, where, groups = [], [], {}
    for n, (j, s) in enumerate(again):
        k, p, x = cases[j]
        if k == "scale":
            i = base_of(p)
            g = next((g for g in groups.values() if i not in g), None)
            if g is None:
                g = groups[len(groups)] = {}
            g[i] = (n, s)
        else:
            good.append(fill(VALUE_GOOD if p == VALUE_PLACE else p, f"g{n}", s))
            where.append([n])
    for q, g in groups.items():
        b = [g[i][1] if i in g else BASES[i] for i in range(8)]
        good.append(f"mod h{q} {{ whippyunits::define_unit_declarators!(inner_h{q}, {', '.join(b)}); }}")
        where.append([n for n, _ in g.values()])
    rejected = {}
    done = set()
    for _ in range(8):
        pr = program("c27good", ["" if w in done else s for w, s in enumerate(good)])
        ok, errs, other, stderr = pr.check()
        if ok:
            break
        if not errs:
            raise vlib.CheckError("the program of suggestions fails outside its cases: " + "; ".join(m["message"][:200] for m in other[:4]) + stderr[-800:])
        for w, ms in errs.items():
            done.add(w)
            all_ = " / ".join(sorted({m["message"] for m in ms}))
            blamed = [n for n in where[w] if len(where[w]) == 1 or f"'{again[n][1]}'" in all_ or again[n][1] in all_]
            if len(where[w]) > 1 and not blamed:
                # ask one by one
                for n in where[w]:
                    i = base_of(cases[again[n][0]][1])
                    good.append(f"mod i{n} {{ whippyunits::define_unit_declarators!(inner_i{n}, {', '.join(again[n][1] if q == i else BASES[q] for q in range(8))}); }}")
                    where.append([n])
            for n in blamed:
                rejected[n] = all_
    for n, (j, s) in enumerate(again):
        k, p, x = cases[j]
        ck.count("suggestion", (k, p, s), True, {"place": p, "for": x, "suggested": s})
        if n in rejected and any(z in rejected[n] for z in ("Unknown", "unknown", "expected `", "expected ident")):      # not: known, but unfit in this place
            ck.report(f"suggestion:{k}", f"for {x!r} the error of {src[j]} suggests {s!r}, which is rejected there: {rejected[n][:300]}", {"program": src[j], "suggestion": s, "error": rejected[n]})
    return ck.finish()
