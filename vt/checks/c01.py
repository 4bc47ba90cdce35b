"""C01: every unit means what its definition says."""
from fractions import Fraction as F
import ref, vlib

RULE = ("exhaustive over all (unit, spelling, applicable prefix, exponent, position) combinations plus random products of "
        "them; a case is non-trivial when the text parses to at least one unit with a known definition")


def expected_prefixable(name):
    # metric first-listed unit of each dimension takes prefixes (documented); listed here from the SI tables
    return name in PREFIXABLE


PREFIXABLE = {"gram", "meter", "second", "ampere", "kelvin", "mole", "candela", "radian", "hertz", "newton", "joule",
              "watt", "pascal", "coulomb", "volt", "farad", "ohm", "siemens", "henry", "tesla", "weber", "lux", "liter"}


def judge(sv, text, want_dim, want_val, want_off, tol, key):
    st, r = sv.call("eval", s=text)
    if st != "ok" or "err" in r:
        return (key + ":reject", f"unit text {text!r}: {st} {r}")
    got = ref.scale_value(r["ts"]) * F(vlib.f64_hex(r["cf"]))
    if tuple(r["td"]) != tuple(want_dim):
        return (key + ":dimension", f"{text!r} has dimension {r['td']}, its definition says {list(want_dim)}")
    if not ref.close(got, want_val, tol):
        return (key + ":magnitude", f"1 {text} evaluates to {float(got)!r} SI, its definition says {float(want_val)!r}")
    if want_off is not None:
        off = F(vlib.f64_hex(r["af"]))
        if abs(off - want_off) > F(1, 10 ** 9):
            return (key + ":offset", f"zero of {text!r} is {float(off)!r}, its definition says {float(want_off)!r}")
    return None


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C01", RULE)
    sv = vlib.Server(vlib.build_driver())
    st, t = sv.call("tables")
    if st != "ok":
        raise vlib.CheckError(t)
    # the dimension table
    for d in t["dims"]:
        want = ref.DIMS.get(d["name"])
        ck.count("dimension", d["name"], True, d["name"])
        if want is None:
            continue    # a dimension this reference does not know: nothing to compare
        if tuple(d["exponents"]) != ref.D[want]:
            ck.report(f"dimension:{d['name']}", f"dimension {d['name']} has exponents {d['exponents']}, physics says {ref.D[want]}", d)
    have = {d["name"] for d in t["dims"]}
    for n in ref.DIMS:
        if n not in have:
            ck.report(f"dimension:{n}", f"dimension {n} is gone", n)
    # every spelling of every listed unit, bare and prefixed
    listed = {u["name"]: u for d in t["dims"] for u in d["units"]}
    for u in ref.UNITS:
        if u.name not in listed and u.name in ("slug", "fathom", "furlong", "metric_fluid_ounce"):
            continue    # defined in the table's source but not offered by any dimension
        if u.name not in listed:
            names = [a for a in (u.name, "electron_volt") if a in listed and u.name == "electronvolt"]
            if not names:
                ck.report(f"unit:{u.name}:missing", f"unit {u.name} is not offered any more", u.name)
                continue
    atoms = []
    for u in ref.UNITS:
        nm = "electron_volt" if u.name == "electronvolt" else u.name
        if nm not in listed:
            continue
        for sp, kind in [(nm, "name")] + [(s, "symbol") for s in u.symbols]:
            atoms.append((sp, u, F(1)))
            if u.name in PREFIXABLE:
                for pn, ps, e in ref.PREFIXES:
                    for ps2 in ([ps, "u"] if pn == "micro" else [ps]):
                        text = (pn if kind == "name" else ps2) + sp
                        if text in ref.BY_SYM or text in ref.BY_NAME:
                            continue
                        atoms.append((text, u, F(10) ** e))
                    if kind == "name":
                        atoms.append((pn.capitalize() + sp, u, F(10) ** e))
    for text, u, k in atoms:
        ck.count("spelling", text, True, {"text": text, "means": u.name})
        bad = judge(sv, text, u.dim, u.value * k, u.offset if k == 1 else None, u.tol, f"unit:{u.name}")
        if bad:
            ck.report(bad[0], bad[1], {"text": text})
    bases = [(b["name"]) for b in t["bases"]]
    if bases != ["gram", "meter", "second", "ampere", "kelvin", "mole", "candela", "radian"]:
        ck.report("bases", f"base units are {bases}", bases)
    # products / powers of spellings
    ok = [a for a in atoms if not ck.is_known(f"unit:{a[1].name}:dimension") and a[1].offset == 0
          and f"unit:{a[1].name}:magnitude" not in ck.vkeys and f"unit:{a[1].name}:dimension" not in ck.vkeys]
    atom = hs.integers(0, len(ok) - 1)
    term = hs.tuples(atom, hs.sampled_from([1, 1, 2, 3]))
    strat = hs.tuples(hs.lists(term, min_size=1, max_size=4), hs.lists(term, min_size=0, max_size=3))

    def text_of(c):
        f = lambda ts: " * ".join(ok[i][0] + (f"^{n}" if n != 1 else "") for i, n in ts)
        return f(c[0]) + ("" if not c[1] else " / " + f(c[1]))

    def oracle(c):
        dim, val, tol = [0] * 8, F(1), 1e-12
        for sign, ts in ((1, c[0]), (-1, c[1])):
            for i, n in ts:
                _, u, k = ok[i]
                dim = [a + sign * n * b for a, b in zip(dim, u.dim)]
                val *= (u.value * k) ** (sign * n)
                tol += 3 * n * u.tol
        return judge(sv, text_of(c), dim, val, None, tol, "product")

    ck.explore("product", strat, oracle, vlib.tier(3000, 40000), sample=text_of, key=text_of)
    sv.close()
    return ck.finish()
