"""Mutation testing of the checks (development only): random small changes to original lines of the repository, each run
against the checks of the properties its file carries.

  mutate.py LANE SEED COUNT [FILE...]   works in /tmp/mut/LANE/{repo,verif}; appends to /tmp/mut/LANE/log
A line of the log: verdict (caught CNN | nobuild | SURVIVED | odd), file:line, old, new."""
import json, os, random, re, subprocess, sys

MAP = {
    "whippyunits-core/src/parser.rs": "C03 C04 C14 C02 C13",
    "whippyunits-core/src/storage_unit.rs": "C17 C12 C23 C15",
    "whippyunits-core/src/prefix.rs": "C02 C17",
    "whippyunits-core/src/units.rs": "C01 C02 C13",
    "whippyunits-core/src/dimensions.rs": "C02 C26 C17 C16",
    "whippyunits-core/src/dimension_exponents.rs": "C26 C17 C03",
    "whippyunits-core/src/scale_exponents.rs": "C26 C17 C05",
    "whippyunits-core/src/lib.rs": "C03 C26 C13",
    "whippyunits-core/src/num.rs": "C21 C07",
    "proc-macros/src/quantity_macro.rs": "C12 C13 C14",
    "proc-macros/src/value_macro.rs": "C12 C13",
    "proc-macros/src/unit_macro.rs": "C14 C12 C04",
    "proc-macros/src/compute_unit_dimensions_macro.rs": "C14 C12",
    "proc-macros/src/utils/literal_macros.rs": "C12 C13 C15",
    "proc-macros/src/utils/culit.rs": "C12 C15",
    "proc-macros/src/utils/shared_utils.rs": "C12 C14 C15 C13",
    "proc-macros/src/local_unit_type_macro.rs": "C15 C12",
    "proc-macros/src/define_unit_declarators_macro.rs": "C15 C12",
    "proc-macros/src/generate_local_unit_literals_macro.rs": "C15 C12",
    "proc-macros/src/generate_default_declarators_macro.rs": "C12 C02 C13",
    "proc-macros/src/define_generic_dimension_macro.rs": "C16",
    "proc-macros/src/pow_lookup_macro.rs": "C05 C06",
    "proc-macros/src/generate_all_radian_erasures_macro.rs": "C11 C10",
    "proc-macros/src/generate_all_dimensionless_cross_type_macro.rs": "C10 C11",
    "src/print/prettyprint.rs": "C17 C18 C23 C15",
    "src/print/name_lookup.rs": "C17 C23",
    "src/print/display_traits.rs": "C17 C18",
    "src/serialization.rs": "C19 C20 C18",
    "src/scale_conversion.rs": "C05 C06",
    "src/rescale_macro.rs": "C06 C05",
    "src/quantity.rs": "C10 C11 C07 C08 C09",
    "src/arithmetic.rs": "C07 C08 C21",
    "src/arithmetic_quantity_types.rs": "C07 C21",
    "src/default_declarators.rs": "C12 C13",
    "src/api.rs": "C07 C05 C06 C21",
    "src/dimension_traits.rs": "C16",
    "src/lib.rs": "C12 C15",
    "lsp-proxy/src/lib.rs": "C22 C23 C24",
    "lsp-proxy/src/main.rs": "C22",
    "lsp-proxy/src/hover_processor.rs": "C23 C22",
    "lsp-proxy/src/inlay_hint_processor.rs": "C24 C22",
    "lsp-proxy/src/unit_formatter.rs": "C23 C25 C24",
    "lsp-proxy/src/quantity_detection.rs": "C23 C24 C22 C25",
    "whippyunits-pretty/src/rustc_pretty.rs": "C25",
    "whippyunits-pretty/src/main.rs": "C25",
}
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif !", "if "),
       (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"starts_with", "ends_with"), (r"ends_with", "starts_with"), (r"\.contains\(", ".starts_with("), (r"\.abs\(\)", ""),
       (r"\.trim\(\)", ""), (r"\.rev\(\)", ""), (r"\.rfind\(", ".find("), (r"\.find\(", ".rfind("), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
       (r"\.\.=", ".."), (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " /= "), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
       (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.next\(\)", ".last()"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.is_empty\(\)", ".len() == 1"),
       (r"^(\s*)if [^{]*\{$", r"\1if true {"), (r"^(\s*)if [^{]*\{$", r"\1if false {"), (r"^(\s*)\} else if [^{]*\{$", r"\1} else if false {"),
       (r"^(\s*)(?!let|return|use|pub|const|static|break|continue|type|fn)[a-z_][^{}]*;$", r"\1();"), (r"\.unwrap_or\([^)]*\)", ".unwrap_or_default()"), (r"-\(", "("), (r"= -([a-z])", r"= \1"),
       (r"\bSome\((\w+)\) =>", r"Some(\1) if false =>"), (r"i64\b", "i32"), (r"i32\b", "i16"), (r"f64\b", "f32"), (r"\bp2\b", "p3"), (r"\bp5\b", "p2"), (r"\bpi\b", "p5"),
       (r"_LUMINOSITY", "_AMOUNT"), (r"luminosity", "amount"), (r"mass", "length"), (r"_ANGLE", "_TIME"), (r"P3", "P5"), (r"\.0\b", ".1"), (r"\.len\(\)", ".chars().count()"),
       (r"\.clone\(\)", ".to_owned()")]


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    lane, seed, count, files = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4:]
    base = f"/tmp/mut/{lane}"
    repo, verif = base + "/repo", base + "/verif"
    os.makedirs(base, exist_ok=True)
    if not os.path.isdir(repo):
        sh(f"git clone -q /repo {repo}")
    sh("git checkout -q -- . && git pull -q", cwd=repo)
    sh(f"rsync -a --delete --exclude target --exclude seeded --exclude .git /verif/ {verif}/")
    os.makedirs(verif + "/evidence", exist_ok=True)
    first = sh("git rev-list --max-parents=0 HEAD", cwd=repo).stdout.strip()
    rng = random.Random(f"{lane} {seed}")
    done = set()
    if os.path.exists(base + "/log"):
        done = {tuple(json.loads(l)[1:4]) for l in open(base + "/log")}
    while count > 0:
        f = rng.choice(files or list(MAP))
        path = os.path.join(repo, f)
        text = open(path).read()
        lines = text.split("\n")
        blame = sh(f"git blame -s -l --root {f}", cwd=repo).stdout.split("\n")
        stop = next((i for i, l in enumerate(lines) if re.match(r"\s*#\[cfg\(test\)\]", l)), len(lines))
        cand = []
        for i, l in enumerate(lines[:stop]):
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "assert", "println", "eprintln", "pub use", "mod ")) or not blame[i].startswith(first):
                continue
            for j, (a, b) in enumerate(OPS):
                for m in re.finditer(a, l):
                    cand.append((i, j, m))
            for m in re.finditer(r"(?<![\w.#])\d+(?![\w.])", l):
                cand.append((i, None, m))
        if not cand:
            continue
        js = rng.choice(sorted({c[1] for c in cand if c[1] is not None} | {-1 if any(c[1] is None for c in cand) else 0} - {None}))
        cs = [c for c in cand if (c[1] if c[1] is not None else -1) == js]
        if not cs:
            continue
        i, j, m = rng.choice(cs)
        l = lines[i]
        new = str(int(m.group()) + rng.choice([1, -1])) if j is None else m.expand(OPS[j][1])
        nl = l[:m.start()] + new + l[m.end():]
        if nl == l or (f, i + 1, nl.strip()) in done:
            continue
        count -= 1
        done.add((f, i + 1, nl.strip()))
        open(path, "w").write("\n".join(lines[:i] + [nl] + lines[i + 1:]))
        verdict, note = "SURVIVED", ""
        for p in MAP[f].split():
            try:
                r = sh(f"timeout 890 ./check {p}", cwd=verif, env=dict(os.environ, WU_REPO=repo))
            except Exception as e:
                verdict, note = "odd", repr(e)
                break
            if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                verdict = "caught " + p
                note = next(x for x in r.stdout.splitlines() if x.startswith("VIOLATION"))[:300]
                break
            if r.returncode != 0:
                verdict, note = ("nobuild", r.stdout[-200:]) if "could not compile" in r.stdout or "does not build" in r.stdout else (f"odd {p} {r.returncode}", r.stdout[-600:])
                break
        open(path, "w").write(text)
        with open(base + "/log", "a") as g:
            g.write(json.dumps([verdict, f, i + 1, nl.strip(), l.strip(), note]) + "\n")


main()
