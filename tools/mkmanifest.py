"""writes MANIFEST.json"""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
DONE = {
    "C01": ("exhaustive enumeration of spellings against an independently written table of published definitions",
            "every unit, spelling and applicable prefix is evaluated; the definitions table is hand-written from SI/NIST/IAU values"),
    "C02": ("exhaustive prefix x unit products plus generated identifiers against a reference resolver (Hypothesis)",
            "all products are enumerated, other identifiers are sampled; the reference resolver is built from the unit table checked by C01"),
    "C03": ("grammar-based generation of unit expressions against a reference evaluator, metamorphic layout variants (Hypothesis)",
            "sampled expressions up to depth 6; exact rational oracle"),
    "C05": ("generated scale pairs/triples and values through every float rescale form, exact-rational oracle, round-trip relations (Hypothesis)",
            "sampled scale pairs within the supported range; oracle in exact rationals"),
    "C06": ("generated scale pairs and integer values (overflow boundaries) through every integer rescale, exact-rational oracle (Hypothesis)",
            "sampled; all 12 integer types; the oracle is exact integer arithmetic"),
    "C07": ("generated well-typed operator programs compared bit for bit with primitive arithmetic and exponent bookkeeping (Hypothesis)",
            "all operator impls per storage type, sampled exponents and values; debug profile"),
    "C08": ("generated value pairs (NaN, ties, extremes) differential against primitive comparison (Hypothesis)",
            "all storage types, value grid plus sampled values"),
    "C10": ("generated dimensionless scales x storage/target types x values against exact rationals (Hypothesis)",
            "every accepted storage/target pair; sampled scales and values"),
    "C11": ("generated angular scales, powers, compounds and values against exact rationals (Hypothesis)",
            "every generated power and storage type; sampled scales and values"),
    "C04": ("generated arbitrary, near-miss, mutated and extreme texts through every run-time unit entry point, against an independent parser (Hypothesis)",
            "never-panic/never-hang on everything; acceptance and meaning exact on the modelled lexical subset"),
    "C12": ("exhaustive unit x prefix x declaration form programs with generated storage types, brands, read-back units and values, exact-rational oracle (Hypothesis)",
            "every storage unit, prefix and form is compiled; values and read-back expressions are sampled"),
    "C13": ("generated declarations and readings of every non-storage/affine unit and generated compounds, exact-rational oracle, published definitions, round trips (Hypothesis)",
            "every such unit and form is compiled; compounds, storage types, brands and values are sampled"),
    "C17": ("generated exponents, scales and values printed and read back by an independent reader (Hypothesis), exhaustive named-unit grid",
            "named dimensions x prefixes exhaustive, other exponents sampled"),
    "C18": ("generated quantities x unit texts x precisions against exact-rational readings and the documented error texts (Hypothesis)",
            "sampled types; all units reachable; exact rational oracle"),
    "C19": ("generated target types x unit texts x JSON/string layouts against exact-rational amounts, and generated texts that must be refused (Hypothesis)",
            "sampled types and layouts; exact rational oracle"),
    "C20": ("generated values and types: serialize/deserialize round trip, JSON shape and unit parsed by an independent parser (Hypothesis)",
            "sampled types and values; exact rational oracle"),
    "C09": ("generated legal/illegal program twins (every operation x every facet of the type), decided by the compiler, iterated until no further rejection",
            "templates are enumerated, types sampled; both the acceptance and the rejection are checked"),
    "C14": ("generated families of equivalent and near-miss unit expressions: named types compared pairwise and with an independent parser (Hypothesis)",
            "sampled expressions; exact exponent oracle"),
    "C15": ("generated base-scale choices and brands x declaration forms x values against exact rationals (Hypothesis)",
            "sampled scale choices; all units; exact rational oracle"),
    "C16": ("generated dimension-expression lists: membership of inside and outside types asked of the compiler, generic code differential against concrete code, misnamed and malformed definitions",
            "sampled lists; names and symbols exhaustive; oracle is the generator's expression tree"),
    "C21": ("generated programs and values run in six build configurations and compared bit for bit (differential, Hypothesis); type-level arithmetic on every supported exponent pair",
            "exponent pairs exhaustive; programs and values sampled; printed text compared where the configuration has an allocator"),
    "C22": ("generated message streams, chunk boundaries and conversations through the real proxy process with a scripted language server (stateful, Hypothesis)",
            "sampled histories; byte-exact oracle towards the server, JSON-exact towards the editor"),
    "C23": ("generated hover responses with embedded types: surroundings compared, types read back by an independent reader, prettified twice (Hypothesis)",
            "sampled texts and display options"),
    "C24": ("generated inlay hints with labels split every way: labels read back, inserted code evaluated and compiled against the true type (Hypothesis)",
            "sampled hints; inserted annotations compiled in one generated crate"),
    "C25": ("generated compiler output through the real command-line program by pipe and file, read back by an independent reader; plus real rustc errors (Hypothesis)",
            "sampled texts and options"),
    "C26": ("generated exponent vectors against componentwise arithmetic and type-level results (Hypothesis)",
            "sampled vectors, exhaustive names and symbols"),
    "C27": ("generated misspellings in every macro that takes names: the error must name them, and every suggestion is fed back to the same macro and must compile",
            "sampled misspellings; the oracle for a suggestion is the compiler itself"),
    "C28": ("generated storage types, units, brands and operation sequences: the wrapped and the bare number compared for layout, traits, bytes and handling (differential, Hypothesis); generated constants against run time",
            "storage types and brands from a hand-written catalogue; values and operations sampled"),
    "C29": ("generated scopes full of look-alike local items around generated macro invocations: type and value compared with the plain invocation at the crate root (metamorphic)",
            "sampled scopes; primitive types, the crate's own name and standard macros are not shadowed"),
}
checks, na = [], []
for p in P:
    if p in DONE:
        t, n = DONE[p]
        checks.append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
                       "technique": "property-based testing: " + t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": p, "reason": "check in progress"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks: every check uses the public API, macros, binaries and compiler diagnostics."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
