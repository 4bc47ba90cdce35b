"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=a))


p("C01", "Every unit means what its definition says",
  "For every unit the library knows, one of that unit converts to exactly the SI magnitude, dimension and zero-point offset that the unit's published definition gives (to the precision of the definition), whichever of its spellings is used. The named physical dimensions carry the exponents physics assigns to them.",
  ["inputs"], "every unit x every spelling x every SI prefix that may be applied to it",
  "The tests convert a handful of lengths, masses and temperatures; they print, and never compare, angles, energies or volumes.",
  ["whippyunits-core/src/units.rs", "whippyunits-core/src/dimensions.rs", "whippyunits-core/src/prefix.rs"],
  [("unit table: scale, conversion factor, offset, exponents", "whippyunits-core/src/units.rs"),
   ("dimension table", "whippyunits-core/src/dimensions.rs"), ("prefix table", "whippyunits-core/src/prefix.rs")],
  observe=["parsed and evaluated unit text", "table lookups"])

p("C02", "Unit names resolve uniquely, and prefixes multiply by their power of ten",
  "Every unit symbol and name resolves to that unit and to no other; a metric base unit of a dimension spelled with an SI prefix (symbol with symbol, name with name) resolves to that unit times the prefix's power of ten; an exact unit spelling always wins over a prefix reading; any other spelling resolves to nothing. All lookup functions agree with one another about every spelling that is a unit.",
  ["inputs"], "all prefix x unit spellings, all concatenations and mutations of them, and arbitrary identifiers",
  "24 prefixes x ~100 spellings is a product no test walks, and collisions (min, cd, Pa, ft, dam) only show on particular pairs.",
  ["whippyunits-core/src/parser.rs", "whippyunits-core/src/prefix.rs", "whippyunits-core/src/dimensions.rs"],
  [("exact match first, then prefix stripping restricted to metric base units", "whippyunits-core/src/parser.rs get_unit_info"),
   ("prefix stripping", "whippyunits-core/src/prefix.rs")])

p("C03", "Unit expressions evaluate as products, quotients and powers of their parts",
  "For every well-formed unit expression, the dimension, scale, conversion factor and set of named units it evaluates to are exactly the product / quotient / power of those of its parts: `*` and `.` multiply and bind tighter than `/`, everything after a `/` up to the next one is the divisor, `^n` and a trailing digit exponent are powers (negative where allowed), `10` and `10^n` are pure scale, and parentheses, spacing and spelling of an equivalent expression do not change the result. Expressions naming only storage units have conversion factor 1, and strict evaluation accepts exactly those.",
  ["inputs"], "all unit expressions built from the grammar over all units, prefixes, exponents, nesting and layouts",
  "Tests evaluate about a dozen fixed strings; precedence, nesting and implicit exponents interact.",
  ["whippyunits-core/src/parser.rs", "whippyunits-core/src/scale_exponents.rs", "whippyunits-core/src/dimension_exponents.rs"],
  [("recursive-descent parse and evaluate", "whippyunits-core/src/parser.rs UnitExpr"),
   ("conversion factor recursion", "whippyunits-core/src/parser.rs calculate_unit_conversion_factors")])

p("C04", "Bad unit text is reported as an error, never a crash or a silent guess",
  "Handing any text to the run-time unit entry points (parsing a unit expression, deserializing a quantity from JSON or from text, formatting a value in a named unit) yields either a correct result or an error value; it never panics, overflows or hangs. Text naming a unit the library does not know is rejected.",
  ["inputs"], "arbitrary strings, near-miss unit texts, huge and negative exponents, non-ASCII identifiers, malformed JSON",
  "Tests pass a few well-formed strings and two mismatches; the bad-input space is unbounded.",
  ["whippyunits-core/src/parser.rs", "src/serialization.rs", "src/print/prettyprint.rs", "src/print/display_traits.rs"],
  [("parse errors surfaced as Result", "src/serialization.rs"), ("syn-based unit parser", "whippyunits-core/src/parser.rs")])

p("C05", "Floating-point rescaling multiplies by the exact ratio of the two scales",
  "Rescaling a floating-point quantity between any two scales of the same dimension (within 100 powers of 2, 3, 5 and 8 of pi of each other) yields the input times the exact ratio of the scales, to within floating-point rounding, keeping the dimension and brand. Hence rescaling to the same scale is the identity, going there and back returns the input to rounding, and rescaling through an intermediate scale agrees with going directly.",
  ["inputs", "programs"], "pairs and triples of scales (from units, prefixes, powers and random factorizations) x values x f32/f64 x function and macro forms",
  "Tests rescale among metres, millimetres and kilometres only; the ratio is computed from four independent exponent differences.",
  ["src/api.rs", "src/scale_conversion.rs", "src/rescale_macro.rs", "proc-macros/src/pow_lookup_macro.rs"],
  [("aggregated scale factor", "src/api.rs aggregate_scale_factor_float"), ("power tables", "src/scale_conversion.rs"),
   ("rescale! dispatch on storage type", "src/rescale_macro.rs")])

p("C06", "Integer rescaling is exact, truncating toward zero, whenever the result fits",
  "Rescaling an integer quantity between any two scales of the same dimension whose exact ratio fits 128-bit arithmetic yields the exact scaled value truncated toward zero (pi taken as 355/113) for every integer storage type and sign, whenever that result fits the storage type and the product fits 128 bits. In particular a value that scales to an integer is never changed by intermediate overflow or truncation.",
  ["inputs", "programs"], "pairs of scales x every integer width and signedness x values including extremes and overflow boundaries",
  "Tests rescale small positive values between neighbouring prefixes in i32/i64; overflow boundaries, negative values, narrow types and large ratios are not sampled.",
  ["src/scale_conversion.rs", "src/api.rs", "src/rescale_macro.rs", "proc-macros/src/pow_lookup_macro.rs"],
  [("rational factor, GCD reduction, 128-bit path", "src/scale_conversion.rs _define_int_rescale"), ("rational power tables", "proc-macros/src/pow_lookup_macro.rs")])

p("C07", "Quantity arithmetic is raw arithmetic plus exponent bookkeeping",
  "For all operands the type system accepts, the stored number of the result equals the same operation on the stored numbers (bit for bit, wrapping or panicking exactly when the primitive does), and the result's dimension and scale are the operands' exponents added (multiplication), subtracted (division, reciprocal) or kept (addition, subtraction, remainder, negation, scaling by a number). Assignment operators and every supported operand order give the same result as the plain operators.",
  ["programs", "inputs"], "generated well-typed expressions over units, scales, storage types and brands, evaluated on generated values",
  "Tests assert a few products of lengths and times; each operator x storage type x operand order is a separate implementation.",
  ["src/arithmetic.rs", "src/api.rs", "src/quantity.rs", "src/arithmetic_quantity_types.rs", "whippyunits-core/src/num.rs"],
  [("operator impls generated per storage type", "src/arithmetic.rs"), ("exponent arithmetic in the type system", "whippyunits-core/src/num.rs")])

p("C08", "Comparing quantities is comparing their stored numbers",
  "For any two quantities of the same type, equality and ordering (including partial ordering with NaN, and every comparison operator) give exactly the answer the stored numbers give. Comparison after rescaling to a common unit agrees with comparing the physical magnitudes.",
  ["inputs", "programs"], "units, storage types and value pairs including NaN, infinities, signed zeros and extremes",
  "Tests compare a few ordered positive pairs.",
  ["src/quantity.rs", "src/arithmetic.rs", "src/api.rs"], [("PartialEq / PartialOrd impls", "src/quantity.rs")])

p("C09", "Mixing dimensions, scales, brands or storage types does not compile",
  "Adding, subtracting, comparing, assigning, passing or remaindering two quantities whose dimension, scale, brand or storage type differ is rejected by the compiler, as is assigning a product, quotient or rescaled value to a unit type it does not have, erasing a dimensional quantity to a number, extracting a value in a unit of another dimension, or naming an unknown unit or (in a type) a non-storage unit. The same program with the types made to agree compiles.",
  ["programs"], "generated programs: every mixing operation x pairs of units/scales/brands/storage types, each with its legal twin",
  "Four fixed compile-fail programs exist; one wrong blanket implementation or one lost trait bound would admit a whole class they never touch.",
  ["src/arithmetic.rs", "src/quantity.rs", "src/api.rs", "proc-macros/src/unit_macro.rs", "proc-macros/src/value_macro.rs"],
  [("same-type operator bounds", "src/arithmetic.rs"), ("exponents as const generics", "src/quantity.rs")])

p("C10", "A dimensionless quantity becomes exactly the plain number it denotes",
  "Converting a dimensionless quantity of any scale to any numeric type its storage type may convert to gives the stored number times the scale (to rounding for floats, exactly when representable for integers), by whichever conversion syntax.",
  ["inputs", "programs"], "scales x storage types x target types x values",
  "Tests erase a few ratios with scale one.",
  ["src/quantity.rs", "src/api.rs", "proc-macros/src/generate_all_dimensionless_cross_type_macro.rs"],
  [("From impls for dimensionless quantities", "src/quantity.rs / src/api.rs")])

p("C11", "Angles erase to their value in radians and vanish from compound units",
  "Converting a pure angle (or an integer power of angle) to a plain number gives its magnitude in radians (to that power), whatever angular unit it was declared in. Converting a compound quantity to the type with its angle exponent removed leaves the physical magnitude unchanged.",
  ["inputs", "programs"], "angular units x powers x storage types x values; compound dimensions with angle",
  "Tests erase a few degree and radian values; each power and storage type is separately generated.",
  ["proc-macros/src/generate_all_radian_erasures_macro.rs", "src/quantity.rs", "src/api.rs"],
  [("radian erasure impls", "proc-macros/src/generate_all_radian_erasures_macro.rs")])

p("C12", "Declaration forms agree, and reading a value back inverts declaring it",
  "For every storage unit and prefix, the quantity macro, the method on numbers, and the literal suffix give the same type and stored value, with the number unchanged. Reading a quantity's value in any unit of the same dimension gives the declared number times the ratio of the units' definitions (to rounding), and reading it in the unit it was declared in returns the declared number.",
  ["programs", "inputs"], "units x prefixes x declaration forms x storage types x read-back units x values",
  "Tests declare each form for a few units; the forms are generated by separate macros from the same table.",
  ["proc-macros/src/quantity_macro.rs", "proc-macros/src/value_macro.rs", "proc-macros/src/generate_default_declarators_macro.rs", "proc-macros/src/utils/literal_macros.rs", "src/default_declarators.rs"],
  [("declarator traits", "proc-macros/src/generate_default_declarators_macro.rs"), ("value! conversion", "proc-macros/src/value_macro.rs"),
   ("literal modules", "proc-macros/src/utils/literal_macros.rs")])

p("C13", "Non-storage and affine units convert on the way in and back out",
  "Declaring a value in a unit with its own conversion factor (imperial, astronomical, ...), alone or inside a compound expression of such units, or in a unit with its own zero (Celsius, Fahrenheit) by itself, stores the physically equivalent amount, whichever declaration form, storage type and brand is used. Reading it back in the same unit returns the declared value, and reading it in any other unit of the dimension gives the physically equivalent reading.",
  ["programs", "inputs"], "non-storage and affine units x compound expressions x declaration forms x storage types x values",
  "Tests convert about five imperial units and two temperatures at one value each.",
  ["proc-macros/src/quantity_macro.rs", "proc-macros/src/value_macro.rs", "proc-macros/src/generate_default_declarators_macro.rs", "whippyunits-core/src/parser.rs"],
  [("conversion-factor application", "proc-macros/src/quantity_macro.rs"), ("inverse conversion", "proc-macros/src/value_macro.rs")])

p("C14", "A unit expression names one type, however it is written",
  "The type named by a unit expression is determined by its dimension and scale alone: equivalent expressions name the identical type, expressions that differ in dimension or scale name different types, and a quantity declared with a unit has exactly the type that unit names, with the given storage type and brand (default f64, unbranded).",
  ["programs"], "pairs of generated unit expressions, equivalent or not, in type and value position",
  "Equality of types over an infinite grammar of spellings is not sampled by the few annotations in tests.",
  ["proc-macros/src/unit_macro.rs", "proc-macros/src/quantity_macro.rs", "proc-macros/src/compute_unit_dimensions_macro.rs", "src/lib.rs"],
  [("unit! expansion", "proc-macros/src/unit_macro.rs")])

p("C15", "Locally chosen base scales change storage, never the quantity",
  "Under declarators defined with a chosen scale per base dimension, every declared quantity (method, macro or literal, simple or compound unit) is stored in the chosen scales and denotes the same physical amount as the ordinary declaration of the same number and unit. With a brand, local quantities interoperate with each other, never with other brands, and rescaling keeps the brand.",
  ["programs", "configurations", "inputs"], "choices of the eight base scales (and brand) x units x declaration forms x values",
  "Tests cover one choice (kg, mm, s...) and a few units; there are thousands of scale choices.",
  ["proc-macros/src/define_unit_declarators_macro.rs", "proc-macros/src/local_unit_type_macro.rs", "proc-macros/src/define_local_quantity_macro.rs", "proc-macros/src/generate_local_unit_literals_macro.rs"],
  [("local unit type computation", "proc-macros/src/local_unit_type_macro.rs"), ("declarator generation", "proc-macros/src/define_unit_declarators_macro.rs")])

p("C16", "A generic dimension admits exactly the quantities of its dimensions",
  "A user-defined generic dimension (a name for one or several dimension expressions) is satisfied by every unbranded quantity of one of those dimensions, at any scale and storage type, and by no quantity of any other dimension. Generic code written against it computes the same as the code written for the concrete types.",
  ["programs"], "generated dimension expressions and lists x quantities inside and outside",
  "Tests define a few traits and only use them positively.",
  ["src/dimension_traits.rs", "proc-macros/src/define_generic_dimension_macro.rs"],
  [("trait generation from dimension expressions", "proc-macros/src/define_generic_dimension_macro.rs")])

p("C17", "Printed units denote the quantity's true dimension and scale",
  "The unit text a quantity is displayed or debug-printed with, in short or long form, reads back (prefixes, powers, products, quotients and explicit factors) as the dimension and scale of the quantity's type, and the printed number is the stored number to the shown precision. The brackets of the debug form list the type's exponents exactly.",
  ["inputs", "programs"], "dimension vectors x scales (powers of ten and others) x verbosity x values",
  "Tests print a few dozen quantities and assert on substrings of some.",
  ["whippyunits-core/src/storage_unit.rs", "src/print/prettyprint.rs", "src/print/display_traits.rs", "src/print/name_lookup.rs"],
  [("unit literal generation", "whippyunits-core/src/storage_unit.rs"), ("pretty printing", "src/print/prettyprint.rs")])

p("C18", "Formatting in a named unit prints the equivalent reading, or says it cannot",
  "Formatting a quantity in a named unit of the same dimension prints its reading in that unit (to the requested precision) followed by that unit's text. A unit of another dimension, or unknown text, yields the documented error text instead of a number.",
  ["inputs", "programs"], "quantities of all dimensions/scales/storage types x target unit texts x precisions",
  "Tests format a few lengths and one mismatch.",
  ["src/print/display_traits.rs", "src/print/format_specifiers.rs", "src/quantity.rs"],
  [("format with rescaling", "src/quantity.rs fmt / src/print/display_traits.rs")])

p("C19", "Deserialized quantities carry the physical amount the text states",
  "Reading a quantity from JSON (object form) or from a value-with-unit string, in any unit expression of the target dimension, yields the target type holding the physically equivalent amount. A text whose unit has another dimension is refused with an error, and a refusal leaves nothing half-built.",
  ["inputs", "programs"], "target types x unit expressions x numbers x JSON/string layouts, matching and mismatching",
  "Tests read a few fixed strings.",
  ["src/serialization.rs"], [("unit conversion on deserialize", "src/serialization.rs")])

p("C20", "Serializing and deserializing a quantity returns the same amount",
  "Serializing any quantity and deserializing the result into the same type gives back the same amount (to floating-point rounding), for every dimension, scale and floating-point value JSON can carry. Deserializing it into another scale of the dimension gives the rescaled amount.",
  ["inputs", "programs"], "types (dimension, scale, storage) x finite values",
  "The tests serialize and deserialize separately, at scale one.",
  ["src/serialization.rs"], [("Serialize / Deserialize impls", "src/serialization.rs")])

p("C21", "Every build configuration computes the same thing",
  "A program that compiles under several of the supported configurations (stable or generic-const-exprs, with or without std and alloc, debug or release) gets the same types and bit-identical results from each. Exponent addition, subtraction and negation at the type level are exact over the whole supported range of exponents.",
  ["configurations", "programs"], "generated programs x build configurations; exponent pairs in -200..200",
  "Tests run each configuration by itself on the same few expressions and never compare; exponents above 10 are not touched.",
  ["whippyunits-core/src/num.rs", "src/api.rs", "src/arithmetic.rs", "Cargo.toml"],
  [("stable polyfill tables", "whippyunits-core/src/num.rs"), ("cfg-split implementations", "src/api.rs")])

p("C22", "The LSP proxy relays every message intact except for the text it prettifies",
  "For any well-formed stream of framed messages in either direction, the proxy emits the same messages in the same order, each correctly framed (declared length equal to the byte length of the body), with every field of every message that carries no quantity type unchanged, and requests to the server byte-identical. No message content makes it crash, stall or drop a message.",
  ["histories", "inputs"], "message streams: kinds, ids, nested payloads, unicode, sizes and chunk boundaries",
  "Tests feed a few single messages; a stream of arbitrary JSON-RPC traffic is a history.",
  ["lsp-proxy/src/lib.rs", "lsp-proxy/src/main.rs", "lsp-proxy/src/lsp_structures.rs"],
  [("framing and dispatch", "lsp-proxy/src/lib.rs"), ("relay loops", "lsp-proxy/src/main.rs")])

p("C23", "Prettified types in hovers name the right unit and leave other text alone",
  "In any hover text, each fully resolved quantity type is replaced by text naming its true unit, storage type and brand, and everything outside quantity types is left as it was. Text without quantity types comes back unchanged, and prettifying twice equals prettifying once.",
  ["inputs"], "texts embedding generated quantity types in arbitrary surroundings x display options",
  "Tests prettify a few literal strings.",
  ["lsp-proxy/src/unit_formatter.rs", "lsp-proxy/src/hover_processor.rs", "lsp-proxy/src/quantity_detection.rs"],
  [("type scanning and replacement", "lsp-proxy/src/unit_formatter.rs")])

p("C24", "Inlay hints show the right unit and insert code that compiles to the same type",
  "In any inlay-hint response, a hint label spelling a quantity type becomes a label naming its true unit, and accepting the hint inserts an annotation naming exactly that type; hints that do not mention a quantity type, and all other fields, are unchanged.",
  ["inputs"], "inlay-hint responses with generated types split into label parts in all the ways the server splits them",
  "Tests use two recorded hints.",
  ["lsp-proxy/src/inlay_hint_processor.rs"], [("label conversion", "lsp-proxy/src/inlay_hint_processor.rs")])

p("C25", "The compiler-output prettifier rewrites quantity types and nothing else",
  "Feeding any compiler output through the command-line prettifier (pipe or file) gives the same lines in the same order, with every line that mentions no quantity type unchanged and every quantity type replaced by text naming its true unit.",
  ["inputs"], "compiler-like outputs with generated types, arbitrary lines, unicode, long lines",
  "Tests process one sample output.",
  ["whippyunits-pretty/src/main.rs", "whippyunits-pretty/src/rustc_pretty.rs", "lsp-proxy/src/unit_formatter.rs"],
  [("line filter", "whippyunits-pretty/src/rustc_pretty.rs")])

p("C26", "Exponent vectors form the algebra of dimensions",
  "Run-time dimension and scale exponents obey vector arithmetic (sum, negation, integer multiple) componentwise, agree with the type-level computation of the same expression, and every named dimension is found from its exponents, name and symbol and only from those. A vector is reported as a base dimension exactly when it is one.",
  ["inputs"], "exponent vectors and factors; names and symbols",
  "Unit tests check three vectors.",
  ["whippyunits-core/src/dimension_exponents.rs", "whippyunits-core/src/scale_exponents.rs", "whippyunits-core/src/dimensions.rs"],
  [("vector ops", "whippyunits-core/src/dimension_exponents.rs")])

p("C27", "Errors for unknown names name the culprit and suggest only usable names",
  "A macro given an unknown unit, dimension or base-scale name is rejected with a compile error that names it. Every name the error suggests instead is one the same macro accepts in the same place.",
  ["inputs"], "misspellings and arbitrary identifiers, alone and inside expressions, in every macro that takes such names",
  "Tests misspell a handful of names and never feed a suggestion back.",
  ["proc-macros/src/utils/unit_suggestions.rs", "proc-macros/src/utils/dimension_suggestions.rs", "proc-macros/src/utils/scale_suggestions.rs", "proc-macros/src/utils/shared_utils.rs", "proc-macros/src/define_generic_dimension_macro.rs", "proc-macros/src/define_unit_declarators_macro.rs"],
  [("similarity search and messages", "proc-macros/src/utils/unit_suggestions.rs")])

p("C28", "A quantity is stored as exactly its number, also in constants",
  "In memory a quantity is exactly its number: whatever its unit and brand it has the number's size, alignment, spare values and bytes, is dropped, moved and cloned as the number is, and can be sent and shared between threads exactly when the number can. With a copyable brand it can be copied, cloned and compared exactly when the number can. Declaring, rescaling and reading quantities of storage units in constants gives what the same expressions give at run time.",
  ["inputs"], "storage types x exponents x brands; operation sequences on counted values; generated constants",
  "No test looks at the layout, the traits of odd storage types or brands, or evaluates anything in a constant.",
  ["src/quantity.rs", "src/scale_conversion.rs", "proc-macros/src/value_macro.rs"],
  [("the wrapper type", "src/quantity.rs"), ("const rescaling", "src/scale_conversion.rs")])

p("C29", "The macros mean the same in every scope",
  "quantity!, unit!, value!, rescale!, from_json!, from_string!, define_generic_dimension! and the macros of local declarator modules give the same types and values wherever they are invoked in a crate that depends on whippyunits alone, whatever local items, variables, type parameters or imports are in scope. Local names written in their arguments mean what they mean to the caller. Each argument is evaluated exactly once, where it is written.",
  ["inputs"], "generated scopes x macro invocations x arguments",
  "Tests invoke the macros next to the usual glob imports, in a crate that depends on every workspace member.",
  ["proc-macros/src/quantity_macro.rs", "proc-macros/src/unit_macro.rs", "proc-macros/src/value_macro.rs", "proc-macros/src/define_generic_dimension_macro.rs", "proc-macros/src/define_unit_declarators_macro.rs", "src/rescale_macro.rs", "src/serialization.rs"],
  [("quantity! expansion", "proc-macros/src/quantity_macro.rs"), ("rescale!", "src/rescale_macro.rs"), ("from_json!/from_string!", "src/serialization.rs")])

if __name__ == "__main__":
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            n = x["statement"].count(". ") + 1
            assert n <= 3, (x["id"], n)
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
