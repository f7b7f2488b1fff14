#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "crates/diman_unit_system/src/codegen/"
R = "crates/diman_unit_system/src/resolve/"
PA = "crates/diman_unit_system/src/parse/"
TY = "crates/diman_unit_system/src/types/"
LIB = "crates/diman_lib/src/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


TRUST = " Trusts rustc's type checker, constant evaluation and optimiser, and the external crates."

prop("C01", "Arithmetic yields the quantity of the algebraically right dimension",
     "The product or quotient of two quantities has, in every base dimension, the sum or difference of their exponents, for every combination "
     "of values, references and assignment forms and every storage type. Scaling by a bare number keeps the dimension, and dividing a bare "
     "number by a quantity negates every exponent.",
     ["programs", "configurations"], "all programs that multiply or divide quantities, of any dimensions, storage types and operand forms, with integer or rational exponents",
     "The tests multiply a handful of pairs of SI quantities; an implementation for one operand form or one base dimension can be wrong for all pairs they do not name.",
     [G + "num_traits/mod.rs", G + "num_traits/operator_trait.rs", G + "dimension_type.rs"],
     [("operator implementations per operand form", G + "num_traits/mod.rs"), ("dimension arithmetic at compile time", G + "dimension_type.rs")],
     "type-level witnesses with independently computed dimensions + closed-world lint of all Mul/Div impls in MIR",
     "Every generated Mul/Div implementation in the compiled crate is checked for the form of its result dimension, and a basis of exponent vectors (each base dimension, mixed, large, rational) over every operand form and storage is type-checked against independent arithmetic; C06 extends it to all exponents." + TRUST)

prop("C02", "Adding, comparing and assigning different dimensions never compiles",
     "Adding, subtracting, comparing, ordering, remainders, min/max/clamp and assignment arithmetic of two quantities compile only if their dimensions agree in every "
     "base dimension. A bare number may take part only if the quantity is dimensionless, and a quantity is only scaled in place by a bare or dimensionless number.",
     ["programs", "configurations"], "all programs that combine quantities additively, compare or assign them, for any pair of different dimensions, storage types and operand forms",
     "A unit test can only show that valid programs compile; the few compile-fail samples name single pairs of dimensions and operators.",
     [G + "num_traits/mod.rs", G + "num_traits/operator_trait.rs", G + "generic_methods.rs", G + "float_methods.rs"],
     [("implementations bound to one dimension parameter", G + "num_traits/mod.rs")],
     "compile-fail witnesses per base dimension and operand form + closed-world lint of impl signatures in MIR",
     "Decides for every implementation in the compiled crate that both operands carry the same dimension parameter (or a dimensionless one), and shows rejection and acceptance for one-base-dimension differences in every form." + TRUST)

prop("C03", "Operators on quantities compute the operator on the stored numbers",
     "Every arithmetic, assigning, negating, comparing and summing operator on quantities gives exactly the value (or truth value) that the same operator "
     "gives on the stored numbers, with the operands in the same order and no additional rounding, for every operand form and storage type. The result never depends on the dimension.",
     ["inputs", "programs", "configurations"], "all operand values including NaN, infinities and signed zeros, all dimensions, operand forms and storage types",
     "Tests compare a few benign values; swapped operands, extra conversions or a form that computes another operation can survive them.",
     [G + "num_traits/mod.rs", G + "num_traits/operator_trait.rs", G + "float_methods.rs"],
     [("operator implementations per operand form", G + "num_traits/mod.rs")],
     "value-flow equivalence of optimised LLVM IR of operator and bare-number twin + parametricity lint on MIR",
     "Equality of the optimised IR is for all input values; that no function reads its dimension parameter extends it to all dimensions." + TRUST)

prop("C04", "Math methods compute the method of the number and give the right dimension",
     "Every mathematical method on a quantity (roots, integer powers, trigonometric, exponential, rounding, minimum, maximum, clamping, sign, absolute value, …) gives "
     "exactly the value of the method of the stored number with its arguments in the same order, and the mathematically right dimension. Methods whose result has no meaning for a dimension exist only on dimensionless quantities.",
     ["inputs", "programs", "configurations"], "all argument values, dimensions and floating point storage types",
     "Tests call a few of the methods with one value; a method delegating to a neighbour or changing its dimension goes unseen.",
     [G + "float_methods.rs", G + "generic_methods.rs"], [("method table", G + "float_methods.rs")],
     "LLVM-IR twins + compile-fail witnesses + parametricity lint", "For all values per method and storage; dimensions by representative vectors and parametricity." + TRUST)

prop("C05", "Bare numbers enter and leave quantities only through units or unchecked calls",
     "Outside the module that defines a unit system, safe code can neither read, replace nor create the number of a quantity that has a dimension, except through units or the functions named as unchecked. "
     "A dimensionless quantity gives its number unchanged by value, by reference and by dereferencing, and can be made from a number.",
     ["programs", "configurations"], "all programs outside the defining module, all dimensions and storage types",
     "Tests show that allowed accesses work; the guarantee is about every program that must not compile and about all functions the generated code offers.",
     [G + "quantity_type.rs", G + "dimension_type.rs", G + "storage_types.rs"],
     [("private field, dimensionless-only conversions", G + "quantity_type.rs")],
     "effect/signature lint over every reachable function in MIR + compile-fail witnesses", "Closed-world over all functions of the compiled crate; witnesses over conversions, traits and fields." + TRUST)

prop("C06", "The algebra of dimensions is exact in every base dimension",
     "Adding, subtracting, negating and multiplying dimensions acts on the exponent of each base dimension alone and exactly, for arbitrary exponents. Square and cube roots divide every exponent exactly by two and three; "
     "with integer exponents, a root that would not be exact does not compile.",
     ["inputs", "programs", "configurations"], "all exponent vectors, with integer or rational exponents",
     "Tests use small positive exponents of two or three base dimensions.",
     [G + "dimension_type.rs", LIB + "dimension_exponent.rs", LIB + "ratio.rs"],
     [("dimension arithmetic as const functions", G + "dimension_type.rs"), ("exponent types", LIB + "dimension_exponent.rs")],
     "LLVM-IR twins for arbitrary exponents + type-level witnesses + compile-fail witnesses", "Twins hold for all exponents; roots by representative vectors in each base dimension." + TRUST)

prop("C07", "Units construct, scale and convert by their factor and in their dimension only",
     "Multiplying or dividing a number, vector or quantity by a unit (or a product or quotient of units), on either side, and constructing from or converting into a unit multiplies or divides by exactly the factor of that unit, in "
     "that operand order, and changes the dimension accordingly. Constructing, converting or comparing in a unit of another dimension does not compile.",
     ["inputs", "programs", "configurations"], "all values, units, composite units, storage types and operand orders",
     "Tests convert a few values between prefixed units of one dimension; other operand orders and composite or negative units are not reached.",
     [G + "unit_type.rs", G + "quantity_type.rs", LIB + "magnitude.rs"],
     [("unit arithmetic", G + "unit_type.rs"), ("conversion back", G + "quantity_type.rs")],
     "LLVM-IR twins with independently computed factors (constant and arbitrary) + compile-fail witnesses",
     "For all values; for representative factors as constants and for arbitrary factors by symbolic magnitudes." + TRUST)

prop("C08", "Definitions mean what their expression says",
     "Every dimension, unit and constant of a unit system has exactly the exponents, and up to rounding the factor, that ordinary arithmetic gives for its defining expression: precedence and grouping, products by juxtaposition, division, "
     "integer and rational powers, negative and scientific numbers, references in any order.",
     ["programs", "configurations"], "all unit systems and definition expressions",
     "The tests define a handful of expressions; grouping, signs, chains and exponents interact in unboundedly many ways.",
     [PA + "mod.rs", TY + "expression.rs", "crates/diman_unit_system/src/dimension_math.rs", R + "ident_storage.rs"],
     [("parsing of expressions", PA + "mod.rs"), ("evaluation", TY + "expression.rs"), ("resolution", R + "ident_storage.rs")],
     "type-checked constants of the expansion compared with an independent reading of the definitions",
     "All expression shapes up to three operators over every operator, spelling of numbers and exponent, and random deeper ones; not a proof for all expressions." + TRUST)

prop("C09", "A dimension annotation is accepted exactly if it is the definition's dimension",
     "A unit or constant annotated with a dimension compiles if its definition has exactly that dimension, however either is spelled, and is rejected if they differ in the exponent of any base dimension.",
     ["programs", "configurations"], "all pairs of annotations and definitions, in any base dimensions",
     "The one compile-fail sample differs in one pair of base dimensions.",
     [R + "mod.rs", R + "ident_storage.rs", "crates/diman_unit_system/src/dimension_math.rs"],
     [("annotation check", R + "ident_storage.rs")], "compile-fail and acceptance witnesses over all ordered pairs of a basis of dimensions",
     "All ordered pairs of distinct dimensions of a set covering every base dimension, sign and (rational) exponent, and all spellings of definitions." + TRUST)

prop("C10", "Faulty definitions are rejected when compiling",
     "A unit system in which a name is undefined, defined more than once (also through prefixes and aliases), circular or of the wrong kind, in which two symbols clash, a number other than one stands in a dimension, or a base unit is given a "
     "dimension that is not a base dimension, or that breaks the grammar, never compiles; the same system without the fault does.",
     ["programs"], "all faulty unit systems, with the fault in any statement and any position of an expression",
     "Compile-fail samples cover one spelling of each error.",
     [R + "mod.rs", R + "ident_storage.rs", R + "error.rs", PA + "mod.rs"], [("resolution errors", R + "mod.rs")],
     "compile-fail witnesses with accepted twins", "Every kind of fault in every kind of statement and position; each rejected witness has an accepted twin without the fault." + TRUST)

prop("C11", "Prefixes, aliases and symbols expand to exactly the right units",
     "A unit with prefixes, aliases or a symbol defines, for every requested prefix and every alias, exactly one unit with the combined name, the same dimension and the factor of the prefix times that of the unit, and nothing else. Printing knows only, "
     "and reading all, symbols and prefixed symbols of the units, each with that unit's dimension and factor.",
     ["programs", "configurations"], "all unit definitions, the 16 metric prefixes, prefix lists, skipped prefixes and aliases",
     "Tests use a few prefixed units; a wrong exponent or name of another prefix stays unnoticed.",
     [TY + "prefixes.rs", TY + "mod.rs", PA + "attributes.rs", R + "mod.rs", G + "debug_trait.rs", G + "serde.rs"],
     [("prefix table", TY + "prefixes.rs"), ("expansion of units", TY + "mod.rs")],
     "type-checked constants and MIR symbol tables of the expansion compared with an independent oracle", "All 16 prefixes, in isolation and combined with aliases and symbols." + TRUST)

prop("C12", "The SI system has the correct dimensions, factors and symbols",
     "Every dimension, unit and constant of the built-in SI system has the dimension and the numerical value that the SI (or the unit's definition) assigns to it, including all its prefixed and alias forms and its symbols, in every feature configuration.",
     ["programs", "configurations"], "all built-in dimensions, units, constants, prefixes, aliases and symbols",
     "Tests touch a fraction of the table.",
     ["src/si.rs", TY + "prefixes.rs"], [("SI definitions", "src/si.rs")],
     "type-checked constants of the crate compared with an independent table of SI values", "Every name of the table at this commit; names added later are only checked for the factor of their prefix." + TRUST)

prop("C13", "Rational exponents are exact and canonical",
     "With rational exponents, every exponent is kept in lowest terms with a positive denominator, so that equal dimensions are the same type however they are computed, and all exponent arithmetic is exact. A zero denominator is rejected.",
     ["inputs", "programs"], "all exponents within the range of the integer type, all ways to compute them",
     "Tests compare a few fractions.", [LIB + "ratio.rs", LIB + "dimension_exponent.rs", G + "dimension_type.rs"],
     [("canonical construction", LIB + "ratio.rs")],
     "compile-time assertions and type equality witnesses + LLVM-IR twins for arbitrary ratios + compile-fail witnesses",
     "Small fractions exhaustively and random large ones, through every operation and through definitions; run-time operators for arbitrary ratios. Overflow of the 64 bit parts is out of scope." + TRUST)

prop("C14", "Factors survive their encoding as types",
     "Encoding a factor as the compile-time magnitude of a unit and decoding it gives exactly the same number, for every finite number, both signs and both precisions. Products and quotients of magnitudes are those of the numbers.",
     ["inputs"], "all finite floating point factors", "Tests encode some values of moderate size.",
     [LIB + "magnitude.rs"], [("encoding and decoding", LIB + "magnitude.rs")],
     "compiler constant propagation over decode(encode(x)) + LLVM-IR twins for arbitrary magnitudes + constants of the expansion read with exact arithmetic",
     "Every binary exponent, sign and subnormals with extreme and random mantissas; arithmetic for arbitrary magnitudes." + TRUST)

prop("C15", "Deserialization accepts only the right dimension and applies the units' factors",
     "Reading a quantity from text or a number succeeds only if the dimension of the units that were read is the dimension of the quantity, and a bare number is accepted only for dimensionless quantities. The value is the number times the product of the factors of "
     "all units, each to its exponent, in every storage type.",
     ["inputs", "programs"], "all texts and target dimensions", "Tests read a few strings.",
     [G + "serde.rs", LIB + "runtime_unit_storage.rs"], [("dimension comparison and unit table", G + "serde.rs")],
     "MIR value provenance and edge dominance (reaching definitions, interprocedural) over the expanded deserializers + evaluated symbol tables + LLVM-IR twins for bare numbers and powers",
     "Every successful return of every visitor of every storage type; the symbol table of the SI and of user systems; bare numbers of six types against several dimensions. Which texts split into which words is left to the standard library." + TRUST)

prop("C16", "Printing shows a unit of the quantity's own dimension and the value in that unit",
     "Printing a quantity writes the stored number, formatted as requested, followed by a unit whose dimension is that of the quantity: a known symbol of factor one or the product of base units, each with its exponent. It never panics, whatever the dimension, and fails only "
     "if the writer does. Serializing writes the same text, vectors as (x y z) as the reader expects them.",
     ["inputs", "programs"], "all quantities, dimensions and unit systems", "Tests print a few quantities.",
     [G + "debug_trait.rs", G + "serde.rs", LIB + "runtime_unit_storage.rs"], [("choice of the unit", G + "debug_trait.rs")],
     "constant propagation over the optimised LLVM IR of printing, per concrete dimension and unit system + MIR value provenance of serialization",
     "Every SI dimension (a sample per run in the quick tier) and many dimensions of user systems, with and without base units, in all storage types; the error of each single output." + TRUST)

prop("C17", "A quantity is laid out, sent and stored as its bare number",
     "A quantity has the size, alignment and layout of its storage type, and its MPI datatype, MPI buffer view and HDF5 type are those of the storage type, for every dimension and storage type.",
     ["programs", "configurations"], "all dimensions and storage types", "Tests send or store one or two quantities.",
     [G + "mpi.rs", G + "hdf5.rs", G + "quantity_type.rs"], [("transparent representation", G + "quantity_type.rs"), ("MPI", G + "mpi.rs"), ("HDF5", G + "hdf5.rs")],
     "compile-time layout assertions + LLVM-IR twins of datatype construction + call-graph reachability of MPI datatype constructors",
     "All storage types, representative dimensions. That MPI and HDF5 transfer the bytes of the described type is theirs to guarantee." + TRUST)

prop("C18", "Random quantities are drawn from exactly the given range of one dimension",
     "Sampling a range of quantities draws exactly what the uniform sampler of the same range of bare numbers draws, half-open or inclusive as requested, with the dimension of the bounds; bounds of different dimensions do not compile.",
     ["inputs", "programs", "schedules"], "all bounds, dimensions and random generators", "Tests check that samples lie in one range.",
     [G + "rand.rs"], [("uniform sampler", G + "rand.rs")],
     "LLVM-IR twins of sampler construction and sampling with an opaque generator + compile-fail witnesses",
     "For all bounds and generators; representative dimensions. The distribution of rand's sampler itself is not examined." + TRUST)

prop("C19", "Vector quantities compute component by component with the right dimensions",
     "Construction from components, component access and assignment, dot products, lengths, distances, normalisation, minima and maxima of vector quantities give what the vector type gives on bare numbers, with the right dimension; components of other dimensions do not compile.",
     ["inputs", "programs"], "all vector types, component values and dimensions", "Tests call some methods on one vector type.",
     [G + "vector_methods.rs", G + "storage_types.rs"], [("vector methods", G + "vector_methods.rs")],
     "LLVM-IR twins of every vector method and the method of the vector type + compile-fail witnesses + signature lint in MIR",
     "For all component values, per method, vector type and representative dimensions." + TRUST)

prop("C20", "Guarantees do not depend on the feature configuration",
     "In every supported combination of features (no_std, libm, f32 only or f64, vectors, serde, rand, MPI, HDF5, rational exponents) the library compiles, offers the same core operations and gives the same dimensions and values; integer and rational exponents agree on integer exponents.",
     ["configurations", "programs"], "all feature combinations", "The tests are run with one or two feature sets.",
     ["src/lib.rs", "Cargo.toml", G + "storage_types.rs", G + "float_methods.rs"], [("feature gates", G + "storage_types.rs")],
     "type checking and LLVM-IR twins in 42 combinations of features + comparison of the SI's compiled constants between them",
     "Every combination of one storage type or integration with and without std, libm, si and rational exponents, not all subsets. Without std the arithmetic that decodes units' factors is only type-checked." + TRUST)

prop("C21", "User-defined unit systems have the same guarantees as the built-in one",
     "A unit system with any names of its types, base dimensions, units and symbols (that the macro does not itself introduce), any number of base dimensions and any order of statements compiles and has all operations, and several systems can be used side by side without mixing: quantities and units of different systems cannot be combined.",
     ["programs", "configurations"], "all valid unit systems", "The tests define one or two systems with the default names.",
     ["crates/diman_unit_system/src/lib.rs", G + "mod.rs", G + "units_and_constants.rs", G + "dimensions.rs"], [("code generation", G + "mod.rs")],
     "LLVM-IR twins and type witnesses in unit systems of many shapes + compile-fail witnesses across systems",
     "Thirteen unit systems (one to thirteen base dimensions, shuffled statements, unusual names) and three side by side. Names that the macro itself introduces in the module (Unit, Magnitude, Exponent, generic parameters such as D or S) are reserved." + TRUST)

prop("C22", "Product and quotient types name the dimension of the product and quotient",
     "The type-level product and quotient of quantity types is the type of the product or quotient of values, for any number of factors, nesting and storage type.",
     ["programs", "configurations"], "all product and quotient types", "Tests use one or two products.",
     [G + "dimensions.rs", "src/lib.rs"], [("type aliases and macros", "src/lib.rs")],
     "type equality witnesses with independently computed dimensions + compile-fail witnesses",
     "Every base dimension and storage combination, and random nested types." + TRUST)

prop("C23", "Copying, cloning, defaults, equality and ordering follow the stored number",
     "Copying, cloning, default values, equality and ordering of quantities are those of the stored numbers, including NaN and signed zeros; a quantity offers such a trait only if its storage type does.",
     ["inputs", "programs"], "all values, storage types and dimensions", "Tests compare a few ordinary values.",
     [G + "quantity_type.rs", G + "num_traits/mod.rs"], [("derived and written trait implementations", G + "quantity_type.rs")],
     "LLVM-IR twins of trait methods, also for storage types with unusual implementations + trait bound witnesses",
     "For all values; representative dimensions plus the parametricity lint." + TRUST)

prop("C24", "Every attribute of a statement takes effect or is rejected",
     "An attribute on a kind of statement that takes none, an unknown attribute, wrong, missing or surplus arguments and a repeated attribute are rejected; none is silently ignored.",
     ["programs"], "all attributes on all kinds of statements", "Tests only use valid attributes.",
     [PA + "attributes.rs", PA + "mod.rs"], [("attribute parsing", PA + "attributes.rs")],
     "compile-fail witnesses with accepted twins", "Every attribute on every kind of statement, with wrong argument shapes." + TRUST)

prop("C25", "Faulty definitions are reported at the names at fault",
     "When a unit system is rejected, every error about a definition points to the names that are at fault (undefined, circular, defined twice, of the wrong kind, annotated wrongly, sharing a symbol or a dimension) and to no innocent one, mentions these names, and a violated annotation is reported with the exponents of both dimensions; all independent faults of a kind are reported.",
     ["programs"], "all faulty unit systems", "Tests show the errors of a handful of systems with one fault each; what is pointed to depends on all other statements and on what else the faulty one has.",
     [R + "error.rs", R + "ident_storage.rs", R + "mod.rs", PA + "mod.rs", "crates/diman_unit_system/src/dimension_math.rs"], [("errors about definitions", R + "error.rs"), ("detection of the names at fault", R + "ident_storage.rs")],
     "compile-fail witnesses compared with the compiler's error spans and texts", "Faulty systems of every kind, each with innocent statements around the faults, in every configuration of the macro crate." + TRUST)

prop("C26", "The same definitions always expand to the same program",
     "Expanding the same unit system again, in the same or in another compilation, yields the same items in the same order (up to the order of fields in literals) and the same errors, so that layouts, printed units and messages do not vary from build to build; nothing but the definitions and the enabled features influences the expansion.",
     ["programs", "schedules"], "all unit systems and compilations", "A test is one compilation: what it prints may be different in the next one, whose hash tables are ordered differently.",
     [R + "ident_storage.rs", R + "mod.rs", "crates/diman_unit_system/src/dimension_math.rs", R + "error.rs", G + "dimensions.rs"], [("ordered storage of resolved names", R + "ident_storage.rs"), ("sorted names in error messages", R + "error.rs")],
     "effect analysis of the macro crate's MIR + comparison of the compiler's expansions and errors under different hash orders", "Forty big unit systems, including the text of src/si.rs, each expanded twelve times." + TRUST)

prop("C27", "Quantities cost nothing at run time",
     "In an optimised program, an operation on quantities does no more at run time than the same operation on bare numbers: no further floating point operations, function calls, loops, allocations or values kept in memory, in straight-line code as well as in loops over slices. "
     "Making a quantity from a number and a single unit, or reading its value in one, is one multiplication or division by a constant, also in a program built without link-time optimisation. (Composite units, whose factors are combined at run time, are a documented exception.)",
     ["programs", "configurations"], "all programs on quantities, every unit and prefix, every feature set, storage type, and optimised build",
     "Tests compare results, which stay the same however much work is done to get them; benchmarks time single programs on single machines.",
     [LIB + "magnitude.rs", G + "unit_type.rs", G + "quantity_type.rs", G + "num_traits/mod.rs", G + "num_traits/operator_trait.rs", G + "float_methods.rs", G + "generic_methods.rs", G + "vector_methods.rs"],
     [("conversion of magnitudes into factors", LIB + "magnitude.rs"), ("operators of quantities and units", G + "num_traits/mod.rs"), ("sum over iterators", G + "generic_methods.rs")],
     "cost analysis: calls, arithmetic, loops and stack values counted in the compiler's optimised IR of programs on quantities and on numbers",
     "Programs are compiled, never run, twice: with the bodies of all functions visible to the optimiser, and against the library as cargo build --release leaves it. A helper of the library's own that an ordinary build leaves as a call is reported as undecided; an operation of its interface left as a call is a violation. Stays with LLVM IR for one target, loop vectorisation off." + TRUST)

prop("C28", "Reading a text never panics",
     "Whatever text or number a serde deserializer hands over for a quantity - empty, cut off, with missing or misplaced brackets, with unknown units, malformed or huge exponents, zero denominators, any Unicode - reading gives a quantity or an error: it never panics, with or without overflow checks. "
     "Exponents whose sum or product over the units of the text cannot be represented are an error; they are never wrapped around, cut off or saturated into another dimension.",
     ["inputs", "configurations"], "all texts and numbers that a deserializer can pass on, in every unit system, storage type and feature set with serde",
     "Tests read a few dozen texts, nearly all of them well-formed; a panic needs one particular malformed text, and an overflow exponents that nobody writes by accident.",
     [G + "serde.rs", LIB + "dimension_exponent.rs", LIB + "ratio.rs", LIB + "magnitude.rs", LIB + "runtime_unit_storage.rs"],
     [("readers of units, numbers and vectors", G + "serde.rs"), ("reading and combining exponents", LIB + "dimension_exponent.rs"), ("ratios", LIB + "ratio.rs")],
     "reachability of panics: every place that may panic in the call graph of the readers, decided on MIR by dominating conditions, reaching definitions and interval bounds",
     "Panics inside std, serde, glam and num-traits are out of scope, apart from what their documented preconditions ask of the caller. Places whose guards are not recognised are reported as undecided." + TRUST)

NA_EXTRA = []


def main():
    have = {f[:-3] for f in os.listdir(os.path.join(V, "checks")) if f[0] == "C"}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])),
                               ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        elif p["id"] not in have or not p["technique"]:
            na.append(dict(property=p["id"], reason="no check built yet"))
        else:
            checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py " + p["id"], thorough_cmd="python3-vt check.py " + p["id"],
                               technique=p["technique"], level="other", level_note=p["note"]))
    json.dump(dict(version=1, setup_cmd="python3-vt lib/extract.py", checks=checks, not_applicable=na,
                   notes="Static analysis only: rustc's type checker, MIR and LLVM IR of this tree; no code of /repo is run except by rustc itself (macro expansion, constant evaluation). No hooks in /repo."),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
