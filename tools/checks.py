"""Which driver runs decide which property, and how the evidence describes them."""
EXP = "exploration"
MC = "model_checking"
CHECKS, META = {}, {}


def run(driver, mode, variant="rel", **kw):
    return {"driver": driver, "mode": mode, "variant": variant, **kw}


def prop(id, level, technique, note, rule, runs, assumptions=()):
    CHECKS[id] = runs
    META[id] = {"level": level, "technique": technique, "note": note, "rule": rule, "assumptions": list(assumptions)}


DEF = "results the language leaves undefined are not compared: integer division by a run-time zero or of the minimum by -1, shifts by the width or more, truth of NaN, float-to-integer out of range"

prop("C01", EXP, "exhaustive bounded enumeration of operator programs on the real JIT against a reference model",
     "all operators, all 100 type pairs, both FP modes; 8-bit operands completely, wider ones over boundary values",
     "one evaluation = one compiled operator executed on one operand pair; distinct = distinct (operator, result type, result value)",
     [run("ops", "C01")], [DEF, "fast mode is compared on ordinary finite values only, as its contract allows"])
prop("C02", EXP, "exhaustive bounded enumeration of literal/run-time/variable program forms against a reference model",
     "all operators x type pairs x constant values in four operand forms; all two-operator trees over the type triples",
     "one evaluation = one program executed on one operand tuple; distinct = distinct typed result values",
     [run("ops", "C02")], [DEF, "a literal integer zero divisor is rejected by the validator and left to C10"])
prop("C27", EXP, "exhaustive bounded enumeration of IEEE expression trees over special values, bit-exact",
     "all trees of up to three operations over the special values, f32/f64/mixed, constants in every position, reloaded artifacts",
     "one evaluation = one tree on one operand tuple, compared bit for bit (NaN payloads aside); distinct = distinct results",
     [run("ops", "C27")], ["NaN payload and sign are not specified by the language"])

LST = "inputs with no defined result are executed but not compared: NaN among values being ordered or de-duplicated, unsorted input to functions that need it sorted, bits past the end of a bitmap"
for id_, what, bounds in (
    ("C11", "element-wise list functions", "all element types; 8-bit lists up to length 3 over boundary values, every 8-bit value pair, every length around the vector widths"),
    ("C12", "comparison, bitmap and conditional-replacement functions", "all element types, all short lists over boundary values, all bitmaps up to two bytes, every length around byte and vector widths"),
    ("C13", "aggregation, ordering and set functions", "all element types, all lists up to length 4 over boundary values, longer structured lists, every position argument around the ends"),
    ("C14", "grouping functions", "all key types, all key lists up to length 5 over 3-4 keys, all value lists over boundary values"),
    ("C15", "lookup, search, gather and bucketing functions", "all element types, all short lists and probes over boundary values, every position argument around the ends")):
    prop(id_, EXP, "exhaustive bounded enumeration of list programs on the real JIT against a reference model", bounds,
         "one evaluation = one %s call compiled by the engine and executed on one input tuple; distinct = distinct typed results" % what,
         [run("lists", id_)], [LST, DEF])

prop("C03", EXP, "exhaustive bounded enumeration of cast programs on the real JIT against a reference model",
     "all 100 numeric casts, text casts both ways and all list casts; 8- and 16-bit sources completely, wider ones over boundary values; constants and run-time values, both FP modes",
     "one evaluation = one cast executed on one source value or list; distinct = distinct typed results",
     [run("scalar", "C03")], ["float to integer is compared only where the truncated value fits the target"])
prop("C16", EXP, "exhaustive bounded enumeration of string programs on the real JIT against a reference model",
     "all pairs of strings up to 3 bytes over {a, b, NUL, 0xFF}, all single-byte pairs, long strings (up to 64 KiB, around powers of two) differing in one place, long string lists; all short string lists; constants and run-time values",
     "one evaluation = one string function executed on one argument tuple; distinct = distinct typed results",
     [run("scalar", "C16")])
prop("C17", EXP, "exhaustive bounded enumeration of math-function programs on the real JIT against a reference model",
     "every math function and argument type; integer arguments of 8 and 16 bits completely, others over boundary values, quarters, neighbours of powers of two and a grid; constants and run-time values, both FP modes",
     "one evaluation = one function executed on one argument tuple; distinct = distinct typed results",
     [run("scalar", "C17")], ["NaN arguments of min and max, abs of the minimum and results next to over- or underflow of pow and the transcendental functions are not compared"])
prop("C04", EXP, "exhaustive bounded enumeration of operator sequences, trees, blanks, comments, spellings and names, executed and compared with a precedence-climbing reference",
     "every sequence of up to 3 binary operators (4 thorough), prefixes on up to two operands and runs of 3 prefixes, every 3-operator tree, every filler in every gap of four programs, names built from every keyword",
     "one evaluation = one program on one operand tuple; distinct = distinct (program, result)",
     [run("gram", "C04")], ["operand tuples whose result is undefined are skipped"])
prop("C05", EXP, "exhaustive bounded enumeration of literal spellings and constant nodes, executed and compared with their value",
     "every 8- and 16-bit integer literal, boundary values of the wider ones, a grid of float spellings including halfway cases, every string of up to 3 hostile pieces in both quotes, every byte; API constants of every type alone, all in one module, and all pairs of similar ones in one program; constants up to 65537 elements, up to 1000 constants and 4097 literals per program",
     "one evaluation = one literal or constant executed; distinct = distinct literal texts or constant values",
     [run("lit", "C05")], ["integer literals that do not fit their suffix, subnormal literals and NUL bytes in source text have no defined value"])

prop("C06", EXP, "exhaustive bounded enumeration of control trees and truth assignments on the real JIT against a lazy interpreter",
     "every tree of up to 3 (4 thorough) if/switch/and/or/not/+/call nodes, typed in several rotations of all types, under every truth assignment of its leaves (of more than 10 leaves: at most two unlike the rest), with calls and stores logged; constants in every pair of places of trees up to 2 nodes; chains of every length up to 40 and around 64, 128 and 256, and 300; guarded divisions of all integer types",
     "one evaluation = one program run under one assignment; distinct = distinct (result, call log)",
     [run("lazy", "C06")], [DEF])
prop("C07", EXP, "exhaustive bounded enumeration of pipelines and branch decisions on the real JIT against a sequential interpreter",
     "every block of up to 4 statements (5 over a smaller alphabet; one more in thorough) from assignments, let, stores, event calls and nested when/elif/else, five condition forms, ten variable types, under every truth assignment of the conditions; reading back what a store wrote; long elif chains, nests and sequences up to 300",
     "one evaluation = one pipeline run under one assignment; distinct = distinct (store log, call sequence)",
     [run("stmt", "C07")])
prop("C08", EXP, "exhaustive bounded enumeration of sets of pipelines compiled together, against the interpretation of each member alone",
     "all pairs and triples of 23 pipeline templates (16 accepted, 7 rejected), many copies of one, all together in several orders with a rejected one inserted; members that look alike but differ in one type, name or value; up to hundreds of members",
     "one evaluation = one set compiled; distinct = distinct store logs of a set",
     [run("stmt", "C08")], ["the order of stores of different pipelines is not specified"])
prop("C29", EXP, "exhaustive bounded enumeration of statement sequences, accepted or rejected as the static rules say, and executed",
     "every pipeline of up to 4 statements (5 over a smaller alphabet) from 10 definitions and uses of two names in two types, in nested when/elif/else; every expression program of up to 3 (4) statements from 40; reassignment over all type pairs; unusual and very long names",
     "one evaluation = one program judged, or run on one input; distinct = distinct results, store logs or reasons for rejection",
     [run("stmt", "C29")], ["unused ill-typed statements of expression programs are not considered"])
prop("C28", MC, "explicit enumeration of trees in every form and of compilation histories of one tree, on the real engines, against an interpreter",
     "every node kind with every node kind in each of its places and with all places filled, over four base types (all 22 thorough), each as text, cloned, cloned twice, built node by node, built by appending, and spelt with variables; pipelines of up to 3 (4) statements and groups with separate variables likewise; ill-typed programs refused in every form; every history of up to 2 (3-4) compilations, failing compilations, clonings and prints of 31 trees",
     "one transition = one step of a history of one tree; one evaluation = one form executed on one input; distinct = distinct results, store and call logs",
     [run("ast", "C28")], [DEF])
prop("C10", EXP, "exhaustive bounded enumeration of operators, conditionals and functions over argument types, against the documented signatures and typing rules",
     "all 108 functions and 225 near-miss names x all argument tuples up to 3 of 23 types in the registry; every documented signature compiled and executed, every undocumented one- argument and a fixed subset of the longer calls refused by the engines; all operators x all type pairs, if/switch over type triples, argument counts, the offending place of long conditionals, ill-typed expressions in 40 positions, literal zero divisors; a refusal must be an error about the program, not an internal failure",
     "one evaluation = one signature resolved or one program judged; distinct = distinct accepted programs",
     [run("types", "C10")], ["undocumented overloads and the old forms naming exec_ctx that the pinned tree registers are not judged"])

prop("C19", MC, "explicit enumeration of operation sequences on the real arena under a watched heap, with refused heap requests as faults",
     "every sequence of up to 5 operations (7 thorough) from 13-15, and of up to 4 (5) from 21-26, for six chunk sizes: sizes around the chunk boundary, alignments up to 256, objects with destructors, throwing constructors, refused heap requests, resets; long repetitions",
     "one state = (chunk size, owned bytes, free bytes, live blocks, live objects); every sequence is run on the implementation and compared step by step",
     [run("arena_t", "C19")], ["sizes whose padding overflows size_t are a caller error by the interface"])
prop("C18", MC, "explicit enumeration of execution sequences on shared contexts against a model of results, calls and messages",
     "ten programs x every subset of failing call sites x truth of calls x allocation sizes x four chunk sizes: each alone in every form, every pair on one context, every triple (quadruple) over fewer; ExecuteAll under every mask; built-in length errors in every pair",
     "one state = (chunk size, operation, position, context memory); every sequence is run on the implementation and compared step by step",
     [run("engine", "C18")], ["read-only functions whose result is unused may not be called"])
prop("C20", MC, "explicit enumeration of call sequences on real engines against a model of the installed program",
     "every sequence of up to 3 (4 thorough) calls from 18-19 (compiles of good, ill-typed, unresolved, invalid and unlinkable programs; loads of good, foreign, truncated, damaged and unlinkable artifacts; saves), up to 4 from seven (5 from nine), both engine kinds, saving and dumping on and off; executions, entry count, types, IR and saved artifact compared after every call",
     "one state = (engine kind, installed program, compiled or loaded, options); every sequence is run on the implementation and compared step by step",
     [run("engine", "C20")])
prop("C21", EXP, "exhaustive bounded enumeration of batches against the members compiled alone",
     "every batch of up to three of 18 programs (constants, strings, lists, same variable names, failing and read-only calls, pipelines, ill-typed ones), every rotation of all and twelve copies of each, in every execution form on three inputs",
     "one evaluation = one batch compiled, or one entry executed in one form on one input; distinct = distinct results",
     [run("engine", "C21")], ["value execution of store programs is outside the interface"])
prop("C22", EXP, "exhaustive bounded enumeration of save/load round trips and host-field alterations on real engines",
     "64 programs of every return type, stores, constants, failing and user functions, every documented function, batches of up to 300 entries and large programs, alone in both engine kinds and in batches, x save-side and load-side option combinations x fresh/used/failed engines; every host-identification field altered at every character x all eight check combinations",
     "one evaluation = one artifact saved or loaded and everything it holds executed on three inputs in both forms; distinct = distinct (program, outcome)",
     [run("artifact", "C22")])
prop("C23", EXP, "exhaustive bounded enumeration of damaged artifacts against a reference parser of the documented layout",
     "every truncation, every value of every byte outside the object, bytes removed, doubled, inserted and appended, every number field x boundary values, all pairs of number fields; artifacts lie against unreadable pages, heap requests are watched, the held program is executed after every refusal",
     "one evaluation = one damaged artifact offered; distinct = distinct reasons for refusal",
     [run("artifact", "C23")], ["damage inside the object bytes and changes to another valid code give another artifact, of which nothing is asked"])
prop("C24", MC, "explicit enumeration of registration and compile sequences on a real registry against a map from signatures to registrations",
     "every sequence of 3 (4 thorough) registrations from 27 (all kinds of function, four return types, with and without override, built-ins, the form naming the context, null functions), every signature looked up after each, every call compiled and executed at the end and, for programs compiled in between, again afterwards; thousands of signatures in one registry and hundreds of functions in one program",
     "one state = the registrations held, by signature; every sequence is run on the implementation and compared step by step",
     [run("registry", "C24")])
prop("C30", EXP, "exhaustive bounded enumeration of parameter lists, return types and store sequences on real calls",
     "every parameter list up to length 8 over the register classes (i64, f64, string), up to 3 over 14 types and 4 over 7, each called with loaded values (two sets: distinct, extreme), with results of other wide calls, constants and inside a branch, with the implicit context and naming it; narrow integers to functions built by gcc and by clang; eleven patterns of types at lengths 9-17, 24, 31-33, 48, 63, 64; 22 return types x boundary values x 16 parameter lists in 5 positions; every sequence of up to 4 (5) of 9 store statements",
     "one evaluation = one call executed on one input; distinct = distinct parameter lists and returned values",
     [run("abi", "C30"), run("abi2", "C30"), run("abi3", "C30")])
prop("C25", MC, "exhaustive enumeration of thread interleavings at user-function calls under a controlled scheduler, on the real engines, in a plain and in a thread-sanitizer build",
     "all schedules of every pair of 12 programs on two threads (one or two executions each, own context or none, one engine or one per program) and of program triples on three threads, the athena front ends, every documented built-in with its result alive across a switch, and an engine being compiled, used and destroyed meanwhile, or two engines being compiled; every execution nested at every call of another (same entry, another entry, another engine; a third in the second), and every other use of the interface at every call of a user function or a code generator; in the sanitizer build threads hand over without synchronising, so any conflicting access is a reported race",
     "one transition = one scheduling decision; every schedule runs on the implementation and each execution is compared with what it gives alone; distinct = distinct outcomes",
     [run("conc", "C25"), run("conc", "C25", variant="tsan")], ["generated code is not instrumented: races inside it show only as differing results"])
prop("C26", EXP, "exhaustive bounded enumeration of argument lengths, counts and positions on every built-in, under an address sanitizer and with every block against an unreadable page",
     "every documented function and list operator x all argument lists up to length 3-4 over few values, every pair of lengths up to 24, every length up to 68, group indices and positions that do not fit, extreme counts; C++ code under the address sanitizer with one heap block per allocation, generated code with every operand and arena block ending at an unreadable page, bytes around blocks checked; inputs compared afterwards",
     "one evaluation = one execution on one input; distinct = distinct inputs",
     [run("lists", "C26", variant="asan"), run("lists", "C26", variant="guard"), run("scalar", "C26", variant="asan"), run("scalar", "C26", variant="guard")],
     ["under the sanitizer generated code itself is not instrumented, and in front of a block the unreadable-page build sees writes but not reads"])
prop("C09", EXP, "exhaustive bounded enumeration of token sequences, byte strings, program edits and builder histories, against a reference scanner and recogniser",
     "every sequence of up to 4 of 33 tokens (5 of 18, 6 of 11, 7 of 8; one more of each in thorough) and every single edit and pair of edits of 16 programs, in both modes; every string of up to 2 bytes in 12 contexts, of up to 4 of 40 hostile bytes; every pair and many triples of 51 texts through one builder; 27 growing shapes up to 100000; accepted programs compiled; again with shorter bounds under the address sanitizer; standard output watched",
     "one evaluation = one text built or compiled; distinct = distinct accepted texts",
     [run("parse", "C09"), run("parse", "C09", variant="asan")],
     ["literals without a defined value (too big for their suffix, subnormal), backslash-newline in strings and NUL bytes are run but not judged"])
