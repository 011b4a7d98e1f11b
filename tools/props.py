# Source of properties.jsonl, bins.txt and MANIFEST.json (run tools/gen_docs.py after editing).
P = []
def prop(id, bin, title, statement, over, text, why, files, mech, note, tech, state=None):
    P.append(dict(id=id, bin=bin, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, tech=tech))

TIR = "crates/trunk-ir/src/"
prop("C01", "vp-ir",
 "Printed IR parses back to the same IR",
 "Printing any module and parsing the text yields a module with the same operations, nesting, blocks, operands, successors, attributes and types, and printing that module again yields the same text up to the definitions of type aliases.",
 ["programs", "inputs"],
 "Every module without metadata attributes of its own, over identifier-like names, whose values are defined textually before their use: every attribute kind, type, string content, integer and finite float value, region and block shape.",
 "The tests print a few dozen hand-written modules; escaping, nesting, block-label elision, attribute values and types combine without bound.",
 [TIR+"printer.rs", TIR+"parser/raw.rs", TIR+"parser/build.rs"],
 [("print_module", TIR+"printer.rs"), ("parse_module", TIR+"parser/mod.rs")],
 "Random structured modules (well-typed programs, arbitrary op soup, attribute-heavy ops, registered and automatic type aliases); oracle: structural comparison of the reparsed module and text fixpoint. Metadata attributes of a module are not part of the text (an existing test fixes that). Non-finite float constants are a recorded known finding.",
 "property-based round-trip over generated modules")
prop("C02", "vp-ir",
 "The IR parser is total: any text gives a module or an error",
 "For every input string the textual IR parser returns, in bounded time, either a module or a parse error with an offset inside the input; it never panics or hangs, and a well-formed module it accepts can be printed and parsed again.",
 ["inputs"],
 "All strings, in particular mutations of valid text (deleted, duplicated, spliced and truncated tokens, odd Unicode, huge numbers).",
 "The tests contain a handful of malformed inputs.",
 [TIR+"parser/raw.rs", TIR+"parser/build.rs", TIR+"parser/mod.rs"],
 [("parse_module", TIR+"parser/mod.rs")],
 "Grammar-aware mutation fuzzing of printed modules; oracle: no panic, no hang, error offset in range, accepted modules survive printing.",
 "mutation fuzzing of the parser")
prop("C03", "vp-ir",
 "Every history of IR edits leaves the IR consistent",
 "After any sequence of operation, block and region edits (creating, inserting, moving, detaching, erasing, cloning, operand changes, replacing uses, block-argument edits, block splitting, region inlining) each parent link, operation and block order, operand list, result, block argument and use list agrees with the others and with what the edits say. A clone refers to its own copies of everything defined inside the cloned tree.",
 ["histories"],
 "All sequences of edits within their documented preconditions.",
 "The tests run one or two edits on fixed small IR; stale use lists and parent links only show after particular combinations.",
 [TIR+"context.rs", TIR+"rewrite/helpers.rs", TIR+"ir_mapping.rs"],
 [("IrContext mutators", TIR+"context.rs"), ("split_block, inline_region_blocks, erase_op", TIR+"rewrite/helpers.rs")],
 "Model-based testing: a reference model of the arena is updated next to the real one and everything observable compared after every edit.",
 "stateful model-based testing")
prop("C05", "vp-ir",
 "Canonicalization preserves what a program computes",
 "Canonicalizing a valid module yields a valid module in which every function, for every argument, produces the same results, the same sequence of external calls and the same trap or non-trap outcome as before.",
 ["programs", "inputs"],
 "All valid modules over the arithmetic, structured and unstructured control-flow, function and ADT dialects, and all argument values including boundary integers and special floats.",
 "The tests check single folds on fixed operands.",
 [TIR+"transforms/canonicalize.rs", TIR+"dialect/arith.rs", TIR+"dialect/scf.rs"],
 [("canonicalize", TIR+"transforms/canonicalize.rs"), ("fold hooks", TIR+"dialect/arith.rs")],
 "Differential execution of generated programs before and after, by a reference IR interpreter; plus a well-formedness check of the output.",
 "differential testing of a pass against a reference interpreter")
prop("C06", "vp-ir",
 "Dead-code elimination removes only what nobody can observe",
 "Dead-code elimination and dead-function elimination keep every function reachable from the roots, every operation with a side effect and every value still used, so that each remaining function still produces the same results and external calls; code that is pure and unused, and functions that are unreachable, are removed.",
 ["programs", "inputs", "configurations"],
 "All valid modules, nested modules included, every configuration of roots, and all argument values.",
 "The tests use a few fixed modules.",
 [TIR+"transforms/dce.rs", TIR+"transforms/global_dce.rs"],
 [("eliminate_dead_code", TIR+"transforms/dce.rs"), ("eliminate_dead_functions", TIR+"transforms/global_dce.rs")],
 "Differential execution plus an independent reachability computation compared with the set of removed functions.",
 "differential testing of a pass against a reference interpreter and reachability model")
prop("C07", "vp-ir",
 "Inlining preserves what a program computes",
 "Inlining calls, under any configuration, yields a valid module in which every function still produces the same results, external calls and trap outcome for every argument; functions that are recursive or not eligible are left as calls.",
 ["programs", "inputs", "configurations"],
 "All valid modules and inliner configurations, all argument values.",
 "The tests inline a few fixed callees.",
 [TIR+"transforms/inline.rs", TIR+"transforms/call_graph.rs"],
 [("inline_functions", TIR+"transforms/inline.rs")],
 "Differential execution of generated multi-function programs before and after.",
 "differential testing of a pass against a reference interpreter")
prop("C08", "vp-ir",
 "Lowering structured control flow preserves what a program computes",
 "Lowering structured control flow to branches removes every structured operation it supports, yields valid IR, and keeps every function's results, external calls and trap outcome for every argument, alone and in any sequence with the other IR-to-IR passes.",
 ["programs", "inputs"],
 "All valid modules with arbitrarily nested conditionals, loops and switches, all pass sequences, all argument values.",
 "The tests look at the printed shape of single constructs.",
 [TIR+"transforms/scf_to_cf.rs"],
 [("lower_scf_to_cf", TIR+"transforms/scf_to_cf.rs")],
 "Differential execution of generated programs before and after the pass and after random pass sequences.",
 "differential testing of pass pipelines against a reference interpreter")

prop("C04", "vp-ir",
 "IR validation accepts exactly the well-formed modules",
 "Validation reports an operand that is not visible where it is used, an operation whose recorded users disagree with the operand lists, a call whose arguments or result do not fit its callee's declared signature, and a verified operation with the wrong regions, terminators or attributes, wherever in the module it lies; it reports nothing for a module without such a fault, and it changes nothing.",
 ["programs"],
 "All modules, valid ones and ones with any combination of faults at any nesting depth.",
 "The tests seed one fault in one fixed module each.",
 [TIR+"validation.rs", TIR+"op_interface.rs"],
 [("validate_value_integrity, validate_use_chains, validate_operation_verifiers", TIR+"validation.rs")],
 "Random valid modules with 0-4 planted faults; oracle: an independent restatement of each rule over the whole module, compared in both directions.",
 "property-based testing against an independent restatement")
prop("C11", "vp-ir",
 "The pass manager runs every pass on every live target, in order",
 "A pass manager runs its passes in the order they were added, each nested manager on every matching operation present when it is reached, calls each before/after/failure hook exactly once around the run it belongs to, stops at the first failing pass with that error, and never runs a pass on an operation that an earlier pass erased.",
 ["histories", "configurations"],
 "All manager trees (nested to any depth, inherited and overriding hooks), all module trees, all scripts of failing, erasing and appending passes.",
 "The tests use one or two passes on one or two targets.",
 [TIR+"pass.rs"],
 [("PassManager", TIR+"pass.rs")],
 "Scripted passes log what they saw; oracle: a reference model of the manager executed on a model of the module tree.",
 "model-based testing")
prop("C12", "vp-ir",
 "IR analyses agree with their definitions on every graph",
 "Dominance, the call graph with its recursion and component queries, the analysis cache and the IR walkers give, for every control-flow graph, call graph, cache history and operation tree, the answer of their definition: a block dominates another exactly if every path from the entry passes through it, a function is recursive exactly if it can reach itself, a cached analysis is returned until it is invalidated, and a walk visits each operation once in order except for skipped or stopped parts.",
 ["programs", "histories"],
 "All control-flow graphs (unreachable blocks, loops, irreducible shapes), call graphs, cache histories and operation trees.",
 "The tests use a diamond, a loop and a few call chains.",
 [TIR+"analysis.rs", TIR+"dominance.rs", TIR+"transforms/call_graph.rs", TIR+"walk.rs"],
 [("dominance", TIR+"dominance.rs"), ("AnalysisCache", TIR+"analysis.rs"), ("build_call_graph, tarjan_scc", TIR+"transforms/call_graph.rs"), ("walk_op, walk_region", TIR+"walk.rs")],
 "Random graphs, histories and trees; oracles: path removal, transitive closure, a map model and a recursive traversal.",
 "property-based testing against naive definitions")

prop("C09", "vp-ir",
 "Dialect conversion rewrites exactly the illegal code and reports what is left",
 "A conversion target classifies every operation by its documented rule precedence, and verification reports exactly the illegal (partial) or not-legal (full) operations outside recursively legal ones. The pattern applicator leaves legal operations and recursively legal subtrees alone, offers every other operation to the patterns in registration order until nothing changes or the iteration bound is reached, applies each recorded mutation exactly (replacements, insertions, erasures and new module-level operations land in the right place with all uses redirected), and its summary or error tells what happened.",
 ["programs", "configurations"],
 "All operation trees, targets (static, dynamic, recursive rules), pattern sets, scopes and iteration bounds.",
 "The tests apply one or two patterns to a few operations.",
 [TIR+"rewrite/conversion_target.rs", TIR+"rewrite/applicator.rs", TIR+"rewrite/rewriter.rs"],
 [("ConversionTarget", TIR+"rewrite/conversion_target.rs"), ("PatternApplicator", TIR+"rewrite/applicator.rs")],
 "Scripted patterns on random trees; oracle: the documented algorithm on a model tree, final IR, summary and errors compared.",
 "model-based testing")
prop("C10", "vp-ir",
 "Type conversion converts every declared type and every use consistently",
 "Automatic type conversion changes exactly the block-argument types the converter maps and bridges each mismatching operand of a not-legal operation with one cast; signature conversion changes a function's declared parameter and result types together with its entry-block arguments and keeps everything else, declarations included; cast resolution replaces each cast by its materialization or by its input when the types agree, keeps and reports exactly those it cannot resolve, and every use ends up on the right value.",
 ["programs", "configurations"],
 "All operation trees, type maps (partial, chained, identity), materializers (partial) and nested casts.",
 "The tests convert a few fixed functions and single casts.",
 [TIR+"rewrite/type_converter.rs", TIR+"rewrite/signature_conversion.rs", TIR+"rewrite/applicator.rs", TIR+"conversion/resolve_unrealized_casts.rs"],
 [("FuncSignatureConversionPattern", TIR+"rewrite/signature_conversion.rs"), ("resolve_unrealized_casts", TIR+"conversion/resolve_unrealized_casts.rs")],
 "Random trees, maps and materializers; oracle: a model of the conversion compared on the whole resulting IR.",
 "model-based testing")
prop("C13", "vp-ir",
 "Algebraic data types get a sound memory layout",
 "In the layout of every struct and enum type the fields lie in declaration order, naturally aligned for their converted type, without overlap or avoidable holes; sizes cover all fields and are padded to the alignment; an enum's tag is at offset 0, its variants are numbered in order, all start at offset 8 and share a size that fits the largest.",
 ["types", "configurations"],
 "All struct and enum types over all field types and all type converters.",
 "The tests compute the layout of about a dozen types.",
 [TIR+"adt_layout.rs"],
 [("compute_struct_layout, compute_enum_layout", TIR+"adt_layout.rs")],
 "Random types and converters; oracle: the layout rules stated as invariants that determine the result.",
 "property-based testing of invariants")
prop("C14", "vp-ir",
 "Interned names and types are equal exactly when their content is",
 "Two symbols, types or paths are the same reference exactly if their content is equal, whatever the order or thread of interning; symbols compare and hash by their text; interned content never changes. An attribute map behaves as a map from names to values iterated in name order, and its typed getters return a value exactly when the stored attribute has that kind and fits the requested range.",
 ["histories", "schedules", "inputs"],
 "All strings, type data, interning orders, four concurrent threads, all histories of attribute edits.",
 "The tests intern a few names and read a few attributes.",
 [TIR+"symbol.rs", TIR+"types.rs"],
 [("Symbol", TIR+"symbol.rs"), ("TypeInterner, PathInterner, AttributeMap", TIR+"types.rs")],
 "Random histories; oracle: structural keys in ordinary maps.",
 "model-based testing")
prop("C15", "vp-macros",
 "Generated dialect wrappers round-trip every operation and type",
 "For every operation and type shape the dialect macro accepts (fixed and variadic operands, none, one, several or variadic results, required and optional attributes of every kind, regions, successors, type parameters, raw identifiers) the generated constructor builds an operation or type with exactly the given parts under the right names, the generated accessors return them, and the wrapper accepts exactly its own operation or type.",
 ["programs", "inputs"],
 "All shapes of the macro's grammar, all values.",
 "The tests check the macro's parser and a few of the repository's own dialects.",
 ["crates/trunk-ir-macros/src/codegen.rs", "crates/trunk-ir-macros/src/parse.rs", TIR+"ops.rs"],
 [("generate", "crates/trunk-ir-macros/src/codegen.rs")],
 "A dialect covering every shape, driven with random values; oracle: the values passed in and the raw operation.",
 "property-based round-trip")

RT = "crates/tribute-runtime/src/"
prop("C16", "vp-rt",
 "Byte strings behave as immutable values",
 "Concatenating, slicing, measuring and comparing ranges of runtime byte strings gives, for every content and every range, what the same operation on plain byte vectors gives. No operation changes an existing value; each new value starts with one reference, a slice holds one more reference to the value it was cut from, and a slice out of range stops the program.",
 ["inputs", "histories"],
 "All contents including empty ones, all 32-bit ranges, all histories of operations on shared values.",
 "The tests use a few short strings.",
 [RT+"lib.rs", "crates/tribute-rc/src/lib.rs"],
 [("__tribute_bytes_concat, __tribute_bytes_slice_or_panic, __tribute_bytes_range_equal, __tribute_bytes_len", RT+"lib.rs")],
 "Histories of operations against a model of byte vectors and reference counts, all values re-read after each step; aborts observed in forked children.",
 "stateful model-based testing")
prop("C17", "vp-rt",
 "Evidence finds the innermost handler; prompt tags are never shared",
 "Looking up an ability in an evidence gives the tag, the tail-resumptive function and the handler of the innermost handler installed for it on the path that built that evidence, whatever other evidences were derived before or after. Prompt tags drawn by a thread are pairwise distinct, also when several threads initialise the runtime at the same time and however often it is initialised.",
 ["histories", "schedules"],
 "All histories of installing handlers (any ability numbers, branching derivations) and all interleavings of initialisation.",
 "The tests install two or three handlers in one order.",
 [RT+"lib.rs", RT+"tls.rs"],
 [("__tribute_evidence_extend / _lookup / _lookup_tr / _lookup_handler", RT+"lib.rs"), ("tls_init, thread_state", RT+"tls.rs")],
 "Branching histories against maps, every lookup in every evidence after every step; concurrent initialisation in forked children.",
 "stateful model-based testing")
prop("C18", "vp-rt",
 "Standard input and output deliver exactly the program's lines and bytes",
 "Reading lines yields exactly the lines of the input (without their line ending \\n or \\r\\n, the last one also when unterminated), then end of file for ever, however the input arrives in pieces and whatever signals interrupt it; a line that is not UTF-8 is reported as such without losing later lines, and a failing read reports the system's error code. Everything written arrives complete, in order and unchanged on standard output; printed numbers read back as the same number.",
 ["inputs", "schedules", "faults"],
 "All byte sequences, chunkings, interruptions and failing descriptors.",
 "The tests feed a few short buffers through internal functions.",
 [RT+"lib.rs"],
 [("__tribute_io_read_line", RT+"lib.rs"), ("__tribute_io_write, __tribute_print_*", RT+"lib.rs")],
 "Forked children with piped standard streams, random content, chunking, signal interruption and closed or unreadable descriptors, against a line-splitting model.",
 "property-based testing with injected faults")
prop("C19", "vp-rt",
 "Allocations are disjoint and the sanitizer reports heap errors",
 "Live allocations are non-null, 8-byte aligned, disjoint and keep their contents; releasing null or zero bytes does nothing; a request that cannot be met stops the program. In sanitized programs an overwrite of up to 32 bytes before or after a block is reported when the block is released, a second release of a quarantined block is reported, quarantined memory stays poisoned and is not handed out again, and a correct program is never reported.",
 ["histories", "inputs"],
 "All histories of allocations and releases of any size, all positions and values of a stray write.",
 "The tests try single allocations of fixed size.",
 [RT+"lib.rs", RT+"asan.rs"],
 [("__tribute_alloc, __tribute_dealloc", RT+"lib.rs"), ("alloc, dealloc, quarantine_push", RT+"asan.rs")],
 "Random histories and injected heap errors in forked children; oracle: model of live and quarantined blocks, expected abort and report.",
 "property-based testing with injected faults")

CL = "crates/trunk-ir-cranelift-backend/src/"
NP = "crates/tribute-passes/src/native/"
prop("C20", "vp-native",
 "Native machine code computes what the program means",
 "Every well-formed program lowered by the native pipeline (after any sequence of inlining, dead-function elimination, canonicalization and dead-code elimination) gives an object file that links, and running it gives for every input the result, the external calls in order with their arguments, and the traps (division by zero or overflow) that the program's IR prescribes; integer widths wrap, floats are IEEE, and control flow (if, loop, switch, branches, recursion, direct and indirect calls) is kept. Optimisation may drop a trap of an unused operation, nothing else.",
 ["programs", "inputs"],
 "All programs over the arithmetic, control-flow, structured and function dialects, all argument values.",
 "The tests look at the lowered IR of single operations and never run it.",
 [CL+"translate.rs", CL+"function.rs", CL+"passes/arith_to_clif.rs", CL+"passes/func_to_clif.rs", CL+"passes/cf_to_clif.rs", TIR+"transforms/scf_to_cf.rs"],
 [("emit_module_to_native", CL+"translate.rs"), ("arith_to_clif::lower", CL+"passes/arith_to_clif.rs"), ("scf_to_cf", TIR+"transforms/scf_to_cf.rs")],
 "Random typed programs compiled, loaded by an own ELF loader and run in forked children; oracle: a reference interpreter of the source IR. Programs that do not end within the interpreter's fuel are not run; the remainder of the smallest integer by -1 is left open.",
 "differential testing against a reference interpreter")
prop("C21", "vp-native",
 "Reference counting never frees a live value, whatever policy is on",
 "For every program that builds, reads, tests and passes structs and enums, under every combination of reference-counting policies (borrowed parameters, temporary field borrows, paired elimination), the compiled program computes what the IR prescribes, never touches or releases a freed or foreign block, never frees with a wrong size, and frees, in straight-line programs, everything nothing refers to any more (parts of objects too, where the field is declared with a nominal type); in straight-line programs, and everywhere without the temporary-borrow policy, switching policies on never leaves more memory unfreed.",
 ["programs", "inputs", "histories"],
 "All programs over the ADT and control-flow dialects, all policies, all argument values.",
 "The tests compare inserted operations for a few functions and never run them.",
 [NP+"rc_insertion.rs", NP+"rc_optimization.rs", NP+"rc_lowering.rs", NP+"ownership_summary.rs", NP+"rtti.rs", NP+"adt_rc_header.rs", CL+"passes/adt_to_clif.rs"],
 [("insert_rc_with_policies_and_trusted_summaries", NP+"rc_insertion.rs"), ("compute_and_attach", NP+"ownership_summary.rs"), ("generate_rtti", NP+"rtti.rs"), ("adt_to_clif::lower", CL+"passes/adt_to_clif.rs")],
 "Random programs run with an allocator that checks every release and poisons freed blocks; oracle: reference interpreter plus heap model.",
 "differential testing with a checking allocator")
prop("C22", "vp-native",
 "Compiling the same program again gives the same output",
 "Compiling a module is a function of the module and the options: repeated compilations in one process give byte-identical object files.",
 ["programs", "schedules"],
 "All programs and options, all hash seeds.",
 "The tests compile each program once.",
 [CL+"translate.rs", NP+"rc_insertion.rs", NP+"ownership_summary.rs", NP+"rtti.rs", NP+"const_to_native.rs"],
 [("emit_module_to_native", CL+"translate.rs")],
 "Random programs compiled four times each and compared byte by byte.",
 "metamorphic testing")

WB = "crates/trunk-ir-wasm-backend/src/"
WP = "crates/tribute-passes/src/wasm/"
prop("C23", "vp-wasm",
 "WebAssembly modules are valid and compute what the program means",
 "Every well-formed program lowered by the WebAssembly pipeline (also after inlining, dead-function elimination, canonicalization and dead-code elimination) gives a module that a WebAssembly engine validates and instantiates, and calling its exports gives for every input the result, the calls of imported functions in order with their arguments, and the traps that the program's IR prescribes; integers wrap, comparisons honour signedness, floats are IEEE, and structs, enums with all variants, nested and recursive values, conditionals, loops, recursion, tail calls and indirect calls keep their meaning.",
 ["programs", "inputs"],
 "All programs over the arithmetic, ADT, structured-control and function dialects, all argument values.",
 "The tests look at single lowered operations and at the magic number of the output, and run no module of their own.",
 [WB+"emit.rs", WB+"emit/gc_types_collection.rs", WB+"emit/call_indirect_collection.rs", WB+"emit/handlers/struct_handlers.rs", WB+"passes/arith_to_wasm.rs", WB+"passes/scf_to_wasm.rs", WB+"passes/adt_to_wasm.rs", WB+"passes/func_to_wasm.rs", WP+"lower.rs", WP+"type_converter.rs"],
 [("emit_module_to_wasm", WB+"emit.rs"), ("lower_to_wasm", WP+"lower.rs"), ("wasm_type_converter", WP+"type_converter.rs")],
 "Random typed programs compiled and run in a persistent Node.js child; oracle: a reference interpreter of the source IR, whose external answers are replayed to the module.",
 "differential testing against a reference interpreter")
prop("C24", "vp-wasm",
 "Compiling the same program to WebAssembly again gives the same bytes",
 "Compiling a module to WebAssembly is a function of the module: repeated compilations in one process give byte-identical binaries.",
 ["programs", "schedules"],
 "All programs, all hash seeds.",
 "The tests compile each program once.",
 [WB+"emit.rs", WB+"emit/call_indirect_collection.rs", WB+"passes/func_to_wasm.rs", WP+"lower.rs"],
 [("emit_module_to_wasm", WB+"emit.rs"), ("lower_to_wasm", WP+"lower.rs")],
 "Random programs compiled four times each and compared byte by byte.",
 "metamorphic testing")

FX = "crates/tribute-passes/src/"
prop("C25", "vp-fx",
 "Closures and effect handlers compile to native code that behaves as written",
 "Every program with closures (capturing values, nested, passed around and called through any calling convention) and effect handlers (operations with a resumption called once, several times or never, tail-resumptive operations, nested and shadowing handlers, handlers inside handled code and after it, calls that carry evidence through functions), taken through closure lowering, ability lowering, evidence resolution, handle dispatch and the native pipeline under every reference-counting policy, gives machine code that for every input produces the result and the external calls the program prescribes: an operation goes to the innermost handler installed around it, a resumption continues exactly where the operation was performed, a finished handler no longer handles, and no live closure, continuation or boxed value is freed.",
 ["programs", "inputs", "histories"],
 "All programs in the form the front end hands to the shared pipeline, over closures, abilities, boxing and integer arithmetic; programs whose operations are performed inside handler arms for an ability handled differently around the perform site and around the arm are left out.",
 "The tests of these passes compare the shape of lowered IR for single functions; the end-to-end tests run a few dozen programs.",
 [FX+"lower_closure_lambda.rs", FX+"closure_lower.rs", FX+"lower_ability_perform.rs", FX+"tail_resumptive.rs", FX+"resolve_evidence.rs", FX+"lower_handle_dispatch.rs", FX+"native/evidence.rs", "crates/tribute-runtime/src/lib.rs", FX+"native/rc_insertion.rs"],
 [("LowerClosureLambda", FX+"lower_closure_lambda.rs"), ("LowerClosuresInFunc", FX+"closure_lower.rs"), ("ResolveEvidenceDispatch", FX+"resolve_evidence.rs"), ("LowerHandleDispatch", FX+"lower_handle_dispatch.rs"), ("LowerEvidenceToNative", FX+"native/evidence.rs")],
 "Random programs with closures and handlers compiled with the real runtime linked in and run in forked children with a checking allocator; oracle: a reference interpreter of the source form with first-class closures and prompt-delimited handlers.",
 "differential testing against a reference interpreter with handlers")
prop("C26", "vp-fx",
 "Closures compile to WebAssembly that behaves as written",
 "Every program with closures (capturing values, nested, passed to and returned from functions, called through any calling convention), taken through closure lowering and the WebAssembly pipeline, gives a module that validates and computes for every input the result and the imported calls the program prescribes.",
 ["programs", "inputs"],
 "All programs over closures, boxed scalars and integer and float arithmetic in the form the front end hands to the shared pipeline. Abilities are left out: the repository does not claim their execution on WebAssembly.",
 "The tests compile such programs but do not run them.",
 [FX+"lower_closure_lambda.rs", FX+"closure_lower.rs", WP+"lower.rs", WP+"tribute_rt_to_wasm.rs", WB+"emit/call_indirect_collection.rs"],
 [("LowerClosureLambda", FX+"lower_closure_lambda.rs"), ("LowerClosuresInFunc", FX+"closure_lower.rs"), ("lower_to_wasm", WP+"lower.rs")],
 "Random programs with closures compiled and run in a persistent Node.js child; oracle: the interpreter of C25.",
 "differential testing against a reference interpreter")
prop("C27", "vp-lib",
 "Library operations on numbers, bytes, strings, lists and input/output (native)",
 "Every program over the library's built-in operations (signed, unsigned and floating-point arithmetic and comparison, called directly or through function values; byte-string length, indexing, concatenation, slicing and range comparison; rope strings; linked lists; printing and reading lines), lowered by the intrinsic, list, I/O and constant passes and the native pipeline and linked with the real runtime, returns for every input the value and writes the output the operations' definitions prescribe, stops where they are undefined (division by zero, an index or range out of bounds, the head or tail of an empty list) after exactly the output written until then, and never touches freed or foreign memory.",
 ["programs", "inputs"],
 "All programs over these operations with structured control flow, recursion and every reference-counting policy, all literals (any bytes, any text) and every standard input including invalid UTF-8, missing final newlines and a failing descriptor; the remainder of the smallest integer by -1 is left open.",
 "The tests compare the lowered form of single calls or run a few dozen fixed programs; which operand reaches which instruction, the width and sign of every conversion, and the order of effects matter for every program.",
 [FX+"intrinsic_to_arith.rs", FX+"list_intrinsics.rs", FX+"io_lowering.rs", FX+"native/intrinsic_to_native.rs", FX+"native/const_to_native.rs", FX+"native/list.rs", FX+"native/io.rs", FX+"native/adt_rc_header.rs", "crates/tribute-runtime/src/lib.rs"],
 [("LowerIntrinsicToArith", FX+"intrinsic_to_arith.rs"), ("LowerListIntrinsics", FX+"list_intrinsics.rs"), ("LowerIoIntrinsics", FX+"io_lowering.rs"), ("analyze_consts", FX+"native/const_to_native.rs")],
 "Random programs compiled, linked with the real runtime and run in forked children whose heap puts every block against a guard page; oracle: an evaluator of the operations' definitions, for result, output and the way of stopping.",
 "differential testing against a reference evaluator")
prop("C28", "vp-lib",
 "Library operations on numbers, bytes, strings and printing (WebAssembly)",
 "Every program over the library's built-in operations (arithmetic and comparison, called directly or through function values; byte-string length, indexing, concatenation and range comparison; rope strings; printing), lowered by the intrinsic and constant passes and the WebAssembly pipeline, gives a module that validates, returns for every input the value and writes the output the operations' definitions prescribe even when the host accepts output piecemeal, and traps where they are undefined.",
 ["programs", "inputs", "fault_sequences"],
 "All programs over these operations with structured control flow and recursion, all literals, and every pattern of short and interrupted writes by the host; slices, lists and input have no WebAssembly lowering.",
 "The tests compare the lowered form of single calls; no test runs such a module under short writes.",
 [FX+"intrinsic_to_arith.rs", FX+"io_lowering.rs", WP+"intrinsic_to_wasm.rs", WP+"const_to_wasm.rs", WP+"io.rs", WP+"lower.rs"],
 [("LowerIntrinsicToArith", FX+"intrinsic_to_arith.rs"), ("lower_to_wasm", WP+"lower.rs")],
 "Random programs compiled and run in a persistent Node.js child with a host whose fd_write accepts random amounts; oracle: the evaluator of C27.",
 "differential testing against a reference evaluator with injected host faults")

prop("C29", "vp-abi",
 "Calling conventions are made physical completely or not at all",
 "Physicalizing a module gives every callable proven to use the CPS convention (functions, references, indirect signatures, closure types nested anywhere in types, attributes, block arguments, results and aliases) an empty physical result and changes nothing else, and the root bridge keeps main's source signature, runs the worker once with main's own (or empty) evidence and returns the answer its continuation received. A module with any transfer, reference, environment or type whose convention is missing, malformed or inconsistent is rejected and left unchanged, and malformed convention metadata is never read as a convention.",
 ["programs", "inputs"],
 "All modules of functions with and without conventions, direct and indirect transfers, references, nested modules and regions and nested types, and each with a defect at any place.",
 "The tests fix about fifteen modules; completeness over every place a type can occur and atomicity of every rejection cannot be sampled by hand.",
 [FX+"target_abi.rs", "crates/tribute-core/src/calling_convention.rs"],
 [("lower_cps_signatures_to_physical", FX+"target_abi.rs"), ("compose_root_entry_bridge", FX+"target_abi.rs"), ("get_physical_closure_convention", "crates/tribute-core/src/calling_convention.rs")],
 "A model module is built twice, in logical and in physical form; the pass must map the first to the second, or, with one planted defect, reject it and leave it as it was. The bridge is simulated with a worker that calls its continuation.",
 "model-based testing with a reference transformation and planted defects")
prop("C30", "vp-abi",
 "Only fully lowered modules pass the check before code emission",
 "The checks at the native and the WebAssembly back-end boundary accept a module exactly when every operation in it, at any depth, belongs to the target and every type on a result, operand, block argument, signature, attribute, nested type or alias is one the target has, no private control symbol remains and every tail transfer and CPS signature is physically empty. Programs lowered by the compiler's own pipelines are accepted, and a program with a leftover operation is never emitted.",
 ["programs", "inputs"],
 "All modules of target operations with nested regions, modules, types and attributes and any number of illegal pieces at any place, and lowered programs with one leftover; types of lowered native programs with data are not judged.",
 "The tests plant a dozen leftovers at fixed places; the guarantee is about every place in every module.",
 [FX+"backend_ready.rs", CL+"validation.rs", WB+"validation.rs"],
 [("verify_tribute_backend_ready", FX+"backend_ready.rs"), ("validate_clif_ir", CL+"validation.rs"), ("validate_wasm_ir", WB+"validation.rs")],
 "Random modules of legal and illegal pieces judged by an independent legality table; lowered programs with and without a planted leftover.",
 "differential testing against a reference legality table")

prop("C31", "vp-lib",
 "Starting a compiled program runs its main exactly once, from start to end",
 "Starting the native executable's main or the WebAssembly module's _start runs the program's root-level main exactly once with its required (empty) evidence and after the runtime is initialised exactly once: it prints what main's definition prescribes and ends successfully whatever main returns, or traps where main does. Calls and function references to main, from main itself or elsewhere, still reach main rather than the start-up code, functions that only resemble main are never started, and a program without main gets no entry point.",
 ["programs", "inputs", "configurations"],
 "All programs with a main of any result type, with or without evidence, re-entered directly or through function values, with similarly named functions, pre-existing declarations and exports, with the sanitizer option on or off, optimised or not.",
 "The tests look for single operations in one or two hand-written modules; none starts a program through the generated entry point and observes initialisation order, re-entry and output together.",
 [NP+"entrypoint.rs", WP+"lower.rs"],
 [("generate_native_entrypoint", NP+"entrypoint.rs"), ("build_start_function", WP+"lower.rs")],
 "Random library programs wrapped in a random main; the native object is linked with recording stand-ins for the runtime's start-up functions and its main is called in a forked child; the module's _start and main run in Node.js. Oracle: the evaluator of C27 applied to main, and the recorded start-up sequence.",
 "differential testing against a reference evaluator with recorded start-up history")

prop("C32", "vp-lib",
 "Boxing a scalar and unboxing it gives the scalar back, on both targets",
 "A scalar boxed as an any-typed value, by the boxing operations or by the conversion casts the front end emits, and later unboxed at its own type after any path through variables, control flow, functions over any values and function references, is the scalar that was boxed: every 32-bit integer, natural, boolean and float on the native target and every one that fits 31 bits (integers, naturals), every boolean and every float on WebAssembly. Native boxes are freed exactly once under every reference-counting policy.",
 ["programs", "inputs"],
 "All programs over boxed and plain scalars, bytes, strings and lists; all values in range; every combination of reference-counting policies and with or without the clean-up passes.",
 "The tests look for the emitted operation names; none runs a boxed value through a function or a branch.",
 ["crates/tribute-passes/src/type_converter.rs", WP+"tribute_rt_to_wasm.rs", WP+"type_converter.rs", "crates/tribute-passes/src/native/tribute_rt_to_clif.rs", "crates/tribute-passes/src/native/type_converter.rs"],
 [("generic_type_converter", "crates/tribute-passes/src/type_converter.rs"), ("tribute_rt_to_wasm", WP+"tribute_rt_to_wasm.rs"), ("tribute_rt_to_clif", "crates/tribute-passes/src/native/tribute_rt_to_clif.rs")],
 "Random library programs with boxed values compiled and run natively over a checking heap and in Node.js; oracle: the evaluator of C27, in which boxing is the identity.",
 "differential testing against a reference evaluator over a checking heap")

CT="crates/tribute-passes/src/tribute_control_to_cps.rs"
TD="crates/tribute-ir/src/dialect/tribute_control.rs"
prop("C33", "vp-ctl",
 "Direct-style control converted to CPS behaves as written",
 "Converting any well-formed direct-style module (functions, lambdas and calls of each calling convention, performing, handling, resuming, branches and nested handlers) to continuation-passing style gives a module without direct-style operations or types in which every function, run with any arguments and handlers around it, performs the same operations with the same arguments in the same order, reaches the same handler, resumes or abandons the computation where the source says and returns the same value. The conversion accepts every such module and keeps names, visibility, plain operations and everything around them.",
 ["programs", "inputs"],
 "All well-typed modules with direct, evidence and CPS functions and lambdas, captures, structured control flow, nested and repeated handlers, fn and op operations including those that never return; two recorded defects bound the domain (see known-findings.txt).",
 "The tests compare printed fragments of about forty fixed modules; none runs a converted module, so order of effects, capture and continuation wiring are unobserved.",
 [CT, TD],
 [("tribute_control_to_cps", CT), ("verify_tribute_control_post_cps", CT), ("Converter", CT)],
 "Random direct-style programs run by a reference interpreter with delimited handlers; the converted module is run by a second interpreter of the CPS form; results and traces of performed operations and extern calls must agree.",
 "differential testing of two interpreters across the conversion")
prop("C34", "vp-ctl",
 "Direct-style and converted control modules survive their text form",
 "Any module of direct-style control operations, and the module it is converted to, printed and parsed is the same module: conventions, captures, handler kinds, closure and callable types with their attributes, symbol names and other attributes included. The parsed module is accepted by the boundary check and converts to the same result as the original.",
 ["programs", "inputs"],
 "All generated direct-style modules with unusual names, extra attributes and type aliases, and their conversions.",
 "The tests round-trip a handful of fixed texts of the custom operation formats.",
 [TD, "crates/tribute-ir/src/dialect/closure.rs", "crates/trunk-ir/src/printer.rs", "crates/trunk-ir/src/parser"],
 [("callable", TD), ("print_module", "crates/trunk-ir/src/printer.rs")],
 "Random direct-style modules and their conversions are printed, parsed and compared structurally; the parsed module is validated and converted again.",
 "round-trip property")
prop("C35", "vp-ctl",
 "Malformed direct-style control modules are refused and left untouched",
 "A direct-style module that breaks a rule of the control dialect (a call or value whose convention, arity or types disagree with its target, a capture list that differs from the values used, a resume token used outside its handler or at the wrong type, a missing, duplicated or wrongly typed handler, a terminator of the wrong kind, an unknown operation or ability, a type that the boundary forbids or does not know, nested at any depth) is refused with an error by the boundary check and the conversion (an effect beyond the convention of the function that performs it, by the conversion). A refused module and its type aliases are exactly as before, no module makes the checks or the conversion panic, and a module the boundary check refuses is never converted.",
 ["programs", "inputs", "fault_sequences"],
 "All generated modules with any one of about fifty-five kinds of violation at a random place, and all mutations of their text that still parse with one region per module.",
 "The tests fix one module per rule; a rule checked only at the top level, only for the first operand or only for one operation kind passes them.",
 [CT, TD],
 [("verify_tribute_control_pre_cps", CT), ("tribute_control_to_cps", CT)],
 "Random well-formed modules with one injected violation must be refused and unchanged; mutated texts must be answered without a panic, atomically and consistently.",
 "fault injection into generated modules and mutation fuzzing")

CB="crates/trunk-ir-cranelift-backend/src/"
WB="crates/trunk-ir-wasm-backend/src/"
prop("C36", "vp-lib",
 "Tail transfers run in bounded stack and pass their arguments exactly",
 "A chain of tail transfers between functions of the CPS convention, direct or through function values, of any length and with any number and types of arguments, compiled by either back end runs in bounded stack, hands every argument to its target unchanged, performs its external calls in order and returns to the caller of the chain. On the native target objects handed along are freed exactly once, under every reference-counting policy.",
 ["programs", "inputs"],
 "All sets of mutually transferring functions with up to fourteen parameters of any scalar, empty or (native) managed type; chains of up to 40,000 transfers on a 512 KiB native stack and Node's stack.",
 "The tests look for the transfer instruction in the emitted text; none runs a chain, so a transfer emitted as a call and return passes them.",
 [CB+"function.rs", CB+"translate.rs", CB+"passes/func_to_clif.rs", WB+"passes/func_to_wasm.rs", WB+"emit/handlers/call_handlers.rs", "crates/tribute-passes/src/native/rc_insertion.rs"],
 [("FuncTailCallPattern", CB+"passes/func_to_clif.rs"), ("call_conv_for_cps_signature", CB+"function.rs"), ("handle_return_call", WB+"emit/handlers/call_handlers.rs")],
 "Random groups of functions that transfer to each other, compiled and run on a small stack over a checking heap and in Node.js; oracle: an interpreter of the IR that transfers without nesting.",
 "differential testing against a reference interpreter with a bounded stack")

prop("C37", "vp-fx",
 "Ability and operation ids identify exactly one ability and operation",
 "The runtime id of an ability reference depends only on what the ability is: its name and its type arguments, including the names of nominal types among them and everything nested in them. Two uses of the same ability agree on its id, in any compilation context, after any interning history and in any process, while different abilities, instances of one parametrised ability among them, do not share one; the same holds for the index and the payload type of each operation, and the payload holds the operands in order.",
 ["inputs", "histories"],
 "All sets of up to ten ability references with nested type arguments (nominal types, structs, functions, arrays, abilities), many differing in one place only; all interning orders; two processes.",
 "The tests compare three fixed abilities in one context; an id that ignores part of the type arguments or depends on interning order passes them.",
 ["crates/tribute-ir/src/dialect/ability.rs", "crates/trunk-ir/src/symbol.rs", "crates/trunk-ir/src/types.rs"],
 [("compute_ability_id", "crates/tribute-ir/src/dialect/ability.rs"), ("compute_op_idx", "crates/tribute-ir/src/dialect/ability.rs"), ("operation_payload_type_ref", "crates/tribute-ir/src/dialect/ability.rs"), ("Hash for Symbol", "crates/trunk-ir/src/symbol.rs")],
 "Random sets of ability references and near-duplicates, their ids compared across contexts, interning orders and processes; oracle: structural equality of the references. Ids are 32-bit hashes, so a collision counts only if it persists when every name is changed.",
 "property-based testing: ids equal exactly when references are structurally equal")

prop("C38", "vp-ctl",
 "The post-CPS boundary accepts converted modules and refuses any breach",
 "Every module the direct-style conversion produces passes the post-CPS boundary check. A module with a single breach of the physical form anywhere in it, nested modules, regions and types included, is refused without a panic: a residual control operation, a source-level type reachable from any result, argument, attribute or alias, a callable operation without a valid convention, a call that disagrees with its target in convention, a tail transfer with wrong arguments, target or convention, or a malformed handler delimiter or dispatcher.",
 ["programs", "inputs"],
 "All converted direct-style programs (handlers, lambdas, adapters, nested modules) with one of thirteen kinds of breach at a random place.",
 "The tests plant single breaches in a few hand-written modules at top level; a check that skips nested modules, list attributes, later dispatcher pairs or one kind of operation passes them.",
 ["crates/tribute-passes/src/tribute_control_to_cps.rs", "crates/tribute-passes/src/resolve_evidence.rs"],
 [("verify_tribute_control_post_cps", "crates/tribute-passes/src/tribute_control_to_cps.rs"), ("verify_physical_callable_graph", "crates/tribute-passes/src/tribute_control_to_cps.rs"), ("verify_final_handle_dispatch_types", "crates/tribute-passes/src/tribute_control_to_cps.rs"), ("final_handle_dispatch_shape", "crates/tribute-passes/src/resolve_evidence.rs")],
 "Random converted programs with one injected breach; oracle: the unmodified module is accepted, the modified one refused.",
 "fault-injection property testing: accept conversions, refuse single breaches")

WB="crates/trunk-ir-wasm-backend/src/"
prop("C39", "vp-wasm",
 "A module in the wasm dialect runs as WebAssembly defines its operations",
 "A well-formed module written in the wasm dialect is emitted as a valid binary whose exported functions, called in any order on one instance, return, trap, call imports and change memory and globals exactly as the WebAssembly definition of each operation prescribes: every numeric and conversion operation, loads and stores of every width at any address, offset and alignment, growing memory, locals and globals, byte arrays and byte strings, 31-bit references, casts and tests, nested blocks, loops and conditionals with branches to any enclosing construct, direct, tail and table calls. Memory limits, data and element segments, globals and their initial values, imports and exports are those the module declares, wherever in the module and in whatever order they are declared.",
 ["programs", "inputs", "histories"],
 "All well-formed single-memory modules over these operations with up to five functions, two imports, four data segments and a table; all call histories of up to nine calls plus reads of the memory written.",
 "The tests emit a handful of modules and look for instructions; most memory, array and branch operations are never executed, and no test calls a module twice.",
 [WB+"emit.rs", WB+"emit/handlers/memory_handlers.rs", WB+"emit/handlers/control_flow_handlers.rs", WB+"emit/handlers/local_global_handlers.rs", WB+"emit/handlers/array_handlers.rs", WB+"emit/handlers/ref_handlers.rs", WB+"emit/definitions.rs"],
 [("emit_wasm", WB+"emit.rs"), ("emit_region_ops_nested", WB+"emit.rs"), ("make_memarg", WB+"emit/handlers/memory_handlers.rs"), ("handle_loop", WB+"emit/handlers/control_flow_handlers.rs"), ("extract_data_def", WB+"emit/definitions.rs")],
 "Random modules over the wasm dialect emitted and run in Node.js as one instance per module; oracle: a reference interpreter of the generated program with its own memory, globals and tables. Outcomes that depend on the bits of a NaN or on the host's memory end the compared history.",
 "model-based differential testing of call histories against a reference interpreter")

NA = []
