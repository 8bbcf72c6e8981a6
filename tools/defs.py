prop("P01", "Guest programs and compilation have no ambient authority",
     "Compiling and running a program never touches the host environment: no file, network, process, environment variable, clock, thread, standard stream or random source. "
     "The single exception is the standard-library snapshot cache, which may be consulted only while a session is being created and never while code is being compiled or run. "
     "Host capabilities reach guest code only through functions the embedder registers.",
     ["programs", "inputs", "configurations"],
     "For every guest program, every standard-library function and every compilation, on every path.",
     "Tests observe results, not the absence of effects; a host call on a rarely taken path of one native function is invisible to them.",
     ["src/eval.rs", "src/mir/interpreter.rs", "src/hir/function.rs", "src/std", "src/compiler/snapshot/cache.rs", "src/compiler/session.rs"],
     [("native functions and interpreters", "src/std/**, src/eval.rs, src/mir/interpreter.rs"),
      ("snapshot cache, the only host I/O", "src/compiler/snapshot/cache.rs load_or_build_std")],
     "whole-crate effect analysis on the MIR call graph (who can reach a host operation)",
     "Sound for calls visible in the crate's MIR; dynamic dispatch and function values are over-approximated. Trusts the list of host-operation prefixes and that third-party crates outside it perform none.")
prop("P02", "Results depend only on the input, never on hidden process state",
     "What the compiler produces and what a program computes depend only on the sources and arguments. "
     "They never depend on random hash seeds, memory addresses, or counters, caches and other mutable state that outlives a session in the process or thread.",
     ["inputs", "histories", "schedules", "configurations"],
     "For every program, in every process, whatever was compiled or run before it and on whichever thread.",
     "A test runs once in one process: an order that comes from a hash seed or an address looks stable there, and a counter left by earlier work is rarely observable.",
     ["src/types/type.rs", "src/compiler/session.rs", "src/compiler/snapshot/cache.rs", "src/hir/emit_functions.rs", "src/hir/function.rs"],
     [("process-wide type interner", "src/types/type.rs types()"),
      ("initial session state cache", "src/compiler/session.rs INITIAL_SESSION_STATE_CACHE"),
      ("deterministic hashers (FxHash) and insertion-ordered maps", "whole crate")],
     "inventory of shared mutable state plus typed queries for seeded iteration and address observation",
     "Decides the absence of the listed sources of variation. Iteration order of unseeded (Fx) hash maps is a function of the insertion history and is accepted; reviewed statics are listed with reasons in the rule.")
prop("P04", "Sandbox violations poison execution for good, and nothing runs after",
     "When execution exceeds a fuel, depth or storage limit, or a second failure strikes during cleanup, the executor is marked poisoned before the error is reported, and stays so. "
     "From then on no guest code runs in it, cleanup included, and each further entry is refused with the recorded reason. "
     "Such an error always reaches the host: no guest or runtime code can catch or discard it.",
     ["programs", "inputs", "fault_sequences", "histories"],
     "For every program, every limit, every point at which the violation or the second failure can occur, and every later entry.",
     "Tests sample a few violation points; the guarantee quantifies over every call site and cleanup path of two interpreters at which an error can surface.",
     ["src/eval.rs", "src/mir/interpreter.rs", "src/hir/function.rs", "src/execution.rs"],
     [("recording", "src/eval.rs EvalCtx::{sandbox_violation, poison_source_failures, record_poisoning_error}"),
      ("admission test", "src/eval.rs EvalCtx::ensure_runnable and its callers"),
      ("cleanup after errors", "src/eval.rs cleanup_after_error, src/mir/interpreter.rs run_loop, exec_closure_call")],
     "typestate over error outcomes, must-write and guarded-reachability analyses on MIR",
     "Path-sensitive per function with outcome states joined per call site; closures passed to helpers are attributed to the call. Assumes external library calls do not run guest code unless given a closure that does.")
prop("P05", "Loops spend fuel and named recursion checks the call depth",
     "Every loop of guest code spends a unit of fuel at the start of each iteration, and every function or lambda body that names a member of its own recursive cycle checks the call depth on entry, in both interpreters and whatever the optimisation. "
     "Only standard-library functions may opt out of fuel checks. "
     "A fuel check with no fuel left, or a depth check at the limit, fails; otherwise it passes and spends exactly one unit. "
     "The limits enforced are the ones given when execution started.",
     ["programs", "inputs", "configurations"],
     "For every loop and recursive cycle in every program, under every limit, through inference, elaboration, snapshot, MIR lowering and each optimisation.",
     "A test runs a handful of loops under a handful of limits; a construct emitted without its check, or a limit lost on one route, stays unseen until some program hangs or overflows the host stack.",
     ["src/types/type_inference/expr.rs", "src/hir/emit_functions.rs", "src/hir/mod.rs", "src/emit_mir.rs", "src/eval.rs", "src/mir/interpreter.rs", "src/execution.rs", "src/compiler/session.rs"],
     [("fuel check emission", "src/types/type_inference/expr.rs Loop"),
      ("depth check emission", "src/hir/emit_functions.rs wrap_body_with_call_depth_check_if_recursive"),
      ("the checks", "src/eval.rs EvalCtx::{check_fuel, check_call_depth}"),
      ("limits", "src/execution.rs, src/eval.rs EvalCtx::with_environment_and_limits")],
     "must-pass path analysis of emission, representation-by-representation mapping of the checks, abstract interpretation of the checks, dataflow of the limits",
     "Covers loops and cycles of functions that refer to each other by name. Recursion closed by trait-method dispatch is a known finding; recursion through function values stored in data is outside the statement.")
prop("P06", "Guest storage never grows unchecked past the cell limit",
     "The executor's shared environment, which holds every guest local, temporary and argument in both interpreters, only grows after a check against the environment-cell limit that covers the cells being added. "
     "The check fails as a sandbox violation when the needed cell is at or above the limit and passes below it. "
     "The one growth without a check reserves the local slots the current function itself declares, so storage can pass the limit by no more than that.",
     ["programs", "inputs", "configurations"],
     "For every program, every limit and every operation that adds a cell, in both interpreters.",
     "A test fills the environment one or two ways; an unchecked growth on another path lets a guest exhaust host memory and shows in no result.",
     ["src/eval.rs", "src/hir/function.rs", "src/mir/interpreter.rs"],
     [("the check", "src/eval.rs EvalCtx::check_environment_cell_limit"),
      ("growth in the reference interpreter", "src/eval.rs call_function_value, call_accessor_until_yield, call_value_drop_for_temp, eval_store_local; src/hir/function.rs ScriptFunction::call"),
      ("growth in the MIR interpreter", "src/mir/interpreter.rs alloc_cell, run_entry")],
     "enumeration of all growth of the environment with guard dominance, and abstract interpretation of the check",
     "Counts cells, not bytes inside a cell. Growth through a function without its own check is charged to its callers.")
prop("P07", "Every exit from a call restores the caller's frame state",
     "Whichever way a call ends - normal result, early transfer, source failure, sandbox violation - the executor's current module, frame base, hidden-argument frame, place-return mode and call depth are those of the caller again, and the callee's stack cells are gone. "
     "The one exception is a suspended accessor, which keeps exactly its own frame until it is resumed or abandoned.",
     ["programs", "inputs", "fault_sequences"],
     "For every function value, accessor and native call, on every success and failure path.",
     "Tests check final values: a frame field left stale on one error path shows only when the same executor is used again in a particular way.",
     ["src/eval.rs", "src/mir/interpreter.rs", "src/hir/function.rs"],
     [("HIR calls", "src/eval.rs call_function, call_accessor_until_yield, call_function_value"),
      ("script entry", "src/hir/function.rs ScriptFunction::call"),
      ("MIR frames", "src/mir/interpreter.rs run_function, exec_project, exec_end_project")],
     "path-sensitive symbolic save/restore analysis of frame fields on MIR",
     "Tracks each field as entry value plus constant through locals, swaps and private helpers; panicking paths are out of scope.")

prop("P10", "The std snapshot restores exactly what it captured",
     "Restoring the compiled standard library from a snapshot gives back what compiling it produced: every part of functions, subscripts, types, traits, implementations, projections, dependencies and HIR nodes is restored from the part of the snapshot that was captured from it. "
     "Nothing captured is dropped, defaulted, filtered, reordered, negated or swapped, each enum variant returns as itself, and the encoding on disk carries every field in both directions.",
     ["inputs", "configurations"],
     "For every field and variant of the captured representation, whatever the contents of the standard library.",
     "Round-trip tests compare a few lengths and displays on today's std: a lost field that today's std leaves empty, or that no test reads, goes unnoticed until a program depends on it.",
     ["src/compiler/snapshot"],
     [("portable types and their capture and restoration", "src/compiler/snapshot/{callable,function,hir,literal,semantic,source,subscript,trait_impl,type_graph,types}.rs"),
      ("module checkpoints", "src/compiler/snapshot/checkpoint.rs SnapshotModuleCheckpoint::{capture, apply}")],
     "field-to-field dataflow composition of capture and restoration on MIR, variant mapping, and coverage of the derived encodings",
     "Decides which field each value comes from and rejects lossy operations on the way; it does not evaluate value conversions such as number widths. Derived fields (dictionary values, def sites of located types) and three constant ones are listed.")

prop("P09", "The std cache file is trusted only when intact, and written whole",
     "A compiled-std cache file is used only if its checksum matches the whole payload and its header equals this build's format version, std source, compiler and native functions. "
     "Any other content, of any length, and any I/O failure counts as a miss and is never a crash. "
     "A cache file appears under its published name only by renaming a file that was created exclusively, completely written and synced, after its bytes were decoded and restored successfully, and only while holding the cache lock.",
     ["inputs", "crash_points", "schedules", "fault_sequences"],
     "For every content of the cache file, every I/O failure, every crash point of the writer and every interleaving of processes.",
     "Tests corrupt one byte of a payload and run one process; a file truncated at an odd length, a stale header or a crash between write and rename occurs only in the field.",
     ["src/compiler/snapshot/cache.rs", "src/compiler/snapshot/envelope.rs", "src/compiler/snapshot/std_snapshot.rs"],
     [("reading", "src/compiler/snapshot/cache.rs try_load, checked_payload"),
      ("header comparison", "src/compiler/snapshot/envelope.rs StdSnapshotHeader::matches_current"),
      ("publication", "src/compiler/snapshot/cache.rs load_or_build_std, publish_atomically")],
     "provenance of decoded bytes and file paths across calls and closures, guard dominance, and bounded interpretation of slicing for every short file length",
     "Trusts the operating system's rename, fsync and lock, and SHA-256. File lengths are evaluated up to 96 bytes (the header is 40); slicing of the payload beyond it is by the same expressions.")

prop("P03", "Two types are treated as the same only if all their parts are",
     "When the compiler accepts two types as the same type (or as a sub-type, when matching an alias, when interning a recursive type, or when relating a call to a callee's final type), it has compared every part of both: "
     "the kind, the number of parts, field and variant names, argument types and mutability, results, effects, the definition of named types and their type and effect arguments. In the unifier, arguments are compared contravariantly and results and effects covariantly.",
     ["programs", "inputs"],
     "For every pair of types of every shape, on every path of every function that decides whether two types are the same.",
     "A comparison skipped for one part of one kind of type only shows on programs whose types differ exactly there; tests compare few such near-identical pairs.",
     ["src/types/type_inference/unify.rs", "src/types/type.rs", "src/module/type_alias_name.rs", "src/hir/elaboration.rs", "src/mir/verify.rs"],
     [("unification", "src/types/type_inference/unify.rs unify_sub_or_same_type"),
      ("interning of recursive types", "src/types/type.rs type_kinds_match_with_mapping"),
      ("alias names", "src/module/type_alias_name.rs match_alias_type_inner"),
      ("binding of call instantiations", "src/hir/elaboration.rs bind_type_effect_instantiation, bind_call_type_instantiation"),
      ("MIR verification", "src/mir/verify.rs lowered_representations_compatible")],
     "path-sensitive must-analysis on MIR of the comparisons made before accepting, against the components of the type definitions, through closures, loops and helpers",
     "The result of comparing two parts (unification of variables, effect constraints) is decided by the functions called; P15 checks effect inclusions. The candidate filter types_could_match and the effect pass over natives after unification are excluded: exact comparisons follow or precede them.")
prop("P15", "Inferred effects cover everything an expression can do",
     "The effects recorded for an expression include those of every subexpression it evaluates and of every function or subscript it calls; a function's recorded effects include those of its body. "
     "Only the standard library can drop an effect. A native function that can report an error is declared fallible, and the effects of every method of a trait implementation are checked against the trait's declaration. "
     "A required inclusion of one effect set in another is accepted only if the included set's primitive effects are in the other set and its variables become bounded by it, or the inclusion is kept for later.",
     ["programs", "inputs"],
     "For every expression form, every callee, every native and every implementation in every program.",
     "A test exercises a few compositions of effects; an effect lost at one kind of node or in one solver case makes a fallible or effectful function look pure only in the programs that use it.",
     ["src/types/type_inference/expr.rs", "src/types/type_inference/effect_solver.rs", "src/hir/match.rs", "src/hir/emit_functions.rs", "src/hir/emit_expr.rs", "src/std"],
     [("effects of nodes", "src/types/type_inference/expr.rs infer_expr, src/hir/match.rs, make_dependent_effect callers"),
      ("effects of functions and implementations", "src/hir/emit_functions.rs"),
      ("natives", "src/std/*.rs registrations, src/std/prelude/core_traits.fer"),
      ("inclusions", "src/types/type_inference/effect_solver.rs try_add_effect_inclusion, materialize_residual_inclusion")],
     "backward slicing of node and effect operands on MIR, registration-site audit, path-sensitive must-analysis of inclusion acceptance",
     "Which effects a type unification requires is decided elsewhere. Known findings: a lower variable that already stands for other variables is bounded without them, and arguments lent mutably are not invariant in their effects.")
prop("P11", "Walks over programs and types visit every part",
     "A function that walks expressions, nodes, types, source types, MIR operations or terminators and passes their parts of one kind (child expressions, types, effects, mutabilities, operands, successor blocks) on does so "
     "for every part of every variant, whatever the program: no field, optional part, list or list element is left out on a path that succeeds. Mapping and visiting a type-like value reaches all of its types, effects and "
     "mutabilities, and a type is visible only if all its parts are.",
     ["programs"],
     "For every variant of every representation, every part of it and every program.",
     "A test walks a few programs; a child that one walk forgets at one kind of node (a substitution, capture analysis, borrow check, visibility check, renaming, lowering) shows only in programs where that part matters.",
     ["src/hir", "src/types", "src/ast", "src/mir", "src/module/mod.rs", "src/emit_mir.rs"],
     [("walks over HIR", "src/hir/mod.rs child_node_ids, instantiate_node_in_place, src/hir/borrow_checker.rs, src/types/type_inference/substitution.rs"),
      ("walks over types", "src/types/type.rs, src/types/type_mapper.rs, src/types/type_scheme.rs, src/module/mod.rs is_type_visible_by"),
      ("walks over syntax", "src/ast/expr.rs, src/ast/types.rs, src/desugar"),
      ("walks over MIR", "src/mir/operation.rs, src/mir/terminator.rs, src/mir/pass")],
     "must-coverage of type-derived parts in every arm of inferred walks on MIR",
     "Walks are inferred from the code: a match counts when at least three parts of a family are passed on directly and most are covered; a walk with several omissions stops counting, which a floor guards coarsely. What a walk does with a part is not judged.")
prop("P19", "Overlapping mutable access is rejected before code runs",
     "A program in which one call is given two mutable places that overlap, as told by their variables, projections, fields and literal indices, is rejected, wherever that call stands. "
     "An argument that is read, and that later arguments or the call itself may write, is observed as it was when it was evaluated. "
     "A place that a subscript returns is rooted in its base parameter, and one that it yields in storage of its own.",
     ["programs"],
     "For every call of every kind at every place of every function, lambda, subscript and expression.",
     "A test tries a few calls with two or three arguments; an overlap that escapes at one kind of call, nesting or argument position breaks the value semantics only of programs that have it there.",
     ["src/hir/borrow_checker.rs", "src/module/function.rs", "src/hir/emit_expr.rs", "src/hir/elaboration.rs", "src/types/type_inference/expr.rs"],
     [("overlap of places", "src/hir/borrow_checker.rs do_paths_overlap, Path"),
      ("the check of a body", "src/hir/borrow_checker.rs check_elaborated_borrows, check_elaborated_arguments"),
      ("where it is required", "src/module/function.rs check_borrows_and_elaborate_hir_with_warnings, src/hir/emit_expr.rs"),
      ("snapshots", "src/hir/borrow_checker.rs let_arguments_overlapping_*, callee_overlaps_argument_writes")],
     "must-success analysis of the check from publication to pair test, implication analysis of the overlap predicate, coverage of writing constructs",
     "Known findings: a local that names a place of another is taken for storage of its own, and the second argument of any addressor for the element it selects.")
prop("P13", "Private, unsafe and experimental items are usable only where allowed",
     "A source file reaches an item of another module by name (function, type, trait, trait method, subscript; qualified, imported or through a wildcard) only if the item is public, and an implementation of another module only if it was exported, "
     "which needs a public trait and public input and output types (or through the implementation that grants its own module's scope). "
     "The representation of a type marked private_repr is not constructed, matched, projected or unified with outside its module; unsafe std items, effects_unsafe and compiler builtins are accepted in std only, and named subscripts only with the experimental capability.",
     ["programs", "module graphs"],
     "For every graph of modules, every way of naming an item and every place where a type is used.",
     "Each privilege is checked on many independent routes (paths, uses, wildcards, candidates of trait solving, unification, patterns); a route that forgets the check, or applies it under a condition, accepts programs that no negative test lists.",
     ["src/module", "src/types/trait_solver.rs", "src/types/typing_env.rs", "src/types/type_inference", "src/desugar"],
     [("name resolution", "src/module/mod.rs find_member, get_member; src/module/module_env.rs find_member_by_path, get_unqualified_trait_method"),
      ("implementations", "src/types/trait_solver.rs can_use_other_impl, improvement_candidates, get_concrete_impl, solve_impl_actual; src/module/mod.rs is_trait_impl_exportable"),
      ("representations", "src/module/module_env.rs, src/types/type_inference/unify.rs, expr.rs, src/desugar/patterns.rs"),
      ("gates", "src/module/module_env.rs is_unsafe_item_unavailable_in_current_context, src/types/type_inference/expr.rs")],
     "implication analysis of booleans, options and results on MIR, with dominance of uses by the checks",
     "Implementations derived by the compiler work across modules and are outside the property, as are projections (p.x), which the experimental gate does not cover. Host API lookups that ignore visibility are trusted.")
prop("P18", "Optimizer passes account for every write, effect and callee obligation",
     "Each pass that remembers what places hold (available calls, loop-invariant calls, copy forwarding, constant folding, relations between values) forgets a place whenever an operation of any kind may write it: stores, copies, moves, clones, clears, drops, array construction, call results, mutable arguments and scoped projections. "
     "A call is reused, hoisted or deleted only if it has no effect that could be observed, borrows its arguments immutably, takes no ownership, has a known callee and (when hoisted or deleted) is known to return. "
     "An operation kind that can leave frame storage, run guest code, fail, or own its result is never classified as one that cannot.",
     ["programs", "operations"],
     "For every operation kind at every place of every optimized function.",
     "A pass that overlooks one kind of write, effect or obligation miscompiles only programs in which that kind meets that pass's pattern, which differential tests rarely hit.",
     ["src/mir/pass", "src/mir/operation.rs", "src/mir/const_eval.rs"],
     [("available calls", "src/mir/pass/cse.rs transfer, forget_write, forget_root, call_expression"),
      ("loops", "src/mir/pass/licm.rs record_writes, eligible_call; src/mir/pass/relations.rs transfer, writes_into"),
      ("folding and forwarding", "src/mir/pass/dataflow.rs transfer, escaping_roots; src/mir/pass/copy_forward.rs note_operation"),
      ("classifications", "src/mir/pass/dce.rs, dead_store.rs, will_return.rs; src/mir/operation.rs; src/mir/const_eval.rs")],
     "per-kind coverage of written operands by must-analysis on MIR (kind fixed, helpers, closures and loops followed), and implication analysis of the classifications and gates",
     "The values the transfer functions compute, and the CFG reasoning of the passes (dominance, loops, joins), are outside the property.")
prop("P90", "The two interpreters agree on every program",
     "For every well-typed program the reference interpreter, the MIR interpreter and every optimisation level compute the same result or fail in the same way.",
     ["programs", "inputs"],
     "For every program and input.",
     "Equivalence of executions over all programs cannot be sampled.",
     ["src/eval.rs", "src/mir/interpreter.rs", "src/mir/pass"],
     [("interpreters and passes", "src/eval.rs, src/mir/interpreter.rs, src/mir/pass/*")],
     na="Semantic equivalence of two interpreters and a pass pipeline quantifies over run-time values and needs differential execution or a mechanised semantics; no static rule in reach bounds it. Structural consequences are claimed separately.")
prop("P91", "Well-typed programs do not go wrong",
     "A program that compiles never reaches an internal panic of the interpreters, whatever its inputs.",
     ["programs", "inputs"],
     "For every program and input.",
     "Type soundness over all programs cannot be sampled.",
     ["src/types", "src/hir", "src/eval.rs"],
     [("type inference and elaboration", "src/types/type_inference, src/hir/elaboration.rs")],
     na="Type soundness of the language relates the inference algorithm to run-time behaviour; the interpreters contain hundreds of expect/panic sites justified by typing invariants that no syntactic or dataflow rule can discharge.")
prop("P92", "The front end and the IDE accept any text without panicking",
     "Any byte sequence given to the compiler or an IDE query yields a result or diagnostics with valid source positions, never a panic or a hang.",
     ["inputs"],
     "For every source text and cursor position.",
     "Input space; fuzzing samples it.",
     ["src/parser", "src/ide", "src/desugar"],
     [("parser and IDE entry points", "src/parser/mod.rs, src/ide/compiler.rs")],
     na="Panic freedom of the whole front end depends on index arithmetic and typing invariants over run-time data across thousands of sites; a sound static bound is out of reach, and this is the natural domain of fuzzing.")
prop("P93", "Values survive serialization round trips",
     "Serializing any serializable value and deserializing the text gives an equal value, and malformed text is rejected.",
     ["inputs"],
     "For every value and every text.",
     "Value space.",
     ["src/std/json.rs", "src/std/serde.rs", "src/std/data_text.rs"],
     [("text formats", "src/std/json.rs, src/std/data_text.rs")],
     na="Round-trip equality is a functional property of run-time strings and numbers; static rules cannot decide it without executing or symbolically evaluating the codecs.")
prop("P94", "Arithmetic and string functions compute the documented results",
     "Each standard-library numeric and string function returns the mathematically documented result for every argument.",
     ["inputs"],
     "For every argument.",
     "Value space.",
     ["src/std/math.rs", "src/std/string.rs"],
     [("native functions", "src/std/math.rs, src/std/string.rs")],
     na="Functional correctness of numeric results is about run-time values; no dataflow rule decides it.")
