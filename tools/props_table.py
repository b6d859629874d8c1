NA = {}
p("S01", "Every symbolic variable has an identity of its own",
  "Variables created by any threads, in any order and also after failed creations, have pairwise different identifiers, none of which is the dummy identifier; different variables never compare equal and are strictly ordered. A variable keeps the name and type it was created with, and its copies are equal to it and hash alike.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of variable creations in up to five threads, mixed with failing allocations and stalled threads.",
  "The tests create a handful of variables in one thread; a lost update in identifier allocation only shows under a preemption inside it.",
  [DR + "symbolic_variable.cc", DR + "symbolic_variable.h", "dreal/symbolic/symbolic.cc"], [("identifier allocation", DR + "symbolic_variable.cc"), ("vector creation", "dreal/symbolic/symbolic.cc")],
  ["variable identifier, name, type, equality and order"], [("next identifier", "process-wide counter", DR + "symbolic_variable.cc")])
p("S02", "Symbolic expressions and formulas behave as immutable values",
  "Whatever sequence of arithmetic, logical, in-place, moving, self-referential, substituting and copying operations is applied, an operation changes only the values it is documented to assign or consume; every other expression and formula keeps its text, hash and value, even if it shares structure with the operands. The result of each operation evaluates, at every sample point, to what the mathematical operation gives, also exactly at the border of a comparison, mentions no foreign variable, expanding a polynomial gives its sum of monomials, and the structural equality, order, hash and printed form of all live values stay mutually consistent.",
  ["histories", "programs"], "All operation histories over pools of shared expressions and formulas (in-place and move variants included), compared with a numeric reference model at three sample points.",
  "Unit tests apply one operation to freshly built operands; stealing the storage of a uniquely owned operand is only wrong for particular sharing patterns and histories.",
  [DR + "symbolic_expression.cc", DR + "symbolic_expression_cell.cc", DR + "symbolic_formula.cc", DR + "symbolic_formula_cell.cc"], [("in-place reuse of uniquely owned nodes", DR + "symbolic_expression.cc"), ("reference counting", DR + "symbolic_expression_cell.h"), ("nary formula construction", DR + "symbolic_formula.cc")],
  ["text, hash, evaluation, variables, equality and order of every live value after every operation"])
p("S03", "Symbolic values can be shared between threads",
  "Threads that copy, read, combine and destroy expressions and formulas which share structure obtain exactly the results they would obtain alone, and no value changes under a reader. There is no unsynchronised conflicting access, no access to freed memory and no leak, in any interleaving.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of up to four threads working on values that share structure, with stalls and failing allocations.",
  "There is no multi-threaded test of symbolic values; a reference-count or cached-value race needs a preemption between two instructions.",
  [DR + "symbolic_expression_cell.h", DR + "symbolic_expression.h", DR + "symbolic_formula_cell.h", DR + "symbolic_formula.h"], [("atomic reference counting", DR + "symbolic_expression_cell.h"), ("function-local constants", DR + "symbolic_expression.cc")],
  ["per-thread results compared with a sequential run", "happens-before race detection", "heap checking"])
p("S04", "Running out of memory in a symbolic operation damages nothing else",
  "If a symbolic operation fails for lack of memory, the failure is reported as an exception, every value that was not its target keeps its text, hash and value, all values can still be used and destroyed, and no memory is leaked.",
  ["fault_sequences", "histories", "schedules"], "Every allocation of every operation history may fail, also several in a row and also while other threads work.",
  "No test injects allocation failures.",
  [DR + "symbolic_expression.cc", DR + "symbolic_expression_cell.cc", DR + "symbolic_formula.cc"], [("construction of nodes before assignment", DR + "symbolic_expression.cc"), ("reference counting", DR + "symbolic_expression_cell.h")],
  ["text and hash of bystanders", "live heap blocks at the end"])
p("S05", "Printing loses neither meaning nor precision",
  "The printed text of every expression and formula, in infix and in SMT-LIB (prefix) form, is well formed and evaluates, at every point, to what the printed value evaluates to; numbers, factors and coefficients read back to exactly the same double. Printing to a caller's stream leaves the stream's own precision as it was however printing ends, also when the stream fails or throws part of the way or memory runs out, and what a failing stream received is a beginning of the full text.",
  ["histories", "inputs", "fault_sequences"], "All expressions and formulas reachable by histories of operations; streams that fail or throw after any number of characters, failing allocations.",
  "Tests compare the text of a few expressions printed to a healthy stream.",
  ["dreal/symbolic/prefix_printer.cc", "dreal/symbolic/prefix_printer.h", "dreal/util/precision_guard.cc", DR + "symbolic_expression_cell.cc", DR + "symbolic_formula_cell.cc"], [("recursive printing", "dreal/symbolic/prefix_printer.cc"), ("saved precision", "dreal/symbolic/prefix_printer.h"), ("infix printing", DR + "symbolic_expression_cell.cc")], ["printed text read back by independent readers", "stream precision"])
p("S07", "Kind, parts and attributes describe a value completely",
  "Every expression and formula is of exactly one kind, the predicates and visitors agree on which, and its parts, read through the public accessors, put together again give an equal value (for sums and products: one of equal value). Its variables, its if-then-else flag, and whether it is a polynomial, differentiable, atomic, a clause or in conjunctive normal form follow from its parts; containers ordered or hashed by value hold each distinct value once. Values of a wrong type (a Boolean variable as a number, a real variable as a formula, the dummy variable) are refused. This holds after any history of operations, in several threads sharing structure, and after operations that ran out of memory.",
  ["histories", "schedules", "fault_sequences"], "All values reachable by operation histories, in up to three threads, with failing allocations.",
  "Tests look at the attributes of a few hand-made values; attributes are cached at construction and reused by in-place operations.",
  [DR + "symbolic_expression.h", DR + "symbolic_expression_cell.cc", DR + "symbolic_formula.h", DR + "symbolic_formula_cell.cc", DR + "symbolic_expression_visitor.h", DR + "symbolic_formula_visitor.h", "dreal/symbolic/symbolic.cc"], [("attributes cached at construction", DR + "symbolic_expression_cell.cc"), ("classification of formulas", "dreal/symbolic/symbolic.cc"), ("dispatch by kind", DR + "symbolic_expression_visitor.h")], ["kind predicates, accessors, visitors, attributes of every value and of its sub-values"])
p("S06", "Sets of variables and environments behave like mathematical sets and maps",
  "After any history of insertions, removals, unions, differences, intersections, copies and moves, also of a set with itself, every set of variables contains exactly the expected elements in order and inclusion, equality, order, hash, intersection tests and printed form agree with that; every environment binds exactly the expected variables to the expected values and refuses dummy variables, NaN and reading unbound variables. No operation changes another set or environment, and one which runs out of memory does not corrupt its target.",
  ["histories", "fault_sequences"], "All histories over four sets and four environments, with failing allocations.",
  "Tests exercise single operations on small distinct sets.",
  [DR + "symbolic_variables.cc", DR + "symbolic_variables.h", DR + "symbolic_environment.cc", "dreal/symbolic/symbolic.cc"], [("ordered set of variables", DR + "symbolic_variables.h"), ("map with checked entries", DR + "symbolic_environment.cc")], ["elements, relations and printed form of all sets, entries of all environments"])
p("D01", "Popping a scope restores exactly what the matching push saw",
  "For the scoped map, set and vector, after any sequence of insertions, updates, pushes, pops, copies, moves, assignments (also to itself) and clears, the contents equal those of a plain container that is snapshotted at each push and restored at the matching pop, in every view (iteration, lookup, reverse iteration, first and last element, printing), and vectors compare lexicographically. Popping without a matching push is rejected and changes nothing.",
  ["histories"], "All operation histories, with colliding keys and values inserted repeatedly within and across scopes.",
  "Tests cover a few fixed sequences; restoring the wrong previous value needs repeated updates of a key within nested scopes.",
  ["dreal/util/scoped_unordered_map.h", "dreal/util/scoped_unordered_set.h", "dreal/util/scoped_vector.h"], [("undo log", "dreal/util/scoped_unordered_map.h"), ("undo log", "dreal/util/scoped_unordered_set.h"), ("recorded sizes", "dreal/util/scoped_vector.h")],
  ["size, iteration, lookup and reverse views after every operation"])
p("D02", "Scoped containers survive running out of memory",
  "If an operation on a scoped container fails for lack of memory, the container equals either its state before the operation or after it, all enclosing scopes can still be popped back to exactly what they were, and nothing is leaked.",
  ["fault_sequences", "histories"], "Every allocation in every operation history may fail.",
  "No test injects allocation failures.",
  ["dreal/util/scoped_unordered_map.h", "dreal/util/scoped_unordered_set.h", "dreal/util/scoped_vector.h"], [("order of logging and updating", "dreal/util/scoped_unordered_map.h")], ["contents after failures and later pops", "live heap blocks"])
p("T01", "The thread pool runs every submitted task exactly once",
  "Every task accepted by a pool runs exactly once, whatever other clients submit at the same time, also from inside tasks; its future becomes ready only after it finished and delivers precisely its own value or exception.",
  ["schedules", "histories"], "All interleavings of up to four clients and five workers, spurious wake-ups and stalled threads included.",
  "The repository's tests submit a few tasks in one schedule chosen by the operating system.",
  [TP + "ThreadPool.h", TP + "ThreadPool.cc"], [("task queue under a mutex", TP + "ThreadPool.h"), ("packaged tasks", TP + "ThreadPool.h")], ["executions per task", "future outcome"])
p("T02", "Destroying a thread pool drains it and always terminates",
  "Destroying a pool first completes every task that was accepted, then ends all its worker threads and returns; waiting clients are always released and idle workers always wake up for queued work. This holds for every interleaving, every spurious wake-up and every stall, within a bounded number of steps once stalls end.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of submission, execution and destruction, over several generations of pools.",
  "A lost wake-up or a skipped task needs a particular interleaving of notify and wait that the tests do not produce.",
  [TP + "ThreadPool.cc", TP + "ThreadPool.h"], [("stop flag and condition variable", TP + "ThreadPool.cc"), ("worker loop", TP + "ThreadPool.cc")], ["live threads, finished tasks and ready futures after destruction", "deadlock and step bounds"])
p("T03", "Threads that work with a pool have distinct, bounded and stable numbers",
  "The worker number seen inside a task never changes for that worker, differs between the workers of one pool and the thread that uses the pool, and lies between zero and the number of workers. This holds for every pool of a program, however many pools were created before or are alive at the same time.",
  ["schedules", "histories"], "All interleavings of worker start-up, with several pools, generations and user threads.",
  "Tests build one pool; per-thread arrays indexed by the number overflow only with several pools or with particular start orders.",
  [TP + "ThreadPool.cc", TP + "ThreadPool.h", "dreal/solver/icp_parallel.cc", "dreal/contractor/contractor_ibex_fwdbwd_mt.cc"], [("per-thread number", TP + "ThreadPool.cc")], ["the number reported inside every task and by the using thread"])
p("T04", "A thread pool contains failures of the system",
  "If starting a worker thread or allocating memory fails while a pool is constructed, the caller gets an exception and no thread is left behind; if submitting a task fails, the pool stays usable and the task runs at most once. The process never aborts or hangs because of such a failure.",
  ["fault_sequences", "schedules"], "Any thread creation and any allocation of construction and submission may fail, in any interleaving.",
  "Tests never make thread creation or allocation fail.",
  [TP + "ThreadPool.cc", TP + "ThreadPool.h"], [("construction and clean-up of workers", TP + "ThreadPool.cc")], ["exception, live threads, executions per task"])
p("G01", "Interrupt handlers installed for a section are restored afterwards",
  "While a guarded section runs, the requested handler is the one that receives the signal and interrupted system calls are restarted; whichever way the section ends (normally, by an exception, nested in other sections), the previous handler, its flags and its mask are back and the interrupt flag is clear. If the handler cannot be installed, that is reported and nothing changes.",
  ["histories", "crash_points", "fault_sequences"], "All nestings of sections over several signals, with signals delivered at arbitrary steps and failing installations.",
  "The unit test raises one signal at one place.",
  ["dreal/util/signal_handler_guard.cc", "dreal/util/signal_handler_guard.h", "dreal/util/interrupt.cc"], [("saved action", "dreal/util/signal_handler_guard.cc")], ["the simulated signal table, the interrupt flag"])
p("G02", "Stream precision and rounding mode are restored on every exit",
  "Inside a guarded section the requested output precision or floating-point rounding mode is active (by default enough digits to read every double back), and on every exit, also by exceptions and from nested sections and in each thread separately, the previous one is active again.",
  ["histories", "schedules", "fault_sequences"], "All nestings and exits, several streams and threads.",
  "Tests use one nesting level and normal exits.",
  ["dreal/util/precision_guard.cc", "dreal/util/precision_guard.h", "dreal/util/rounding_mode_guard.h"], [("saved state", "dreal/util/precision_guard.cc"), ("saved mode", "dreal/util/rounding_mode_guard.h")], ["stream precision, fegetround"])
p("K01", "Timers and profiles measure elapsed time, whatever happens to the clocks",
  "A timer reports exactly the simulated time during which it was running, over any sequence of start, pause, resume, copying and nested or exceptional guarded sections; a disabled guard has no effect. Neither timers nor profiled sections are affected when the wall clock is set back, and long suspensions count once.",
  ["histories", "fault_sequences"], "All operation histories with clock jumps (suspensions and wall-clock adjustments) at arbitrary clock reads.",
  "Tests sleep for a moment and compare loosely; they cannot set the clock.",
  ["dreal/util/timer.cc", "dreal/util/timer.h", "dreal/util/profiler.cc"], [("steady clock", "dreal/util/timer.h"), ("accumulated fragments", "dreal/util/timer.cc")], ["elapsed(), seconds(), is_running(), the profile line"])
p("N01", "Statistics counters lose no event",
  "When several threads count events in shared enabled statistics, every event is counted exactly once and the printed report shows these totals with the right worker label; disabled statistics count and print nothing.",
  ["schedules", "histories"], "All interleavings of up to four counting threads.",
  "No test counts from two threads.",
  ["dreal/util/stat.h", "dreal/solver/icp_stat.h", "dreal/solver/icp_stat.cc"], [("atomic counters", "dreal/util/stat.h")], ["counter values and the printed report"])
p("O01", "Settings from code beat the command line, which beats the input file",
  "After any sequence of assignments to an option from the input file, the command line and code, also through copies and with failing allocations, the option has the value of the last assignment that was allowed to take effect, where a weaker source never overrides a stronger one. A failed assignment changes neither the value nor what may override it.",
  ["histories", "configurations", "fault_sequences"], "All sequences of assignments from all sources, with failing allocations.",
  "Tests cover a few two-step sequences without failures.",
  ["dreal/util/option_value.h", "dreal/solver/config.h"], [("recorded source", "dreal/util/option_value.h")], ["the option's value and what later settings override"])
p("U01", "Numbers and file names are converted exactly or refused",
  "A 64-bit integer is converted to int or double only if the result is exactly the same number, and is refused otherwise; a double is reported to be an int exactly if it is one. This holds at all borders of the types, for infinities and NaN, in every rounding mode (which is left alone). The extension of a file name is what follows its last dot, empty if there is none; a file is reported to exist exactly if it is a regular file that can be examined.",
  ["inputs", "fault_sequences", "histories"], "All numbers, concentrated at the borders of the types; all rounding modes; histories of a simulated file system whose calls may fail; failing allocations.",
  "Tests use a few round numbers in the default rounding mode and real files.",
  ["dreal/util/math.cc", "dreal/util/filesystem.cc"], [("range checks", "dreal/util/math.cc"), ("file test", "dreal/util/filesystem.cc")], ["converted values, exceptions, rounding mode"])
p("L01", "All threads share one logger which is silent by default",
  "Whichever threads use logging first, in any interleaving and also if the first use fails for lack of memory, all get the same logger and nothing is logged unless logging was turned on.",
  ["schedules", "fault_sequences"], "All interleavings of first uses by up to five threads with failing allocations.",
  "Tests use the logger from one thread after it was created.",
  ["dreal/util/logging.cc", "dreal/util/logging.h"], [("one-time creation", "dreal/util/logging.cc")], ["logger identity and level"])
p("B01", "Predicate abstraction keeps a one-to-one dictionary over its whole history",
  "Over any history of formulas, also with failed conversions in between, the abstraction of a formula contains no predicate, each Boolean variable it introduced always stands for one predicate and each predicate for one variable, lookups in both directions agree, converting a formula again gives the same result, and replacing the variables by their predicates gives back the meaning of the formula. Independent abstractors used by different threads never share or mix up variables.",
  ["histories", "schedules", "fault_sequences"], "All histories of formulas, up to four threads with their own abstractors, failing allocations.",
  "Tests abstract one or two formulas.",
  ["dreal/util/predicate_abstractor.cc", "dreal/util/predicate_abstractor.h"], [("two-way dictionary", "dreal/util/predicate_abstractor.h")], ["converted formulas, lookups, truth values"])
p("B02", "Conversion to clauses preserves satisfiability with fresh variables",
  "For every formula of a history the produced clauses are proper clauses over the formula's variables and newly introduced ones, and an assignment of the formula's variables satisfies the formula exactly if it can be extended to satisfy all clauses. The introduced variables are different from all others ever introduced, also by other threads, and threads do not disturb each other.",
  ["histories", "schedules", "inputs", "fault_sequences"], "All histories of formulas converted by up to four threads, checked by truth table; failing allocations.",
  "Tests convert a few formulas in one thread.",
  ["dreal/util/tseitin_cnfizer.cc", "dreal/util/naive_cnfizer.cc", "dreal/util/nnfizer.cc"], [("definition of auxiliary variables", "dreal/util/tseitin_cnfizer.cc")], ["clauses and auxiliary variables"])
p("B03", "Eliminating if-then-else preserves meaning with fresh variables",
  "The result of eliminating if-then-else from a formula contains none, and at every point it can be satisfied by suitable values of the newly introduced variables exactly if the formula holds there. The introduced variables are reported and are different from all others ever introduced, also by other threads, and threads do not disturb each other.",
  ["histories", "schedules", "inputs", "fault_sequences"], "All histories of formulas with nested if-then-else processed by up to four threads; failing allocations.",
  "Tests process a few formulas in one thread.",
  ["dreal/util/if_then_else_eliminator.cc", "dreal/util/if_then_else_eliminator.h"], [("definition of introduced variables", "dreal/util/if_then_else_eliminator.cc")], ["result formula and reported variables"])
p("B04", "Perturbing a formula by delta only ever strengthens or weakens it as asked",
  "Strengthening a formula by delta gives a formula that implies the original one, weakening gives one that is implied by it, and at every point the result holds exactly if the original holds with each of its comparisons moved by delta in the respective direction (polarity and strictness included). No foreign variable appears. An expression is reported as differentiable exactly if it can be differentiated.",
  ["histories", "inputs", "fault_sequences"], "All formulas reachable by histories of operations and several deltas, evaluated at sample points; failing allocations.",
  "Tests perturb a handful of formulas.",
  ["dreal/symbolic/symbolic.cc", "dreal/symbolic/symbolic.h"], [("perturbation of comparisons", "dreal/symbolic/symbolic.cc")], ["truth of the perturbed formula at sample points"])
p("C01", "SMT-LIB terms and commands keep their kind and contents",
  "A term holds exactly the expression or formula it was last given, reports its kind accordingly, refuses to be read as the other kind or checked against a sort of the other kind, and substitution in it means substitution in its contents; commands print what they were made from. This holds over any history of copies, moves and assignments, when handles are copied and dropped by several threads at once, and when memory runs out.",
  ["histories", "schedules", "fault_sequences"], "All histories of terms and commands in up to four threads that exchange commands, with stalls and failing allocations.",
  "There are no tests of terms and commands under copying, threads or failures.",
  ["dreal/smt2/term.cc", "dreal/smt2/term.h", "dreal/smt2/command.cc", "dreal/smt2/command.h", "dreal/smt2/command_cell.cc", "dreal/smt2/logic.cc", "dreal/smt2/sort.cc"], [("kind of a term", "dreal/smt2/term.cc"), ("shared command cells", "dreal/smt2/command.h")], ["kind, contents and printed form of terms and commands"])

SOLVER_FILES = ["dreal/solver/context_impl.cc", "dreal/solver/sat_solver.cc", "dreal/solver/theory_solver.cc", "dreal/solver/icp_seq.cc"]
SOLVER_MECH = [("CDCL(T) loop", "dreal/solver/context_impl.cc"), ("literal maps and learned clauses", "dreal/solver/sat_solver.cc"), ("contractor and evaluator caches", "dreal/solver/theory_solver.cc")]
p("R01", "An unsat answer is never wrong",
  "For every history of declaring variables, asserting, narrowing domains, changing options, pushing, popping, checking and being interrupted in a context: if a check answers unsat, no assignment of the declared variables within their domains satisfies all assertions currently in scope. Learned clauses, cached contractors and pruned domains from earlier checks or popped scopes never leak into it.",
  ["histories", "programs", "fault_sequences"], "All histories of context operations over formulas with linear and non-linear arithmetic, integers, Booleans and if-then-else, in every search configuration, interrupted at arbitrary points.",
  "Tests run single problems with known answers; what earlier checks, scopes and interrupts leave behind depends on the history.",
  SOLVER_FILES + ["dreal/contractor/contractor_integer.cc", "dreal/contractor/contractor_worklist_fixpoint.cc", "dreal/util/box.cc"], SOLVER_MECH + [("pruning", "dreal/contractor")], ["result of Context::CheckSat, compared with an independent evaluation of the assertions at a witness and at sampled points"])
p("R02", "A delta-sat answer comes with a model that is one",
  "For every such history: if a check answers delta-sat, the returned box assigns exactly the model variables in scope, within their domains, no wider than the precision, with integral values for integer and Boolean variables; it satisfies the delta-weakening of every assertion in scope; and the model stored in the context is the returned one.",
  ["histories", "programs", "fault_sequences"], "The same histories as R01.",
  "Tests look at the models of single problems; scopes, model variables and cached state depend on the history.",
  SOLVER_FILES + ["dreal/solver/filter_assertion.cc", "dreal/solver/formula_evaluator.cc", "dreal/util/box.cc"], SOLVER_MECH + [("branching", "dreal/solver/icp_seq.cc")], ["box returned by Context::CheckSat and Context::get_model, compared with an independent interval evaluation"])
p("R03", "An interrupt ends a check soon and leaves the context usable",
  "If an interrupt arrives at any point of a guarded check, sequential or parallel, the check ends within a bounded number of steps, by its answer or by the interrupt exception, with all worker threads idle; after the guarded section the interrupt flag is clear; no check reports an interrupt that did not happen; and the context can be used on, with right answers.",
  ["schedules", "fault_sequences", "histories"], "Interrupts at every simulated step of a check, several per history, sequential and parallel search, all schedules.",
  "No test interrupts the solver.",
  ["dreal/solver/context_impl.cc", "dreal/solver/icp_seq.cc", "dreal/solver/icp_parallel.cc", "dreal/contractor/contractor_fixpoint.cc", "dreal/contractor/contractor_worklist_fixpoint.cc", "dreal/util/signal_handler_guard.cc"], [("interrupt checks", "DREAL_CHECK_INTERRUPT"), ("flag restored", "dreal/util/signal_handler_guard.cc")], ["steps between signal and return", "later answers of the same context"], [("g_interrupted", "interrupt flag", "dreal/util/interrupt.cc")])
p("R04", "A failure inside the solver is reported and corrupts nothing",
  "If memory runs out or a thread cannot be started anywhere inside a context operation, the operation reports it by an exception, the process does not crash or hang, and no later check gives a wrong answer: an operation that failed can be repeated with success, a push that failed has opened no scope, and an assertion that failed is either in force or not. An option value that is refused changes nothing.",
  ["fault_sequences", "histories", "schedules"], "Every allocation and thread start of every history of context operations may fail, also several of them, in sequential and in parallel search.",
  "No test injects failures.",
  ["dreal/solver/sat_solver.cc", "dreal/solver/theory_solver.cc", "dreal/solver/icp_parallel.cc", "dreal/solver/context_impl.cc"], [("literal maps", "dreal/solver/sat_solver.cc"), ("barrier of the parallel search", "dreal/solver/icp_parallel.cc")], ["exceptions", "answers after the failure"])
p("R05", "The parallel search answers like the sequential one and ends",
  "With several jobs, in every interleaving of the workers: a check ends, its unsat answers are never wrong, its delta-sat answers come with models that are ones, no box is lost or explored after the end, all workers have ended when the check returns, threads use lock-free containers only while attached, and there is no data race.",
  ["schedules", "histories"], "All schedules of two to four workers, with stalls and spurious wake-ups, over all histories of context operations.",
  "Tests run few problems under few schedules; termination detection and the sharing of boxes fail only in particular interleavings.",
  ["dreal/solver/icp_parallel.cc", "dreal/contractor/contractor_ibex_fwdbwd_mt.cc", "dreal/contractor/contractor_ibex_polytope_mt.cc", "dreal/solver/forall_formula_evaluator.cc", "dreal/util/cds.h"], [("number of boxes in flight", "dreal/solver/icp_parallel.cc"), ("per-thread contractors", "dreal/contractor/contractor_ibex_fwdbwd_mt.cc")], ["result of Context::CheckSat", "happens-before race detection", "live threads"])
p("R06", "Independent contexts in different threads do not disturb each other",
  "Contexts used by one thread each, at the same time as others in other threads, give right answers as if they were alone, in every interleaving; there is no data race between them.",
  ["schedules", "histories"], "All schedules of two or three threads, each with its own history of context operations.",
  "No test uses contexts in several threads; shared counters, statistics and caches only fail in particular interleavings.",
  ["dreal/solver/context_impl.cc", "dreal/solver/sat_solver.cc", "dreal/solver/theory_solver.cc", "dreal/solver/icp_stat.cc"], [("function-local and global state", "dreal/solver/sat_solver.cc"), ("identifier and auxiliary variable counters", DR + "symbolic_variable.cc")], ["result of Context::CheckSat per thread", "happens-before race detection"])

p("R07", "A minimum is one",
  "Asked to minimise or maximise one or several objectives under constraints whose solutions form a compact set, over any history of scopes, checks and interrupts, sequentially or in parallel, through a context or through the functions of the interface: the answer is never unsat, the returned box satisfies the constraints weakened by the precision, and no point well inside the constraints has an objective that is better by more than a small multiple of the precision (for several objectives, none that is better in all of them). A function of the interface that reports no solution says so when a variable is required to lie far from its domain, and then leaves the caller's box as it was.",
  ["histories", "programs", "schedules", "fault_sequences"], "All histories of declarations, assertions, scopes, objectives and checks over linear and simple non-linear terms with real and integer variables, in every configuration (polytope, local optimisation, several jobs).",
  "Tests minimise single functions; assertions applied to domains, scopes, integer variables and options interact with the encoding of the objective only in histories.",
  ["dreal/solver/context_impl.cc", "dreal/api/api.cc", "dreal/contractor/contractor_forall.h", "dreal/contractor/counterexample_refiner.cc", "dreal/solver/forall_formula_evaluator.cc"], [("encoding of objectives", "dreal/solver/context_impl.cc"), ("counterexample-guided pruning", "dreal/contractor/contractor_forall.h"), ("local optimisation", "dreal/contractor/counterexample_refiner.cc")], ["boxes returned by Context::CheckSat, Minimize and CheckSatisfiability, compared with sampled feasible points"])
p("R08", "Boxes behave as values, and a bound narrows a box exactly",
  "A box keeps its variables, their order and their intervals until it is changed itself, whatever is done to boxes it was copied from or to, also in other threads. Adding, bisecting (also at integers), joining, comparing, printing and finding the widest component do what they say on the components they concern and nothing to others; after a failed operation every other box is as before. A bound on one variable which is applied to a box removes no solution of the bound, and if it is reported as absorbed, every point that is left satisfies it.",
  ["histories", "schedules", "fault_sequences"], "All histories of operations on up to four boxes per thread that share their variable tables, in up to three threads, with failing allocations.",
  "Tests use single boxes in one thread; the tables shared between copies only matter in histories and schedules.",
  ["dreal/util/box.cc", "dreal/util/box.h", "dreal/util/interval.cc", "dreal/solver/filter_assertion.cc"], [("tables shared between copies", "dreal/util/box.cc"), ("bounds applied to a box", "dreal/solver/filter_assertion.cc")], ["every component of every box after each operation", "happens-before race detection"])

READER_FILES = ["dreal/smt2/parser.yy", "dreal/smt2/scanner.ll", "dreal/smt2/driver.cc"]
p("P01", "A script is answered as SMT-LIB says, however it arrives",
  "Reading any SMT-LIB script of the supported fragment (declarations with and without domains, defined constants and functions, let, nested scopes, options, comments, quoted symbols, every notation of numerals) from a string, a stream or a file prints one answer per command in order: an unsat answer is never wrong, a delta-sat answer comes with a model of the assertions in scope, get-model and get-value agree with that model, and names mean what the innermost declaration in scope says. Reading in pieces, short reads and retried reads change nothing; a script that is cut or cannot be read on is answered up to that point and reported as such; running out of memory is reported.",
  ["inputs", "histories", "fault_sequences"], "All scripts produced by a generator of command histories with independently tracked meaning, delivered in arbitrary pieces, cut, or failing anywhere.",
  "Tests run fixed files; scopes, redeclarations, definitions, lets and options interact in ways only histories show, and no test breaks the input.",
  READER_FILES + ["dreal/smt2/scanner.h", "dreal/smt2/driver.h", "dreal/util/string_to_interval.cc", "dreal/solver/context_impl.cc"], [("grammar actions", "dreal/smt2/parser.yy"), ("scopes of names", "dreal/smt2/driver.cc"), ("numerals and symbols", "dreal/smt2/scanner.ll")], ["everything printed on the standard output, and the result of parse_string, parse_stream and parse_file"])
p("P02", "Readers in different threads do not disturb each other",
  "Scripts read by several drivers at the same time in different threads are each answered as if they were alone, in every interleaving, and there is no data race between the readers.",
  ["schedules", "inputs", "histories"], "All schedules of two or three readers, each with a script of its own, delivered in pieces.",
  "No test reads scripts in several threads.",
  READER_FILES + ["dreal/smt2/scanner.h", "dreal/solver/context_impl.cc"], [("state of the scanner", "dreal/smt2/scanner.ll"), ("state of the driver", "dreal/smt2/driver.h")], ["what every thread prints", "happens-before race detection"])
p("P04", "A script in dr format is answered as its operators say, however it arrives",
  "Reading any script in dr format (variables with constant ranges or values, constraints, objectives, comments, every notation of numbers, operators with their precedence and associativity) from a string, a stream or a file prints one answer: unsat only if no values satisfy the constraints, otherwise the precision and, if models are asked for, a model within the declared ranges that satisfies every constraint weakened by the precision and that no point well inside of the constraints beats in all objectives, with objective values that agree with the model. Reading in pieces, short reads and retried reads change nothing; a script that is cut in the middle, has an error anywhere or cannot be read to its end is rejected without an answer; several readers in different threads do not disturb each other.",
  ["inputs", "schedules", "fault_sequences"], "All scripts produced by a generator with independently tracked meaning, delivered in arbitrary pieces, cut, or failing anywhere; two or three readers in all schedules.",
  "Tests solve a few fixed files; precedence and associativity only show in combinations, and no test breaks the input or reads in several threads.",
  ["dreal/dr/parser.yy", "dreal/dr/scanner.ll", "dreal/dr/driver.cc", "dreal/solver/context_impl.cc"], [("grammar actions and precedence", "dreal/dr/parser.yy"), ("numbers and names", "dreal/dr/scanner.ll"), ("solving and printing", "dreal/dr/driver.cc")], ["everything printed on the standard output, and the result of parse_string, parse_stream and parse_file"])
p("P03", "Universally quantified assertions are decided soundly over every history",
  "With assertions that are quantified universally over boxes, mixed with others in scopes that are pushed and popped, with precisions that change between checks, in sequential and parallel search, and with checks interrupted anywhere: unsat is never answered if an assignment makes all assertions true, and a delta-sat model satisfies every assertion weakened by the precision in force.",
  ["histories", "programs", "schedules", "fault_sequences"], "All histories of commands with quantified assertions whose bodies are combinations of comparisons linear in each quantified variable (so that the corners of the box decide them), in every configuration.",
  "Tests solve single quantified problems; counterexamples, contractors and evaluators kept from earlier checks only matter in histories.",
  ["dreal/contractor/contractor_forall.h", "dreal/solver/forall_formula_evaluator.cc", "dreal/contractor/generic_contractor_generator.cc", "dreal/contractor/counterexample_refiner.cc", "dreal/solver/theory_solver.cc", "dreal/solver/sat_solver.cc"], [("counterexample-guided pruning", "dreal/contractor/contractor_forall.h"), ("cached contractors and evaluators", "dreal/solver/theory_solver.cc")], ["answers and models, compared with an independent evaluation"])
