"""Registry: harness binaries (BINS) and the check of each property (CHECKS)."""
BINS = {}
CHECKS = {}


def bin(name, *src, **kw):
    BINS[name] = dict(src=list(src) or [name + ".cpp"], lib=True, **kw)


def prop(pid, level, rule, parts, technique, note, assumptions=()):
    CHECKS[pid] = dict(level=level, rule=rule, parts=parts, technique=technique, note=note, assumptions=list(assumptions))


def part(bin, *args, **kw):
    return dict(bin=bin, args=list(args), **kw)


EXH = "bounded exhaustive enumeration of AD programs executed on the real implementation"
SEQ = "exhaustive enumeration of operation sequences on the real implementation against an executable model"
PROGS = ("programs: d1 = every single operation over every operand kind combination of {2 variables, 2 dynamic parameters, constants 0,1,2,-1.5}; "
         "d2, d3 = all compositions of two and three operations over the alphabets in families.hpp; vec2..vec4 = all VecAD load/store sequences; "
         "a case is nontrivial when at least one value with a defined reference was compared; outcomes are hashes of the results. ")
FP = "Floating point comparison with relative tolerance; points where the reference is not finite, or that the documentation leaves open (derivatives of pow at a zero base, atan2 at the origin), are not compared."
TRUST = "Trusts the reference in /verif/harness, the compiler, and that a defect shows on a program within the enumerated depth at one of the fixed points. "

bin("deriv")
for pid, mode, what, ref in (
        ("C01", "zero", "Forward(0,x) at 4 argument/dynamic parameter points and the value of each AD object while recording", "direct evaluation of the same program in double"),
        ("C02", "forward", "Taylor coefficients of orders 0..4, one order per call, several at once, and mixed", "a truncated power series model written from the definitions (tayref.hpp)"),
        ("C03", "dir", "Forward(q,r,x) for orders 1..4 and r = 3 then 1", "the power series model for each direction"),
        ("C04", "reverse", "Reverse(q,w) for q = 1..5, both weight layouts, all dependents together and each alone", "the power series model with dual number coefficients")):
    prop(pid, "exploration", PROGS + "Compared: " + what + ".", [part("deriv", mode, up=True)], EXH + ", compared with " + ref,
         "Every program of the families is recorded by the real library and compared with " + ref + ". " + TRUST + FP)
bin("optimize")
prop("C06", "exploration", PROGS + "Plus all programs of three operations with shared sub-expressions, all sums of up to 4 signed terms in 3 contexts, and nests of conditional expressions; each under up to 12 option strings including repeated optimize and the value graph optimizer.",
     [part("optimize")], EXH + ", each option string, compared with the function before optimize",
     "The optimized function is compared with the same recording not optimized: values and orders 1, 2 forward, orders 1 and 3 reverse at 4 points, dynamic parameter values, settings, Parameter(i). " + TRUST + FP)
bin("trans")
prop("C07", "exploration", PROGS + "Plus dyn2, dyn3 = compositions of two and three operations on parameters only. Each function visits 5 dynamic parameter values in an order that changes every value and returns to an earlier one.",
     [part("trans", "dynamic")], EXH + ": after new_dynamic, compared with a fresh recording that has these values",
     "Reference: a fresh recording with the same values as constants, and one with them as dynamic parameters (values, orders 1, 2, reverse 1, 3, Jacobian and Hessian sparsity). " + TRUST + FP)
prop("C11", "exploration", PROGS + "Every program is the inner function of chkpoint_two (all 8 constructor option combinations and 8 patterns of variable / dynamic / constant / repeated arguments, rotating in the quick tier) and of checkpoint (3 sparsity options), with different inner dynamic parameter values at each point, before and after optimize.",
     [part("trans", "chk")], EXH + ", checkpointed call compared with the same algorithm recorded inline",
     "Compared: values, orders 1, 2, reverse 1, 3 and that Jacobian and Hessian sparsity patterns contain every entry that is numerically nonzero. Results that are constant in the calling recording keep their recorded value and are only compared for the recorded inner dynamic values. " + TRUST + FP)
prop("C12", "exploration", PROGS + "For each program, x -> (f, f'(x) dx, w f'(x)) is recorded with base2ad and with AD< AD<double> >, then evaluated and differentiated in both modes.",
     [part("trans", "base2ad", up=True)], EXH + ", second level derivatives compared with direct first and second derivatives",
     "Reference: Jacobian and Hessian of the same recording computed at one level. Points where an operation has an infinite derivative are not compared, and VecAD programs only at the recording point because the second level fixes the index. " + TRUST + FP)
prop("C13", "exploration", PROGS + "Each function goes through from_graph(to_graph), from_json(to_json), optimize then JSON, and a second JSON trip; depth 1 and atomic call programs also with all 15 exchanges of dynamic parameters and variables. Plus special constants, every byte in names and texts, and all sequences of up to 3 (thorough 4) operations that use the tables of a graph (atomics, discrete, print, comparisons).",
     [part("trans", "json"), part("json_dbg", "round")], EXH + ", converted function compared with the original",
     "Compared: function name, sizes, Parameter(i), values to 4e-15, orders 1, 2, reverse 1, 3 at 4 points and dynamic parameter values. VecAD and atomic_two are documented as missing in graphs; programs whose recorded constants are not finite cannot be written as JSON and are skipped. " + TRUST + FP)
bin("spars")
prop("C16", "exploration", PROGS + "Plus a variant of the depth 1 and 2 programs whose independents and dependents sit at the 64 and 128 word boundaries of the bit representation. For each: seed patterns n by l and l by m with l = 1..3, and 65, 128; all domain and range selections for subgraphs; all combinations of transpose, dependency, internal_bool; old and new interface; one third after optimize.",
     [part("spars", "jac")], EXH + ", patterns compared with the derivatives that are not zero and with the structural closure",
     "Required: contains every entry with a nonzero derivative at some point (dependency: also values that change with one argument), nothing outside the structural closure of the operations, and equality between representations. " + TRUST)
prop("C17", "exploration", PROGS + "Plus wide variants as for C16. For each: selections of domain and range components, n by 2 right factors, transpose, internal_bool, old and new interface.",
     [part("spars", "hes")], EXH + ", patterns compared with second derivatives that are not zero and with the structural closure",
     "Required: contains every entry with a nonzero second derivative at some point, nothing outside the pairs of arguments that the selected components are connected to, and equality between representations. " + TRUST)
bin("csrc")
prop("C15", "exploration", PROGS + "d1 in double, long double and float; two operation programs, sums of up to 3 terms, conditional nests and atomic calls in double (d2, d3 in the thorough tier); all pairs of comparisons; callbacks that return every kind of flag; 23 special constants; sums of 1 to 12 terms that come from a graph. Half of the functions are optimized first.",
     [part("csrc", "")], EXH + ", the compiled C source called at 4 points and compared with zero order forward mode",
     "The source is compiled with gcc -O0 by create_dll_lib and opened with link_dll_lib; flags, sizes and compare_change are checked on each call. " + TRUST + FP)
bin("drivers")
bin("drivers_colpack", "drivers.cpp", conf={"cppad_has_colpack": "1"}, link=["-lColPack", "-lgomp"])
prop("C05", "exploration", "shapes: all n, m in 1..5 with 32 polynomial systems each, derivatives known in closed form; optval: BenderQuad and opt_val_hes on all n, m in 1..4, 1..3 terms, 8 coefficient patterns; d1, d2, nests: programs as for C02, drivers compared with order one and two forward and reverse. Lists of component pairs contain all pairs in several orders with repeats.",
     [part("drivers", "drv", up=True)], EXH + ", every driver on every component, compared with closed forms and with forward and reverse mode", TRUST + FP)
prop("C18", "exploration", "All true Jacobian patterns of shapes up to 3 x 3, 2 x 4, 1 x 5 and their transposes; for each all containing patterns (up to 6 places) or the true and the full one; for each all subsets of entries in 4 orders; all true patterns of 4 x 4 and 3 x 5 with 3 subsets; group_max 1, 2, n; saved work with a second point; old and new interface; plus program families with the library's own sparsity. All of it again with the ColPack coloring.",
     [part("drivers", "jac"), part("drivers_colpack", "jac", name="colpack")], "exhaustive enumeration of sparsity patterns, subsets and options on the real implementation, compared with closed form derivatives", TRUST)
prop("C19", "exploration", "All symmetric true patterns up to n = 3 with all containing patterns and all subsets of entries; all 1023 for n = 4 and 32767 for n = 5 with full, lower, upper and other subsets; both colorings; saved work with other x and w; patterns without the rows that do not matter; old and new interface; plus program families with the library's own sparsity. All of it again with both ColPack colorings.",
     [part("drivers", "hes"), part("drivers_colpack", "hes", name="colpack")], "exhaustive enumeration of sparsity patterns, subsets and colorings on the real implementation, compared with closed form second derivatives", TRUST)
prop("C20", "exploration", PROGS + "For each: all domain selections, dependents in orders that rotate through all permutations, orders q = 1..3, with reverse, forward, sparsity, capacity and copy operations in between.",
     [part("drivers", "sub")], EXH + ", subgraph partials compared with reverse mode of the same recording", TRUST + FP)
bin("state")
prop("C08", "exploration", "d1, d2, d3, nests, VecAD sequences and atomic calls with every node a dependent, recorded at two points at one and two levels; vobj = all sequences of up to 3 operations on a VecAD object. A node must be a variable (not a constant) when its value changes with x (with p) over all pairs of points, and must not be more than its operands are; after Dependent or abort_recording everything is a constant of its value, also in the next recording.",
     [part("state", "class")], EXH + ", classification of every node compared with how its value changes", "Copies, Var2Par, f.Parameter(i), Parameter(i) after optimize and a graph round trip are compared as well. " + TRUST)
prop("C09", "exploration", "one = 6 relations on all pairs of {variable, product of variables, dynamic, sum of dynamics, constant, Base, int} recorded at 27 points and evaluated at 27 points with counts 0..2; extreme = infinite, huge, tiny and signed zero operands; two = all pairs of comparisons; three = all triples over two variables. Also copies, optimize, no_compare_op, record_compare false and JSON.",
     [part("state", "cmp")], "exhaustive enumeration of comparison sequences, recording points, evaluation points and counts on the real implementation, compared with direct evaluation", "op_index is also checked by recording again with abort_op_index, which must stop at exactly that comparison. After optimize, comparisons that are the same operator with the same operands are merged, so the number is only bounded there. " + TRUST)
prop("C36", "exploration", "All sequences of up to 3 (4) loads and stores on two vectors with constant, dynamic, variable and computed indices and all kinds of values; recorded at 2 and evaluated at 4 points whose indices alias and differ; also optimized once and twice.",
     [part("state", "vec", up=True)], SEQ, "Reference: arrays of values with exact first and second derivatives. Compared: values, forward order 1, reverse order 2, and that Jacobian, Hessian, dependency and subgraph patterns contain every nonzero derivative at any point. " + TRUST)
prop("C37", "exploration", "All conditional nests of depth 1 and 2 of the program families visited in every ordered pair of 6 points; count = nests whose branches call a discrete function whose calls are counted. ",
     [part("state", "skip")], EXH + ", visited in all ordered pairs of points, compared with the function before optimize", "number_skip must be zero where nothing may be skipped, equal at equal points, and equal the operations that were really left out where these can be counted. Patterns must not change after a skip. " + TRUST + FP)

bin("json", flags=["-DNDEBUG", "-fsanitize=address"], san=True)
bin("json_dbg", "json.cpp")
prop("C14", "exploration",
     "texts: for five valid graphs that together use every operator of the format: every truncation, every deletion, insertion (31 characters) and replacement of one character at every position, every adjacent swap, every deletion, doubling, swap, insertion "
     "and replacement (63 tokens) of one token, every separator (space, tab, newline, return, mixtures) before, between and inside tokens, two integers replaced at once, two tokens deleted, and list/length pairs; "
     "a case is nontrivial when from_json was run and its verdict compared; outcomes are hashes of the error text. ",
     [part("json"), part("json_dbg")],
     "bounded exhaustive enumeration of texts near valid graphs, executed on the real from_json, against an independent reader and evaluator of the documented format",
     "The reference says invalid: an error must be reported; valid: sizes, values at two points, printed text and comparison changes must be what the text says. Run without assertions under the address sanitizer (crashes and out of range access are violations); and again with assertions on (an internal assertion is not a reported error). "
     "Not decided: text after the final brace, constants outside double range, more than 100000 independents, atomic functions used with other sizes than theirs.")

bin("cont"); bin("cont_as", "cont.cpp", flags=["-fsanitize=address"], san=True)
HIST = "explicit state exploration: every operation sequence up to the depth is executed on the real class from its initial state and compared with an ideal model; states = different model states reached, transitions = operations executed"
prop("C26", "model_checking",
     "pack_setvec and size_setvec (size_t and unsigned int). seq: two objects with 2 + 1 sets of 3 elements, about 65 operations (add, post, process_post, clear, assignment, union, intersection with every aliasing, object copy, swap, resize), depth 4 (5); "
     "wide: 3 + 2 sets, depth 3; end: ends 1, 2, 63..65, 127..129, 192 with elements at word boundaries, depth 3; pairs: all pairs of subsets of 4 elements, 6 ways to build them, all sharing and aliasing; macro: sequences of 4 (5) of 14 operations on 40 (120) sets at once.",
     [part("cont", "setvec"), part("cont_as", "setvec", tier="thorough")], HIST,
     "Compared after every sequence: members by iterator, number_elements, is_element for every set, again after processing all posts; with assertions on, the bookkeeping of the lists is also checked. Posted elements are processed before their object is destroyed, copied or resized (a precondition of the classes). "
     "svec_setvec is only used by its unit test and is not included.")
bin("eigen", conf={"cppad_has_eigen": "1"}, flags=["-isystem", "/usr/include/eigen3"])
prop("C27", "model_checking",
     "rc: two sparse_rc objects (CppAD::vector and std::vector), 30 operations, depth 3 (4) after a start; rcv: 14 operations, depth 4 (5); equal: all patterns up to 6 entries, all pairs, 3 orders, 4 x 4 stored orders; index_sort: all keys of length up to 7 (8) over 4 values; set_union: all pairs of subsets of 6; sparse2eigen: all patterns of 12 shapes up to 4 by 3, all orders of up to 4 (6) entries, row and column major, four value types.",
     [part("cont_as", "sparse"), part("eigen", name="eigen")], HIST, "Duplicate entries must be reported by row_major and col_major. Compared: all accessors, orders, stored orders, equality in both directions, output; misuse must be a known error. The elements of moved from objects are not used.")
prop("C25", "model_checking",
     "Two vectors with elements double, bool, string and a class that checks construction, destruction and address; and vectorBool: 34 operations, sizes at capacity and word boundaries, with and without hold_memory, depth 3 (4); iterators: all pairs of positions for sizes up to 5; sort and reverse of all permutations up to 6.",
     [part("cont_as", "vector")], HIST, "Compared: sizes, elements, documented capacity and data pointer, comparison operators, iterators, output, that all elements are destroyed and all memory is returned; misuse must be a known error. vectorBool assignment between different nonzero sizes is documented as an error for developers and as allowed for users: not explored.")
prop("C24", "model_checking",
     "Up to 3 simulated threads: 24 operations (get_memory with sizes 0, 1, capacity, capacity + 1, arrays of a class and of double, returns, hold_memory, free_available, change of thread, parallel mode on and off, free_all, parallel_setup), depth 5 (6); every size up to the third capacity and around all powers of two up to 2^25.",
     [part("cont_as", "alloc")], HIST, "Compared after every operation: contents of all live blocks, overlap, inuse and available of every thread that may be asked, reuse of available memory only by its thread and capacity, construction and destruction counts, free_all. Real threads are the subject of C23. The list of pointers in use is compiled out by the default CPPAD_DEBUG_AND_RELEASE, so returning memory twice is not explored.")
bin("life"); bin("hist"); bin("atomic")
prop("C22", "model_checking",
     "20 operations (Independent with and without dynamics, arithmetic with old values, CondExp, Dependent, ADFun(x, y), abort_recording at AD<double> and AD<AD<double>>, evaluation of all functions, of a level 2 function at level 1 values, deletion, copy), all sequences to depth 6 (7) from the start, and to 5 (6) more from 7 later states.",
     [part("life", mem=6000)], HIST, "Reference: expressions in which every value of another or an ended recording is a constant. Compared: Variable, Dynamic, Constant and value of every value ever made, at both levels; values, Jacobians and Parameter(i) of all finished functions for original and changed dynamics; that open recordings can be completed; that Independent while recording and Dependent without a recording are known errors. " + TRUST)
prop("C21", "model_checking",
     "Four recordings (branches with VecAD, comparisons and dynamics; checkpoint and atomic calls; plain; parameters and sums), constructed or ended by Dependent; 61 operations on an object and a second one (Forward of orders 0..3, all orders at once, 2 and 3 directions, Reverse, capacity_order, new_dynamic, optimize, copy, swap, move, all old and new sparsity calls, subgraphs, compare_change_count, drivers, base2ad, to_json, recording again): all sequences of 3; "
     "all sequences of 5 (6) over the 14 to 16 operations of each of: Taylor coefficients, sparsity patterns, subgraphs, conditional skips.",
     [part("hist", mem=6000)], HIST, "Reference: the same single operation on a fresh object that got only the inputs the documentation names. Compared: results (1e-11), sizes, size_order, size_direction, comparison changes, number_skip, names and settings of both objects after every sequence; operations that need more stored orders, another number of directions or a pattern must report a known error. " + TRUST)
prop("C10", "exploration",
     "Six algorithms (products and sin; constant, partial and exp results; cube; copy and triple product; two copies and linear; discrete), through atomic_four, atomic_three, atomic_two (set, bool, pack), CPPAD_USER_ATOMIC, chkpoint_two (bool/set x base2ad) and checkpoint (set, bool, pack x optimized): "
     "every argument in {x0, x1, p0, 1.5, x0*x1, p0+p1} (and with 0), 10 uses of the results (all, one, chained into a second call, in branches, argument needed in a branch only, two equal calls, stored in a VecAD, unused, sums and products, into another call); as recorded, optimized, optimized with val_graph (more options), and derivatives recorded with base2ad. ",
     [part("atomic", k, name=k) for k in ("four", "three", "two", "one", "chk2", "chk1")], EXH,
     "Reference: the same algorithm recorded inline. Compared at 2 (4) points: values, forward orders 1..3, two directions, reverse orders 1 and 4, Parameter(i), all sparsity patterns (equal for atomic_four and atomic_three, superset for the others, and for subgraph_sparsity). Results that were not selected are nan. "
     "The callbacks check call_id, sizes, parameter_x, order zero and higher orders of parameters, ident_zero_x. atomic_two calls treat dynamics as variables in Parameter(i); val_graph is not run on programs with operations on parameters that it does not implement. " + FP + TRUST)
TS = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
bin("threads", ("threads.cpp", TS), "trt.cpp", *[(f"thr_{k}.cpp", TS) for k in "abcd"], lib_flags=["-O1"] + TS, cxx="clang++",
    link=["-rdynamic", "-ldl", "-Wl,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock"])
prop("C23", "model_checking",
     "37 thread programs (recording with every operator, VecAD, comparisons, discrete, PrintFor; aborted recordings; two AD levels and base2ad; optimize with 4 option sets; copies of one shared function; directions; drivers; all sparsity, sparse_jac, sparse_hes, subgraph calls; graphs and JSON; to_csrc; abs_normal_fun; "
     "shared atomic_four, three, two (set, bool, pack), one, chkpoint_two (3 kinds) and the shipped matrix, vector and ODE atomics; thread_alloc, vectors, sparse matrices, ODE, quadrature, LU, text utilities): every program alone as thread 1..3, every pair with up to 1 (2) preemptions at the marked points, which include the inside of atomic callbacks and ODE functions, three equal (all) programs; with and without hold_memory. "
     "states = schedules executed, transitions = scheduling decisions. ",
     [part("threads", mem=10, hang=60)],
     "stateless model checking of the real library: controlled scheduler that enumerates all schedules up to a preemption bound, with happens-before conflict detection on every memory access of every execution",
     "All code of the library and the programs is compiled so that each memory access is reported to the explorer's own runtime; memory is never reused within an execution, so no conflict is hidden. Without conflicting unordered accesses all interleavings of an execution give the same results, which extends each explored schedule to all instruction interleavings equivalent to it. "
     "Compared: each thread's results, text and memory in use with the same program alone, and that all memory is returned at the end. Each thread uses its own functions; atomic and checkpoint objects and one constant function are shared; calls that the documentation requires to be first made in sequential mode are. Accesses inside the C and C++ runtime libraries are not seen. Two to three threads.")
bin("shipped"); bin("shipped3", "shipped.cpp", flags=["-DSHIP_THREE"])
prop("C38", "exploration",
     "atomic_vector (5 operators, sizes 1..2 (3)), atomic_four and atomic_three matrix product (8 (13) shapes with up to 3 rows, middle, columns), atomic_lin_ode (all patterns of 1 and 2 (and 64 of 3) equations, transposed or not, two times): every argument in {variable, dynamic, constant, product of variables} (and zero), "
     "all combinations up to 300 (5000), else all with one or two (all pairs) different arguments and all variable/not variable combinations; 3 uses of the results; as recorded, optimized, and derivatives recorded by base2ad. ",
     [part("shipped", k, name=k) for k in ("vector", "mat", "lin_ode")] + [part("shipped3", "three", name="three"), part("shipped", "finding", name="finding", shards=1), part("shipped3", "finding", name="finding3", shards=1)], EXH,
     "Reference: the same calculation recorded inline (the linear ODE as power series). Compared: values, forward orders 1..3 (lin_ode 1), two directions, reverse orders, Parameter(i), all sparsity patterns (equal for the atomic_vector and matrix products as recorded, else superset; after optimize superset). The example headers have nine defects, listed in known_findings.txt with one failing call each; what they affect is left out of the other cases: Hessian patterns of vector mul and div and of lin_ode, reverse above order one of mat_mul, patterns of mat_mul after optimize, reverse of lin_ode, base2ad reverse and transposed base2ad of lin_ode, dynamic with variable arguments of lin_ode (and, with zeros or base2ad, of mat_mul). " + FP + TRUST)
bin("print")
prop("C32", "exploration",
     "One PrintFor with each of 12 kinds of first argument (constants of 3 signs, dynamic, dynamic expression, variable, expression, expression used nowhere else, VecAD element, VecAD element with variable index, branch value, omitted) and 11 kinds of value, 6 texts, 3 positions, at all 81 signs of two arguments and two dynamics; "
     "two calls: 3000 (17424) combinations; three calls: 1024 (4096); each as recorded, optimized with 6 option sets including val_graph and no_print_for_op, copied, swapped, through cpp_graph and JSON (as recorded and optimized), base2ad (evaluated and re-recorded), and recorded at AD<AD<double>>. ",
     [part("print")], EXH,
     "Compared: exact text of Forward(0, x, s), Forward(2, xq, s), Forward(0, x) on the standard output and with another stream precision; nothing printed by Forward(1), Reverse, sparsity or re-recording; texts of more than 1000 characters are known errors. Infinite and nan first arguments are not explored; val_graph may print equal calls once. " + TRUST)
bin("nan")
prop("C34", "exploration",
     "All functions of one or two of 13 components that can give nan (sqrt, log, division, branches, VecAD, azmul, pow, atan2, dynamics, constants), as recorded, optimized and after base2ad, at all 36 pairs of values from {1, 0, -1, inf, nan, 0.5} and 2 dynamic vectors: every call of Forward (orders 0, 1, 0 to 2, two directions, nan directions), Reverse (orders 1, 2, nan weights) and subgraph_reverse; "
     "the ADFun constructor at the same values; all sequences of 4 (thorough: 5) of 15 operations on two objects (set, optimize, assign, move, swap, record, graph, JSON, base2ad, forward, dynamics). ",
     [part("nan", shards=8)], EXH,
     "Oracle: the same call on a copy with checking off; nan reported exactly when it returns a nan; message index, vector_size and the file's content are compared with the argument. Turning the check on while stored values are nan is followed by dropping them, because optimize documents that it repeats the zero order calculation. " + TRUST)
bin("misuse")
prop("C30", "exploration",
     "Function objects: about 400 calls (Forward, Reverse, directions, capacity, dynamics, subgraphs, all sparsity and derivative calls) with all sizes, orders, indices and patterns around the valid ones, from 6 histories, every pair (thorough: triples) of calls, against a model of the documented state; "
     "recording: all pairs of misuses while recording, then abandoned or continued; containers, sparse classes, LU, ODE and quadrature: all sizes and indices to 5; thread_alloc and parallel mode: up to 3 threads, every thread number; all sequences of 6 (8) of 7 error handler operations; the default handler in child processes. ",
     [part("misuse", shards=8)], EXH,
     "Compared: a call is reported as a known error exactly when the documented sizes, order and required earlier calls do not fit; after the error (turned into an exception) and after valid calls, values, derivatives and patterns of the object and new recordings are right; handler arguments, nesting and restoring. Patterns stored by a call that failed are not used. " + TRUST)
for k, t in enumerate(("float", "ldouble", "num", "zdouble")):
    bin("base_" + t, "base.cpp", flags=[f"-DBT={k}"])
for k in ("double", "float"):
    bin("base_cx_" + k, "basecx.cpp", flags=[f"-DCXT={k}"])
prop("C33", "exploration",
     "float, complex<float>, complex<double>, zdouble and a user defined type that has only what base_require documents (with double and with long double values; it checks that its objects are constructed, copied and destroyed properly): "
     "all one-operation programs, all pairs over a set of operations, branches, all VecAD sequences of length 2 (3), all sums of 3 (4) terms, thorough: all two-operation programs (complex: analytic operations only); 3 or 4 points, dynamic parameters changed; recorded, base2ad, copied, optimized, moved; complex: all operations that complex numbers lack, while recording or not, and single number functions on all pairs of 36 numbers. ",
     [part("base_" + t, shards=8) for t in ("float", "ldouble", "num", "zdouble", "cx_double", "cx_float")], EXH,
     "Compared: values, Taylor coefficients to order 3 in one and two directions, reverse mode of all orders, Jacobian, Hessian, sparse drivers, patterns and sizes; with the same observations for double (zdouble and the double valued user type: the same bits), with a reference in long double or complex long double arithmetic (tayref.hpp) to the precision of the type. Not compared: zdouble programs with values that are not finite; next to branch cuts and singular points; to_graph of a base type that does not convert to double. " + TRUST)
bin("lu", "lu.cpp")
prop("C28", "exploration",
     "all matrices: sizes 0 to 2 with 1 to 9 entry values, 3 by 3 with 5 (6) values, 4 by 4 with entries 0, 1 (0, 1, -1), thorough 5 by 5 with entries 0, 1; in exact rational arithmetic, double, float and complex<double> (entries from 9, 4 (5) Gaussian integers), 0 to 3 right hand sides, CppAD::vector, std::vector and valarray; recorded in AD<double> and AD< complex<double> > at every matrix (up to 3 by 3) and evaluated with those pivots at all (3 by 3: every 97th (11th)) matrices of the set. ",
     [part("lu", shards=8)], EXH,
     "Compared (the determinant and cofactors from their definition; exactly for rational numbers): permutations and their sign, L U = P, each pivot has the largest absolute value, determinant = sign times pivots, sign 0 if and only if singular, A X = B, arguments unchanged, logdet, ratio, derivatives of logdet and of X. Not explored: rounding of ill conditioned systems. " + TRUST)
bin("ode", "ode.cpp")
bin("absn")
bin("util")
prop("C29", "exploration",
     "Runge45 and Rosen34: every system x_i' = monomial of weight w_i - 1 in t and earlier components (weights to the order of the method: 1 to 5, 1 to 4 and others; sums of two monomials to weight 3 (4)), for which every method of that order is exact, 3 initial values, 1 to 3 steps, 4 intervals (also backwards and empty); a nan in every component of every call; recorded and evaluated at 3 points; "
     "OdeGear: order 1 to 4 (5), 11 matrices, polynomial solutions of degree to one more than the order, all spacings over 4 (2 for order 5) gaps; Newton iterations for a nonlinear system; "
     "OdeErrControl: a method whose error estimates are every sequence of 7 answers (zero, tiny, acceptable, too large, much too large, nan in xb or eb) to length 3 and of 5 answers to length 4 (thorough: 5, 6) for all combinations of interval length, smin, smax, scur, n and order; error estimates K s^m; "
     "OdeGearControl: order 1 to 4 (5), polynomial solutions to degree 6, 5 matrices, all combinations of length, smin, smax, sini and tolerances; "
     "RombergOne: n to 6 (7), all p <= n, all monomials to the first degrees that are not exact, 5 intervals; RombergMul: 1 to 3 variables, all combinations of 4 to 6 (n, p) and monomials; recorded. ",
     [part("ode", shards=8)], EXH,
     "Compared, in exact rational arithmetic where there is no exp or log: the solution or integral, the error estimate (zero when both orders are exact, its power of the step size, a bound when not), arguments unchanged, the times and order of calls, number of calls; OdeGear against the definition by interpolation; for the controllers every step against the documented rules: contiguous accepted steps from ti to tf, limits of the step size, accepted exactly when the error criteria or the minimum size allow, nan handling, sums of errors, maxabs, nstep; derivatives by initial values, times, limits. " + TRUST)
prop("C31", "exploration",
     "Every program of one operator before an absolute value and one after it, for all operators and argument kinds (variable, independent and dependent dynamic parameter, constant); every program of absolute values, +, -, * to length 3 on four leaves and of absolute values and - to length 4; with atomic functions, sums to length 4, conditional expressions, VecAD sequences to length 3 after an absolute value; comparisons and PrintFor between all kinds of arguments; "
     "g and a overwrite functions that already hold coefficients, patterns and subgraph information. Thorough adds length 4 with *, VecAD length 4 and two operators after. ",
     [part("absn", shards=8)], EXH,
     "g is compared, in all forward, reverse, multiple direction and sparsity operations, Parameter, printing and compare_change_number, to a recording of its definition (absolute values replaced by new independent variables, arguments appended), a to a recording of the absolute values, f to itself before the call; y(x,a(x))=f(x), |z|=a, dz_i/du_j=0 for j>=i, and directional derivatives of a and f from those of g, also when f, g or a has been optimized. " + TRUST)
prop("C35", "exploration",
     "NearEqual on all pairs of 21 special values (complex: 8 by 8 parts) by 6 by 6 tolerances and all argument kinds; Poly for all coefficient vectors to length 5 (6) over 4 (5) values, all derivative orders, degree to 29; pow(x, n) for all |n| <= 70, INT_MIN, INT_MAX and others, on 16 special values, float, complex, int, long, zdouble and AD; "
     "base type functions (azmul, abs_geq, isnan, sign, Integer, CondExp, Identical*, limits, to_string and others) of float, double, complex, zdouble and AD on all pairs of special values; azmul on all argument kinds recorded and played at all pairs; comparison and Identical/EqualOpSeq/kind predicates on all kinds; ErrorHandler nesting to depth 3; "
     "det_by_minor, det_by_lu, det_33 on all 1 by 1 to 4 by 4 matrices over small entry sets, det_grad_33, det_of_minor on all minors of 4 by 4, mat_sum_sq, sparse_hes_fun and sparse_jac_fun on all small index sets, ode_evaluate, uniform_01, test_boolofvoid, CheckNumericType, FunCheck. ",
     [part("util", shards=8)], EXH,
     "Compared to the definitions (long double or exact integer arithmetic). ")
bin("ipopt", "ipopt.cpp", *[f"/repo/cppad_ipopt/src/{k}.cpp" for k in ("cppad_ipopt_nlp", "hes_fg_map", "jac_g_map", "sparse_map2vec", "vec_fun_pattern")], flags=["-D_GLIBCXX_ASSERTIONS", "-DHAVE_CSTDDEF", "-isystem", "/opt/vp/include"], link=["-lipopt"])
prop("C39", "exploration",
     "ipopt::solve: all problems with one objective and up to 2 (3) constraints out of 9 component functions in 1 to 3 arguments by 4 options, under all sequences of 2 (of 12) calls: five evaluations at the same or the next of three points, two structure calls; 7 problems under all sequences of 4 (5) calls; 1 to 129 arguments and 0 to 129 constraints (word boundaries of patterns). "
     "cppad_ipopt_nlp: one function with one or two terms and all index vectors, two functions, 10 problems under all sequences of 5 calls, the simple representation. All 14 final status values. "
     "The optimizer on 9 objectives by bounds by constraints by 4 options, and all pairs of 33 option lines. ",
     [part("ipopt", "solve", name="solve"), part("ipopt", "nlp", name="nlp", up=True), part("ipopt", "run", name="run", up=True)], SEQ,
     "Values, gradients and Hessians are compared to second order arithmetic on the same expressions; sums over entries as Ipopt adds them; writes past the end of a vector are noticed; the optimality conditions (feasible, multipliers of inactive constraints zero, gradient of the Lagrangian zero) decide the solutions. Ipopt itself is trusted to one part in 1e5 on convex quadratic problems. ")
# the same explorers in release mode (NDEBUG), where other code is compiled
_release = {"C01": ("deriv", "zero"), "C02": ("deriv", "forward"), "C03": ("deriv", "dir"), "C04": ("deriv", "reverse"), "C05": ("drivers", "drv"), "C06": ("optimize",), "C07": ("trans", "dynamic"),
            "C10": ("atomic", "four"), "C11": ("trans", "chk"), "C12": ("trans", "base2ad"), "C16": ("spars", "jac"), "C17": ("spars", "hes"), "C18": ("drivers", "jac"), "C19": ("drivers", "hes"), "C20": ("drivers", "sub"),
            "C36": ("state", "vec"), "C37": ("state", "skip")}
for _b in ("deriv", "optimize", "spars", "state", "drivers", "trans", "atomic"): bin(_b + "_release", _b + ".cpp", flags=["-DNDEBUG"])
for _p, _a in _release.items():
    CHECKS[_p]["parts"].append(part(_a[0] + "_release", *_a[1:], name="release"))
    CHECKS[_p]["rule"] += (" " if not CHECKS[_p]["rule"].endswith(" ") else "") + "Part of it again in release mode (NDEBUG). "
