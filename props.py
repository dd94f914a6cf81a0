"""The properties: source of properties.jsonl (python3 vf.py manifest writes both it and MANIFEST.json)."""
P = {}


def p(pid, title, statement, over, quant, why, files, mech, observe=(), state=()):
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=quant),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None))


I = "include/cppad/"
p("C01", "Replay of a recording computes the recorded algorithm's values",
  "For every algorithm built from AD operations (arithmetic, unary math, pow, atan2, azmul, conditional expressions, discrete functions, VecAD, atomic calls), the values of the AD objects while recording, and Forward(0, x) of the ADFun made from it at any x and any dynamic parameters, equal the same algorithm evaluated directly in the base type.",
  ["programs", "inputs"], "all straight-line AD programs over the supported operation set, all argument points where the direct evaluation is defined",
  "Tests replay one hand-written function per operator; which operand kinds (variable, dynamic, constant, repeated) and which operator combinations are met is decided by the sample.",
  [I + "core/ad_binary.hpp", I + "core/cond_exp.hpp", I + "local/sweep/forward_0.hpp", I + "local/record/", I + "local/play/", I + "core/vec_ad/"],
  [("operand-kind dispatch while recording", I + "core/{add,sub,mul,div,pow,azmul,cond_exp}.hpp"), ("zero order sweep", I + "local/sweep/forward_0.hpp")],
  ["ADFun::Forward(0,x)", "CppAD::Value"])
p("C02", "Forward mode yields Taylor coefficients of every order",
  "Forward(k, x_k) and Forward(q, x_0..x_q) return the Taylor coefficients of y(t) = f(x(t)) up to the requested order, for every order and every smooth point, whether orders are computed one call at a time or several at once.",
  ["programs", "inputs", "histories"], "all AD programs, all orders, all splits of the orders over calls, all points where the function is analytic",
  "Operator tests check low orders of single operators at one point; the recurrences for higher orders and for operators fed by other operators are not pinned.",
  [I + "local/sweep/forward_any.hpp", I + "local/var_op/", I + "core/forward/forward.hpp"],
  [("per operator Taylor recurrences", I + "local/var_op/*_op.hpp forward_op"), ("order bookkeeping", I + "core/forward/forward.hpp")], ["ADFun::Forward"])
p("C03", "Multiple direction forward mode equals single direction forward mode",
  "Forward(q, r, x_q) returns, for each of the r directions, exactly the order q Taylor coefficients that single direction forward mode returns for that direction, for every order q and number of directions r.",
  ["programs", "inputs", "histories"], "all AD programs, orders, numbers of directions and changes of the number of directions between evaluations",
  "A separate implementation of every operator; tests use few operators, orders and direction counts.",
  [I + "local/sweep/forward_dir.hpp", I + "local/var_op/", I + "core/forward/forward.hpp"],
  [("per operator multi direction recurrences", I + "local/var_op/*_op.hpp forward_dir")], ["ADFun::Forward(q,r,xq)"])
p("C04", "Reverse mode is the exact adjoint of forward mode",
  "After the Taylor coefficients up to order q-1 have been computed, Reverse(q, w), for either weight layout and any weights, returns the partial derivatives of the weighted Taylor coefficients of the range with respect to every Taylor coefficient of the domain.",
  ["programs", "inputs"], "all AD programs, all orders, both weight layouts, all weights and all points where the function is differentiable",
  "Adjoints of high orders, repeated operands and shared sub-expressions multiply beyond what tests sample.",
  [I + "local/sweep/reverse.hpp", I + "local/var_op/", I + "core/reverse.hpp"],
  [("per operator adjoint recurrences", I + "local/var_op/*_op.hpp reverse_op")], ["ADFun::Reverse"])
p("C05", "Derivative drivers agree with the function's derivatives",
  "Jacobian, Hessian, ForOne, ForTwo, RevOne, RevTwo, BenderQuad and opt_val_hes return exactly the first and second derivatives of the function they are given, for every shape (including more domain than range components and the reverse) and every choice of components.",
  ["programs", "inputs"], "all functions, domain and range sizes, weights and component selections",
  "Tests evaluate one function and one shape per driver; the drivers choose their mode by shape and by which components are parameters.",
  [I + "core/jacobian.hpp", I + "core/hessian.hpp", I + "core/for_one.hpp", I + "core/for_two.hpp", I + "core/rev_one.hpp", I + "core/rev_two.hpp", I + "core/bender_quad.hpp", I + "core/opt_val_hes.hpp"],
  [("mode selection and seed assembly", I + "core/jacobian.hpp")], ["ADFun::Jacobian", "ADFun::Hessian"])
p("C06", "optimize() never changes the function",
  "For every function and every combination of optimize options, the optimized function has the same domain, range, values, derivatives of every order, dynamic parameter behaviour and settings as the function before, at every argument, including where conditional branches are skipped and when it is optimized again.",
  ["programs", "inputs", "configurations"], "all recorded functions, all option strings, all argument values including those that switch conditional expressions",
  "The optimizer's decisions (dead code, common sub-expressions, cumulative sums, conditional skip) depend on operation patterns and hash coincidences that tests sample one at a time.",
  [I + "core/optimize.hpp", I + "local/optimize/", I + "local/val_graph/"],
  [("usage analysis", I + "local/optimize/get_op_usage.hpp"), ("common sub-expression matching", I + "local/optimize/match_op.hpp"), ("cumulative summation", I + "local/optimize/record_csum.hpp"), ("conditional skip", I + "local/optimize/get_cexp_info.hpp")], ["ADFun::optimize"])
p("C07", "New dynamic parameter values act as if the function were recorded again",
  "After new_dynamic(p), every value, derivative and sparsity pattern of the function equals that of the same algorithm recorded with p as the parameter values, no matter which dynamic values were used before and how often they change.",
  ["programs", "inputs", "histories"], "all functions with dynamic parameters, all sequences of new_dynamic calls and evaluations",
  "Each dynamic operator has its own evaluation; tests use one or two dynamic parameters and one change of values.",
  [I + "core/new_dynamic.hpp", I + "local/sweep/dynamic.hpp", I + "core/con_dyn_var.hpp"],
  [("dynamic parameter sweep", I + "local/sweep/dynamic.hpp")], ["ADFun::new_dynamic"])
p("C08", "Constants, dynamic parameters and variables are classified correctly",
  "Constant, Dynamic, Parameter and Variable of an AD object, and Parameter(i) of a function, report an object as a parameter only if its value cannot depend on the independent variables, and as a constant only if it cannot depend on the dynamic parameters either; an object computed from parameters (constants) only is a parameter (constant); after the recording ends or is aborted its variables are no longer variables.",
  ["programs", "histories"], "all AD programs, on every node, during and after recordings",
  "The classification is decided at each operator for each operand kind combination, with special cases for zero and one.",
  [I + "core/con_dyn_var.hpp", I + "core/ad_binary.hpp", I + "core/cond_exp.hpp", I + "core/fun_property.xrst"],
  [("operand kind dispatch", I + "core/*.hpp operators"), ("tape id test", I + "core/tape_link.hpp")], ["CppAD::Variable", "CppAD::Dynamic", "CppAD::Constant", "ADFun::Parameter"])
p("C09", "Comparison changes are counted exactly",
  "After Forward(0, x) with a count that is not zero, compare_change_number is the number of comparisons with a variable or dynamic parameter operand, none of them nan, whose result differs from the recording, compare_change_op_index is 0 exactly when fewer than the requested number changed and otherwise is the operator index of that changed comparison, where a recording with abort_op_index stops; copies, round trips and optimize keep the comparisons (optimize merges identical ones) unless an option removes them.",
  ["programs", "inputs", "histories"], "all comparison operators, operand kinds and argument values on either side of every comparison, all requested counts",
  "There are six operators in several operand forms whose stored sense is flipped while recording; tests flip one or two.",
  [I + "core/compare.hpp", I + "local/var_op/compare_op.hpp", I + "core/forward/compare_change.xrst"],
  [("recording of the comparison result", I + "core/compare.hpp"), ("count during zero order forward", I + "local/sweep/forward_0.hpp")], ["compare_change_number", "compare_change_op_index"])
p("C10", "An atomic function is indistinguishable from its inline algorithm",
  "A function that calls an atomic function has the same values, derivatives of all orders, dependency, sparsity and optimize behaviour as the function with the atomic's algorithm written inline, for every mix of constant, dynamic, variable and repeated arguments and used or unused results.",
  ["programs", "inputs"], "all argument type combinations, all dependency structures of the atomic, all call sequences and uses of the results, for each atomic interface",
  "Call handling packs argument types, parameter results and unused results into the tape; tests use each atomic in one call pattern.",
  [I + "core/atomic/", I + "local/sweep/call_atomic.hpp"],
  [("call recording", I + "core/atomic/four/call.hpp"), ("call unpacking during sweeps", I + "local/sweep/")], ["atomic_four", "atomic_three", "atomic_two"])
p("C11", "A checkpoint function is indistinguishable from the function it was made from",
  "A function that uses chkpoint_two or chkpoint_one, with any of their options, has the same values, derivatives, sparsity and dynamic parameter behaviour as the same function with the checkpointed algorithm inline, for every call pattern and nesting.",
  ["programs", "inputs", "configurations"], "all checkpointed functions, option settings, argument kinds and nesting",
  "Options and sparsity caches interact; tests use one function per option.",
  [I + "core/chkpoint_two/", I + "core/chkpoint_one/"],
  [("checkpoint atomic callbacks", I + "core/chkpoint_two/*.hpp")], ["chkpoint_two", "chkpoint_one"])
p("C12", "Multiple levels of AD agree with each other",
  "Differentiating through a function evaluated with AD arguments (base2ad, or recording with AD of AD) gives the same values and derivatives as the original function's higher order derivatives, and operations at one level never disturb another level.",
  ["programs", "inputs"], "all functions, all points, all derivative orders split between the two levels",
  "Every operator must be differentiable again at the next level, including its zero and identity shortcuts; tests use a few operators.",
  [I + "core/base2ad.hpp", I + "core/ad.hpp", I + "core/base_cond_exp.hpp", I + "local/var_op/"],
  [("base2ad copy of the operation sequence", I + "core/base2ad.hpp"), ("base operations overloaded by AD", I + "core/ad.hpp")], ["ADFun::base2ad"])
p("C13", "AD graph and JSON round trips preserve the function",
  "to_graph followed by from_graph, and to_json followed by from_json, reproduce a function with the same values, derivatives, dynamic parameters, names and printing; and a graph built by hand evaluates as its operators say.",
  ["programs", "inputs"], "all functions whose operations the graph supports, any number of round trips, and all graphs over the operator set up to a size",
  "Tests have one round trip per operator with fixed operand kinds.",
  [I + "core/graph/", "cppad_lib/json_writer.cpp", "cppad_lib/json_parser.cpp", "cppad_lib/json_lexer.cpp", "cppad_lib/cpp_graph_op.cpp"],
  [("recording to graph", I + "core/graph/to_graph.hpp"), ("graph to recording", I + "core/graph/from_graph.hpp"), ("JSON text", "cppad_lib/json_writer.cpp")], ["to_graph", "from_graph", "to_json", "from_json"])
p("C14", "Malformed JSON graphs are rejected, never misread",
  "For every text, from_json either reports an error through the error handler or produces a function that means what the text says; it never crashes, hangs or reads outside its data, and white space or line breaks do not change the meaning.",
  ["inputs"], "all texts; explored: all single edits of valid graphs at every position and all spacing variations",
  "Tests contain valid files only and a handful of errors.",
  ["cppad_lib/json_lexer.cpp", "cppad_lib/json_parser.cpp", I + "local/graph/json_lexer.hpp"],
  [("token checks", "cppad_lib/json_lexer.cpp"), ("structure checks", "cppad_lib/json_parser.cpp")], ["from_json"])
p("C15", "Generated C source computes the same function",
  "The C source written by to_csrc for a function of any type option compiles and, called with any arguments and dynamic parameters, returns the function's values, the documented error codes, and compare change counts.",
  ["programs", "inputs"], "all functions whose operations are supported, all argument points, float and double",
  "Tests compile one small function per operator class.",
  [I + "core/to_csrc.hpp", "cppad_lib/csrc_writer.cpp", I + "utility/create_dll_lib.hpp", I + "utility/link_dll_lib.hpp"],
  [("source generation", "cppad_lib/csrc_writer.cpp")], ["to_csrc"])
p("C16", "Jacobian sparsity patterns contain every nonzero derivative",
  "Every Jacobian sparsity calculation (for_jac_sparsity, rev_jac_sparsity, ForSparseJac, RevSparseJac, subgraph_sparsity; with or without transpose, dependency and either internal representation; for any input pattern and block of components) returns a pattern that contains every entry whose derivative or dependency can be nonzero, contains no entry that the recorded operations do not connect, and the different calculations agree where they are documented to.",
  ["programs", "inputs", "configurations"], "all functions, all seed patterns, all option combinations",
  "Each operator has its own sparsity rule in each direction; tests check a few operators and identity seeds.",
  [I + "core/for_jac_sparsity.hpp", I + "core/rev_jac_sparsity.hpp", I + "core/subgraph_sparsity.hpp", I + "local/sweep/for_jac.hpp", I + "local/sweep/rev_jac.hpp", I + "local/subgraph/"],
  [("pattern sweeps", I + "local/sweep/{for_jac,rev_jac}.hpp")], ["for_jac_sparsity", "rev_jac_sparsity", "subgraph_sparsity"])
p("C17", "Hessian sparsity patterns contain every nonzero second derivative",
  "for_hes_sparsity, rev_hes_sparsity, ForSparseHes and RevSparseHes return, for every selection of domain and range components and every representation, a pattern that contains every second derivative of the selected sum that is not identically zero.",
  ["programs", "inputs", "configurations"], "all functions, all selections, all option combinations",
  "Second order rules depend on which operands are linear; tests check a few operators.",
  [I + "core/for_hes_sparsity.hpp", I + "core/rev_hes_sparsity.hpp", I + "local/sweep/for_hes.hpp", I + "local/sweep/rev_hes.hpp"],
  [("pattern sweeps", I + "local/sweep/{for_hes,rev_hes}.hpp")], ["for_hes_sparsity", "rev_hes_sparsity"])
p("C18", "Sparse Jacobian values are exact for every pattern, subset and coloring",
  "sparse_jac_for, sparse_jac_rev, subgraph_jac_rev and SparseJacobian return the exact derivative for every requested entry and do not touch others, for every pattern that contains the true one, every subset and order of entries, every group size and every reuse of the work object.",
  ["programs", "inputs", "configurations", "histories"], "all sparsity patterns up to a size, all subsets of entries, all option values, repeated calls",
  "Coloring correctness depends on the pattern; tests use a few fixed patterns.",
  [I + "core/sparse_jac.hpp", I + "core/sparse_jacobian.hpp", I + "local/color_general.hpp", I + "core/subgraph_jac_rev.hpp"],
  [("graph coloring", I + "local/color_general.hpp"), ("compressed recovery", I + "core/sparse_jac.hpp")], ["sparse_jac_for", "sparse_jac_rev", "SparseJacobian"])
p("C19", "Sparse Hessian values are exact for every pattern, subset and coloring",
  "sparse_hes and SparseHessian return the exact second derivatives of the weighted range for every requested entry, for every pattern that contains the true one, every subset of entries, every coloring method and every reuse of the work object.",
  ["programs", "inputs", "configurations", "histories"], "all symmetric patterns up to a size, all subsets, all coloring choices, repeated calls",
  "Symmetric coloring recovers an entry from either of two positions depending on the pattern; tests use a few fixed patterns.",
  [I + "core/sparse_hes.hpp", I + "core/sparse_hessian.hpp", I + "local/color_symmetric.hpp", I + "local/color_general.hpp"],
  [("symmetric coloring", I + "local/color_symmetric.hpp"), ("recovery", I + "core/sparse_hes.hpp")], ["sparse_hes", "SparseHessian"])
p("C20", "Subgraph reverse mode returns exact partial derivatives in any call order",
  "subgraph_reverse and subgraph_jac_rev return exactly the partial derivatives of one range component with respect to the selected domain components, for every selection, every component, every order, and every interleaving with other operations on the same function.",
  ["programs", "inputs", "histories"], "all functions, selections and call sequences up to a depth",
  "The subgraph state persists between calls; tests use one loop over components.",
  [I + "core/subgraph_reverse.hpp", I + "core/subgraph_jac_rev.hpp", I + "local/subgraph/"],
  [("subgraph state", I + "local/subgraph/info.hpp")], ["subgraph_reverse", "subgraph_jac_rev"])
p("C21", "Results never depend on what was computed before with the object",
  "For every sequence of operations on a function object (forward at any order, multiple directions, reverse, sparsity, capacity changes, optimize, new_dynamic, copy, move, swap, assignment, subgraph clearing), each result equals that of a fresh object given only the inputs the documentation says it depends on, and copies are independent.",
  ["histories", "programs"], "all operation sequences up to a depth on a set of functions",
  "Cached Taylor coefficients, sparsity patterns and subgraph data persist; tests follow a few fixed sequences.",
  [I + "core/ad_fun.hpp", I + "core/fun_construct.hpp", I + "core/capacity_order.hpp", I + "core/forward/forward.hpp"],
  [("cached state in the function object", I + "core/ad_fun.hpp"), ("copy, move, swap", I + "core/fun_construct.hpp")], ["ADFun"],
  [("Taylor coefficients, capacity, directions", "cached by forward mode", I + "core/ad_fun.hpp")])
p("C22", "Recordings start, stop, abort and interleave without leaking state",
  "For every sequence of starting, recording, ending and aborting recordings (by Dependent, function construction or abort_recording, at one or several AD levels), variables of an earlier recording act as constants, each finished function has exactly the operations of its own recording, and misuse is reported.",
  ["histories"], "all sequences of recording life cycle operations up to a depth",
  "Tape identifiers and per-thread tape tables are reused; tests follow a few sequences.",
  [I + "core/independent/", I + "core/dependent.hpp", I + "core/abort_recording.hpp", I + "core/tape_link.hpp", I + "local/ad_tape.hpp"],
  [("tape identifier per recording", I + "core/tape_link.hpp")], ["Independent", "Dependent", "AD::abort_recording"])
p("C23", "Threads never influence each other's recordings and evaluations",
  "With parallel mode set up as documented, every interleaving of threads that record, evaluate, differentiate and free their own functions and call shared atomic functions gives each thread exactly the results it gets when running alone, without data races.",
  ["schedules"], "all interleavings at operation granularity up to a preemption bound, for a set of thread programs, plus happens-before race detection on them",
  "Tests run one schedule picked by the operating system.",
  [I + "core/parallel_ad.hpp", I + "core/tape_link.hpp", I + "utility/thread_alloc.hpp", I + "core/atomic/"],
  [("per-thread tapes and memory pools", I + "core/tape_link.hpp"), ("per-thread atomic work space", I + "core/atomic/")], ["ADFun in several threads"])
p("C24", "thread_alloc hands out disjoint live memory and accounts for it exactly",
  "For every sequence of allocations, returns, array creations, hold-memory settings and free_available calls on any threads, live blocks never overlap, have at least the requested size, keep their contents, are constructed and destroyed exactly once, and inuse and available report exactly the memory held.",
  ["histories", "inputs"], "all operation sequences up to a depth over sizes around every capacity boundary and several thread numbers",
  "Tests follow fixed allocation sequences.",
  [I + "utility/thread_alloc.hpp", I + "utility/omp_alloc.hpp"],
  [("free lists per thread and capacity", I + "utility/thread_alloc.hpp")], ["thread_alloc"])
p("C25", "CppAD::vector behaves as a vector of its elements",
  "For every sequence of construction, resize, push_back, push_vector, assignment, move, swap, clear and element access, CppAD::vector and vectorBool have the sizes and elements of the ideal sequence, never alias, grow capacity as documented, release all their memory, and report misuse.",
  ["histories"], "all operation sequences up to a depth, sizes across capacity and word boundaries",
  "Tests use a few fixed sequences; growth and aliasing depend on the history.",
  [I + "utility/vector.hpp", I + "utility/vector_bool.hpp", I + "local/pod_vector.hpp"],
  [("capacity from thread_alloc", I + "utility/vector.hpp"), ("bit packing", I + "utility/vector_bool.hpp")], ["CppAD::vector", "CppAD::vectorBool"])
p("C26", "Set containers used for sparsity behave as mathematical sets",
  "Every sequence of operations on the two vector-of-sets representations used by the sparsity and optimize calculations gives exactly the sets that finite set theory gives, with sharing between sets never visible.",
  ["histories"], "all operation sequences up to a depth, sets across word boundaries, elements including first and last",
  "Reference counts, shared lists and posted elements depend on the history; tests use fixed sequences.",
  [I + "local/sparse/pack_setvec.hpp", I + "local/sparse/list_setvec.hpp", I + "local/sparse/size_setvec.hpp", I + "local/sparse/svec_setvec.hpp"],
  [("copy on write lists with reference counts", I + "local/sparse/list_setvec.hpp"), ("bit packed sets", I + "local/sparse/pack_setvec.hpp")], ["sparsity results"])
p("C27", "Sparse pattern and sparse matrix classes keep their documented meaning",
  "For every sequence of operations on sparse_rc and sparse_rcv objects (resize, set, push_back, orders, transpose, comparison, assignment, swap) the entries, orders, set_row_col duplicates handling and equality are those of the ideal set of entries; sparse2eigen makes the same matrix; index_sort returns a sorting permutation and set_union the union for every input.",
  ["histories", "inputs"], "all operation sequences and all inputs up to a size",
  "Tests use one or two patterns.",
  [I + "utility/sparse_rc.hpp", I + "utility/sparse_rcv.hpp", I + "utility/sparse2eigen.hpp", I + "utility/index_sort.hpp", I + "utility/set_union.hpp"],
  [("lazy sort orders", I + "utility/sparse_rc.hpp")], ["sparse_rc", "sparse_rcv", "index_sort", "set_union"])
p("C28", "LU factorization, solution and determinant are exact linear algebra",
  "For every square matrix, LuFactor, LuInvert, LuSolve and LuRatio return the factorization, solution, sign and log of the determinant of that matrix, in the base type and in AD types, and report a singular matrix as such.",
  ["inputs"], "all matrices with entries from a small set up to a size, all right hand side counts",
  "Tests use one or two matrices; pivot choice and sign depend on the matrix.",
  [I + "utility/lu_factor.hpp", I + "utility/lu_invert.hpp", I + "utility/lu_solve.hpp", I + "core/lu_ratio.hpp"],
  [("pivoting", I + "utility/lu_factor.hpp")], ["LuSolve", "LuFactor"])
p("C29", "ODE solvers and quadrature are exact where their order says so",
  "Runge45, Rosen34, OdeGear, OdeGearControl, OdeErrControl, RombergOne and RombergMul reproduce exactly every solution or integral that is a polynomial within their order, call the user functions at the right times, and respect step limits and error bounds.",
  ["inputs"], "all polynomial problems up to the order, all step counts and table sizes up to a bound",
  "Tests use one problem and one step count each.",
  [I + "utility/runge_45.hpp", I + "utility/rosen_34.hpp", I + "utility/ode_gear.hpp", I + "utility/ode_gear_control.hpp", I + "utility/ode_err_control.hpp", I + "utility/romberg_one.hpp", I + "utility/romberg_mul.hpp"],
  [("method coefficients", I + "utility/*.hpp")], ["Runge45", "RombergOne"])
p("C30", "Documented misuse is reported to the error handler and is recoverable",
  "Every documented usage error is reported to the current error handler as a known error, handlers nest and restore, correct use is never reported, and after a reported error that the handler turns into an exception and an abort_recording, later recordings are unaffected.",
  ["inputs", "histories"], "all argument size and order errors of the interfaces up to a bound, all nestings of handlers",
  "Tests check a few errors.",
  [I + "utility/error_handler.hpp", I + "core/cppad_assert.hpp", I + "core/fun_check.hpp"],
  [("argument checks", I + "core/*.hpp CPPAD_ASSERT_KNOWN"), ("handler stack", I + "utility/error_handler.hpp")], ["ErrorHandler"])
p("C31", "The abs-normal form represents the original function",
  "abs_normal_fun represents every function of absolute values so that its smooth part and switching variables reproduce the original function's values and one-sided derivatives for every sign combination of the switches.",
  ["programs", "inputs"], "all functions with absolute values up to a size, all sign combinations",
  "Tests use one function.",
  [I + "core/abs_normal_fun.hpp"], [("separation of the absolute value operators", I + "core/abs_normal_fun.hpp")], ["ADFun::abs_normal_fun"])
p("C32", "PrintFor prints exactly when and what was recorded",
  "During Forward(0, x, s), the text of each PrintFor whose first argument is not positive appears in s, in recording order, with the argument values, and nothing else, also after optimize (unless removed by option) and round trips.",
  ["programs", "inputs"], "all PrintFor argument kinds, positions and signs, sequences up to a depth",
  "Tests print one or two lines.",
  [I + "core/print_for.hpp", I + "local/var_op/print_op.hpp"], [("print operator", I + "local/var_op/print_op.hpp")], ["PrintFor"])
p("C33", "Other base types follow the same rules",
  "For float, long double, complex and user defined base types, recording, values and derivatives obey the same calculus as for double to that type's precision.",
  ["programs", "inputs", "configurations"], "all operations supported by the base type, all points where they are defined",
  "Tests for other base types cover few operators.",
  [I + "core/base_float.hpp", I + "core/base_complex.hpp", I + "core/base_std_math.hpp", I + "core/zdouble.hpp"],
  [("base type requirements", I + "core/base_*.hpp")], ["AD<Base>"])
p("C34", "NaN checking reports exactly the functions that produce NaN",
  "With check_for_nan on, a forward or reverse calculation reports a known error exactly when one of the values it returns is nan, with it off it never does and returns the same values; the setting survives every operation on the object, and when a zero order value is nan the message gives its index and names a file from which the independent variable values can be read back.",
  ["programs", "inputs", "histories"], "all placements of nan in values and orders, all setting sequences",
  "Tests check one case.",
  [I + "core/check_for_nan.hpp", I + "core/forward/forward.hpp"], [("nan test after forward", I + "core/forward/forward.hpp")], ["ADFun::check_for_nan"])
p("C35", "Utility functions compute what they document on every input",
  "Poly, pow with integer exponent, NearEqual, isnan and hasnan, azmul, abs_geq, sign, Integer, to_string and the AD versions of comparisons and identities return the documented value for every input including zero, infinity, nan and boundary values.",
  ["inputs"], "all inputs from a set that contains every special value, all combinations of arguments and types",
  "Tests use one or two ordinary values.",
  [I + "utility/poly.hpp", I + "utility/pow_int.hpp", I + "utility/near_equal.hpp", I + "utility/nan.hpp", I + "utility/to_string.hpp", I + "core/integer.hpp", I + "core/near_equal_ext.hpp"],
  [("the functions", I + "utility/")], ["Poly", "NearEqual", "to_string"])
p("C36", "VecAD behaves as an array through every calculation",
  "For every sequence of loads and stores with constant, dynamic or variable indices and values, a function that uses VecAD has at every argument the values, derivatives, dependency and sparsity of the array computation that those index values select.",
  ["programs", "inputs"], "all load and store sequences up to a depth, index values that alias or differ, several vectors",
  "Which store a load sees depends on the argument at replay time; tests use a few sequences.",
  [I + "core/vec_ad/", I + "local/var_op/load_op.hpp", I + "local/var_op/store_op.hpp"],
  [("index to variable map at replay", I + "local/var_op/load_op.hpp")], ["VecAD"])
p("C37", "Skipping conditional branches is invisible",
  "When zero order forward skips the operations of branches that conditional expressions do not select, every result that is used and every sparsity pattern is unaffected, number_skip is zero unless optimize allowed skipping, depends on the argument alone and counts what was left out, and a later argument that selects other branches is computed correctly.",
  ["programs", "inputs", "histories"], "all nests of conditional expressions up to a depth, all sign patterns of the compared values, all sequences of arguments",
  "Which operations are skipped depends on the nest and on the argument; tests use a few nests.",
  [I + "local/optimize/get_cexp_info.hpp", I + "local/var_op/cskip_op.hpp", I + "core/num_skip.hpp"],
  [("conditional skip operator", I + "local/var_op/cskip_op.hpp")], ["ADFun::number_skip"])
p("C38", "Shipped atomic functions compute exact values and derivatives",
  "The atomic functions that are part of the installed headers (vector operations, matrix product, linear ODE) return the values and derivatives of every supported order (the linear ODE to the accuracy of its solver), sparsity and dependency for every operator, size and argument kind.",
  ["inputs", "programs"], "all operators, sizes and argument kinds up to a bound",
  "Their tests use one size each.",
  [I + "example/atomic_four/", I + "example/atomic_three/"], [("atomic callbacks", I + "example/atomic_four/")], ["atomic_vector", "atomic_mat_mul", "atomic_lin_ode"])
p("C39", "The Ipopt interfaces give Ipopt the problem the user wrote",
  "In every order of calls that Ipopt may make, at every sequence of points, ipopt::solve and cppad_ipopt_nlp return the values of the objective and constraints, the exact gradient, Jacobian and Hessian of the Lagrangian for all multipliers (entries outside of the reported structure are zero), the bounds and the starting point, whichever of the full, retape, sparse forward and sparse reverse options or of the index vector representations is used; the final solution and status are passed on; with the optimizer the result satisfies the optimality conditions; option text is accepted as documented and otherwise reported as an error.",
  ["histories", "inputs", "configurations"], "all sequences of evaluation and structure calls to a bound, all small problems over a set of component functions, all representations, all option texts to a bound",
  "Tests run the optimizer on a few examples and look at the solution: the optimizer determines the order of calls, points and signs of the multipliers, and often converges in spite of wrong derivatives.",
  [I + "ipopt/solve.hpp", I + "ipopt/solve_callback.hpp", I + "ipopt/solve_result.hpp", "cppad_ipopt/src/cppad_ipopt_nlp.cpp", "cppad_ipopt/src/fun_record.hpp", "cppad_ipopt/src/vec_fun_pattern.cpp"],
  [("what is recorded when (new_x, retape)", I + "ipopt/solve_callback.hpp"), ("recording of the terms", "cppad_ipopt/src/fun_record.hpp"), ("map from index vectors to Ipopt entries", "cppad_ipopt/src/{jac_g_map,hes_fg_map,sparse_map2vec}.cpp")],
  ["eval_f", "eval_grad_f", "eval_g", "eval_jac_g", "eval_h", "finalize_solution", "ipopt::solve"])
