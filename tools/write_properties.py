"""Writes /verif/properties.jsonl (kept as a generator so that edits stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["paragami/" + f for f in files],
         "mechanism": [{"name": n, "where": "paragami/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "paragami/" + w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NUM, PSD, SIMP, CONT = "numeric_array_patterns.py", "psdmatrix_patterns.py", "simplex_patterns.py", "pattern_containers.py"
FUN, OPT, AUTO, SPARSE, BASE = "function_patterns.py", "optimization_lib.py", "autograd_supplement_lib.py", "sparse_preconditioners_lib.py", "base_patterns.py"
LEAF = [NUM, PSD, SIMP]
ALL = LEAF + [CONT, BASE]

p("C01", "Flattening then folding returns the original value",
  "For every pattern (bounded or unbounded numeric arrays, vectors and scalars, positive definite matrices, simplex arrays, and arbitrarily nested dictionaries and arrays of them) and every valid value in the interior of its constraint set, folding the flattened value gives back the original value, with the same structure, key order and shapes. Without the free parameterization the recovery is exact, for interior and boundary values alike and for integer as well as real entries; with it, recovery is up to floating point error, including numeric array entries that sit exactly on a (finite) bound. The flattened vector is one-dimensional and its length is exactly the length the pattern reports for that parameterization.",
  ["inputs", "configurations"], "Every pattern configuration (kind, shape, bounds, nesting, validation default) and every valid folded value, in both parameterizations. For a matrix pattern with a diagonal lower bound the interior means that the matrix minus that bound on the diagonal is positive definite.",
  "The unit tests try a few fixed shapes and bounds with one random value each, to six decimals; the guarantee is for every configuration and value, including bounds of any magnitude and sign, nested containers and unusual shapes.",
  ALL, [("fold/flatten of each pattern", NUM), ("Cholesky/log packing", PSD), ("log-ratio map", SIMP), ("offset bookkeeping", CONT)],
  observe=["Pattern.fold", "Pattern.flatten", "Pattern.flat_length"])

p("C02", "Every finite free vector folds to a valid value, one to one",
  "For every pattern, every finite free vector of the right length folds to a value of the pattern's shape that satisfies the constraints: entries within their inclusive bounds, matrices exactly symmetric and positive definite above the diagonal lower bound, simplexes non-negative and summing to one within the validation tolerance. The value so obtained is accepted by the pattern's own validation and can be flattened without error, even for very large entries, as long as the value is representable in floating point. Away from floating point saturation, free-flattening the folded value returns the original free vector.",
  ["inputs", "configurations"], "Every pattern configuration and every finite free vector; extreme magnitudes (up to 1e6 for two-sided bounds and simplexes, up to +-700 for one-sided bounds, up to +-100 for matrices, where entries are exponentiated) for validity, moderate magnitudes for inversion.",
  "Tests fold only vectors drawn uniformly from [0, 1]; the free parameterization promises validity for every finite vector, which an optimizer can push to any magnitude.",
  ALL, [("two-sided bound transform", NUM), ("log-Cholesky unpacking", PSD), ("softmax with reference category", SIMP)],
  observe=["Pattern.fold(free=True)", "Pattern.flatten(free=True)", "Pattern.validate_folded"])

p("C03", "Flat vectors of containers concatenate their members in a fixed order",
  "The flat vector of a dictionary is the concatenation of its members' flat vectors in insertion order, and that of an array of patterns is the concatenation of its elements' flat vectors in row-major order, in both parameterizations and at every nesting depth. The non-free flat vector of a numeric array, matrix or simplex array is the value's entries in row-major order, each occurring exactly once. Folding uses the same layout, and the reported lengths equal the sums of the members' lengths.",
  ["inputs", "configurations"], "Every nesting of containers, every valid value and both parameterizations.",
  "The tests only check that a container round-trips, which any self-consistent scrambling also does, and use one dictionary; the layout is what saved vectors, indices and Jacobians rely on for every container.",
  [CONT, NUM, PSD, SIMP], [("offset accumulation", CONT), ("PatternArray slices", CONT)],
  observe=["PatternDict.flatten/fold", "PatternArray.flatten/fold", "flat_length"])

p("C04", "Invalid shapes and values are rejected, valid ones accepted",
  "When value validation is on (explicitly, or by the pattern's default when unspecified), folding a non-free vector, flattening, and checking a folded value accept exactly the values that satisfy the documented constraints (inclusive bounds; symmetry and diagonal lower bound for matrices; non-negativity and unit sums for simplexes), at every position of every member of every container; with it off, only shape matters. A wrong shape, a missing dictionary key, or a flat vector that is not one-dimensional or has the wrong length is rejected with ValueError whatever the validation setting. The validity check itself never raises on an array: it returns a boolean and a message, which is empty exactly when the value is valid.",
  ["inputs", "configurations"], "Every pattern, every single-entry corruption of a valid value, every wrong shape or length, every combination of explicit and default validation settings.",
  "The tests corrupt one hand-picked entry per pattern kind; acceptance must be decided correctly at every entry position, boundary and nesting level.",
  ALL, [("validate_folded of each pattern", NUM), ("validate_folded", PSD), ("validate_folded", SIMP), ("member-wise validation", CONT)],
  observe=["validate_folded", "fold(free=False)", "flatten"])

p("C05", "An unspecified parameterization uses the pattern's default or is an error",
  "When the free/non-free choice is left unspecified, folding, flattening, lengths, flat indices and flat names behave exactly as with the pattern's current default, which may be changed at any time; an explicit choice always overrides it. If neither is given, folding, flattening, asking for a length and asking for the flat indices of a non-empty mask raise ValueError. Containers apply one choice to all their members, whatever defaults the members have.",
  ["inputs", "configurations", "histories"], "Every pattern and nesting, every assignment of defaults to the container and its members, every sequence of default changes.",
  "The tests cycle defaults on single patterns but never give members of a container defaults of their own, and never check lengths, indices or names.",
  ALL, [("_free_with_default", BASE), ("containers pass free explicitly to members", CONT)],
  state=[("free_default", "default parameterization", BASE)],
  observe=["fold", "flatten", "flat_length", "flat_indices", "flat_names"])

p("C06", "A pattern restored from JSON is identical to and behaves like the original",
  "For every pattern, converting to JSON and back (generically, or through the pattern's class) gives a pattern that compares equal and behaves identically: same lengths, shapes, bounds, key order, default parameterization, validation defaults, folding and flattening. Two patterns compare equal exactly when they have the same type and configuration, including shape, bounds, member order and defaults at every nesting level. Serialization is deterministic and re-serializing a restored pattern gives the same JSON; reformatting the JSON (its white space, or the order of the entries of its objects) makes no difference.",
  ["inputs", "configurations"], "Every pattern configuration, every nesting, and every pair of patterns differing in one configuration setting.",
  "The tests check equality after a round trip, but equality is defined by the same dictionary that is serialized, so any setting dropped from it is invisible to them.",
  ALL, [("as_dict/to_json/from_json", BASE), ("container from_json", CONT), ("SimplexArrayPattern.from_json", SIMP)],
  observe=["to_json", "from_json", "get_pattern_from_json", "=="])

p("C07", "JSON patterns resolve only through the registry, and never to the wrong type",
  "Generic decoding returns an instance of exactly the class registered under the type name recorded in the JSON; user-defined pattern classes work once registered, also inside containers. Registering a name twice raises ValueError and leaves the earlier registration in force unless overwriting is allowed, in which case the later one wins. JSON with no type entry or an unregistered type raises KeyError, and decoding through a class that did not produce the JSON raises ValueError.",
  ["histories", "inputs"], "Every sequence of registrations (with and without overwriting), encodings and decodings over a set of user classes and the built-in ones.",
  "The tests make one failing registration and two failing decodings; no user-defined class is ever registered.",
  [CONT, BASE], [("register_pattern_json / get_pattern_from_json", CONT), ("_validate_json_dict_type", BASE)],
  state=[("pattern registry", "maps type names to classes", CONT)],
  observe=["register_pattern_json", "get_pattern_from_json", "from_json"])

p("C08", "Saving and loading a value preserves value, pattern and extra data",
  "For every pattern, every value it accepts and any additional named arrays, saving to a file (name with or without extension, or an open file object) and loading returns an exactly equal value of the same structure, an equal pattern, and the additional data unchanged. Saving does not modify its arguments, and several saves to different files do not affect each other. A value the pattern rejects is not saved: ValueError is raised.",
  ["inputs", "histories"], "Every pattern, valid value (also values allowed only because validation is off by default), set of extra arrays, and sequence of saves and loads.",
  "One test saves one dictionary with one extra array and compares to six decimals.",
  [CONT], [("save_folded / load_folded", CONT)],
  observe=["save_folded", "load_folded"])

p("C09", "Jacobians are the true derivatives of the freeing transforms",
  "For every pattern and every interior valid value, the unfreeing Jacobian is the derivative of the map from the free flat vector to the non-free flat vector, and the freeing Jacobian is the derivative of the inverse map, with one row per output and one column per input. The freeing Jacobian times the unfreeing Jacobian is the identity. The sparse result (the default) is a sparse matrix and the dense one an ordinary two-dimensional array with the same entries, and containers give the block diagonal of their members' Jacobians.",
  ["inputs", "configurations"], "Every pattern and nesting, every interior value.",
  "Tests evaluate a handful of configurations at one random value, and skip the derivative comparison entirely for dictionaries.",
  ALL, [("closed-form Jacobians", NUM), ("closed-form Jacobians", SIMP), ("autograd Jacobians", BASE), ("block_diag", CONT)],
  observe=["freeing_jacobian", "unfreeing_jacobian"])

p("C10", "Log determinants agree with the Jacobians",
  "For numeric arrays of any shape and bounds, and for dictionaries of them at any depth, the log absolute determinant of the freeing (unfreeing) Jacobian equals the log absolute determinant of the actual Jacobian matrix. The two are negatives of each other. They are differentiable, and their derivatives match numerical ones.",
  ["inputs", "configurations"], "Every numeric array configuration and dictionary nesting of them, every interior value.",
  "The existing tests never call these methods.",
  [NUM, CONT], [("log_abs_det_*_jacobian", NUM), ("sum over members", CONT)],
  observe=["log_abs_det_freeing_jacobian", "log_abs_det_unfreeing_jacobian"])

p("C11", "Flat indices identify exactly the selected entries",
  "For every pattern and boolean mask, the non-free flat indices are exactly the positions of the selected entries in the non-free flat vector, each once, in flat order. The free flat indices are distinct, in range and contain every free entry on which a selected entry of the folded value depends: changing free entries outside them leaves the selected entries unchanged. They are exact for numeric arrays, confined to the simplexes, matrices and container members containing a selected entry, and an empty mask gives an empty integer index array. A mask selecting something, but of the wrong shape at some member or lacking one, is rejected with ValueError.",
  ["inputs", "configurations"], "Every pattern and nesting, every mask, both parameterizations.",
  "Tests check single-entry masks on four patterns, only that dependence is not under-reported, at one value.",
  ALL, [("flat_indices of each pattern", NUM), ("offset accumulation", CONT)],
  observe=["flat_indices"])

p("C12", "Empty, random and boolean folded values have the right structure and are valid",
  "For every pattern, the valid empty value and every random value satisfy the pattern's constraints and validation, the unfilled empty value has the same structure and shapes, and the boolean value contains the requested truth value at every entry with the pattern's structure. The returned values are fresh: their entries can be filled in one by one, and modifying one does not affect later ones. The reported shape, bounds, sizes and lengths are those the pattern was constructed with.",
  ["inputs", "configurations"], "Every pattern configuration including one-sided and narrow bounds and large diagonal bounds, every random state.",
  "Tests call these on a few patterns without checking the result.",
  ALL, [("empty / empty_bool / random", BASE), ("in-bounds fill", NUM)],
  observe=["empty", "random", "empty_bool", "shape", "bounds"])

p("C13", "Flat names label each flat entry once and in order",
  "For every pattern, the flat names are strings, one per flat entry in the chosen parameterization and in the same order, and distinct within a pattern. For numeric arrays the name is the bracketed index of the entry, and for a dictionary each name is the member's key, the delimiter, and the member's own name for that entry.",
  ["inputs", "configurations"], "Every pattern and nesting, both parameterizations, every delimiter; distinctness for keys whose delimited names do not collide.",
  "The existing tests never call this method.",
  [NUM, BASE, CONT], [("flat_names", NUM), ("flat_names", CONT), ("flat_names", BASE)],
  observe=["flat_names"])

p("C14", "A pattern dictionary tracks every edit, and a locked one cannot change",
  "After any sequence of insertions, replacements and deletions, a pattern dictionary has exactly the keys, order (replacement keeps position), lengths, layout and equality of a dictionary built directly from its current contents, including when it has become empty. Once locked, explicitly or by being inserted into another dictionary, every insertion, replacement and deletion raises ValueError and leaves it unchanged. Rejected operations, and deletions of missing keys, change nothing.",
  ["histories"], "Every sequence of insert, replace, delete, lock, nest, copy and serialize operations.",
  "One test performs one fixed sequence of five edits.",
  [CONT], [("__setitem__/__delitem__/lock", CONT)],
  state=[("member patterns and lock flag", "contents of the dictionary", CONT), ("_flat_length/_free_flat_length", "cached lengths", BASE)],
  observe=["keys", "flat_length", "fold", "flatten", "=="])

p("C15", "Pattern operations are pure: no side effects, no aliasing, no memory",
  "No pattern operation modifies its arguments or changes the pattern, and each result depends only on the pattern's configuration and the arguments: repeating or interleaving calls in any order, on one instance or a fresh equal one, gives the same results. Flattened vectors and free-folded values never share memory with the input, so modifying a result affects neither the input nor any later result. No operation changes numpy's error handling or print options or the warning filters, and only random values draw from the random number generator.",
  ["histories", "inputs"], "Every sequence of fold, flatten, validate, index, Jacobian, naming, empty-value and serialization calls with varying arguments on one pattern instance.",
  "Tests call each operation on fresh patterns once or twice and never inspect the inputs afterwards.",
  ALL, [("copies in fold/flatten", NUM), ("cached index arrays", NUM)],
  observe=["all Pattern methods"])

p("C16", "Input-transformed functions equal the original on transformed arguments",
  "For every function, every set of argument positions in any order with their patterns and per-pattern parameterizations, the transformed function called on flat (or folded) arguments returns what the original returns when the arguments at those positions are folded (or flattened) with the corresponding pattern. Every other positional argument and all keyword arguments are passed through untouched and in place. Duplicated positions, mismatched numbers of positions and patterns, and multi-dimensional patterns or positions raise ValueError.",
  ["inputs", "programs"], "Every function arity, subset and order of argument positions, patterns, parameterizations (also unspecified, deferring to the pattern's default), keyword arguments, and both directions.",
  "Tests use at most two patterns in four positions and scalar-valued sums that cannot distinguish swapped untouched arguments.",
  [FUN], [("TransformFunctionInput", FUN), ("FoldFunctionInput / FlattenFunctionInput", FUN)],
  observe=["TransformFunctionInput.__call__"])

p("C17", "Output-transformed functions equal the transformed original outputs",
  "For every function, every set of return positions in any order with their patterns and per-pattern parameterizations, the transformed function returns what the original returns with the values at those positions folded (or flattened) and every other value untouched and in place; a single (non-tuple) return value stays single. Wrappers of both input and output equal the composition of the two transformations. Too few return values for the requested positions, duplicated positions, and mismatched counts raise ValueError, for any callable.",
  ["inputs", "programs"], "Every number of return values, subset and order of return positions, patterns, parameterizations, both directions, and combined wrappers.",
  "Tests use at most two patterns in four positions and never trigger the run-time errors; combined wrappers are tested with one pattern.",
  [FUN], [("TransformFunctionOutput", FUN), ("FoldFunctionInputAndOutput / FlattenFunctionInputAndOutput", FUN)],
  observe=["TransformFunctionOutput.__call__"])

p("C18", "Flattened functions are differentiable to all orders used in optimization",
  "For every pattern and smooth function of its folded value, automatic differentiation of the flattened function gives its true gradient and Hessian at every interior point, in both parameterizations, and forward-mode and reverse-mode derivatives agree. This includes wrappers of several arguments or several returned values, in any order and with untransformed ones in between. Likewise the derivative of a function of the flattened vector, taken with respect to the folded value of a single (non-dictionary) pattern, is the true one along directions that stay within the constraint set.",
  ["inputs", "programs"], "Every pattern and nesting, interior point and smooth function from a parametric family.",
  "Tests differentiate one dictionary pattern at one random point.",
  ALL + [FUN], [("custom vjp/jvp of triangular packing", PSD), ("autograd-compatible transforms", NUM), ("logsumexp", SIMP)],
  observe=["autograd.grad", "autograd.hessian", "autograd.make_jvp"])

p("C19", "Supplied forward-mode derivatives are correct",
  "For matrix inverse, linear solve (in either argument, with vector, matrix and stacked right-hand sides), log determinant, and the gamma-family special functions, the forward-mode derivative equals the true directional derivative and agrees with reverse mode, at every nonsingular point and direction, also when differentiated twice; where stacks of matrices are not supported (the log determinant) it is refused, never wrong. The differentiable keepdims log-sum-exp equals the exact log-sum-exp along any axis without overflow, with correct derivatives.",
  ["inputs"], "Every well-conditioned matrix (nonsymmetric, negative determinant, stacked), right-hand side shape, positive and negative non-integer special-function arguments, and tangent direction.",
  "Tests check one random matrix per shape and special functions only on [2.5, 3.5].",
  [AUTO, SIMP], [("defjvp registrations", AUTO), ("logsumexp", SIMP)],
  observe=["autograd.make_jvp", "autograd.numpy.linalg", "autograd.scipy.special"])

p("C20", "Grouped sums and element replacement compute and differentiate exactly",
  "For an array of any dimension and any assignment of its rows to groups (in any order, with gaps, repeated or missing groups, with or without a declared number of groups) the grouped sum has one row per group holding the sum of that group's rows, and raises ValueError for mismatched lengths, multi-dimensional groups or a group index beyond the declared number. Replacement returns a new vector equal to the original except at the given distinct indices, never modifying its arguments. Both have exact forward and reverse derivatives in every numeric argument, to second order and beyond.",
  ["inputs"], "Every array shape, group assignment, number of groups, index set (negative, unsorted) and tangent.",
  "Tests use one sorted, gapless grouping and one index set.",
  [AUTO], [("grouped_sum", AUTO), ("replace", AUTO)],
  observe=["grouped_sum", "replace"])

p("C21", "Sparse products and solvers compute and differentiate exactly",
  "For every (sparse or dense) matrix, the product functions multiply by the matrix and by its transpose, for vectors and matrices of right-hand sides, and reject non-two-dimensional matrices and arguments of more than two dimensions with ValueError. The differentiable solvers return what the supplied solvers return. All four have exact forward and reverse derivatives to any order, for non-symmetric and (for products) non-square matrices, and functions built from different matrices do not interfere.",
  ["inputs", "histories"], "Every matrix, sparsity pattern, sparse format and argument; several product or solver pairs used in any interleaving.",
  "Tests check one random matrix of each kind; the transposed product's derivatives are never checked.",
  [AUTO], [("get_sparse_product", AUTO), ("get_differentiable_solver", AUTO)],
  observe=["get_sparse_product", "get_differentiable_solver"])

p("C22", "A preconditioned function is the original function in transformed coordinates",
  "After any sequence of preconditioner settings (identity, dense or sparse matrix with or without its inverse, or a pair of functions), the last one is in force: the preconditioned function at a point equals the original at the preconditioner times that point, preconditioning and unpreconditioning are mutually inverse, and the reported matrices are the preconditioner and its inverse. Gradients and Hessians of the preconditioned function follow the chain rule. The consistency check raises ValueError when the supplied inverse does not invert the preconditioner at the given vector, and passes when it does.",
  ["histories", "inputs"], "Every sequence of settings, every well-conditioned (also non-symmetric, one-dimensional) preconditioner, and point.",
  "The test uses one symmetric five-dimensional matrix, for which transposition errors are invisible.",
  [OPT], [("PreconditionedFunction", OPT)],
  state=[("_a_times/_a_inv_times", "current preconditioner", OPT)],
  observe=["PreconditionedFunction.__call__", "precondition", "unprecondition", "get_preconditioner"])

p("C23", "Hessian preconditioners are inverse square roots of the truncated Hessian",
  "Setting the preconditioner from a symmetric matrix, or from the Hessian at a point, makes the preconditioner a symmetric inverse square root of that matrix with its eigenvalues clamped to the given limits, returns that clamped matrix, and so turns an untruncated positive definite Hessian into the identity in preconditioned coordinates. Eigenvalue truncation clamps elementwise without modifying its argument, for integer and real input. Transforming an eigenspace gives the linear map with the transformed eigenvalues on the given eigenvectors and the identity on their complement; giving both or neither of point and matrix raises ValueError, and sparse matrices raise NotImplementedError.",
  ["inputs", "configurations"], "Every symmetric matrix (indefinite when a positive lower limit is given), limits, partial eigenspaces, eigenvalue transforms and vectors.",
  "Tests use one nearly diagonal matrix with limits at fixed quantiles and one eigenspace.",
  [OPT], [("set_preconditioner_with_hessian", OPT), ("truncate_eigenvalues", OPT), ("transform_eigenspace", OPT)],
  observe=["set_preconditioner_with_hessian", "truncate_eigenvalues", "transform_eigenspace"])

p("C24", "Sparse square-root functions factor the sparse Hessian",
  "For every sparse symmetric positive definite matrix, whatever its sparsity pattern and fill-reducing ordering, the two returned functions are linear, mutually inverse, and the first one's matrix R satisfies R'R = H. Both are differentiable in forward and reverse mode, and used as preconditioner functions (inverse first) they turn a function with Hessian H into one with identity Hessian. A dense argument raises ValueError.",
  ["inputs"], "Every sparse symmetric positive definite matrix, dimension and vector.",
  "The test uses one fully dense matrix, where the ordering is trivial and the square root of the permuted matrix is never exercised through the public function.",
  [SPARSE, AUTO], [("get_sym_matrix_inv_sqrt_funcs", SPARSE)],
  observe=["get_sym_matrix_inv_sqrt_funcs"])

p("C25", "The optimization objective reports, prints and logs every due evaluation",
  "Through any sequence of evaluations, derivative calls, cadence changes and resets, the objective's value and derivatives are those of the wrapped function, and the iteration count is the number of completed function evaluations since the last count reset. Exactly the evaluations whose count is a multiple of the (positive) print or log interval are printed or logged, through the overridable hooks, with that count, argument and value; derivative calls and failed evaluations neither count, print nor log, and resets clear exactly what they name. Log entries are a lasting record: they hold the argument and value at the time of evaluation even if the caller later modifies the argument, or an array that it contains, in place.",
  ["histories"], "Every sequence of f, grad, hessian, hessian_vector_product, interval changes, partial and full resets, failing evaluations and in-place changes of the argument.",
  "Tests run a few fixed sequences, check only counts of prints and logs, and never look at the content of the log.",
  [OPT], [("OptimizationObjective.f", OPT)],
  state=[("_num_f_evals", "evaluation count", OPT), ("optimization_log", "log", OPT)],
  observe=["f", "grad", "hessian", "hessian_vector_product", "num_iterations", "optimization_log"])

p("C26", "Optimizing the flattened objective solves the constrained problem",
  "For every pattern and every smooth objective of the folded value with a single stationary point, interior to the constraint set, the free-flattened objective has its stationary point and minimum at that value's free vector and nowhere else, preconditioned or not; minimizing it without constraints, from any moderate start and with any mix of the optimization objective's value, gradient, Hessian and Hessian-vector products, ends at that value. Every folded value that the objective receives on the way satisfies the constraints. The log is a faithful record of the evaluations made.",
  ["inputs", "configurations", "histories"], "Every pattern and nesting, interior target, start, preconditioner (dense, sparse, from a Hessian or a pair of functions) and optimizer (trust region with Hessians or products, Newton-CG, quasi-Newton).",
  "Tests never optimize a constrained parameter, and check derivatives, preconditioners and logs one at a time on an unconstrained quadratic.",
  [FUN, OPT, SPARSE] + ALL, [("FlattenFunctionInput", FUN), ("PreconditionedFunction", OPT), ("OptimizationObjective", OPT)],
  state=[("optimization_log", "log", OPT)],
  observe=["FlattenFunctionInput", "PreconditionedFunction", "OptimizationObjective"])

p("C27", "Invalid configurations are refused and changed settings take effect",
  "A numeric array whose lower bound is not strictly below its upper bound or is not a number, a matrix with a negative diagonal lower bound, a simplex of fewer than two entries and an array of dictionaries are refused with an error, whether constructed directly or from JSON; every configuration within those limits is accepted, and reported as given. A request for the flat indices of a mask that selects something but has a wrong shape or lacks a key at any member raises ValueError. Changing the default validation or default parameterization of a pattern or any of its members takes effect at once: the pattern then validates, compares and serializes like one constructed with the new settings.",
  ["configurations", "inputs", "histories"], "Every configuration at or next to a limit, every pattern inside an array, every wrong structure at any member, every sequence of setting changes on any pattern of a nested one.",
  "Tests try one bad pair of bounds and never change a setting of a member of a container.",
  ALL, [("constructors", NUM), ("constructors", PSD), ("constructors", SIMP), ("flat_indices", CONT), ("default_validate", NUM)],
  state=[("default_validate", "validation default", NUM), ("free_default", "parameterization default", BASE)],
  observe=["constructors", "from_json", "flat_indices", "validate_folded", "Pattern.__eq__"])

p("C28", "Calls are independent of each other: no memory, no shared scratch space",
  "Every callable of the library (every pattern operation, input- or output-transformed functions, preconditioned functions, optimization objectives' values and derivatives, sparse products, differentiable solvers, square-root functions, grouped sums, replacement, eigenvalue truncation and transforms) returns at every call what a newly built one returns for the present contents of its arguments, whatever was called before: also when the caller has changed the same argument arrays in place since the last call, when a call is made in the middle of another call of the same callable (interleaved execution, or an original function that calls its own wrapper), inside the evaluation of a derivative, or after a call that ended in an exception. Results returned earlier do not change (non-free folding may return a view of its argument).",
  ["histories", "schedules", "inputs"], "Every sequence of calls on the same, modified argument arrays; every point at which one call can be interrupted by others; every depth of recursion.",
  "Tests use new arrays for every call, never modify one in place, and never nest or interleave calls.",
  ALL + [FUN, OPT, AUTO, SPARSE], [("TransformFunctionInput.__call__", FUN), ("PreconditionedFunction.__call__", OPT), ("PatternDict.fold", CONT)],
  observe=["Pattern.fold", "Pattern.flatten", "TransformFunctionInput.__call__", "PreconditionedFunction.__call__", "OptimizationObjective.f"])

p("C29", "Patterns derived from Pattern by the user work like the built-in ones",
  "A class derived from the abstract Pattern that implements its abstract methods (and passes its two lengths and free default to the constructor) inherits working lengths, parameterization defaults, random and Boolean values, names, equality, JSON encoding and decoding, and freeing and unfreeing Jacobians that are the derivatives of its own maps, in both formats; a class that lacks one of the abstract methods cannot be instantiated. Its patterns can be used everywhere the built-in ones can (as members of nested dictionaries next to built-in members, in arrays of patterns if they fold to arrays, in files, and in input and output wrappers), whatever their folded values are, whether they have more, fewer or no free entries, and whatever other methods they define (such as those of a sequence): layout, flat indices, block Jacobians, validation, equality and decoding follow from the members'. Anything that is not a pattern is refused as a member of a dictionary.",
  ["inputs", "configurations"], "Every user-defined class (arrays, tuples or dictionaries as folded values; any two lengths), size, default and nesting with built-in patterns, and every value.",
  "The tests derive no class from Pattern except one to be registered for JSON; the base class defaults are only run where a built-in pattern happens not to override them.",
  [BASE, CONT, FUN], [("Pattern defaults", BASE), ("PatternDict", CONT), ("PatternArray", CONT), ("TransformFunctionInput", FUN)],
  observe=["Pattern.flat_length", "Pattern.random", "Pattern.empty_bool", "Pattern.freeing_jacobian", "Pattern.to_json", "PatternDict", "PatternArray"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
