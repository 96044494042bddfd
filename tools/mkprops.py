"""Writes /verif/properties.jsonl (kept as code so the statements are easy to edit and diff)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["copt/" + f if not f.startswith("/") else f[1:] for f in files],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
SOLV = ["frank_wolfe.py", "proximal_gradient.py", "splitting.py", "randomized.py"]

p("C01", "Arrays passed by the caller are never modified",
  "No solver, loss, penalty, constraint, total-variation or sparse-product routine changes the contents of an array the caller passed in (starting point, data matrix, targets, evaluation point, gradient returned by the user's function). The only exceptions are the in-place sparse proximal kernels, which update exactly the iterate they are documented to update.",
  ["inputs", "configurations"], "all public routines, all option combinations, all argument arrays, including user proximal operators that return their own argument",
  "Tests pass fresh np.zeros arrays and never look at them again; aliasing shows only when the caller reuses an array, under one option or with an operator that returns its argument.",
  SOLV + ["loss.py", "penalty.py", "constraint.py", "tv_prox.py", "utils.py"],
  [("defensive copies of x0 and of operands updated in place", "copt/frank_wolfe.py:minimize_frank_wolfe, copt/randomized.py:minimize_vrtos, copt/penalty.py:GroupL1.prox, copt/constraint.py:L1Ball.lmo")],
  observe=["contents of the arguments after the call returns"])
p("C02", "Integer or list-valued inputs are never silently truncated",
  "Every solver accepts a starting point given as a list, a tuple or an array of any real dtype and returns the floating-point result it returns for the same values given as floats. Proximal operators and linear minimization oracles likewise never store a fractional result into an integer array.",
  ["inputs", "configurations"], "all starting-point dtypes and container types, all solvers and option combinations, all operators",
  "Only two tests pass an integer list, both to Frank-Wolfe; the other solvers are tested with np.zeros, for which the dtype is already right.",
  SOLV + ["penalty.py", "constraint.py", "tv_prox.py"],
  [("conversion of x0 to a float array before the first in-place update", "every minimize_* in copt/"), ("allocation dtype of result buffers", "copt/penalty.py, copt/constraint.py, copt/tv_prox.py")], observe=["OptimizeResult.x", "return value of prox and lmo"])
p("C03", "No reachable code refers to something that does not exist",
  "No public routine can fail because it names a variable, module attribute, library function or method that does not exist with the supported dependency versions.",
  ["inputs", "configurations"], "every statement of every module of the package that can be reached under some input",
  "Missing names fail only when executed; whole branches (feasible-point shortcuts, finite differences, dataset loaders) are never run by the tests.",
  SOLV + ["loss.py", "penalty.py", "constraint.py", "tv_prox.py", "utils.py", "datasets.py"],
  [("imports and attribute chains", "every module of copt/")], observe=["AttributeError, NameError, ImportError"])
p("C04", "Every accepted configuration runs without reading an unset value",
  "For every combination of documented options and every non-negative iteration budget, including zero, each solver and helper either returns normally or raises its own ValueError; it never reads a local variable that the path taken has not assigned.",
  ["configurations", "inputs"], "product of all option values and presence/absence of optional arguments; iteration budgets including zero; line searches that succeed at once, late, or never",
  "Tests run a handful of option combinations, always with a positive budget and a line search that succeeds.",
  SOLV + ["loss.py", "penalty.py", "constraint.py", "tv_prox.py", "utils.py", "datasets.py"],
  [("initialisation of loop counters, certificates and step rules before loops and dispatches", "every minimize_* in copt/")], observe=["UnboundLocalError"])
p("C05", "Operators fit the call protocol of the solvers that accept them",
  "Every linear minimization oracle of the library can be called by the Frank-Wolfe solvers (direction, point, active set) and returns direction, two vertex representations and a maximum step. Every proximal operator can be called as prox(x, step), every sparse kernel with the six arguments the stochastic solvers pass, every loss as f(x), f_grad(x) and f_grad(x, return_gradient=False), the latter returning a scalar and the former a pair.",
  ["programs", "configurations"], "every pairing of a solver with an operator, loss or oracle of the matching kind shipped in the library",
  "Tests pair each solver with one or two operators; several shipped operators (simplex, L2, L-infinity) are never used by any test.",
  ["constraint.py", "penalty.py", "loss.py", "frank_wolfe.py", "randomized.py", "splitting.py", "proximal_gradient.py"],
  [("signatures and returned tuples of lmo, prox, prox_factory, f_grad", "copt/constraint.py, copt/penalty.py, copt/loss.py"), ("call sites in the solvers", "copt/frank_wolfe.py, copt/randomized.py")], observe=["TypeError / ValueError on unpacking"])
p("C06", "Every routine does a bounded amount of work",
  "Every solver, line search and operator terminates after a number of iterations bounded by its iteration budgets or by the size of its input, whatever the user's functions return (including NaN). No loop depends only on a floating-point test to stop. (The retry of a download that keeps arriving corrupted is not covered.)",
  ["inputs", "fault_sequences"], "all user objective, gradient, proximal and step functions, including ones returning NaN or inconsistent values",
  "Termination is a statement about every input; tests only use well-behaved convex losses for which every line search succeeds quickly.",
  SOLV + ["tv_prox.py", "penalty.py", "utils.py", "datasets.py"],
  [("iteration counters and budgets", "copt/proximal_gradient.py, copt/splitting.py, copt/frank_wolfe.py:backtracking_step_size, copt/utils.py:init_lipschitz"), ("index progress in the taut-string loops", "copt/tv_prox.py:_prox_tv1d")], observe=["call returns"])
p("C07", "Reported success means the stopping test passed, and stops the solver",
  "Every solver's result has a boolean success that is True only if the solver ended because its stopping quantity fell below tol, and False when it ran out of budget or was stopped by the callback. Once the stopping test passes, the solver performs no further iteration and reports success.",
  ["inputs", "configurations", "histories"], "all objectives, tolerances, budgets and option combinations",
  "Tests check success twice in total and never compare it with the certificate; early stopping and exhaustion are not exercised for most solvers.",
  SOLV, [("success flag, comparison of the certificate with tol and the following exit", "every minimize_* in copt/")],
  [("success / certificate", "outcome flag and stopping quantity", "locals of every minimize_*")], ["OptimizeResult.success", "OptimizeResult.certificate", "OptimizeResult.nit"])
p("C08", "Callbacks see the current iterate and can stop the solver",
  "Every solver that takes a callback calls it at every iteration with a mapping that contains the current iterate under 'x' and a current step size under 'step_size', so the library's own Trace works with every solver. For Frank-Wolfe, proximal-gradient (plain and accelerated), three-operator and primal-dual solvers, a callback returning False ends the run: no later update of the iterate takes place.",
  ["configurations", "histories"], "all solvers, all option combinations, callback returning False at any iteration",
  "Tests stop at the first iteration only, for five solvers in their default configuration; Trace is never used with some solvers.",
  SOLV + ["utils.py"], [("callback(locals()) calls and the test for False", "every minimize_* in copt/"), ("keys read by Trace", "copt/utils.py:Trace.__call__")], observe=["arguments of the callback", "OptimizeResult.x after a False"])
p("C09", "Unknown option values are rejected, never ignored",
  "Passing a value outside the documented set for a string-valued or mode option (step, step_size, variant, lmo_variant, jac, subset) raises an error before the solver returns; it never silently runs another strategy or returns the starting point. Options that require a companion argument (Lipschitz constant for the Demyanov-Rubinov step) raise ValueError when it is missing, and negative or zero line-search budgets are rejected.",
  ["inputs", "configurations"], "all values outside the documented set, in combination with all values of the other options",
  "Tests check one missing companion argument; no test passes an unknown option value.",
  ["frank_wolfe.py", "proximal_gradient.py", "randomized.py", "splitting.py", "utils.py", "datasets.py"],
  [("dispatch chains on option strings and their final else", "copt/frank_wolfe.py, copt/proximal_gradient.py, copt/randomized.py:minimize_sfw, copt/utils.py:build_func_grad")], observe=["ValueError / NotImplementedError"])
p("C10", "Extra arguments reach every evaluation of the user's functions",
  "Whenever a solver evaluates the user's objective, gradient or proximal operators, it passes the extra positional arguments the user supplied for them (args, args_prox), on every code path including line searches, certificates, step-size initialisation and finite differences. Gradients are obtained from the source the user selected (jac): the callable, the pair returned by the function, or finite differences of the function with the given eps.",
  ["configurations", "inputs"], "all call sites of user functions, all option combinations",
  "One test passes args (to one solver, one jac mode); args_prox and finite differences are never used.",
  ["utils.py", "proximal_gradient.py", "frank_wolfe.py", "splitting.py"], [("closures wrapping the user's functions", "copt/utils.py:build_func_grad"), ("*args_prox at proximal calls", "copt/splitting.py:minimize_three_split")], observe=["arguments received by the user's functions"])
p("C11", "Every step uses the gradient of the point it starts from",
  "Whenever a deterministic solver takes a gradient, proximal or Frank-Wolfe step from a point, the gradient used is that of the user's function at exactly that point, never a stale one, on every path including after a line search that failed. Line-search acceptance tests compare the objective at the candidate actually accepted with the model built at the current point.",
  ["inputs", "histories", "configurations"], "all sequences of accepted and rejected line-search trials, including exhausted ones, all option combinations",
  "A stale gradient only slows or perturbs convergence on well-conditioned test problems; exhausted line searches never occur in the tests.",
  ["frank_wolfe.py", "proximal_gradient.py", "splitting.py", "utils.py"], [("cached function values and gradients carried across iterations", "fk/grad_fk, f_next/grad_next, f_t/grad in the solvers")],
  [("grad_fk, grad", "gradient at the current iterate", "copt/proximal_gradient.py, copt/splitting.py, copt/frank_wolfe.py")], ["sequence of points at which the user's functions are evaluated and steps are taken"])
p("C12", "A proximal operator is called with the step size of its forward step",
  "At every proximal call made by the deterministic splitting solvers, the step size handed to the operator is the same value that multiplies the gradient (or dual variable) in the point handed to it. The same holds when a line search changes the step size: point and parameter are always recomputed together.",
  ["configurations", "histories"], "all proximal calls, all option combinations and line-search histories",
  "With the tiny regularisation used in the tests the wrong parameter moves the solution by less than the tolerances.",
  ["proximal_gradient.py", "splitting.py"], [("prox(x - s * g, s) call sites", "copt/proximal_gradient.py, copt/splitting.py"), ("Moreau identity for the conjugate", "copt/splitting.py:minimize_primal_dual")], observe=["arguments received by the user's proximal operators"])
p("C13", "Results are covariant under a change of units",
  "Re-expressing the variable or the objective in other units (x -> a x, f -> c f, with regularisation strengths, radii, step sizes, Lipschitz constants and dual scales re-expressed accordingly) re-expresses every quantity the library computes by the corresponding factor: losses, gradients, Lipschitz constants, proximal points, projections, oracle directions, step sizes, line-search decisions and iterates. Hence every formula combines only quantities of the same dimension, each strength, radius or step size entering with its proper power. (The primal-dual solver measures primal and dual variables with one norm and one pair of steps; it is held only to the scalings x -> a x, L x -> a L x, f -> a^2 f.)",
  ["inputs", "configurations"], "all scalings, all data, all options; absolute numerical tolerances are excluded",
  "The tests use unit strength, unit step and identity operators, for which a missing or duplicated factor is invisible.",
  SOLV + ["loss.py", "penalty.py", "constraint.py", "tv_prox.py", "utils.py"], [("arithmetic of losses, operators, step-size rules and line-search tests", "all modules")], observe=["return values of all public routines"])
p("C14", "Losses are averages: replicating the data changes nothing",
  "Duplicating every sample leaves the value, gradient, Hessian-vector products and Lipschitz constants of each loss unchanged, with the regularisation term counted once. Data terms are divided by the number of samples exactly once and regularisation terms never.",
  ["inputs"], "all data sets, dense or sparse, all regularisation strengths, with and without intercept",
  "The derivative tests use one data set and zero regularisation for the Hessian, so a mis-scaled term cancels or vanishes.",
  ["loss.py", "utils.py"], [("normalisation by the number of samples", "copt/loss.py")], observe=["LogLoss, SquareLoss, HuberLoss: value, f_grad, hessian_mv, hessian_trace, lipschitz, max_lipschitz"])
p("C15", "Sparse kernels use every index in its own index space",
  "In the stochastic solvers, the sparse products and the block proximal kernels, positions, samples, features and blocks are never confused: row pointers are indexed by rows, column indices by positions, iterates and gradients by features, gradient memory and targets by samples, block weights by blocks. Consequently results do not depend on blocks and features happening to coincide, and no access falls outside its array for any sparsity pattern, including empty trailing columns or blocks.",
  ["inputs", "configurations"], "all sparsity patterns and block structures, all stochastic solvers and kernels",
  "Most tests use one-feature blocks, for which block and feature numbers coincide, and matrices without empty columns.",
  ["randomized.py", "utils.py", "penalty.py"], [("CSR traversal loops and block supports", "copt/randomized.py, copt/utils.py, copt/penalty.py")],
  [("A_indptr, A_indices, bs_indptr, bs_indices, d, blocks_indptr", "CSR structure of data, block support and block weights", "copt/randomized.py")], ["iterates", "IndexError or out-of-bounds access under the JIT"])
p("C16", "A sample's update never sees leftovers of another sample",
  "In the variance-reduced solvers, the gradient correction applied for one sample depends only on that sample's data and the solver's memory; scratch space used for it is clean whenever a sample is processed, for every block structure. Gradient memory and the running average are updated together, by the same correction.",
  ["inputs", "histories"], "all sample orders, sparsity patterns and block structures",
  "With one-feature blocks every scratch entry read was just written, so a missing reset cannot be seen by the tests that use them.",
  ["randomized.py"], [("reset of the scratch gradient at the end of each sample", "copt/randomized.py:_saga_epoch, _svrg_epoch, epoch_iteration_template")], [("grad_tmp", "scratch gradient", "copt/randomized.py"), ("memory_gradient, gradient_average", "gradient memory", "copt/randomized.py")], ["iterates"])
p("C17", "Logistic loss and derivatives are finite for every finite margin",
  "The logistic loss, its gradient and its scalar derivative never overflow and cover the whole real line: exponentials are only taken of arguments bounded above by a small constant, and every margin is handled by some case.",
  ["inputs"], "all finite margins and targets",
  "Tests evaluate random margins of order one.",
  ["loss.py"], [("sign split and thresholds", "copt/loss.py:LogLoss.logsig, expit_b, partial_deriv")], observe=["overflow warnings, inf, NaN"])
p("C18", "Pairwise Frank-Wolfe keeps an exact decomposition of the iterate",
  "In pairwise mode the recorded active set always represents the iterate: each step moves exactly the step size of weight from the away vertex to the Frank-Wolfe vertex that the direction joins, vertices whose weight reaches zero disappear and are not brought back by bookkeeping reads, and a step larger than the away weight is rejected. The representation returned by the oracle identifies the vertex it used, and its maximum step is the weight of the away vertex.",
  ["histories", "inputs"], "all sequences of steps including drop steps, all oracles with vertex representations, batch and stochastic solvers",
  "No test reads the active set; stale zero-weight vertices only waste iterations.",
  ["frank_wolfe.py", "randomized.py", "constraint.py"], [("update_active_set", "copt/frank_wolfe.py"), ("L1Ball.lmo, L1Ball.lmo_pairwise", "copt/constraint.py")], [("active_set", "weights of the vertices", "copt/frank_wolfe.py, copt/randomized.py")], ["OptimizeResult.active_set"])
p("C19", "Built-in Frank-Wolfe step sizes stay between zero and the maximum step",
  "With the built-in step-size rules, every step taken by the Frank-Wolfe solver lies between zero and the maximum admissible step returned by the oracle (for the oblivious rules, here and in the stochastic solver: between zero and one; a step rule passed as a callable is the caller's), so that the iterate never leaves the constraint set. The same holds for the stochastic solver, whatever gradient estimator its direction came from.",
  ["inputs", "histories", "configurations"], "all objectives (including negative gaps from inconsistent gradient estimates), all Lipschitz estimates, all built-in step rules",
  "Tests only look at the end point with tolerance and never run the stochastic solver with the adaptive rule.",
  ["frank_wolfe.py", "randomized.py"], [("clipping by max_step_size", "copt/frank_wolfe.py:backtracking_step_size, minimize_frank_wolfe; copt/randomized.py:step_size_DR, step_size_sfw")], observe=["feasibility of iterates"])
p("C20", "Oracles return a vertex minus the current point",
  "The direction returned by a linear minimization oracle, added to the point it was given, is a vertex of the constraint set that does not depend on that point; for the pairwise oracle the direction is the difference of two vertices and does not depend on the point at all. The vertex is selected from the given direction vector only, has the radius of the set as magnitude, and for the simplex is non-negative.",
  ["inputs"], "all directions and points, including all-negative gradients and zero entries",
  "The simplex oracle is never tested; the others only through convergence of a solver started at zero or a vertex.",
  ["constraint.py"], [("lmo, lmo_pairwise", "copt/constraint.py")], observe=["return value of lmo"])
p("C21", "Loss value and gradient calls agree on every path",
  "For every loss class of the library, f(x), f_grad(x, return_gradient=False) and the first component of f_grad(x) are the same value, with and without intercept, regularisation, dense or sparse data; the pair form always returns a scalar and a flat gradient of the same dimension as x.",
  ["inputs", "configurations"], "all points, data representations and loss options",
  "Tests compare f with the gradient of f_grad by finite differences on one configuration; intercept is never switched on.",
  ["loss.py", "utils_pytorch.py", "utils.py"], [("f_grad and __call__", "copt/loss.py")], observe=["return values"])
p("C22", "Dataset loaders verify downloads before use and never mix datasets",
  "A loader that knows the checksum of its file never parses, unpacks or returns the content of a freshly downloaded file before the checksum has been found equal; on mismatch it discards the file and either retries the same dataset or fails. No loader ever returns another dataset's content, and no member of a downloaded archive is written outside the data directory.",
  ["fault_sequences", "inputs"], "all contents a download can deliver, corrupted or hostile, all loaders",
  "The loaders need the network; no test runs them.",
  ["datasets.py"], [("md5 comparison, removal and retry", "copt/datasets.py:load_url, load_kdd10, load_kdd12, load_criteo"), ("archive extraction", "copt/datasets.py:_load_dataset, load_criteo")], observe=["files written", "returned data"])
p("C23", "Cached datasets are read back as they were written",
  "Each array written to the dataset cache is read back from the same file into the same role (values, column indices, row pointers, targets), loaders share no cache file, and the train, test and full subsets return the corresponding files, training part first.",
  ["histories", "configurations"], "first and later calls of every loader, all subsets",
  "No test runs the loaders, and a swap of indices and pointers or of train and test is silent.",
  ["datasets.py"], [("np.save / np.load path tables and csr_matrix triplets", "copt/datasets.py")], observe=["returned (X, y)"])
p("C24", "Dimensions keep their roles in image and matrix code",
  "Row and column counts are never exchanged: an image or matrix of n_rows by n_cols is reshaped, traversed, penalised and returned with n_rows along its first axis and n_cols along its second, in the total-variation operators, the trace-norm operators and the sample image.",
  ["inputs"], "all rectangular shapes",
  "Tests use square images almost everywhere.",
  ["tv_prox.py", "penalty.py", "constraint.py", "datasets.py"], [("reshape, axis loops and argument order", "copt/tv_prox.py, copt/penalty.py:TotalVariation2D, copt/datasets.py:load_img1")], observe=["shape and values of results for non-square input"])
p("C25", "Running out of budget is announced",
  "Where a solver or operator has a warning for ending without reaching its tolerance, that warning is actually issued whenever the iteration or line-search budget is exhausted, and is not issued when the tolerance was reached.",
  ["inputs", "histories"], "all runs that exhaust a budget, all runs that converge",
  "The test configuration silences these warnings and no test asserts them.",
  ["proximal_gradient.py", "splitting.py", "frank_wolfe.py", "tv_prox.py"], [("warnings.warn after loops", "copt/proximal_gradient.py, copt/splitting.py, copt/frank_wolfe.py:backtracking_step_size, copt/tv_prox.py:c_prox_tv2d")], observe=["warnings"])
p("C26", "All randomness comes from NumPy's global generator",
  "Deterministic solvers, losses, penalties and constraints draw no random numbers and read no clock; the stochastic solvers draw only from NumPy's global generator, so a run is reproducible from its seed. No routine reseeds the generator. (A private generator with a fixed seed counts as deterministic.)",
  ["inputs", "histories"], "all routines, all runs of the pure-Python kernels",
  "Tests check convergence, not reproducibility.",
  SOLV + ["loss.py", "penalty.py", "constraint.py", "tv_prox.py", "utils.py"], [("np.random calls", "copt/randomized.py, copt/utils.py:sample_batches")], observe=["equality of two runs with the same seed"])
p("C27", "An epoch processes every sample exactly once",
  "Each epoch of the variance-reduced solvers visits every sample exactly once in a freshly drawn order, starting from the first epoch and regardless of callbacks (the call that compiles the kernel before the first epoch is not an epoch); the stochastic Frank-Wolfe solver draws, per epoch, indices over the whole sample range and consumes each drawn index exactly once, in batches sampled without replacement.",
  ["schedules", "configurations"], "all sample counts, batch sizes and random orders",
  "A skipped or repeated sample changes the limit by less than the tolerance on most test problems.",
  ["randomized.py", "utils.py"], [("index vectors, shuffles and batch slicing", "copt/randomized.py:minimize_saga, minimize_svrg, minimize_vrtos, minimize_sfw; copt/utils.py:sample_batches")], observe=["samples processed"])
p("C28", "Parallel kernels are free of data races",
  "In every kernel compiled for parallel execution, different iterations of the parallel loop write to disjoint locations and share no mutable scalar, so the result does not depend on the number of threads or their schedule.",
  ["schedules"], "all thread counts and interleavings of parallel loops",
  "Tests run the kernels serially in pure Python.",
  ["loss.py", "utils.py"], [("prange loops", "copt/loss.py:LogLoss.partial_deriv, copt/utils.py:sample_batches")], observe=["results under the JIT with several threads"])
p("C29", "Kernels mean the same compiled as interpreted",
  "Every kernel marked for compilation uses only constructs the JIT compiles with the same meaning, and captures only variables that are not modified or rebound once the kernel exists, so that results are the same with and without the JIT installed.",
  ["configurations", "programs"], "all kernels, with and without the JIT",
  "The test environment has no JIT, so an uncompilable kernel or a stale capture passes every test.",
  ["randomized.py", "loss.py", "penalty.py", "tv_prox.py", "utils.py"], [("njit-decorated functions and their closures", "copt/randomized.py, copt/penalty.py, copt/loss.py, copt/tv_prox.py, copt/utils.py")], observe=["numba typing errors", "results with JIT vs without"])
p("C30", "The documented API exists and its examples call it correctly",
  "Every public name listed in the documentation is reachable from `import copt`, every call of the library made by the shipped examples matches the signature of the function it calls, and the version number is the same everywhere it is declared.",
  ["programs"], "all names in doc/*.rst autosummary tables, all calls in examples/",
  "Documentation and examples are compiled but never executed by the tests, which import submodules explicitly.",
  ["__init__.py", "/setup.py"] + SOLV, [("imports in the package initialiser", "copt/__init__.py"), ("signatures", "copt/")], observe=["AttributeError / TypeError in user code"])
p("C31", "Every numerical control a routine accepts takes effect",
  "Every tolerance, budget, step size, factor, strength, radius, starting point or Lipschitz constant that a public routine accepts influences what it computes in each configuration in which it applies (the finite-difference width where no gradient is given; arguments that only name or decorate are not meant); none is silently replaced by a constant or dropped on some path.",
  ["configurations", "inputs"], "all parameters of all public routines in all configurations where they apply",
  "Tests mostly use defaults, for which a hard-coded constant is indistinguishable from the parameter.",
  SOLV + ["loss.py", "penalty.py", "constraint.py", "tv_prox.py", "utils.py"], [("data flow from parameters to results", "all public routines")], observe=["dependence of the result on the parameter"])
p("C32", "Any storage format of the data matrix is accepted alike",
  "Stochastic solvers and losses treat a data matrix given as a dense array or in any sparse format as the same matrix: compressed-row internals are only read after an explicit conversion to compressed-row format, and dimensions are taken from the matrix, never inferred from its last non-empty row or column.",
  ["inputs"], "dense arrays and all sparse formats, including matrices with empty trailing rows or columns",
  "Tests feed COO matrices to three solvers and dense arrays to the rest; CSC, which has the same attribute names with another meaning, only to one.",
  ["randomized.py", "loss.py", "utils.py", "penalty.py", "datasets.py"], [("csr_matrix conversions", "copt/randomized.py, copt/penalty.py, copt/datasets.py"), ("safe_sparse_dot / safe_sparse_add", "copt/loss.py, copt/utils.py")], observe=["results across formats"])
p("C33", "An interrupted download can be resumed",
  "If the process dies at any point while a dataset is being downloaded or unpacked, the next call of the loader either completes the job or returns the complete dataset; it never treats a partial file as the dataset and never fails because of the leftovers.",
  ["crash_points"], "all crash points inside the dataset loaders", "No test runs the loaders; crash points cannot be sampled by unit tests.",
  ["datasets.py"], [("existence tests used as completion markers", "copt/datasets.py")], observe=["result of the next call"])

p("C34", "The returned point is the output of the proximal operator",
  "The x returned by minimize_proximal_gradient is an output of prox, and the x returned by minimize_three_split and minimize_primal_dual is an output of prox_1, unmodified since that call (or a point the solver was started from when no iteration was made): so it is feasible when the term is a constraint, and exactly sparse when it is a sparsity penalty.",
  ["inputs", "histories"], "every stopping path, line-search outcome, acceleration and callback configuration",
  "Tests compare x with a tolerance, which extrapolated points and averages pass.",
  ["proximal_gradient.py", "splitting.py"], [("the last prox call before the result", "minimize_proximal_gradient, minimize_three_split, minimize_primal_dual")], observe=["OptimizeResult.x"])
p("C35", "The certificate reported with success is the one that was tested",
  "When a solver reports success, the certificate in its result is the very quantity that was found not to exceed tol; in minimize_frank_wolfe it is the Frank-Wolfe gap of the returned point, computed from the oracle call at that point.",
  ["inputs", "histories"], "all stopping paths, step-size rules, variants and callbacks",
  "Tests look at success and at x, rarely at the certificate, and never at which point it belongs to.",
  SOLV, [("the comparison with tol and the result built from it", "every minimize_* with a certificate")], observe=["OptimizeResult.certificate"])
p("C36", "Recorded histories are snapshots at the requested frequency",
  "utils.Trace records on calls 0, freq, 2 freq, ... (every call by default) and on no other: the iterate as a copy that later iterations do not change, and the objective value, step size and time of that same call; its lists belong to one Trace object, entries stay in call order, and calling it never stops the solver.",
  ["histories"], "all call sequences and frequencies", "Tests look at the length of a trace, not at whether its entries still hold the values of their iteration.",
  ["utils.py"], [("Trace.__call__", "copt/utils.py")], observe=["trace_x", "trace_fx", "trace_time", "trace_step_size"])
p("C37", "Calls leave no hidden state behind",
  "Apart from NumPy's random generator and the dataset cache on disk, no call changes module-level, class-level or process-wide state (including mutable default arguments): the result of a loss, penalty or constraint depends only on its arguments and on the current parameters of the object, whatever was evaluated before, and changing a parameter of an object takes effect at the next call.",
  ["histories"], "all histories of calls and parameter changes", "Each test builds fresh objects and calls them once or twice.",
  ["loss.py", "penalty.py", "constraint.py", "utils.py", "frank_wolfe.py", "proximal_gradient.py", "splitting.py", "randomized.py", "tv_prox.py"],
  [("every function of the package", "copt/*.py")], observe=["results of later calls"])
p("C38", "Line searches stop only at a sufficient decrease",
  "The line searches of minimize_proximal_gradient, minimize_three_split and minimize_frank_wolfe accept a trial point, unless their iterations are used up, only when the objective there is at most the quadratic upper bound f(z) + <grad f(z), d> + |d|^2 / (2 s) built from the value and gradient at the point z the step starts from, the displacement d to the trial point and the trial step size s or estimate 1 / s (up to a floating-point tolerance; a stricter bound is allowed).",
  ["inputs"], "all objectives, step sizes, trial numbers and iterations", "On the small well-conditioned problems of the tests almost any acceptance rule converges.",
  ["proximal_gradient.py", "splitting.py", "frank_wolfe.py"], [("the comparison that ends the inner loop", "minimize_proximal_gradient, minimize_three_split, backtracking_step_size")], observe=["accepted step sizes", "OptimizeResult.x"])

# properties that static analysis cannot decide here
p("N01", "Solvers converge to a minimiser",
  "For convex problems within a solver's assumptions, the iterates converge to a minimiser and the reported certificate tends to zero.",
  ["inputs", "histories"], "all convex objectives, operators and admissible step sizes", "Convergence is a limit statement over all problems; tests sample a few small ones.",
  SOLV, [("iteration formulas", "every minimize_*")], observe=["OptimizeResult.x"])
p("N02", "Proximal operators minimise their proximal objective",
  "prox(x, s) is the minimiser of g(u) + ||u - x||^2 / (2 s) for the penalty g it belongs to.", ["inputs"], "all vectors, step sizes, strengths, groups and shapes",
  "A first-order inequality is tested on random points with unit parameters.", ["penalty.py", "tv_prox.py", "constraint.py"], [("prox formulas", "copt/penalty.py, copt/tv_prox.py")], observe=["prox"])
p("N03", "Projections return the nearest feasible point",
  "Constraint operators return the Euclidean projection: a point of the set, nearest to the argument, and the argument itself when it is feasible.", ["inputs"], "all vectors and radii",
  "Only the trace ball is tested, through an inequality.", ["constraint.py"], [("sorting-based threshold", "copt/constraint.py:euclidean_proj_simplex")], observe=["prox"])
p("N04", "Gradients are derivatives of the values",
  "The gradient, Hessian product and scalar derivative of every loss are the derivatives of its value.", ["inputs"], "all points and data", "Finite differences at random points sample the domain.",
  ["loss.py"], [("f_grad, hessian_mv, partial_deriv", "copt/loss.py")], observe=["f_grad"])
p("N05", "Sparse kernels and dense operators compute the same proximal map",
  "Applied to all blocks, the sparse kernel of a penalty computes the same point as its dense proximal operator.", ["inputs"], "all vectors, blocks, weights", "Compared only through convergence of two solvers.",
  ["penalty.py"], [("prox and prox_factory", "copt/penalty.py")], observe=["prox", "kernel"])
p("N06", "Variance-reduced gradient estimates are unbiased",
  "Averaged over the choice of sample, the reweighted sparse estimate used by the stochastic solvers equals the full gradient.", ["inputs", "schedules"], "all data and block structures", "Expectation over all samples and histories.",
  ["randomized.py"], [("diagonal reweighting", "copt/randomized.py")], observe=["expected update"])
p("N07", "Lipschitz estimates are valid upper bounds",
  "The Lipschitz constants reported by the losses bound the variation of their gradients.", ["inputs"], "all data", "Numerical inequality over all pairs of points.", ["loss.py", "utils.py"], [("lipschitz, max_lipschitz", "copt/loss.py")], observe=["lipschitz"])
p("N08", "One-dimensional total variation solver is exact",
  "The taut-string routine returns the exact minimiser for every signal, never reading outside its work arrays.", ["inputs"], "all signals and strengths", "Data-dependent pointer motion over all inputs.", ["tv_prox.py"], [("_prox_tv1d", "copt/tv_prox.py")], observe=["prox_tv1d"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for r in P:
            f.write(json.dumps(r) + "\n")
    print(len(P))
