"""The properties, in one place: tools/build.py writes properties.jsonl and MANIFEST.json from this table."""
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


p("C01", "Calibration solves the calibration section",
  "For every model file, the calibration reported by the model (by symbol name, by symbol group and as ordered vectors) is the solution of the calibration section, whatever the order of its entries, and missing parameters, states and controls are reported as not-a-number (missing shocks as zero). "
  "Changing calibrated values, by keyword or by mapping, gives exactly the model one would obtain from the edited file: every dependent value, shock process, domain, grid and residual follows, and symbols that were not touched keep their values. "
  "Cyclic or malformed calibrations are rejected.",
  "inputs histories", "all model files (symbols, expressions, order of entries) and all sequences of calibration changes interleaved with reads",
  "tests import a handful of example files and never change a calibration nor compare values with the file",
  "dolo/compiler/model.py dolo/compiler/misc.py dolo/compiler/model_import.py",
  [("set_calibration / set_changed invalidation", "dolo/compiler/model.py"), ("calibration_to_vector, CalibrationDict", "dolo/compiler/misc.py")])
p("C02", "Compiled model functions evaluate the equations of the model file",
  "Each compiled function of a model returns, for scalar points and for batches (each row on its own, constant arguments broadcast), exactly the values of the equations written in the model file, in declaration order, with dates, parameters, auxiliary definitions and complementarity bounds substituted as documented. "
  "It does not depend on the order or names of the symbols, on the equation style (list or text block), nor on earlier calls. "
  "An undeclared symbol or a variable dated outside what its block permits is rejected.",
  "inputs", "all models (equations, symbols, definitions, dates, bounds) and all argument values and batch shapes",
  "the tests only import models or run algorithms; no test compares a compiled function with its equation",
  "dolo/compiler/factories.py dolo/compiler/model.py dolo/compiler/recipes.yaml dolo/compiler/misc.py",
  [("get_factory", "dolo/compiler/factories.py"), ("__compile_functions__", "dolo/compiler/model.py")])
p("C03", "Derivatives of model functions are the derivatives of their values",
  "The derivatives a compiled function returns along with its values are the partial derivatives of these values with respect to each vector argument, with documented shapes, at every point where the equations are smooth, and the values returned with derivatives are those returned without. "
  "Numerical differentiation helpers (first and second order, one point or batched) agree with exact derivatives up to truncation error.",
  "inputs", "all models, functions, arguments and points",
  "no test checks a derivative; wrong ones mostly slow down solvers instead of failing them",
  "dolo/compiler/factories.py dolo/compiler/misc.py dolo/numeric/optimize/newton.py dolo/numeric/serial_operations.py",
  [("diff=True evaluation", "dolang vectorize through dolo/compiler/model.py"), ("numdiff, serial_numdiff", "dolo/numeric/optimize/newton.py, dolo/numeric/serial_operations.py")])
p("C04", "Grids and domains enumerate the declared discretization",
  "Every grid enumerates its nodes once each, in lexicographic order of its coordinates, within its bounds, agreeing between whole-list access, per-index access, counts and dimensions; products and concatenations of grids are the cartesian products of their parts. "
  "The domain and grid of a model are those written in its file for each state by name, after evaluating calibrated expressions, with documented defaults, in the order of the declared states.",
  "inputs configurations", "all bounds, orders, grid types, products and model files",
  "test_grids builds two grids and looks at no node",
  "dolo/numeric/grids.py dolo/compiler/model.py dolo/numeric/misc.py dolo/compiler/objects.py dolo/compiler/language.py",
  [("grid classes", "dolo/numeric/grids.py"), ("get_domain, endo_grid", "dolo/compiler/model.py")])
p("C05", "Interpolated decision rules reproduce their node values",
  "A decision rule built from values on a grid returns these values at the nodes, for every combination of exogenous grid, endogenous grid and interpolation method; between nodes it returns the corresponding interpolant (exact on multilinear functions for linear rules). "
  "All ways of evaluating it (by index, by value, one point or a batch, callable or explicit) agree, rows of a batch do not influence each other, and evaluation does not alter the rule or its arguments.",
  "inputs configurations", "all grids, interpolation methods, values, and evaluation points",
  "tests never evaluate an interpolated rule away from a solver",
  "dolo/numeric/decision_rule.py dolo/numeric/grids.py",
  [("multimethod dispatch on grid and interpolation types", "dolo/numeric/decision_rule.py")])
p("C06", "Taylor and user-written decision rules evaluate their formula",
  "A perturbation decision rule equals its Taylor polynomial around its steady state for all exogenous and endogenous arguments, and a decision rule written as formulas (with intermediate formulas, in any order, using calibrated parameters) equals these formulas. "
  "One-point, batched and mixed (one point against many) evaluations agree.",
  "inputs", "all coefficients, formulas, models and evaluation points",
  "one custom rule is evaluated at one point by the tests",
  "dolo/numeric/decision_rule.py dolo/algos/perturbation.py dolo/numeric/taylor_expansion.py",
  [("CustomDR", "dolo/numeric/decision_rule.py"), ("BivariateTaylor", "dolo/algos/perturbation.py"), ("TaylorExpansion", "dolo/numeric/taylor_expansion.py")])
p("C07", "Discretized distributions are faithful probability laws",
  "Discretizing any i.i.d. distribution gives points and weights which form a probability law of the declared dimension: the documented quantiles for equiprobable methods and every mass-point option, the exact low-order moments for Gaussian quadrature (any mean and covariance, correlated or degenerate), the exact law for discrete distributions and mixtures. "
  "The Markov-chain form has identical rows equal to that law, options are honoured, discretization changes nothing in the distribution, and a distribution declared in a model file uses the calibrated parameters.",
  "inputs configurations", "all distribution classes, parameters, sizes, methods and targets",
  "tests discretize a few fixed distributions and mostly check that nothing is raised",
  "dolo/numeric/distribution.py dolo/numeric/discretization/quadrature.py dolo/numeric/processes.py",
  [("discretize methods", "dolo/numeric/distribution.py"), ("gauss_hermite_nodes", "dolo/numeric/discretization/quadrature.py")])
p("C08", "Discretized autoregressive processes keep the moments of the process",
  "Turning an AR1/VAR1 process into a Markov chain gives a stochastic matrix and nodes whose conditional means, stationary means and (for the default method) conditional and stationary covariances are those of the process, for any mean, persistence, covariance and size; the alternative discretizations obey their defining formulas, and conditional-node (GDP) discretizations have exact conditional moments. "
  "Processes whose autocorrelation is not scalar are rejected, and the accessors of discretized processes (nodes, integration nodes, weights, grids) agree with one another.",
  "inputs configurations", "all parameters of the process, number of nodes and methods",
  "no test discretizes an autoregressive process",
  "dolo/numeric/processes.py dolo/numeric/discretization/discretization.py",
  [("rouwenhorst, tauchen, multidimensional_discretization", "dolo/numeric/discretization/discretization.py"), ("VAR1, AR1, MarkovChain, GDP", "dolo/numeric/processes.py")])
p("C09", "Products of processes keep the joint law of independent components",
  "A product of exogenous processes discretizes into the product law of its independently discretized components, components in declaration order, with the transition probabilities multiplied for Markov chains and per-component or shared options honoured. "
  "A model file that lists several processes for several exogenous variables builds that product, and is rejected if the variables do not follow the declaration order.",
  "inputs configurations", "all numbers and kinds of components, options and model files",
  "no test builds a product process",
  "dolo/numeric/processes.py dolo/numeric/distribution.py dolo/numeric/discretization/discretization.py dolo/compiler/model.py",
  [("ProductProcess, product_mc", "dolo/numeric/processes.py"), ("product_iid", "dolo/numeric/distribution.py"), ("tensor_markov", "dolo/numeric/discretization/discretization.py")])
p("C10", "Simulated exogenous processes follow the declared law",
  "Draws and simulated paths of every exogenous process have the requested shape and follow the declared law: marginal distributions and covariances, autoregressive law of motion with independent innovations from the requested start, Markov transition probabilities with no impossible transition. "
  "Deterministic simulations and impulse responses follow the conditional means, and reseeding numpy's generator replicates the paths.",
  "inputs histories", "all processes, parameters, sizes, starting points and seeds",
  "tests draw a few samples and do not look at them",
  "dolo/numeric/processes.py dolo/numeric/distribution.py",
  [("simulate, response, draw", "dolo/numeric/processes.py, dolo/numeric/distribution.py")])
p("C11", "Simulations obey the model equations at every date",
  "Every simulated path starts at the requested state (or the steady state), takes its controls from the decision rule at the states and shocks of the same date, its next state from the transition equation with the shocks of the next date, and its auxiliary variables from their definitions, and labels all of them by the declared names. "
  "Given paths of shocks are used as they are, paths of a batch do not influence each other, the same seed gives the same simulation, and neither the model nor the arguments change.",
  "inputs histories configurations", "all models, decision rules, shock processes, horizons, numbers of paths, initial conditions and seeds",
  "one test simulates within another algorithm and looks at no value",
  "dolo/algos/simulations.py",
  [("simulate", "dolo/algos/simulations.py")])
p("C12", "Impulse responses follow the model after the shock",
  "The response of a model to a shock starts at the steady state, lets only the named exogenous variable jump (by the given impulse, by default one standard deviation) and decay with the process, and follows the decision rule, transition equations and definitions at every date afterwards. "
  "It is deterministic, and linear in the impulse when the model and the decision rule are.",
  "inputs", "all models, shocks, impulses, horizons and decision rules",
  "one test prints a single response",
  "dolo/algos/simulations.py dolo/numeric/processes.py",
  [("response", "dolo/algos/simulations.py")])
p("C13", "Tabulated decision rules vary one state and hold the others",
  "Tabulating a decision rule along a state gives one row per step of a regular grid over the requested bounds (by default those of the rule or of the model), with all other states and the exogenous point held at the requested or steady-state values, and with controls and auxiliary variables evaluated at exactly these points under their declared names. "
  "Two-dimensional tabulations do the same along two states, in the requested order.",
  "inputs configurations", "all models, decision rules, states, bounds, fixed points and sizes",
  "no test tabulates a decision rule",
  "dolo/algos/simulations.py",
  [("tabulate, tabulate_2d", "dolo/algos/simulations.py")])
p("C14", "Formula evaluation applies dates and operators as written",
  "Evaluating a formula on a simulated data frame or on scalar values returns, at every date, the value of the expression with leads and lags taken from the proper rows, missing values where the shifted row does not exist, and the value given by the context for names that are not columns of the data. "
  "Neither the data nor the context is modified.",
  "inputs", "all formulas, date shifts, data and contexts",
  "the test evaluates two formulas without comparing values",
  "dolo/compiler/eval_formula.py dolo/algos/steady_state.py",
  [("eval_formula", "dolo/compiler/eval_formula.py")])
p("C15", "Residuals and steady states are consistent with the equations",
  "Residuals reported for a calibration are those of the model equations at that point, for the transition and for the arbitrage block; the steady-state search returns a point whose transition and arbitrage residuals vanish, leaves the model unchanged, and raises an error when it finds no such point.",
  "inputs", "all models and calibrations",
  "no test looks at a residual",
  "dolo/algos/steady_state.py dolo/compiler/model.py",
  [("residuals, find_steady_state", "dolo/algos/steady_state.py")])
p("C16", "Perfect-foresight paths satisfy the model at every date",
  "A deterministic solution starts at the requested initial state, satisfies the transition equations and the arbitrage conditions (with their complementarity bounds when they are not ignored) at every date given the path of exogenous variables, keeps that exogenous path and ends with controls equal to those of the preceding date. "
  "The result does not depend on the form in which the shocks are given, bounds that are not constant are refused, and failure to converge is reported by a warning.",
  "inputs configurations", "all models, paths of shocks (in any accepted form), initial conditions, horizons and options",
  "no test runs the deterministic solver",
  "dolo/algos/perfect_foresight.py",
  [("deterministic_solve, det_residual", "dolo/algos/perfect_foresight.py")])
p("C17", "Time iteration returns a solution of the model",
  "When time iteration reports convergence, the decision rule it returns satisfies the arbitrage equations (or the complementarity conditions with their bounds) at every node of the grid, with expectations computed under the discretized shocks, within the tolerance; on linear models it is the exact rational-expectations solution. "
  "It does not depend on a valid initial guess, honours grid, discretization and iteration options, and non-convergence is reported.",
  "inputs configurations", "all models, grids, shock processes, bounds and options",
  "tests do not run time iteration",
  "dolo/algos/time_iteration.py dolo/algos/time_iteration_helpers.py dolo/algos/commands.py dolo/numeric/decision_rule.py",
  [("time_iteration, residuals_simple", "dolo/algos/time_iteration.py")])
p("C18", "Improved time iteration agrees with time iteration",
  "When improved time iteration reports convergence, its decision rule satisfies the same optimality conditions at every node of the grid as that of time iteration, with and without complementarity bounds, for each way of inverting the Jacobian. "
  "Non-convergence is reported.",
  "inputs configurations", "all models, grids, shock processes, bounds and options",
  "no test runs it",
  "dolo/algos/improved_time_iteration.py dolo/algos/invert.py",
  [("improved_time_iteration", "dolo/algos/improved_time_iteration.py"), ("invert_jac, solve_gu, radius_jac", "dolo/algos/invert.py")])
p("C19", "The endogenous grid method solves the consumption problem",
  "On a converged solution of the endogenous grid method the consumption rule satisfies the Euler equation where the borrowing limit does not bind, equals available resources where it does, and is increasing in resources, for every set of parameters, grid and shock process. "
  "Non-convergence is reported.",
  "inputs configurations", "all calibrations, asset grids and shocks",
  "the test runs one calibration and ignores the result",
  "dolo/algos/egm.py", [("egm", "dolo/algos/egm.py")])
p("C20", "Values of policies satisfy the Bellman equation",
  "The value returned for a given decision rule satisfies the recursive value equation at every node of the grid, under the discretized shocks and the transition of the model; value iteration returns a value and a policy which satisfy the Bellman equation with controls inside their bounds.",
  "inputs configurations", "all models, decision rules, grids and shocks",
  "no test evaluates a policy",
  "dolo/algos/value_iteration.py", [("evaluate_policy, value_iteration", "dolo/algos/value_iteration.py")])
p("C21", "Perturbation returns the stable first-order solution",
  "The first-order decision rule returned by perturbation, for models with i.i.d. or vector autoregressive (VAR1) shocks, makes the linearised equilibrium conditions hold for all states and shocks and has a stable transition whose eigenvalues are among those reported; it equals the steady state at the steady state. "
  "Models without a stable solution, or with several, are not reported as uniquely solved.",
  "inputs", "all models with a smooth steady state (real or complex eigenvalues, explosive or indeterminate)",
  "one test perturbs one model and looks at nothing",
  "dolo/algos/perturbation.py dolo/numeric/extern/qz.py",
  [("get_derivatives, approximate_1st_order", "dolo/algos/perturbation.py"), ("qzordered", "dolo/numeric/extern/qz.py")])
p("C22", "Ergodic distributions are invariant under the model",
  "The ergodic distribution of a model under a decision rule is a probability distribution over the grid, non-negative and summing to one, reproduced by one application of the transition implied by the decision rule and the shocks; the transition operator conserves mass and the conditional mean of states inside the grid.",
  "inputs configurations", "all models, decision rules, grids and shocks",
  "the tests compute two of them without looking at the result",
  "dolo/algos/ergodic.py", [("ergodic_distribution", "dolo/algos/ergodic.py")])
p("C23", "Newton and complementarity solvers return roots or report failure",
  "Newton solvers (one system or many independent ones, dense or sparse Jacobians, with or without bounds) return points where the (smoothed complementarity) residual is below the tolerance, within the bounds, in the documented form, or report non-convergence; each system of a batch of systems with a unique root gets the solution it has alone, and the initial guess is not modified.",
  "inputs", "all smooth systems, bounds, batch sizes, initial guesses and options",
  "tests solve one fixed system",
  "dolo/numeric/optimize/newton.py dolo/numeric/optimize/ncpsolve.py",
  [("newton", "dolo/numeric/optimize/newton.py"), ("ncpsolve, smooth", "dolo/numeric/optimize/ncpsolve.py")])
p("C24", "The mixed complementarity solver satisfies the complementarity conditions",
  "The mixed complementarity solver returns a point within the bounds where each component of the function is zero strictly inside, non-negative at the lower bound and non-positive at the upper bound, for finite, one-sided and absent bounds and any feasible or infeasible start, or reports failure. It does find the solution of strongly monotone problems, in a few steps when started close to it.",
  "inputs", "all smooth problems, bounds and starts",
  "tests solve one fixed problem",
  "dolo/numeric/extern/lmmcp.py dolo/numeric/optimize/ncpsolve.py",
  [("lmmcp", "dolo/numeric/extern/lmmcp.py")])
p("C25", "Batched linear algebra equals the row-by-row computation",
  "Batched products, solves, inversions, tensor contractions and in-place block operations on stacks of matrices equal the same operation applied to each element, for all sizes, and modify only what they are documented to modify.",
  "inputs", "all batch sizes, shapes and values",
  "no test touches them except through one solver",
  "dolo/numeric/serial_operations.py dolo/numeric/misc.py dolo/numeric/tensor.py dolo/algos/invert.py",
  [("serial_multiplication, serial_solve", "dolo/numeric/serial_operations.py, dolo/numeric/optimize/newton.py"), ("invert_gu, solve_gu, solve_tensor", "dolo/algos/invert.py"), ("mdot, sdot, multidot", "dolo/numeric/tensor.py")])
p("C26", "Matrix equation solvers return solutions",
  "Generalised Schur decompositions reconstruct their inputs with eigenvalues ordered as requested; Sylvester and second-order matrix equation solvers return matrices which satisfy their equation, stable when stability is requested.",
  "inputs", "all sizes and values for which a solution exists (real and complex eigenvalues)",
  "one random decomposition of one size is tested",
  "dolo/numeric/extern/qz.py dolo/numeric/matrix_equations.py",
  [("qzordered", "dolo/numeric/extern/qz.py"), ("solve_sylvester, second_order_solver", "dolo/numeric/matrix_equations.py")])
p("C27", "Filters decompose a series exactly",
  "The Hodrick-Prescott and band-pass filters return trend and cycle of the shape of the data, that solve the defining optimality conditions, series by series when several (rows) are given, for every smoothing parameter and every length from four observations on, leaving the data unchanged.",
  "inputs", "all series, lengths and parameters",
  "no test filters a series",
  "dolo/numeric/filters.py",
  [("hp_filter, bandpass_filter", "dolo/numeric/filters.py")])
p("C28", "Cached functions return what the function would return",
  "A function with memory or disk caching returns, for every sequence of calls, the value the undecorated function returns for these arguments, whatever the types, shapes and values of earlier arguments, and computes it once for arguments already seen; disk caches survive a new process and an interruption while they are written.",
  "inputs histories", "all sequences of calls with arrays and scalars",
  "tests repeat one call with identical arguments",
  "dolo/misc/caching.py",
  [("memoized, DiskDictionary, cachedondisk", "dolo/misc/caching.py")])
p("C29", "Solving and simulating leaves models and inputs unchanged",
  "No algorithm modifies the model, the decision rules or the arrays it is given, results do not depend on what was computed before with the same model, and repeating a deterministic computation gives identical results.",
  "histories inputs", "all sequences of algorithm calls on one model",
  "each test uses a fresh model once",
  "dolo/algos dolo/compiler/model.py dolo/numeric/decision_rule.py",
  [("copies of arguments", "dolo/algos")])
p("C30", "Compiled kernels stay within their arrays and read no uninitialised memory",
  "The compiled kernels of the library (interpolated rules and their jacobians, discretization, ergodic operators, model functions, equation solvers, batched linear algebra, and the compiled rules of decision) neither read nor write outside of the arrays they are given, whatever the points they are evaluated at (far outside of the grid, on its edges, infinite or not-a-number included), and no result depends on the content of memory that was never written.",
  "inputs", "all grids, points, batch sizes and values, and all initial contents of the heap",
  "an out-of-bounds read usually returns a plausible number, and freshly allocated memory is usually zero in a short test",
  "dolo/numeric/decision_rule.py dolo/algos/ergodic.py dolo/algos/invert.py dolo/numeric/serial_operations.py dolo/numeric/discretization dolo/numeric/optimize dolo/compiler/factories.py",
  [("numba kernels", "dolo/algos/ergodic.py, dolo/algos/invert.py, dolo/numeric/serial_operations.py"), ("np.empty / zeros_like buffers", "dolo/algos, dolo/numeric")])
p("C31", "Solution methods agree wherever theory says they must",
  "On one model, the different solution methods give the same answer: perturbation, both versions of time iteration and (for a shock that dies out) perfect foresight coincide on linear models; with vanishing risk a global solution passes through the steady state with the slope found by perturbation and follows the perfect-foresight paths; endogenous grid points and time iteration give the same consumption rule; value iteration finds the policy of time iteration and the value of that policy, and no other feasible policy is worth more.",
  "inputs", "all models to which two of the methods apply, all initial states and shocks",
  "each test runs one method and looks at no number",
  "dolo/algos/perturbation.py dolo/algos/time_iteration.py dolo/algos/improved_time_iteration.py dolo/algos/perfect_foresight.py dolo/algos/egm.py dolo/algos/value_iteration.py dolo/algos/simulations.py",
  [("perturb", "dolo/algos/perturbation.py"), ("time_iteration", "dolo/algos/time_iteration.py"), ("deterministic_solve", "dolo/algos/perfect_foresight.py"), ("value_iteration, evaluate_policy", "dolo/algos/value_iteration.py")])
p("C32", "Multiple dispatch selects the most specific method",
  "A function with several annotated versions calls, for every tuple of argument types, the most specific of the applicable versions, passing all arguments unchanged; the choice depends on the set of versions only (neither on the order in which they were registered nor on earlier calls), the last registered version for some types replaces the earlier one, and a call that no version accepts is rejected. Predicate-based overloading calls the last registered version whose predicates all hold.",
  "inputs histories", "all class hierarchies, sets of methods, orders of registration and calls",
  "the tests make two calls of one dispatching function with one version each",
  "dolo/misc/multimethod.py dolo/algos/ergodic.py",
  [("multimethod, overload, multimeta", "dolo/misc/multimethod.py"), ("ergodic_distribution", "dolo/algos/ergodic.py")])
p("C33", "What is displayed is what was computed",
  "Graphs of decision rules and of impulse responses draw, for the chosen variables, states, bounds, horizons and simulations, the values of the rule or of the simulation, under the right title and legend; the summary of a model (terminal and html) shows its name and file, all its equations and definitions in order and, next to each transition and arbitrage equation, its residual at the current calibration, highlighted when it is not zero; progress tables have one line per iteration and end with the errors of the returned result; verbosity changes no result and quiet calls print nothing.",
  "inputs", "all models, rules, calibrations, simulations and display options",
  "the tests look at no figure and no printed number",
  "dolo/algos/simulations.py dolo/misc/graphs.py dolo/misc/itprinter.py dolo/misc/termcolor.py dolo/compiler/model.py dolo/compiler/model_import.py",
  [("plot_decision_rule", "dolo/algos/simulations.py"), ("plot_irfs", "dolo/misc/graphs.py"), ("Model.__str__, Model._repr_html_, infos", "dolo/compiler/model.py"), ("IterationsPrinter", "dolo/misc/itprinter.py")])
p("C34", "Model files that say the same thing give the same model",
  "The imported model depends on what its file says only: neither on the layout of the file (order of sections and of entries, flow or block style, quotes, indentation, comments, line endings, constants written as expressions), nor on its name and location, nor on the names given to the symbols, nor (up to the same permutation of its results) on the order in which variables and their equations are declared: symbols, calibration, compiled functions, domain, grid, discretized shocks and solutions are the same.",
  "inputs", "all model files, all ways of writing them, all names of symbols and of files",
  "the tests import each example once, as it is written",
  "dolo/compiler/model.py dolo/compiler/model_import.py dolo/compiler/factories.py dolo/compiler/objects.py dolo/misc/display.py",
  [("yaml_import, read_file_or_url", "dolo/compiler/model_import.py, dolo/misc/display.py"), ("Model", "dolo/compiler/model.py"), ("get_factory", "dolo/compiler/factories.py")])
