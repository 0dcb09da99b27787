"""Writes DESIGN.md: general text below, per-property sections from table.py, the notes below and the modules themselves."""
import ast, glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from table import P

NOTES = {
 "C01": ("The calibration section is parsed by an independent reader and solved by substitution with Python arithmetic (complex detours of negative bases excluded from the generated trees); after each of a random sequence of `set_calibration` calls the whole observable model (values by name, by group, vectors, domain, grid, exogenous process, residuals) is compared with a *fresh* import of the edited file and with the reader.",
         "Invalidation of caches depends on the order of reads and writes: histories of up to a dozen interleaved reads and changes are driven, tests never change a calibration."),
 "C02": ("Random models (random expression trees, dates, definitions that use each other, block style or list style, shuffled names) are compiled by dolo; every function is evaluated on scalars, batches and broadcast arguments and compared with an evaluator of the text of the equations that shares no code with dolo or dolang. `twins`: the same model with renamed/shuffled symbols. `rejected`: undeclared symbols, impossible dates.",
         "The compiled function is compared value by value; the tests only import models."),
 "C03": ("Derivatives returned by `diff=True` against complex-step derivatives and high-order finite differences of the independent evaluator; shapes; values with and without derivatives; numdiff helpers against exact derivatives of known functions.",
         "A wrong derivative mostly slows a solver down; here each entry is compared."),
 "C04": ("Grids of all classes rebuilt from their parameters with itertools; nodes, node(i), n_nodes, min/max, products, sums, concatenations; Smolyak nodes against the nested Chebyshev construction; the domain and the grid of models against the text of the domain.", "All shapes, orders and unequal numbers of points per dimension."),
 "C05": ("Linear interpolation is recomputed with an own multilinear formula (inside and outside), cubic rules are checked to reproduce nodes, constants and products of low degree, Chebyshev/Smolyak rules to reproduce the polynomials of their degree; every call convention (i, m, s scalars, batches) gives the same numbers; modifying the given array or the returned one changes nothing.", "All dimensions, orders, points in and out of the grid."),
 "C06": ("Taylor expansions against the polynomial written with einsum; bivariate rules and custom rules (formulas in any order) against an evaluator of the formulas.", "Any order, any numbers of states."),
 "C07": ("Each distribution against scipy.stats: moments and exactness (all polynomials up to the degree the Gauss rule guarantees), equiprobable points against quantiles, weights positive and summing to one, mixtures and products against enumerations, distributions declared in model files against the declared parameters.", "All parameters, numbers of points per dimension."),
 "C08": ("Rouwenhorst/Tauchen/GDP discretizations: stochastic matrices, stationary mean, variance, autocorrelation, covariance of the chain computed by linear algebra against the theoretical ones; conditional moments of GDP; degenerate variances; requested dimensions.", "All parameters, dimension 1 to 3, degenerate ones."),
 "C09": ("Products of processes are compared with enumerations by itertools of nodes, transition products and weights, for any number and any mix of factors, and as declared in model files.", "Three factors and more, unequal sizes."),
 "C10": ("Simulated paths against the law: exact recursions when the innovations can be replayed, membership in the support, Kolmogorov-Smirnov / chi-square / moment statistics with error probability below 1e-9, reproducibility by seed, shapes for every N, T.", "Statistics over thousands of draws."),
 "C11": ("Every simulated row is checked online: controls equal the rule at (shock, state), the next state equals the transition recomputed by the independent reader, shocks are admissible innovations or Markov moves, auxiliaries equal their definitions; given driving processes are followed; several paths are independent; seeds reproduce.", "All dates and paths of all simulations."),
 "C12": ("Impulse responses against the closed-form recursion of the linear model; default impulse against the declared standard deviation; response = deviation path; pointwise.", "All shocks, sizes, horizons."),
 "C13": ("Each column of `tabulate`/`tabulate_2d` against the rule evaluated by an independent formula at the requested points.", "All states, ranges, options."),
 "C14": ("`eval_formula` and `Model.eval_formula` on data frames, dictionaries, model contexts with leads and lags against pandas shifts and own evaluation.", "Any expression, dates, missing rows."),
 "C15": ("Residuals against the reader; roots against linear algebra and closed forms; without a root an exception or a flagged failure is required.", "All calibrations off the steady state."),
 "C16": ("Paths of `deterministic_solve` are verified offline: initial condition, transition at each date, natural residual of the complementarity problem at each date, terminal condition; linear models also against one stacked linear solve. The documentation says the economy is at the steady state after T, the code imposes that controls are constant at the end; the monitor specifies what the code does (the two agree for converging paths).", "All shock paths (arrays, names, constants), initial states, horizons, bounds."),
 "C17": ("Linear models: the time-iteration rule against the rational-expectations solution found by an own fixed point. Others: at the nodes, the natural residual of the Euler equation recomputed with the reader and an own interpolation. Flags (`x_converged`, iterations, err) against the facts; solver options; initial guesses; hopeless problems must not be reported as solved.", "Random models, processes, grids and bounds."),
 "C18": ("As C17 for the improved time iteration, and the reported radius against the largest eigenvalue of the linear operator of the model. Where occasionally binding constraints give the discretized problem several solutions, only the residuals are claimed, not equality with time iteration.", "As C17."),
 "C19": ("EGM against an own implementation on another grid, the Euler equation between nodes, binding constraints, monotonicity, flags.", "Random consumption problems."),
 "C20": ("`evaluate_policy`: the value equation recomputed by the reader holds at nodes; geometric sums; linear-quadratic closed forms. `value_iteration`: Bellman equation, no feasible deviation improves at nodes, bounds.", "Random growth models, several value equations."),
 "C21": ("Perturbation coefficients satisfy the linearized equations (with derivatives from the reader), eigenvalues and the flags stable/determined/unique against an own count from the pencil, loud failure on indeterminate or explosive models.", "Random pencils with drawn roots, real and complex."),
 "C22": ("Ergodic distributions: sum to one, non-negative, are fixed points of an own transition operator (own linear allocation), independent of batch size and of grid refinement, correct dims and coordinates.", "Arbitrary rules pushing anywhere, Markov and iid shocks."),
 "C23": ("Newton and ncpsolve on problems with known roots: the residual at the returned point, the natural residual for bounded problems, the flag/iteration count; semismooth reformulations against their definition.", "Monotone and hard problems, serial/sparse/dense jacobians."),
 "C24": ("lmmcp on monotone complementarity problems with unique known solutions, classical test problems, shifted origins, and hard ones where it may only fail loudly.", "All sizes, bounds (infinite, equal, large)."),
 "C25": ("Batched products, solvers, inverses and the sparse tensors behind the improved time iteration against numpy row by row; in-place versions leave other memory untouched.", "All batch sizes and shapes."),
 "C26": ("A = Q S Z', ordering of the eigenvalues, unitarity, equality of spectra; Sylvester and quadratic matrix equations by substitution, stability of the solution.", "All sizes, real and complex eigenvalues."),
 "C27": ("First-order conditions of the penalised least squares, minimality against perturbations, direct solution; band-pass against direct convolution and frequency response.", "All lengths from 4, all parameters."),
 "C28": ("Sequences of calls on cached and undecorated functions in parallel; count of computations; files, new processes, concurrent processes, interruptions (kill) in the middle of a write: the cache gives the value or recomputes. Values which are mutated after being cached and -0.0/0.0 are outside of the claim.", "Histories with hash collisions (-1/-2, True/1/1.0), arrays, kill points."),
 "C29": ("Random sequences of all algorithms on one model: deep snapshot of the model and of all arguments before and after each call, the result of each call against the same call on a fresh model, repeated calls bit-identical. The private memo `_names_` and file names are not part of the snapshot; 'No convergence' of lmmcp is a loud outcome that only needs to repeat.", "Orders of calls."),
 "C30": ("Sanitizer-like: numba's array bounds checker (NUMBA_BOUNDSCHECK=1, nothing cached) over the compiled kernels while the workloads of the other monitors run, every `index is out of bounds` raised in a kernel is observed where it is raised (`sys.monitoring`) even if the code swallows it; canaries before and after arrays given to kernels directly, with hostile points (edges, far outside, infinite, nan, empty batches); uninitialised memory: the same workloads in fresh processes whose heap is filled with different bytes (MALLOC_PERTURB_), every number the monitors see must be bit-identical; crash signals are violations.", "An out-of-bounds read usually returns a plausible number."),
 "C31": ("Differential oracle between methods that share little code: perturbation, time iteration, improved time iteration, perfect foresight, EGM, value iteration, simulation.", "Each test runs one method and looks at no number."),
 "C32": ("A reference dispatcher (minimal elements of the applicable signatures by issubclass) against `multimethod`, for random hierarchies with multiple inheritance, in all orders of registration, with calls in between. Where no unique minimal signature exists, only 'one of the minimal ones or DispatchError, and independent of the order' is claimed; virtual subclasses (ABC.register) are not claimed.", "All hierarchies and orders."),
 "C33": ("Figures are read back from matplotlib (Agg) objects, summaries and tables are parsed from their text; compared with rule values by an independent formula, residuals by the reader of C15 and the returned results.", "All options; no test looks at an output."),
 "C34": ("Metamorphic: a file and a rewritten file (through the yaml node tree, never through dolo) must give the same symbols, calibration, functions at random points, domain, grid, process, discretization, solution; renamings map names, permutations map coordinates. Equations in quotes are not part of the language and are not generated.", "All rewritings; each example is imported once by the tests."),
}
HEAD = open(os.path.join(H, "tools", "design_head.md"), encoding="utf-8").read()
TAIL = open(os.path.join(H, "tools", "design_tail.md"), encoding="utf-8").read()


def module_facts(i):
    src = open(os.path.join(H, "vm", "props", i.lower() + ".py"), encoding="utf-8").read()
    t = ast.parse(src)
    rule, req = None, None
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "RULE":
            rule = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "REQUIRED":
            try:
                req = ast.literal_eval(n.value)
            except ValueError:
                req = None
    sc = re.findall(r'Scenario\(\s*"(\w+)",\s*\w+,\s*(?:quick=)?([\w() +*]+?),\s*(?:thorough=)?([\w() +*]+?)(?:,\s*(?:timeout=)?\d+)?\)', src)
    return rule, req, sc


def seeds():
    out = {}
    for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
        d = json.load(open(f))
        out.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d["needs"], d["what_it_breaks"]))
    return out


S = seeds()
caught = json.load(open(os.path.join(H, "tools", "caught.json"))) if os.path.exists(os.path.join(H, "tools", "caught.json")) else {}
out = [HEAD.rstrip(), "\n## The properties\n"]
for p in P:
    i = p["id"]
    rule, req, sc = module_facts(i)
    oracle, reach = NOTES[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append(f"* **Workload**: {rule}.")
    out.append(f"* **Oracle**: {oracle}")
    out.append(f"* **Bounds and cost**: " + ", ".join(f"{n} {q} / {t} jobs" for n, q, t in sc) + " (quick / thorough); every quick run between 20 s and 3 min on 8 cores, of which about 20 s for importing dolo.")
    if req:
        out.append("* **A run that observed less is inconclusive**: " + ", ".join(f"{k} ≥ {v}" for k, v in req.items()) + ".")
    out.append(f"* **Why tests cannot settle it**: {p['why_tests_cant']}. {reach}")
    for s, needs, what in S.get(i, []):
        out.append(f"* **Planted**: `{s}` — needs {needs} — {caught.get(s, 'not yet run')}.")
    out.append("")
out.append(TAIL.rstrip() + "\n")
open(os.path.join(H, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out))
print("DESIGN.md", sum(len(l) for l in out), "characters; without oracle notes:", [p["id"] for p in P if p["id"] not in NOTES])
