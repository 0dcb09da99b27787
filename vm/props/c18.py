"""C18 improved time iteration: same optimality conditions as time iteration, for both ways of inverting the jacobian."""
import os
import warnings
import numpy as np
from vm.core import Scenario, snapshot
from vm import models
from vm.props.c16 import natural
from vm.props import c17
from vm.props.c17 import make_linear, nodes_of, check_linear, residual_linear, run, now, lb_ub, check_nodal, growth, savings, _Const

RULE = ("random linear models (iid, autoregressive and Markov shocks, with and without bounds) and nonlinear models through both "
        "inversion methods; nodal conditions re-evaluated independently, exact linear solutions, comparison with time iteration; "
        "non-trivial: converged run")
REQUIRED = {"exact-solution": 15, "nodal-residual": 15, "complementarity-bites": 3, "flag": 20, "agrees": 6, "initial-guess": 4,
            "non-convergence-reported": 5, "radius": 2}


def iti(model, **kw):
    from dolo.algos.improved_time_iteration import improved_time_iteration
    return improved_time_iteration(model, **kw)


def flags(ctx, res, tol_, maxit_, must=True, **info):
    ctx.ok("flag", (not must) or res.x_converged, why="a plain problem is solved", f_x=res.f_x, N=res.N, **info)
    if res.x_converged:
        ctx.ok("flag", res.f_x <= tol_ and res.N < maxit_, f_x=res.f_x, want_tol=tol_, N=res.N, **info)
    return bool(res.x_converged)


def process(model, res):
    """The discretized process is not part of the result."""
    return model.discretize()[1]


def linear(ctx):
    rng = ctx.rng
    kind = ["iid", "markov", "var"][ctx.rep % 3]
    ns = [1, 2, 2, 1, 1, 3][ctx.rep % 6]
    bounds = ctx.rep % 4 == 3
    d = make_linear(ctx, kind, ns=ns, n=[int(v) for v in rng.integers(3, 6, ns)])
    model, spec = d["model"], d["spec"]
    keep = snapshot(dict(model.calibration.flat))
    d["dp"] = dp = model.discretize()[1]
    s = nodes_of(d["info"], spec)
    tol = 1e-8
    for inv in ("iti", "gmres"):
        interp = ["cubic", "linear"][int(rng.integers(2))]
        info = dict(kind=kind, interp=interp, inv=inv, ns=ns)
        ctx.case("linear", kind, spec.A, interp, inv)
        res = run(ctx, iti, model, tol=tol, interp_method=interp, invmethod=inv)
        ctx.ok("flag", res.complementarities is False or not bounds, got=res.complementarities)
        if flags(ctx, res, tol, 1000, **info):
            ctx.close("grid", res.dr.endo_grid.nodes, s, atol=1e-12, **info)
            check_linear(ctx, d, res, 2e-6, **info)
            r, _ = residual_linear(d, res.dr, dp, s)
            ctx.ok("nodal-residual", np.abs(r).max() <= 2 * tol + 1e-10, got=np.abs(r).max(), **info)
            ctx.sample(kind=kind, inv=inv, residual=np.abs(r).max(), N=res.N)
        few = run(ctx, iti, model, tol=tol, interp_method=interp, invmethod=inv, maxit=1, dr0=_Const(spec, 3.0))
        ctx.ok("non-convergence-reported", not few.x_converged and few.f_x > tol, got=few.x_converged, f_x=few.f_x, **info)
        for nm, dr0 in (("rule", res.dr), ("result", res), ("constant", _Const(spec, float(rng.normal())))):
            r2 = run(ctx, iti, model, tag="initial-guess", tol=tol, interp_method=interp, invmethod=inv, dr0=dr0)
            if flags(ctx, r2, tol, 1000, start=nm, **info):
                check_linear(ctx, d, r2, 2e-6, tag="initial-guess", start=nm, **info)
            if nm != "constant":
                ctx.ok("initial-guess", r2.N <= 1, why="start at the solution", N=r2.N, start=nm, **info)
        bare = run(ctx, iti, model, tol=tol, interp_method=interp, invmethod=inv, details=False)
        ctx.close("repeatable", now(bare, dp, 0, s), now(res.dr, dp, 0, s), rtol=0, atol=1e-10, why="details=False returns the same rule")
    ctx.ok("model-unchanged", snapshot(dict(model.calibration.flat)) == keep)


def radius(ctx):
    """Contraction rate of time iteration: spectral radius of the reported operator, and of the true one in the linear case."""
    rng = ctx.rng
    kind = ["iid", "markov"][ctx.rep % 2]
    d = make_linear(ctx, kind, ns=1, n=[int(rng.integers(4, 7))])
    model, spec = d["model"], d["spec"]
    res = run(ctx, iti, model, tol=1e-9, compute_radius=True)
    ctx.case("radius", spec.A)
    if flags(ctx, res, 1e-9, 1000):
        with ctx.guard("radius"):
            L = res.L
            n = L.shape[0]
            M = np.stack([L.matvec(e) for e in np.eye(n)], axis=1)
        ctx.close("radius", res.radius, np.abs(np.linalg.eigvals(M)).max(), rtol=1e-5, atol=1e-8)
        # one step of time iteration around the solution, by finite differences on the rule
        dp = model.discretize()[1]
        s = nodes_of(d["info"], spec)
        nx = len(spec.controls)
        x = np.array([now(res.dr, dp, i, s) for i in range(dp.n_nodes)])
        from dolo.numeric.decision_rule import DecisionRule
        base = DecisionRule(res.dr.exo_grid, res.dr.endo_grid, dprocess=dp, interp_method="cubic")

        def T(xf):
            """controls of today given the rule of tomorrow: solves the linear first order conditions node by node"""
            base.set_values(xf)
            y = x.copy()
            for _ in range(60):
                r = np.zeros_like(y)
                for i in range(dp.n_nodes):
                    m = np.zeros(len(spec.exo)) if kind == "iid" else np.ravel(dp.node(i))
                    for j in range(dp.n_inodes(i)):
                        Mn = np.ravel(dp.inode(i, j))
                        S = models.lin_next(spec, m, s, y[i], Mn)
                        r[i] += dp.iweight(i, j) * models.lin_residual(spec, m, s, y[i], Mn, S, c17.future(base, dp, i, j, S))
                # r is x - (...) : damped fixed point with the matrix of the linear model
                LK = spec.P @ d["K"] + spec.Q
                y = y - np.linalg.solve(np.eye(nx) - LK @ spec.B, r.reshape(-1, nx).T).T.reshape(y.shape)
                if np.abs(r).max() < 1e-13:
                    break
            return y
        h = 1e-5
        cols = []
        for k in range(n):
            e = np.zeros(n)
            e[k] = h
            cols.append(((T(x + e.reshape(x.shape)) - T(x - e.reshape(x.shape))) / 2 / h).ravel())
        D = np.stack(cols, axis=1)
        ctx.close("operator", M, D, rtol=0, atol=1e-5, kind=kind)


def discretization(ctx):
    rng = ctx.rng
    d = make_linear(ctx, "var", ns=1, nm=1, n=[4])
    model, spec = d["model"], d["spec"]
    s = nodes_of(d["info"], spec)
    for o in (dict(to="mc", N=int(rng.integers(2, 8))), dict(to="gdp")):
        with ctx.guard("discretize", **o):
            dp = model.exogenous.discretize(**o)
        d["dp"] = dp
        ctx.case("dprocess", spec.A, o)
        res = run(ctx, iti, model, tag="dprocess", dprocess=dp, tol=1e-9, interp_method="linear" if o.get("to") == "gdp" else "cubic")
        if flags(ctx, res, 1e-9, 1000, options=o):
            r, _ = residual_linear(d, res.dr, dp, s)
            ctx.ok("nodal-residual", np.abs(r).max() <= 1e-7, got=np.abs(r).max(), options=o)
            check_linear(ctx, d, res, 2e-6, options=o)


def bounded(ctx):
    from dolo.algos.time_iteration import time_iteration
    rng = ctx.rng
    kind = ["iid", "markov", "var", "iid"][ctx.rep % 4]
    static = ctx.rep % 2 == 1
    ns = 1 + int(rng.integers(2))
    d = make_linear(ctx, kind, ns=ns, bounds=True, n=[int(v) for v in rng.integers(6, 9, ns)], static=static)
    model, spec = d["model"], d["spec"]
    d["dp"] = dp = model.discretize()[1]
    s = nodes_of(d["info"], spec)
    lo, hi = lb_ub(d, s, dp)
    tol = 1e-8
    interp = ["linear", "cubic"][int(rng.integers(2))]
    xs = {}
    for inv in ("iti", "gmres"):
        res = run(ctx, iti, model, tol=tol, interp_method=interp, invmethod=inv, maxit=200)
        info = dict(kind=kind, static=static, interp=interp, inv=inv)
        ctx.case("bounded", kind, spec.A, static, inv)
        ctx.ok("flag", res.complementarities is True, got=res.complementarities)
        if flags(ctx, res, tol, 200, must=static, **info):
            r, x = residual_linear(d, res.dr, dp, s)
            bad = np.abs(natural(x, r, lo, hi))
            ctx.ok("nodal-residual", bad.max() <= 1e-5, got=bad.max(), **info)
            ctx.ok("bounds", ((x >= lo - 1e-5) & (x <= hi + 1e-5)).all(), **info)
            xs[inv] = x
            if ((x <= lo + 1e-5) | (x >= hi - 1e-5)).any():
                ctx.events["complementarity-bites"] = ctx.events.get("complementarity-bites", 0) + 1
            if static:
                for i in range(dp.n_nodes):
                    m = np.zeros(len(spec.exo)) if kind == "iid" else np.ravel(dp.node(i)) - spec.m0
                    want = np.clip(spec.x0 + (s - spec.s0) @ spec.F.T + m @ spec.G.T, lo[i], hi[i])
                    ctx.close("exact-solution", x[i], want, rtol=0, atol=1e-5, node=i, **info)
        else:
            ctx.count("not_converged")
    ti = run(ctx, time_iteration, model, tol=tol, interp_method=interp)
    if ti.x_converged:
        x = np.array([now(ti.dr, dp, i, s) for i in range(dp.n_nodes)])
        for inv in ("iti", "gmres"):
            # from the rule of time iteration: the discretized problem may have other solutions elsewhere
            res = run(ctx, iti, model, tol=tol, interp_method=interp, invmethod=inv, dr0=ti.dr, maxit=50)
            if flags(ctx, res, tol, 50, must=True, kind=kind, inv=inv, interp=interp, start="time iteration"):
                y = np.array([now(res.dr, dp, i, s) for i in range(dp.n_nodes)])
                ctx.close("agrees", y, x, rtol=0, atol=1e-5, kind=kind, inv=inv, interp=interp)
    for kw in (dict(ignore_constraints=True), dict(complementarities=False)):
        free = run(ctx, iti, model, tol=1e-9, interp_method=interp, **kw)
        ctx.ok("flag", free.complementarities is False, why="ignore constraints", got=free.complementarities)
        if flags(ctx, free, 1e-9, 1000, kind=kind, **kw):
            check_linear(ctx, d, free, 2e-6, kind=kind, **kw)


def corner(ctx):
    """Starting exactly on a bound with a vanishing residual."""
    rng = ctx.rng
    d = make_linear(ctx, "iid", ns=1, nx=1, bounds=True, n=[5], static=True)
    spec = d["spec"]
    from vm.core import Skip
    F = float(spec.F[0, 0])
    lo, hi, sl, sm = d["bounds"][0]
    # the rule x = clip(F s) itself: at the nodes where a bound meets F s both terms vanish
    import re
    txt, info = models.linear_yaml(spec, rng=rng, n=[5], width=1.0, bounds=[(f"{spec.controls[0]}_ss", "inf")], style="new")
    txt = txt.replace("wid*1", "wid*2")          # symmetric domain: the middle node is the steady state
    with ctx.guard("import"):
        model = models.load(txt)
    s = model.discretize()[0]["endo"].nodes
    ctx.ok("corner", np.abs(s - spec.s0).min() < 1e-12)
    ctx.case("corner", spec.F)
    res = run(ctx, iti, model, tol=1e-8, interp_method="linear")
    if flags(ctx, res, 1e-8, 1000, corner=True):
        want = np.maximum(spec.x0 + (s - spec.s0) @ spec.F.T, spec.x0)
        ctx.close("exact-solution", res.dr(s), want, rtol=0, atol=1e-5, corner=True)


def nonlinear(ctx):
    from dolo.algos.time_iteration import time_iteration
    rng = ctx.rng
    which = ["growth-iid", "savings-iid", "growth-markov", "savings-markov", "growth-var"][ctx.rep % 5]
    fam, kind = which.split("-")
    txt = growth(ctx, kind) if fam == "growth" else savings(ctx, kind)
    with ctx.guard("import"):
        model = models.load(txt)
    Y = models.read_yaml(txt, is_text=True)
    interp = "cubic" if fam == "growth" else "linear"
    dp = model.discretize()[1]
    ti = run(ctx, time_iteration, model, tol=1e-7, maxit=600, interp_method=interp)
    for inv in ("iti", "gmres"):
        ctx.case(which, models.params_of(model), inv)
        res = run(ctx, iti, model, tol=1e-8, maxit=60, interp_method=interp, invmethod=inv, dr0=ti.dr if ctx.rep % 2 else None)
        if flags(ctx, res, 1e-8, 60, must=False, model=which):
            r, x = check_nodal(ctx, model, Y, res, dp, 1e-5, model=which, inv=inv)
            ctx.count("converged")
            if ti.x_converged and ctx.rep % 2:      # other starts may lead to other solutions
                s = res.dr.endo_grid.nodes
                y = np.array([now(ti.dr, dp, i, s) for i in range(dp.n_nodes)])
                ctx.close("agrees", x, y, rtol=0, atol=1e-3, model=which, inv=inv)
        else:
            ctx.count("not_converged")


def examples(ctx):
    which = ["rbc_mc.yaml", "rbc_ar1.yaml", "rbc_iid.yaml"][ctx.rep % 3]
    with ctx.guard("import"):
        model = models.example(which)
    Y = models.read_yaml(os.path.join(models.REPO, "examples", "models", which))
    ctx.case(which)
    res = run(ctx, iti, model, tol=1e-8)
    if flags(ctx, res, 1e-8, 1000, model=which):
        check_nodal(ctx, model, Y, res, model.discretize()[1], 1e-6, model=which)


def hopeless(ctx):
    rng = ctx.rng
    import re
    spec = models.random_linear_spec(rng, ns=1, nx=1, nm=1)
    v = spec.controls[0]
    k = ctx.rep % 2
    eq = [f"{v}[t]*{v}[t] + {models.num(np.round(rng.uniform(.5, 2), 3))} - 0.01*{v}[t+1]", f"exp({v}[t]) + 1.0 + 0.0*{v}[t+1]"][k]
    txt, info = models.linear_yaml(spec, rng=rng, n=[4], style="new")
    txt = re.sub(r"arbitrage: \|\n.*\n", lambda m: f"arbitrage: |\n        {eq}\n", txt)
    with ctx.guard("import"):
        model = models.load(txt)
    ctx.case("hopeless", k, spec.A)
    for inv in ("iti", "gmres"):
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                res = iti(model, verbose=False, maxit=15, tol=1e-3, smaxit=50, invmethod=inv)
        except Exception:
            ctx.ok("non-convergence-reported", True)
            continue
        ctx.ok("non-convergence-reported", not res.x_converged, kind=k, f_x=res.f_x)


SCENARIOS = [Scenario("linear", linear, quick=6, thorough=60), Scenario("bounded", bounded, quick=6, thorough=50),
             Scenario("nonlinear", nonlinear, quick=6, thorough=50), Scenario("discretization", discretization, quick=2, thorough=20),
             Scenario("radius", radius, quick=2, thorough=16), Scenario("corner", corner, quick=2, thorough=16),
             Scenario("examples", examples, quick=2, thorough=3), Scenario("hopeless", hopeless, quick=2, thorough=16)]
