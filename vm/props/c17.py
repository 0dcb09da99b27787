"""C17 time iteration: nodal optimality conditions, exact linear solutions, options, honest convergence flags."""
import os
import re
import warnings
import numpy as np
from vm.core import Scenario, snapshot
from vm import models
from vm.props.c15 import NL
from vm.props.c16 import natural

RULE = ("random linear models (iid, autoregressive and Markov shocks, 1 to 3 states, cubic and linear interpolation, with and without "
        "bounds) compared with their rational-expectations solution computed independently, and nonlinear models whose optimality "
        "conditions are re-evaluated at every node from the equations of the model file; non-trivial: converged run")
REQUIRED = {"exact-solution": 20, "nodal-residual": 12, "complementarity-bites": 3, "flag": 30, "initial-guess": 6, "grid": 12,
            "model-unchanged": 10, "non-convergence-reported": 4}


# ----------------------------------------------------------------- linear reference
def rational(spec, kind, rho=0.0):
    """x - x0 = K (s - s0) + H (m - m0): the limit of exact backward iteration."""
    nx, ns, nm = len(spec.controls), len(spec.states), len(spec.exo)
    K, H = np.zeros((nx, ns)), np.zeros((nx, nm))
    for _ in range(3000):
        # x = F s + G m + (P K + Q) s' + (P H + R) rho m ;  s' = A s + B x + (C + rho D) m
        L = spec.P @ K + spec.Q
        M = np.eye(nx) - L @ spec.B
        if np.linalg.cond(M) > 1e6:
            return None
        K1 = np.linalg.solve(M, spec.F + L @ spec.A)
        H1 = np.linalg.solve(M, spec.G + L @ (spec.C + rho * spec.D) + rho * (spec.P @ H + spec.R))
        d = max(np.abs(K1 - K).max(), np.abs(H1 - H).max())
        K, H = K1, H1
        if not np.isfinite(d) or d > 1e6:
            return None
        if d < 1e-14:
            break
    else:
        return None
    if np.abs(np.linalg.eigvals(spec.A + spec.B @ K)).max() > .97 or np.abs(K).max() > 20:
        return None
    return K, H


def rational_markov(spec, K, V, P):
    """x_i = x0 + K (s - s0) + a_i"""
    n, nx = len(V), len(spec.controls)
    L = spec.P @ K + spec.Q
    v = np.asarray(V) - spec.m0
    Ev = P @ v
    lhs = np.zeros((n * nx, n * nx))
    rhs = np.zeros(n * nx)
    for i in range(n):
        r = slice(i * nx, (i + 1) * nx)
        lhs[r, r] += np.eye(nx) - L @ spec.B
        for j in range(n):
            lhs[r, slice(j * nx, (j + 1) * nx)] -= P[i, j] * spec.P
        rhs[r] = spec.G @ v[i] + L @ (spec.C @ v[i] + spec.D @ Ev[i]) + spec.R @ Ev[i]
    return np.linalg.solve(lhs, rhs).reshape(n, nx)


def make_linear(ctx, kind, ns=None, nx=None, nm=None, bounds=False, n=None, grid="cartesian", static=False):
    """-> model and everything known about it"""
    rng = ctx.rng
    for _ in range(60):
        spec = models.random_linear_spec(rng, ns=ns, nx=nx, nm=nm, with_m_lag=kind != "iid")
        if kind == "iid":
            spec.G[:] = 0
        if static:
            spec.P[:], spec.Q[:], spec.R[:] = 0, 0, 0
        if rational(spec, kind) is not None and rational(spec, kind, .9) is not None:
            break
    else:
        from vm.core import Skip
        raise Skip("no spec")
    m = len(spec.exo)
    d = dict(spec=spec, kind=kind)
    if kind == "iid":
        exo, d["S"] = models.exo_iid(rng, m)
        rho = 0.0
    elif kind == "var":
        exo, rho, d["S"] = models.exo_var(rng, m)
    else:
        exo, d["V"], d["P"] = models.exo_markov(rng, m)
        rho = 0.0
    d["rho"] = rho
    bt = None
    if bounds:
        # bounds which depend on the first state and bite on part of the grid
        bt, d["bounds"] = [], []
        for v in spec.controls:
            lo, hi = -float(np.round(rng.uniform(.02, .3), 4)), float(np.round(rng.uniform(.02, .3), 4))
            sl = float(np.round(rng.normal() * .1, 4))
            k = int(rng.integers(4))
            a, e = spec.states[0], spec.exo[-1]
            sm = float(np.round(rng.normal(), 4)) if kind != "iid" and rng.random() < .8 else 0.0
            move = f" + ({models.num(sl)})*({a}[t] - {a}_ss)" + (f" + ({models.num(sm)})*({e}[t] - {e}_ss)" if sm else "")
            tl = f"{v}_ss + ({models.num(lo)})" + move if k != 1 else "-inf"
            th = f"{v}_ss + ({models.num(hi)})" + move if k != 2 else "inf"
            bt.append((tl, th))
            d["bounds"].append((lo if k != 1 else -np.inf, hi if k != 2 else np.inf, sl, sm))
    width = 1.0
    txt, info = models.linear_yaml(spec, exo_text=exo, rng=rng, n=n, width=width, bounds=bt, grid=grid, style=["new", "old"][int(rng.integers(2))])
    with ctx.guard("import"):
        model = models.load(txt)
    d.update(model=model, info=info, K=rational(spec, kind, rho)[0], H=rational(spec, kind, rho)[1])
    return d


def nodes_of(info, spec):
    if "nodes" in info:
        ax = info["nodes"]
    else:
        ax = [np.linspace(*info["domain"][v], k) for v, k in zip(spec.states, info["n"])]
    g = np.meshgrid(*ax, indexing="ij")
    return np.stack([a.ravel() for a in g], axis=1)


def markov_of(d, dp):
    """values and transition matrix of the discretized chain, read from its accessors"""
    n = dp.n_nodes
    V = np.array([dp.node(i) for i in range(n)])
    P = np.array([[dp.iweight(i, j) for j in range(dp.n_inodes(i))] for i in range(n)])
    return V, P


def lb_ub(d, s, dp):
    """bounds in every exogenous node, at every point: (n_nodes, N, n_x)"""
    spec = d["spec"]
    out = []
    for q in (0, 1):
        out.append(np.array([np.stack([spec.x0[i] + b[q] + b[2] * (s[:, 0] - spec.s0[0]) + (b[3] * (np.ravel(dp.node(k))[-1] - spec.m0[-1]) if b[3] else 0)
                                       for i, b in enumerate(d["bounds"])], axis=1) for k in range(dp.n_nodes)]))
    return out


def future(dr, dp, i, j, S):
    """Decision rule next period in node j after node i."""
    nm = type(dr.exo_grid).__name__
    if nm == "EmptyGrid":
        return dr(S)
    if nm == "UnstructuredGrid":
        return dr(j, S)
    return dr(np.repeat(np.atleast_2d(dp.inode(i, j)), len(S), axis=0), S)


def now(dr, dp, i, s):
    nm = type(dr.exo_grid).__name__
    if nm == "EmptyGrid":
        return dr(s)
    if nm == "UnstructuredGrid":
        return dr(i, s)
    return dr(np.repeat(np.atleast_2d(dp.node(i)), len(s), axis=0), s)


def residual_linear(d, dr, dp, s):
    spec = d["spec"]
    out, xs = [], []
    for i in range(dp.n_nodes):
        m = np.zeros(len(spec.exo)) if d["kind"] == "iid" else np.ravel(dp.node(i))
        x = now(dr, dp, i, s)
        r = 0
        for j in range(dp.n_inodes(i)):
            M = np.ravel(dp.inode(i, j))
            S = models.lin_next(spec, m, s, x, M)
            r = r + dp.iweight(i, j) * models.lin_residual(spec, m, s, x, M, S, future(dr, dp, i, j, S))
        out.append(r)
        xs.append(x)
    return np.array(out), np.array(xs)


def run(ctx, solver, model, tag="solve", **kw):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with ctx.guard(tag, kw={k: v for k, v in kw.items() if isinstance(v, (int, float, str, bool))}):
            return solver(model, verbose=False, **kw)


def check_linear(ctx, d, res, atol_, tag="exact-solution", **info):
    """The solution of an unconstrained linear model, at and between the nodes."""
    rng = ctx.rng
    spec, dr, dp = d["spec"], res.dr, res.dprocess if hasattr(res, "dprocess") else None
    s = nodes_of(d["info"], spec)
    lo, hi = s.min(axis=0), s.max(axis=0)
    off = lo + (hi - lo) * rng.uniform(0, 1, (20, len(lo)))
    pts = np.concatenate([s, off])
    dp = d["dp"] if dp is None else dp
    if type(dr.exo_grid).__name__ == "UnstructuredGrid":
        V, P = markov_of(d, dp)
        if d["kind"] == "markov":
            ctx.close("chain", V, d["V"], atol=1e-9, **info)
            ctx.close("chain", P, d["P"], atol=1e-9, **info)
        a = rational_markov(spec, d["K"], V, P)
        for i in range(len(V)):
            want = spec.x0 + (pts - spec.s0) @ d["K"].T + a[i]
            ctx.close(tag, now(dr, dp, i, pts), want, rtol=0, atol=atol_, node=i, **info)
    elif type(dr.exo_grid).__name__ == "EmptyGrid":
        ctx.close(tag, dr(pts), spec.x0 + (pts - spec.s0) @ d["K"].T, rtol=0, atol=atol_, **info)
    else:
        for i in range(dp.n_nodes):
            m = np.ravel(dp.node(i))
            ctx.close(tag, now(dr, dp, i, pts), spec.x0 + (pts - spec.s0) @ d["K"].T + (m - spec.m0) @ d["H"].T, rtol=0, atol=atol_, node=i, **info)


def check_flags(ctx, res, tol_, maxit_, must=True, **info):
    ctx.ok("flag", (not must) or res.x_converged, why="a plain problem is solved", err=res.err, it=res.iterations, **info)
    if res.x_converged:
        ctx.ok("flag", res.err <= tol_ and res.x_tol == tol_ and res.iterations <= maxit_, err=res.err, want_tol=tol_, it=res.iterations, **info)
    return bool(res.x_converged)


def linear(ctx):
    from dolo.algos.time_iteration import time_iteration
    rng = ctx.rng
    kind = ["iid", "markov", "var"][ctx.rep % 3]
    ns = [1, 2, 1, 2, 3, 1][(ctx.rep // 3) % 6] if ctx.rep >= 3 else [2, 1, 1][ctx.rep]
    n = [int(v) for v in rng.integers(3, 6, ns)]
    d = make_linear(ctx, kind, ns=ns, n=n)
    model, spec = d["model"], d["spec"]
    keep = (model.residuals()["arbitrage"].tolist(), snapshot(dict(model.calibration.flat)))
    s = nodes_of(d["info"], spec)
    tol = float(rng.choice([1e-9, 1e-8, 1e-10]))
    interp = ["cubic", "linear"][int(rng.integers(2))]
    ctx.case("linear", kind, spec.A, interp)
    kw = dict(tol=tol, interp_method=interp)
    res = run(ctx, time_iteration, model, **kw)
    info = dict(kind=kind, interp=interp, tol=tol, ns=ns)
    if check_flags(ctx, res, tol, 1000, **info):
        ctx.close("grid", res.dr.endo_grid.nodes, s, atol=1e-12, **info)
        ctx.ok("grid", res.dr.interp_method == interp, got=res.dr.interp_method)
        check_linear(ctx, d, res, 1e4 * tol + 1e-8 if tol > 1e-9 else 2e-6, **info)
        r, _ = residual_linear(d, res.dr, res.dprocess, s)
        ctx.ok("nodal-residual", np.abs(r).max() <= 20 * tol + 1e-10, got=np.abs(r).max(), **info)
        ctx.sample(kind=kind, ns=ns, iterations=res.iterations, residual=np.abs(r).max())
    # --- options
    ctx.ok("flag", res.complementarities is False, why="no bounds in the model", got=res.complementarities)
    few = run(ctx, time_iteration, model, maxit=1, dr0=_Const(spec, 3.0), **kw)
    ctx.ok("non-convergence-reported", not few.x_converged and few.iterations == 1 and few.err > tol, got=few.x_converged, it=few.iterations, err=few.err)
    bare = run(ctx, time_iteration, model, details=False, **kw)
    i0 = [0] if kind != "iid" else []
    dp = res.dprocess
    ctx.close("repeatable", now(bare, dp, 0, s), now(res.dr, dp, 0, s), rtol=0, atol=1e-14, why="details=False returns the same rule")
    seen = []
    tr = run(ctx, time_iteration, model, trace=True, hook=lambda: seen.append(1), maxit=6, **kw)
    ctx.ok("options", len(seen) == tr.iterations and len(tr.trace) == tr.iterations + 1, why="one hook and one trace per iteration",
           hooks=len(seen), traces=len(tr.trace), it=tr.iterations)
    ctx.close("options", now(tr.trace[-1]["dr"], dp, 0, s), now(tr.dr, dp, 0, s), rtol=0, atol=1e-14, why="last trace")
    ctx.close("options", now(tr.trace[0]["dr"], dp, 0, s), np.tile(spec.x0, (len(s), 1)), atol=1e-12, why="first trace")
    # --- other starts
    ref = [now(res.dr, dp, i, s) for i in range(dp.n_nodes)]
    starts = [("result", few), ("rule", few.dr), ("constant", _Const(spec, float(rng.normal())))]
    if kind == "var":
        from dolo.algos.perturbation import perturb
        with ctx.attempt("perturb"):
            starts.append(("perturbation", perturb(model)))
    for nm, dr0 in starts:
        r2 = run(ctx, time_iteration, model, tag="initial-guess", dr0=dr0, **kw)
        if check_flags(ctx, r2, tol, 1000, start=nm, **info):
            for i in range(dp.n_nodes):
                ctx.close("initial-guess", now(r2.dr, dp, i, s), ref[i], rtol=0, atol=1e4 * tol + 1e-8 if tol > 1e-9 else 2e-6, start=nm, node=i, **info)
        if nm == "perturbation":
            pass
    # --- starting from the solution there is nothing left to do
    r3 = run(ctx, time_iteration, model, dr0=res, tol=1e-6, interp_method=interp)
    ctx.ok("initial-guess", r3.x_converged and r3.iterations <= 2, why="start at the solution", it=r3.iterations, **info)
    ctx.ok("model-unchanged", (model.residuals()["arbitrage"].tolist(), snapshot(dict(model.calibration.flat))) == keep)


class _Const:
    """A decision rule written by a user: constant controls."""

    def __init__(self, spec, shift):
        self.x = spec.x0 + shift

    def __call__(self, *a):
        s = a[-1]
        return np.tile(self.x, (len(s), 1))


def discretization(ctx):
    """Grids and processes chosen by the user."""
    from dolo.algos.time_iteration import time_iteration
    rng = ctx.rng
    kind = ["var", "iid", "var"][ctx.rep % 3]
    d = make_linear(ctx, kind, ns=1 + ctx.rep % 2, nm=1, n=[4] * (1 + ctx.rep % 2))
    model, spec = d["model"], d["spec"]
    s = nodes_of(d["info"], spec)
    if kind == "iid":
        opts = [dict(N=int(rng.integers(2, 8)))]
    else:
        opts = [dict(to="mc", N=int(rng.integers(2, 8))), dict(to="gdp")]
    for o in opts:
        with ctx.guard("discretize", **o):
            try:
                dp = model.exogenous.discretize(**o)
            except TypeError:
                o = {k: v for k, v in o.items() if k != "N"}
                dp = model.exogenous.discretize(**o)
        ctx.case("dprocess", spec.A, o)
        res = run(ctx, time_iteration, model, tag="dprocess", dprocess=dp, tol=1e-9, interp_method="linear" if o.get("to") == "gdp" else "cubic")
        if check_flags(ctx, res, 1e-9, 1000, options=o):
            ctx.ok("grid", res.dprocess is dp or res.dprocess.n_nodes == dp.n_nodes, options=o)
            r, _ = residual_linear(d, res.dr, dp, s)
            ctx.ok("nodal-residual", np.abs(r).max() <= 1e-7, got=np.abs(r).max(), options=o)
            check_linear(ctx, d, res, 2e-6, options=o)
            ctx.count("custom_discretizations")


def bounded(ctx):
    from dolo.algos.time_iteration import time_iteration
    rng = ctx.rng
    kind = ["iid", "markov", "var", "iid"][ctx.rep % 4]
    static = ctx.rep % 2 == 1
    ns = 1 + int(rng.integers(2))
    d = make_linear(ctx, kind, ns=ns, bounds=True, n=[int(v) for v in rng.integers(6, 9, ns)], static=static)
    model, spec = d["model"], d["spec"]
    s = nodes_of(d["info"], spec)
    tol = 1e-8
    interp = ["linear", "cubic"][int(rng.integers(2))]
    res = run(ctx, time_iteration, model, tol=tol, interp_method=interp)
    lo, hi = lb_ub(d, s, res.dprocess)
    info = dict(kind=kind, static=static, interp=interp)
    ctx.case("bounded", kind, spec.A, static)
    ctx.ok("flag", res.complementarities is True, why="the model has bounds", got=res.complementarities)
    if check_flags(ctx, res, tol, 1000, must=static, **info):
        r, x = residual_linear(d, res.dr, res.dprocess, s)
        bad = np.abs(natural(x, r, lo, hi))
        ctx.ok("nodal-residual", bad.max() <= 1e-5, got=bad.max(), **info)
        ctx.ok("bounds", ((x >= lo - 1e-5) & (x <= hi + 1e-5)).all(), **info)
        if ((x <= lo + 1e-5) | (x >= hi - 1e-5)).any():
            ctx.events["complementarity-bites"] = ctx.events.get("complementarity-bites", 0) + 1
        if static:
            for i in range(res.dprocess.n_nodes):
                m = np.zeros(len(spec.exo)) if kind == "iid" else np.ravel(res.dprocess.node(i)) - spec.m0
                want = np.clip(spec.x0 + (s - spec.s0) @ spec.F.T + m @ spec.G.T, lo[i], hi[i])
                ctx.close("exact-solution", x[i], want, rtol=0, atol=1e-5, node=i, **info)
    free = run(ctx, time_iteration, model, tol=1e-9, ignore_constraints=True, interp_method=interp)
    ctx.ok("flag", free.complementarities is False, why="ignore_constraints", got=free.complementarities)
    if check_flags(ctx, free, 1e-9, 1000, ignore=True, **info):
        check_linear(ctx, d, free, 2e-6, ignore=True, **info)
    old = run(ctx, time_iteration, model, tol=1e-9, with_complementarities=False, interp_method=interp)
    if check_flags(ctx, old, 1e-9, 1000, ignore="old", **info):
        check_linear(ctx, d, old, 2e-6, ignore="old", **info)


# ------------------------------------------------------------------- nonlinear models
def reader_of(Y):
    sym = Y["symbols"]
    Dn = [re.match(r"\s*(\w+)", k).group(1) for k, _ in Y["definitions"]]
    return models.Reader(list(sym["states"]) + list(sym["controls"]) + list(sym["exogenous"]) + Dn, Y["definitions"])


def residual_reader(Y, par, dr, dp, s, R=None):
    """Residuals, controls and bounds at every node, from the text of the equations."""
    sym = Y["symbols"]
    St, X, M = sym["states"], sym["controls"], sym["exogenous"]
    R = R or reader_of(Y)
    N = len(s)
    res, xs, los, his = [], [], [], []

    def vals(d, m, s_, x_):
        v = {(k, d): np.full(N, q) for k, q in zip(M, m)}
        v.update({(k, d): s_[:, a] for a, k in enumerate(St)})
        if x_ is not None:
            v.update({(k, d): x_[:, a] for a, k in enumerate(X)})
        return v
    B = lambda e, v: np.broadcast_to(np.asarray(R.eval(e, v, par), float), (N,))
    for i in range(dp.n_nodes):
        m = np.ravel(dp.node(i))
        x = now(dr, dp, i, s)
        r = np.zeros_like(x)
        cur = vals(0, m, s, x)
        for j in range(dp.n_inodes(i)):
            Mn = np.ravel(dp.inode(i, j))
            back = vals(-1, m, s, x)
            back.update({(k, 0): np.full(N, q) for k, q in zip(M, Mn)})
            S = np.stack([B(e.split("=", 1)[1], back) for e in Y["equations"]["transition"]], axis=1)
            XX = future(dr, dp, i, j, S)
            v = dict(cur)
            v.update(vals(1, Mn, S, XX))
            r = r + dp.iweight(i, j) * np.stack([B(re.split(r"[⟂|]", e)[0], v) for e in Y["equations"]["arbitrage"]], axis=1)
        lo, hi = np.full_like(x, -np.inf), np.full_like(x, np.inf)
        for k, e in enumerate(Y["equations"]["arbitrage"]):
            q = re.split(r"[⟂|]", e)
            if len(q) > 1:
                a, _, b = q[1].split("<=")
                lo[:, k], hi[:, k] = B(a, cur), B(b, cur)
        res.append(r), xs.append(x), los.append(lo), his.append(hi)
    return np.array(res), np.array(xs), np.array(los), np.array(his)


def growth(ctx, kind="iid", gmax=3.0, grid=None):
    """A stochastic growth model with random parameters."""
    rng = ctx.rng
    u = lambda a, b: float(np.round(rng.uniform(a, b), 4))
    v = dict(e="eps", k="kap", c="con", alpha=u(.25, .4), delta=u(.08, .2), beta=u(.92, .96), gam=u(.8, gmax), zz=u(.7, 1.5), kf=1.0, cf=1.0)
    txt = NL.format(**v).replace("yy[t] = zz*exp(eps[t])*kap[t]^alpha", "yy[t] = zz*kap[t]^alpha") if kind == "iid" else NL.format(**v)
    i = txt.find("exogenous:", txt.find("calibration:"))
    head = txt[:i]
    if "domain:" in head:
        head = head[:head.find("domain:")]
    if kind == "iid":
        exo = f"exogenous: !UNormal\n    sigma: {models.num(u(.01, .1))}\n"
    elif kind == "var":
        exo = f"exogenous: !AR1\n    rho: {models.num(u(.3, .8))}\n    sigma: {models.num(u(.005, .03))}\n"
    else:
        p, q = u(.5, .9), u(.5, .9)
        exo = f"exogenous: !MarkovChain\n    values: [[{-u(.01, .06)}],[{u(.01, .06)}]]\n    transitions: [[{p},{1 - p:.6f}],[{1 - q:.6f},{q}]]\n"
    n = int(rng.integers(8, 20)) if grid is None else grid
    return head + "domain:\n    kap: [kap*0.6, kap*1.5]\n" + exo + f"options:\n    grid: !Cartesian\n        n: [{n}]\n"


SAV = """symbols:
    exogenous: [{y}]
    states: [{w}]
    controls: [{c}]
    parameters: [beta, gamma, sig, r]
equations:
    transition: |
        {w}[t] = exp({y}[t]) + ({w}[t-1]-{c}[t-1])*r
    arbitrage: |
        beta*( {c}[t+1]/{c}[t] )^(-gamma)*r - 1  ⟂ 0.0<={c}[t]<={w}[t]
calibration:
    beta: {beta}
    gamma: {gamma}
    sig: {sig}
    r: {r}
    {y}: 0.0
    {w}: 1.0
    {c}: 0.9*{w}
domain:
    {w}: [0.1, 4.0]
{exo}
options:
    grid: !Cartesian
        n: [{n}]
"""


def savings(ctx, kind, n=None):
    rng = ctx.rng
    u = lambda a, b: float(np.round(rng.uniform(a, b), 4))
    if kind == "markov":
        p, q = u(.5, .9), u(.5, .9)
        exo = f"exogenous: !MarkovChain\n    values: [[{-u(.1, .4)}],[{u(.05, .3)}]]\n    transitions: [[{p},{1 - p:.6f}],[{1 - q:.6f},{q}]]\n"
    else:
        exo = "exogenous: !UNormal\n    sigma: sig\n"
    y, w, c = [("y", "w", "c"), ("b", "a", "z"), ("inc", "wealth", "cons")][int(rng.integers(3))]
    return SAV.format(y=y, w=w, c=c, beta=u(.9, .95), gamma=u(1.5, 4), sig=u(.05, .2), r=u(1.0, 1.03), exo=exo, n=int(rng.integers(15, 40)) if n is None else n)


def check_nodal(ctx, model_, Y, res, dp, tol, tag="nodal-residual", bounds=True, **info):
    s = res.dr.endo_grid.nodes
    r, x, lo, hi = residual_reader(Y, models.params_of(model_), res.dr, dp, s)
    if not bounds:
        lo, hi = np.full_like(lo, -np.inf), np.full_like(hi, np.inf)
    bad = np.abs(natural(x, r, lo, hi))
    ctx.ok(tag, bad.max() <= tol, got=bad.max(), where=s[np.unravel_index(bad.argmax(), bad.shape)[1]], **info)
    if ((x <= lo + 1e-6) | (x >= hi - 1e-6)).any():
        ctx.events["complementarity-bites"] = ctx.events.get("complementarity-bites", 0) + 1
    return r, x


def nonlinear(ctx):
    from dolo.algos.time_iteration import time_iteration
    rng = ctx.rng
    which = ["growth-iid", "savings-iid", "growth-markov", "savings-markov", "growth-var"][ctx.rep % 5]
    fam, kind = which.split("-")
    txt = growth(ctx, kind) if fam == "growth" else savings(ctx, kind)
    with ctx.guard("import"):
        model = models.load(txt)
    Y = models.read_yaml(txt, is_text=True)
    tol = 1e-7
    ctx.case(which, models.params_of(model))
    interp = "cubic" if fam == "growth" else "linear"
    res = run(ctx, time_iteration, model, tol=tol, maxit=600, interp_method=interp)
    keep = snapshot(dict(model.calibration.flat))
    ctx.events["flag"] = ctx.events.get("flag", 0) + 1
    if check_flags(ctx, res, tol, 600, must=False, model=which):
        r, x = check_nodal(ctx, model, Y, res, res.dprocess, 1e-5, model=which)
        ctx.sample(model=which, iterations=res.iterations, residual=np.abs(r).max())
        ctx.count("converged")
        if fam == "savings":
            free = run(ctx, time_iteration, model, tol=tol, maxit=3, interp_method=interp, ignore_constraints=True)
            ctx.ok("flag", free.complementarities is False, why="ignore_constraints")
    else:
        ctx.count("not_converged")
    ctx.ok("model-unchanged", snapshot(dict(model.calibration.flat)) == keep)


def examples(ctx):
    from dolo.algos.time_iteration import time_iteration
    which = ["rbc_mc.yaml", "consumption_savings_iid.yaml", "rbc_ar1.yaml", "rbc_iid.yaml"][ctx.rep % 4]
    with ctx.guard("import"):
        model = models.example(which)
    Y = models.read_yaml(os.path.join(models.REPO, "examples", "models", which))
    ctx.case(which)
    tol = 1e-6
    res = run(ctx, time_iteration, model, tol=tol)
    if check_flags(ctx, res, tol, 1000, model=which):
        check_nodal(ctx, model, Y, res, res.dprocess, 1e-3 if "cons" in which else 1e-4, model=which)
        r0 = run(ctx, time_iteration, model, tol=tol, dr0=res)
        ctx.ok("initial-guess", r0.x_converged and r0.iterations <= 3, model=which, it=r0.iterations)


def hopeless(ctx):
    """Models without a solution are not reported as solved."""
    from dolo.algos.time_iteration import time_iteration
    rng = ctx.rng
    spec = models.random_linear_spec(rng, ns=1, nx=1, nm=1)
    spec.B[:] = 0
    v = spec.controls[0]
    k = ctx.rep % 3
    eq = [f"{v}[t]*{v}[t] + {models.num(np.round(rng.uniform(.5, 2), 3))} - 0.01*{v}[t+1]",
          f"{v}[t] - {v}_ss - 3.0*({v}[t+1] - {v}_ss) - 1.0 - {spec.states[0]}[t]",       # explosive
          f"exp({v}[t]) + 1.0 + 0.0*{v}[t+1]"][k]
    txt, info = models.linear_yaml(spec, rng=rng, n=[4], style="new")
    txt = re.sub(r"arbitrage: \|\n.*\n", lambda m: f"arbitrage: |\n        {eq}\n", txt)
    with ctx.guard("import"):
        model = models.load(txt)
    ctx.case("hopeless", k, spec.A)
    for tol in (1e-3, 1e-5):
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                res = time_iteration(model, verbose=False, maxit=25, tol=tol)
        except Exception:
            ctx.ok("non-convergence-reported", True)
            continue
        ctx.ok("non-convergence-reported", not res.x_converged, kind=k, err=res.err, tol=tol, it=res.iterations)


SCENARIOS = [Scenario("linear", linear, quick=9, thorough=60), Scenario("bounded", bounded, quick=8, thorough=60),
             Scenario("nonlinear", nonlinear, quick=5, thorough=50), Scenario("discretization", discretization, quick=3, thorough=30),
             Scenario("examples", examples, quick=3, thorough=4), Scenario("hopeless", hopeless, quick=3, thorough=24)]
