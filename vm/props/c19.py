"""C19 endogenous grid method: Euler equation, borrowing limit, monotonicity, agreement with an independent implementation."""
import contextlib
import io
import warnings
import numpy as np
from vm.core import Scenario, snapshot
from vm import models

RULE = ("random consumption-savings problems (iid and Markov income, interest, discounting, risk aversion, borrowing limits, shuffled "
        "names) and random asset grids; the returned rule is compared with an independent implementation, its Euler equation is "
        "re-evaluated on fine grids, and limits and monotonicity are checked at every node; non-trivial: the limit binds somewhere")
REQUIRED = {"reference": 8, "euler": 4, "limit": 8, "monotone": 8, "binding": 4, "flag": 10, "non-convergence-reported": 5}

TXT = """symbols:
    exogenous: [{y}]
    states: [{w}]
    expectations: [mr]
    poststates: [{a}]
    controls: [{c}]
    parameters: [beta, gamma, sig, r, cbar, amin]
equations:
    transition:
        - {w}[t] = exp({y}[t]) + ({w}[t-1]-{c}[t-1])*r
    arbitrage:
        - beta*( {c}[t+1]/{c}[t] )^(-gamma)*r - 1  ⟂ 0.0<={c}[t]<={w}[t] - amin
    half_transition: |
        {w}[t] = exp({y}[t]) + {a}[t-1]*r
    reverse_state: |
        {w}[t] = {a}[t] + {c}[t]
    expectation: |
        mr[t] = beta*( {c}[t+1]/cbar )^(-gamma)*r
    direct_response_egm: |
        {c}[t] = cbar*(mr[t])^(-1/gamma)
calibration:
    beta: {beta}
    gamma: {gamma}
    sig: {sig}
    r: {r}
    amin: {amin}
    cbar: {cb}
    {w}: {w0}
    {y}: 0.0
    {c}: {share}*{w}
domain:
    {w}: [{lo}, {hi}]
{exo}
options:
    grid: !Cartesian
        n: [{n}]
"""


def make(ctx, kind, n=None):
    rng = ctx.rng
    u = lambda a, b: float(np.round(rng.uniform(a, b), 4))
    y, w, c, a = [("y", "w", "c", "a"), ("b", "z", "a", "k"), ("inc", "cash", "cons", "save")][int(rng.integers(3))]
    d = dict(y=y, w=w, c=c, a=a, beta=u(.9, .96), gamma=u(1.2, 4), sig=u(.05, .25), r=u(1.0, 1.03), w0=u(.8, 1.5), share=u(.7, .95), cb=u(.5, 1.5))
    d["amin"] = -u(.05, .3) if rng.random() < .4 else 0.0
    if kind == "markov":
        k = int(rng.integers(2, 4))
        V = np.sort(np.round(rng.normal(size=k) * .25, 4))
        P = np.round(rng.dirichlet(np.ones(k) * 3, k), 6)
        P[:, -1] = np.round(1 - P[:, :-1].sum(axis=1), 12)
        fmt = lambda A: "[" + ", ".join("[" + ", ".join(models.num(v) for v in r_) + "]" for r_ in A) + "]"
        d["exo"] = f"exogenous: !MarkovChain\n    values: {fmt(V[:, None])}\n    transitions: {fmt(P)}"
        d["V"], d["P"] = V, P
    else:
        d["exo"] = "exogenous: !UNormal\n    sigma: sig"
    lo_y = (d["V"].min() if kind == "markov" else -.3)
    d["lo"] = float(np.round(d["amin"] + .05, 4))
    d["hi"] = 4.0
    d["n"] = int(rng.integers(20, 60)) if n is None else n
    txt = TXT.format(**{k: (models.num(v) if isinstance(v, float) else v) for k, v in d.items() if k not in ("V", "P")})
    with ctx.guard("import"):
        model = models.load(txt)
    return model, d


def lin(xs, ys, q):
    """Piecewise linear, extrapolated with the slope of the end segments."""
    j = np.clip(np.searchsorted(xs, q) - 1, 0, len(xs) - 2)
    t = (q - xs[j]) / (xs[j + 1] - xs[j])
    return ys[j] * (1 - t) + ys[j + 1] * t


def reference(d, ag, nodes, P, tol=1e-12, maxit=5000):
    """(w, c) points for each exogenous node; nodes[i][j]: income shock, P[i][j]: weights, chain tells whether next node matters."""
    n = len(P)
    iid = d.get("V") is None
    W = [ag + .9 for _ in range(n)]
    C = [np.full(len(ag), .9 * 1.0) for _ in range(n)]
    f = lambda i, w: np.clip(lin(W[i], C[i], w), 0.0, w - d["amin"])
    for it in range(maxit):
        W1, C1 = [], []
        for i in range(n):
            ev = 0
            for j in range(len(P[i])):
                w = np.exp(nodes[i][j]) + ag * d["r"]
                c = f(0 if iid else j, w)
                ev = ev + P[i][j] * d["beta"] * d["r"] * c ** (-d["gamma"])
            ci = ev ** (-1 / d["gamma"])
            C1.append(ci)
            W1.append(ag + ci)
        e = max(np.abs(a - b).max() for a, b in zip(C1 + W1, C + W))
        W, C = W1, C1
        if e < tol:
            return f, W, C
    return None, W, C


def egm_(ctx, model, tag="egm", **kw):
    from dolo.algos.egm import egm
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        with ctx.guard(tag, kw=sorted(kw)):
            return egm(model, **kw)


def at(sol, i, s):
    return (sol.dr(s) if type(sol.dr.exo_grid).__name__ == "EmptyGrid" else sol.dr(i, s))[:, 0]


def agrid(rng, d, n=None):
    n = int(rng.integers(10, 40)) if n is None else n
    hi = rng.uniform(3, 8)
    k = int(rng.integers(3))
    if k == 0:
        g = np.linspace(0, 1, n)
    elif k == 1:
        g = np.linspace(0, 1, n) ** 2
    else:
        g = np.concatenate([[0], np.sort(rng.uniform(0.002, 1, n - 2)), [1]])
        g = g[np.concatenate([[True], np.diff(g) > 1e-4])]
    return d["amin"] + g * hi


def solve(ctx):
    rng = ctx.rng
    kind = ["iid", "markov"][ctx.rep % 2]
    model, d = make(ctx, kind)
    ag = agrid(rng, d)
    keep = snapshot([ag, dict(model.calibration.flat)])
    tol = float(rng.choice([1e-6, 1e-8, 1e-9]))
    sol = egm_(ctx, model, a_grid=ag, η_tol=tol)
    info = dict(kind=kind, tol=tol, amin=d["amin"])
    ctx.ok("flag", bool(sol.a_converged) and sol.err <= tol and sol.a_tol == tol, err=sol.err, it=sol.iterations, **info)
    ctx.ok("arguments-unchanged", snapshot([ag, dict(model.calibration.flat)]) == keep)
    dp = sol.dprocess
    n = dp.n_nodes
    nodes = [[float(np.ravel(dp.inode(i, j))[0]) for j in range(dp.n_inodes(i))] for i in range(n)]
    P = [[float(dp.iweight(i, j)) for j in range(dp.n_inodes(i))] for i in range(n)]
    if kind == "markov":
        ctx.close("chain", P, d["P"], atol=1e-9)
        ctx.close("chain", nodes, np.tile(d["V"], (n, 1)), atol=1e-9)
    f, W, C = reference(d, ag, nodes, P)
    if f is None:
        ctx.count("reference_not_converged")
        return
    s = np.linspace(d["lo"], d["hi"], d["n"])
    ctx.close("grid", sol.dr.endo_grid.nodes[:, 0], s, atol=1e-12)
    bind = 0
    for i in range(n):
        x = at(sol, i, s[:, None])
        want = f(i, s)
        ctx.close("reference", x, want, rtol=0, atol=60 * tol + 1e-9, node=i, **info)
        ctx.ok("limit", (x <= s - d["amin"] + 1e-10).all() and (x > 0).all(), node=i, got=x, **info)
        ctx.ok("monotone", (np.diff(x) > -1e-10).all(), node=i, got=x, **info)
        b = s < W[i][0] - 1e-9
        bind += b.sum()
        if b.any():
            ctx.close("binding", x[b], s[b] - d["amin"], rtol=0, atol=1e-10, node=i, **info)
    ctx.case(kind, d["beta"], ag, nontrivial=bind > 0)
    ctx.sample(kind=kind, iterations=sol.iterations, binding_nodes=bind, nodes=n * len(s))
    # other starts, reporting
    r2 = egm_(ctx, model, tag="initial-guess", a_grid=ag, η_tol=tol, dr0=sol.dr if ctx.rep % 4 < 2 else sol)
    ctx.ok("flag", bool(r2.a_converged), start="solution", **info)
    for i in range(n):
        ctx.close("initial-guess", at(r2, i, s[:, None]), f(i, s), rtol=0, atol=60 * tol + 1e-9, node=i, **info)
    sh = float(rng.uniform(.2, .9))
    r3 = egm_(ctx, model, tag="initial-guess", a_grid=ag, η_tol=tol, dr0=lambda i, q: sh * (q - d["amin"]))
    for i in range(n):
        ctx.close("initial-guess", at(r3, i, s[:, None]), f(i, s), rtol=0, atol=60 * tol + 1e-9, node=i, start="function", **info)
    few = egm_(ctx, model, a_grid=ag, η_tol=tol, maxit=int(rng.integers(3, 6)))
    ctx.ok("non-convergence-reported", not few.a_converged and few.err >= tol, err=few.err, it=few.iterations)
    one = egm_(ctx, model, tag="maxit=1", a_grid=ag, η_tol=tol, maxit=1)
    ctx.ok("non-convergence-reported", not one.a_converged, err=one.err, it=one.iterations)
    # discretizations and grids chosen by the user
    from dolo.numeric.grids import ProductGrid
    kw = {}
    if kind == "iid":
        kw["dp"] = model.exogenous.discretize(N=int(rng.integers(2, 7)))
    g = model.discretize(grid_options=dict(n=[int(rng.integers(5, 12))]))[0] if ctx.rep % 4 < 2 else None
    if g is not None:
        kw["grid"] = g
    if kw:
        r4 = egm_(ctx, model, tag="options", a_grid=ag, η_tol=1e-9, **kw)
        dq = kw.get("dp", dp)
        nodes = [[float(np.ravel(dq.inode(i, j))[0]) for j in range(dq.n_inodes(i))] for i in range(n)]
        P = [[float(dq.iweight(i, j)) for j in range(dq.n_inodes(i))] for i in range(n)]
        f4, _, _ = reference(d, ag, nodes, P)
        s4 = s if g is None else g["endo"].nodes[:, 0]
        ctx.close("grid", r4.dr.endo_grid.nodes[:, 0], s4, atol=1e-12)
        if f4 is not None:
            for i in range(n):
                ctx.close("options", at(r4, i, s4[:, None]), f4(i, s4), rtol=0, atol=1e-7, node=i, options=sorted(kw), **info)
    ctx.raises("grid-required", lambda: egm_raw(model))


def egm_raw(model):
    from dolo.algos.egm import egm
    return egm(model)


def euler(ctx):
    """On fine grids the rule satisfies the Euler equation between the nodes too."""
    rng = ctx.rng
    kind = ["iid", "markov"][ctx.rep % 2]
    model, d = make(ctx, kind, n=600)
    ag = d["amin"] + np.linspace(0, 1, 400) ** 2 * 6
    sol = egm_(ctx, model, a_grid=ag, η_tol=1e-9)
    dp = sol.dprocess
    ctx.ok("flag", bool(sol.a_converged))
    ctx.case("euler", kind, d["beta"])
    s = np.sort(rng.uniform(d["lo"], 3.0, 200))
    for i in range(dp.n_nodes):
        c = at(sol, i, s[:, None])
        ev = 0
        for j in range(dp.n_inodes(i)):
            w = np.exp(float(np.ravel(dp.inode(i, j))[0])) + (s - c) * d["r"]
            inside = np.minimum(w, d["hi"])
            ev = ev + dp.iweight(i, j) * d["beta"] * d["r"] * at(sol, j if kind == "markov" else 0, inside[:, None]) ** (-d["gamma"])
        star = ev ** (-1 / d["gamma"])
        ok_w = np.exp(max(float(np.ravel(dp.inode(i, j))[0]) for j in range(dp.n_inodes(i)))) + (s - c) * d["r"] <= d["hi"]
        want = np.minimum(star, s - d["amin"])
        err = np.abs(c - want)[ok_w]
        ctx.ok("euler", err.size and err.max() < 5e-3, node=i, got=float(err.max()) if err.size else None, kind=kind)


SCENARIOS = [Scenario("solve", solve, quick=8, thorough=80), Scenario("euler", euler, quick=4, thorough=32)]
