"""C31 the solution methods agree with one another where the theory says they must."""
import warnings
import numpy as np
from vm.core import Scenario
from vm import models
from vm.props import c16, c17, c18, c19, c20
from vm.props.c17 import make_linear, nodes_of, run, now

RULE = ("one model solved by several methods whose results are compared with each other: perturbation, both time iterations, perfect "
        "foresight and simulation on random linear models; the slope and the paths of global solutions against perturbation and "
        "perfect foresight on growth models; endogenous grid points against time iteration; value iteration against time iteration and "
        "against the values of other policies; non-trivial: both methods report convergence")
REQUIRED = {"perturbation=time-iteration": 8, "improved=time-iteration": 8, "perfect-foresight=perturbation": 4, "slope": 3,
            "path": 3, "egm=time-iteration": 2, "values": 1, "steady-state": 3}


def solutions(ctx, model, interp, tol=1e-10):
    from dolo.algos.time_iteration import time_iteration
    out = {"time iteration": run(ctx, time_iteration, model, tol=tol, interp_method=interp)}
    for inv in ("iti", "gmres"):
        r = run(ctx, c18.iti, model, tol=1e-8, interp_method=interp, invmethod=inv)
        if r.x_converged:
            out["improved " + inv] = r
    return out


def linear(ctx):
    """x = x0 + K (s - s0) + H (m - m0) whatever the method."""
    from dolo.algos.perturbation import perturb
    from dolo.algos.simulations import response, simulate
    rng = ctx.rng
    kind = ["var", "iid", "markov"][ctx.rep % 3]
    ns = 1 + int(rng.integers(2))
    d = make_linear(ctx, kind, ns=ns, n=[int(v) for v in rng.integers(3, 6, ns)])
    model, spec = d["model"], d["spec"]
    nm = len(spec.exo)
    interp = ["linear", "cubic"][int(rng.integers(2))]
    sol = solutions(ctx, model, interp)
    ti = sol["time iteration"]
    dp = ti.dprocess
    ctx.case("linear", kind, spec.A, nontrivial=bool(ti.x_converged))
    ctx.ok("flag", bool(ti.x_converged), kind=kind)
    s = nodes_of(d["info"], spec)
    lo, hi = s.min(axis=0), s.max(axis=0)
    pts = np.concatenate([s, lo + (hi - lo) * rng.random((10, ns))])
    for nm_, r in sol.items():
        if nm_ == "time iteration":
            continue
        for i in range(dp.n_nodes):
            ctx.close("improved=time-iteration", now(r.dr, dp, i, pts), now(ti.dr, dp, i, pts), rtol=0, atol=5e-6, method=nm_, kind=kind, node=i)
    if kind == "markov":
        return
    with ctx.guard("perturb"):
        pr = perturb(model)
    ctx.ok("flag", bool(pr.determined), why="the model has a unique stable solution")
    for i in range(dp.n_nodes):
        m = np.zeros(nm) + spec.m0 if kind == "iid" else np.ravel(dp.node(i))
        ctx.close("perturbation=time-iteration", pr.dr(np.tile(m, (len(pts), 1)), pts), now(ti.dr, dp, i, pts), rtol=0, atol=5e-6, kind=kind, node=i)
    # --- a path: shock at date 1, decaying afterwards; no more surprises
    T = 160
    j = int(rng.integers(nm))
    size = float(rng.normal() * .3)
    with ctx.guard("response"):
        irf = response(model, pr, spec.exo[j], T=40, impulse=size)
    names = spec.exo + spec.states + spec.controls
    a = np.asarray(irf.sel(V=names))
    eps = np.zeros((T + 1, nm)) + spec.m0
    eps[0] = a[1, :nm]
    if kind == "var":
        for t in range(1, T + 1):
            eps[t] = spec.m0 + d["rho"] * (eps[t - 1] - spec.m0)
    df, conv = c16.solve(ctx, model, tag="deterministic_solve", exogenous=eps, s0=a[1, nm:nm + ns], T=T)
    rad = np.abs(np.linalg.eigvals(spec.A + spec.B @ d["K"])).max()
    if conv and rad < .9 and abs(d["rho"]) < .9:
        got = np.asarray(df.loc[0:38, names], float)
        x_dep = slice(0, nm + ns + len(spec.controls))
        ctx.close("perfect-foresight=perturbation", got, a[1:, x_dep], rtol=0, atol=3e-5, kind=kind, radius=rad)
        ctx.sample(kind=kind, impulse=size, path=got[3])


def slope(ctx):
    """Around the steady state, with vanishing risk, a global solution has the slope found by perturbation,
    its fixed point is the steady state, and its paths are the perfect-foresight paths."""
    import re
    from dolo.algos.perturbation import perturb
    from dolo.algos.time_iteration import time_iteration
    from dolo.algos.simulations import simulate
    rng = ctx.rng
    kind = ["iid", "var"][ctx.rep % 2]
    txt = c17.growth(ctx, kind, gmax=2.5, grid=40)
    txt = re.sub(r"sigma: \S+", "sigma: 1e-10" if kind == "var" else "sigma: 1e-5", txt)
    txt = re.sub(r"!AR1\n    rho: (\S+)\n    sigma: \S+", r"!VAR1\n    rho: \1\n    Sigma: [[1e-10]]", txt)
    txt = txt.replace("kap: [kap*0.6, kap*1.5]", "kap: [kap*0.75, kap*1.3]")
    with ctx.guard("import"):
        model = models.load(txt)
    with ctx.guard("perturb"):
        pr = perturb(model)
    improved = ctx.rep % 4 >= 2
    solver = c18.iti if improved else time_iteration
    kw = dict(tol=1e-8, interp_method="cubic", maxit=40 if improved else 600, dr0=pr)
    if kind == "var":
        with ctx.guard("discretize"):
            kw["dprocess"] = model.exogenous.discretize(to="gdp")
    sol = run(ctx, solver, model, **kw)
    ctx.case("slope", kind, models.params_of(model), nontrivial=bool(sol.x_converged))
    if not sol.x_converged:
        ctx.count("not_converged")
        return
    info = dict(kind=kind, solver="improved" if improved else "time iteration")
    cal = model.calibration
    m, s, x = cal["exogenous"], cal["states"], cal["controls"]
    f = (lambda q: sol.dr(np.tile(m, (len(q), 1)), q)) if kind == "var" else (lambda q: sol.dr(q))
    ctx.close("steady-state", f(s[None])[0], x, rtol=2e-5, atol=0, **info)
    h = .01 * s[0]
    d = (f(s[None] + h) - f(s[None] - h))[0] / (2 * h)
    ctx.close("slope", d, pr.dr.C_s[:, 0], rtol=3e-3, atol=1e-4, **info)
    # ---- paths from several initial states
    for _ in range(2):
        s0 = s * rng.uniform(.85, 1.2, len(s))
        df, conv = c16.solve(ctx, model, tag="deterministic_solve", s0=s0, T=120)
        if not conv:
            continue
        T = 40
        with ctx.guard("simulate"):
            sim = simulate(model, sol.dr, s0=s0, m0=m, T=T, driving_process=np.tile(m, (T, 1, 1)), N=1)
        names = model.symbols["states"] + model.symbols["controls"]
        got = np.stack([np.asarray(sim.sel(V=v)).reshape(T) for v in names], axis=1)
        want = np.asarray(df.loc[0:T - 1, names], float)
        ctx.close("path", got, want, rtol=2e-4, atol=0, **info)
        ctx.sample(s0=s0, at5=got[5])


def egm(ctx):
    """Endogenous grid points and time iteration solve the same consumption problem."""
    from dolo.algos.time_iteration import time_iteration
    kind = ["iid", "markov"][ctx.rep % 2]
    model, d = c19.make(ctx, kind, n=250)
    ag = d["amin"] + np.linspace(0, 1, 600) ** 2 * 8
    sol = c19.egm_(ctx, model, a_grid=ag, η_tol=1e-9)
    ti = run(ctx, time_iteration, model, tol=1e-7, interp_method="linear", maxit=800)
    ctx.case("egm", kind, d["beta"], nontrivial=bool(ti.x_converged))
    if not (ti.x_converged and sol.a_converged):
        ctx.count("not_converged")
        return
    s = np.linspace(d["lo"], 2.2, 300)
    dp = sol.dprocess
    worst = 0
    for i in range(dp.n_nodes):
        a = c19.at(sol, i, s[:, None])
        b = now(ti.dr, dp, i, s[:, None])[:, 0]
        worst = max(worst, np.abs(a - b).max())
        ctx.ok("egm=time-iteration", np.abs(a - b).max() < 4e-3, node=i, got=np.abs(a - b).max(), kind=kind, at=s[np.abs(a - b).argmax()])
    ctx.sample(kind=kind, difference=worst)


def values(ctx):
    """The value found by value iteration is the value of its policy, which is the one of time iteration,
    and no other feasible policy is worth more."""
    from dolo.algos.time_iteration import time_iteration
    from dolo.algos.value_iteration import value_iteration, evaluate_policy
    rng = ctx.rng
    kind = ["iid", "markov"][ctx.rep % 2]
    model, Y, d = c20.make(ctx, kind, n=20, exact=True)
    eq = c20.Eq(Y, models.params_of(model))
    ti = run(ctx, time_iteration, model, tol=1e-7, maxit=600)
    vi = run(ctx, value_iteration, model, tol=1e-6, maxit=400)
    ctx.case("values", kind, d["beta"], nontrivial=bool(ti.x_converged))
    if not ti.x_converged:
        ctx.count("not_converged")
        return
    dp = ti.dprocess
    s = ti.dr.endo_grid.nodes
    ev = lambda dr: run(ctx, evaluate_policy, model, tag="evaluate_policy", mdr=dr, tol=1e-9, maxit=3000)
    v1 = vi[1] if isinstance(vi, tuple) else vi.drv
    dr1 = vi[0] if isinstance(vi, tuple) else vi.dr
    best = ev(ti.dr)
    best = getattr(best, "solution", best)
    ctx.count("compared")
    inner = slice(2, -2)
    for i in range(dp.n_nodes):
        V, B = now(v1, dp, i, s), now(best, dp, i, s)
        sc = np.abs(B).max()
        ctx.ok("values", np.abs(V - B).max() < 2e-3 * sc, node=i, got=np.abs(V - B).max(), scale=sc, kind=kind)
        ctx.ok("policy", np.abs(now(dr1, dp, i, s) - now(ti.dr, dp, i, s))[inner].max() < .1 * np.abs(now(ti.dr, dp, i, s)).max(), node=i,
               got=np.abs(now(dr1, dp, i, s) - now(ti.dr, dp, i, s))[inner].max())
    for a, b in ((1.25, 0.0), (.7, 0.0)):
        # the optimal policy, deformed and clipped to the bounds
        pol = np.array([np.clip(now(ti.dr, dp, i, s) * a + b, *eq.bounds(np.ravel(dp.node(i)), s)) for i in range(dp.n_nodes)])
        other = ev(pol)
        other = getattr(other, "solution", other)
        for i in range(dp.n_nodes):
            V, B = now(other, dp, i, s), now(best, dp, i, s)
            ctx.ok("optimal", (V <= B + 1e-3 * np.abs(B).max()).all(), node=i, a=a, got=(V - B).max(), kind=kind)
            ctx.ok("optimal", (V <= B).mean() > .5, node=i, a=a)


SCENARIOS = [Scenario("linear", linear, quick=9, thorough=60), Scenario("slope", slope, quick=4, thorough=32),
             Scenario("egm", egm, quick=2, thorough=16), Scenario("values", values, quick=2, thorough=16)]
