"""C20 values of policies and value iteration: recursive value equation, Bellman optimality, bounds."""
import os
import re
import warnings
import numpy as np
from vm.core import Scenario, snapshot
from vm import models
from vm.props.c17 import reader_of, now, future

RULE = ("random growth models with a value equation and a felicity (iid and Markov shocks), arbitrary policies of every accepted kind; "
        "the value equation is re-evaluated at every node from the text of the model; value iteration is compared with brute-force "
        "maximization at every node; non-trivial: stochastic, more than one node")
REQUIRED = {"value-equation": 14, "bellman": 4, "bounds": 4, "closed-form": 3, "arguments-unchanged": 8, "flag": 10}

TXT = """symbols:
    exogenous: [{e}]
    states: [{k}]
    controls: [{i}]
    values: [V]
    rewards: [u]
    parameters: [alpha, delta, beta, gam, A, tau]
definitions: |
    y[t] = A*{k}[t]^alpha
    c[t] = y[t] - {i}[t]
equations:
    transition: |
        {k}[t] = (1-delta)*{k}[t-1]*exp({e}[t]) + {i}[t-1]
    arbitrage: |
        1 - beta*(c[t]/c[t+1])^gam*(1-delta + alpha*y[t+1]/{k}[t+1]) ⟂ {lo} <= {i}[t] <= {hi}
    value: |
        V[t] = (1-beta)*{fel} + beta*V[t+1]{extra}
    felicity: |
        u[t] = (1-beta)*{fel}
calibration:
    alpha: {alpha}
    delta: {delta}
    beta: {beta}
    gam: {gam}
    A: {A}
    tau: 0.1
    {e}: 0.0
    {k}: ((1/beta-1+delta)/(alpha*A))^(1/(alpha-1))
    y: A*{k}^alpha
    {i}: delta*{k}
    c: y - {i}
    V: c^(1-gam)/(1-gam)
    u: (1-beta)*V
domain:
    {k}: [{k}*0.5, {k}*1.6]
{exo}
options:
    grid: !Cartesian
        n: [{n}]
"""


def make(ctx, kind, extra=False, n=None, tight=False, exact=False):
    rng = ctx.rng
    u = lambda a, b: float(np.round(rng.uniform(a, b), 4))
    e, k, i = [("eps", "k", "i"), ("z", "kap", "a"), ("b", "stock", "inv")][int(rng.integers(3))]
    d = dict(e=e, k=k, i=i, alpha=u(.25, .4), delta=u(.08, .2), beta=u(.85, .95), gam=u(1.5, 3), A=u(.7, 1.5))
    d["n"] = int(rng.integers(8, 16)) if n is None else n
    d["fel"] = "c[t]^(1-gam)/(1-gam)"
    d["extra"] = f" + tau*{i}[t+1]*{e}[t+1] - 0.05*{k}[t+1]" if extra else ""
    d["lo"] = f"{models.num(u(.01, .05))}*{k}[t]"
    if tight:
        d["lo"] = f"{models.num(d['delta'])}*{k}[t]"
        d["hi"] = f"{models.num(np.round(d['delta'] * 1.05, 5))}*{k}[t]"
    else:
        d["hi"] = f"{models.num(.9)}*A*{k}[t]^alpha"
    if exact:
        # keeps the states inside of the domain, so that no extrapolated value matters
        d["hi"] = f"{models.num(np.round(d['delta'] * 1.3, 5))}*((1/beta-1+delta)/(alpha*A))^(1/(alpha-1))"
    if kind == "markov":
        m = int(rng.integers(2, 4))
        V = np.round(rng.normal(size=m) * .05, 4)
        if exact:
            V = np.round(np.clip(V - V.mean(), -.06, .06), 4)
        P = np.round(rng.dirichlet(np.ones(m) * 2, m), 6)
        P[:, -1] = np.round(1 - P[:, :-1].sum(axis=1), 12)
        fmt = lambda A: "[" + ", ".join("[" + ", ".join(models.num(v) for v in r_) + "]" for r_ in A) + "]"
        d["exo"] = f"exogenous: !MarkovChain\n    values: {fmt(V[:, None])}\n    transitions: {fmt(P)}"
    elif kind == "var":
        d["exo"] = f"exogenous: !AR1\n    rho: {models.num(u(.2, .7))}\n    sigma: {models.num(u(.01, .04))}"
    else:
        d["exo"] = f"exogenous: !UNormal\n    sigma: {models.num(u(.02, .08))}"
    txt = TXT.format(**{a: (models.num(b) if isinstance(b, float) else b) for a, b in d.items()})
    if exact:
        # the arbitrage equation is then the first order condition of the stochastic dynamic program
        txt = txt.replace(f"(1-delta)*{k}[t-1]*exp({e}[t]) + {i}[t-1]", f"((1-delta)*{k}[t-1] + {i}[t-1])*exp({e}[t])")
        txt = txt.replace("(c[t]/c[t+1])^gam*", f"(c[t]/c[t+1])^gam*exp({e}[t+1])*")
    with ctx.guard("import"):
        model = models.load(txt)
    return model, models.read_yaml(txt, is_text=True), d


class Eq:
    """value equation, transition and felicity of a model file, vectorised"""

    def __init__(self, Y, par):
        self.Y, self.par, self.R = Y, par, None
        sym = Y["symbols"]
        self.St, self.X, self.M, self.V = sym["states"], sym["controls"], sym["exogenous"], sym["values"]
        Dn = [re.match(r"\s*(\w+)", k).group(1) for k, _ in Y["definitions"]]
        self.R = models.Reader(self.St + self.X + self.M + self.V + sym.get("rewards", []) + Dn, Y["definitions"])

    def vals(self, dt, N, m=None, s=None, x=None, v=None):
        o = {}
        for names, a in ((self.M, m), (self.St, s), (self.X, x), (self.V, v)):
            if a is not None:
                a = np.broadcast_to(np.asarray(a, float), (N, len(names)))
                o.update({(k, dt): a[:, q] for q, k in enumerate(names)})
        return o

    def rhs(self, block, v, N):
        return np.stack([np.broadcast_to(np.asarray(self.R.eval(e.split("=", 1)[1], v, self.par), float), (N,)) for e in self.Y["equations"][block]], axis=1)

    def next(self, m, s, x, M):
        N = len(s)
        v = self.vals(-1, N, m, s, x)
        v.update(self.vals(0, N, M))
        return self.rhs("transition", v, N)

    def value(self, m, s, x, v0, M, S, X, V):
        N = len(s)
        v = self.vals(0, N, m, s, x, v0)
        v.update(self.vals(1, N, M, S, X, V))
        return self.rhs("value", v, N)

    def felicity(self, m, s, x):
        return self.rhs("felicity", self.vals(0, len(s), m, s, x), len(s))

    def bounds(self, m, s):
        v = self.vals(0, len(s), m, s)
        lo, hi = [], []
        for e in self.Y["equations"]["arbitrage"]:
            q = re.split(r"[⟂|]", e)
            a, _, b = q[1].split("<=")
            lo.append(np.broadcast_to(np.asarray(self.R.eval(a, v, self.par), float), (len(s),)))
            hi.append(np.broadcast_to(np.asarray(self.R.eval(b, v, self.par), float), (len(s),)))
        return np.stack(lo, axis=1), np.stack(hi, axis=1)


def value_residual(eq, drv, pol, fut, dp, s):
    """pol(i, s): controls today in node i; fut(i, j, S): controls tomorrow"""
    out, vs = [], []
    for i in range(dp.n_nodes):
        m = np.ravel(dp.node(i))
        x = pol(i, s)
        v = now(drv, dp, i, s)
        r = 0
        for j in range(dp.n_inodes(i)):
            M = np.ravel(dp.inode(i, j))
            S = eq.next(m, s, x, M)
            r = r + dp.iweight(i, j) * eq.value(m, s, x, v, M, S, fut(i, j, S), future(drv, dp, i, j, S))
        out.append(r - v)
        vs.append(v)
    return np.array(out), np.array(vs)


def call(ctx, fn, *a, tag="call", **kw):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with ctx.guard(tag, kw={k: repr(v)[:40] for k, v in kw.items()}):
            return fn(*a, **kw)


def policies(ctx):
    from dolo.algos.value_iteration import evaluate_policy, constant_policy
    from dolo.numeric.decision_rule import DecisionRule, ConstantDecisionRule, CustomDR
    from dolo.algos.results import AlgoResult
    rng = ctx.rng
    kind = ["iid", "markov", "var", "markov"][ctx.rep % 4]
    model, Y, d = make(ctx, kind, extra=ctx.rep % 2 == 0)
    eq = Eq(Y, models.params_of(model))
    grid, dp = model.discretize()
    s = grid["endo"].nodes
    n, N = dp.n_nodes, len(s)
    ib = float(model.calibration[d["i"]])
    base = np.array([ib * (1 + .2 * rng.random() + .3 * (s[:, 0] / s[:, 0].mean() - 1) + .05 * np.sin(7 * s[:, 0] / s[:, 0].mean())) for _ in range(n)])[:, :, None]
    interp = ["cubic", "linear"][int(rng.integers(2))]
    dr = DecisionRule(grid["exo"], grid["endo"], dprocess=dp, interp_method="cubic", values=base)
    on_grid = lambda itp: DecisionRule(grid["exo"], grid["endo"], dprocess=dp, interp_method=itp, values=base)
    cases = [("rule", dr, lambda i, q: now(dr, dp, i, q), lambda i, j, q: future(dr, dp, i, j, q))]
    k = float(np.round(rng.uniform(.9, 1.1) * ib, 6))
    cst = lambda *a: np.full((len(a[-1]), 1), k)
    cases.append(("constant", ConstantDecisionRule(np.array([k])), cst, cst))
    lin_now = lambda i, q: k + .01 * q + .1 * np.ravel(dp.node(i))[0]
    lin_fut = lambda i, j, q: k + .01 * q + .1 * np.ravel(dp.inode(i, j))[0]
    # tomorrow, an arbitrary rule is seen through its values on the grid: only linear rules without iid shocks are interpolated exactly
    if kind != "iid":
        with ctx.guard("custom-rule"):
            cases.append(("custom", CustomDR({d["i"]: f"{models.num(k)} + 0.01*{d['k']} + 0.1*{d['e']}"}, model), lin_now, lin_fut))
    ref = on_grid(interp)
    cases.append(("array", base, lambda i, q: base[i], lambda i, j, q: future(ref, dp, i, j, q)))
    res = AlgoResult()
    res.dr = dr
    cases.append(("result", res, cases[0][2], cases[0][3]))
    for nm, pol, x0, x1 in cases:
        tol = float(rng.choice([1e-8, 1e-10]))
        keep = snapshot([getattr(pol, "coefficients", None), base, dict(model.calibration.flat)])
        ev = call(ctx, evaluate_policy, model, pol, tag="evaluate:" + nm, verbose=False, details=True, tol=tol, interp_method=interp)
        ctx.case(kind, nm, d["alpha"], interp)
        ctx.ok("flag", ev.error <= tol and ev.tol == tol and 0 < ev.iterations < 2000, err=ev.error, it=ev.iterations, policy=nm)
        r, v = value_residual(eq, ev.solution, x0, x1, dp, s)
        sc = 1 + np.abs(v).max()
        ctx.ok("value-equation", np.abs(r).max() <= 4 * tol + 1e-12 * sc, got=np.abs(r).max(), policy=nm, kind=kind, interp=interp)
        ctx.ok("arguments-unchanged", snapshot([getattr(pol, "coefficients", None), base, dict(model.calibration.flat)]) == keep, policy=nm)
        ctx.ok("flag", ev.solution.interp_method == interp, why="interpolation", got=ev.solution.interp_method)
        ctx.sample(kind=kind, policy=nm, residual=np.abs(r).max(), iterations=ev.iterations)
        # initial guess, short form
        d0 = ev.solution
        keep = snapshot(d0.coefficients)
        e2 = call(ctx, evaluate_policy, model, pol, tag="initial-guess", verbose=False, details=True, tol=tol, dr0=d0, interp_method=interp)
        ctx.ok("initial-guess", e2.iterations <= 2, it=e2.iterations, policy=nm)
        ctx.ok("arguments-unchanged", snapshot(d0.coefficients) == keep, what="initial guess", policy=nm)
        other = DecisionRule(grid["exo"], grid["endo"], dprocess=dp, interp_method=interp, values=v + 1.0)
        keep = snapshot(other.coefficients)
        e3 = call(ctx, evaluate_policy, model, pol, tag="initial-guess", verbose=False, details=False, tol=tol, dr0=other, interp_method=interp)
        ctx.ok("arguments-unchanged", snapshot(other.coefficients) == keep, what="initial guess", policy=nm)
        for i in range(n):
            ctx.close("initial-guess", now(e3, dp, i, s), v[i], rtol=0, atol=100 * tol + 1e-11 * sc, policy=nm, node=i)
        few = call(ctx, evaluate_policy, model, pol, verbose=False, details=True, tol=tol, maxit=2)
        ctx.ok("flag", few.iterations == 2 and few.error > tol, it=few.iterations, err=few.error, why="non convergence reported")


def closed_form(ctx):
    """Deterministic reward sequences known in closed form: value affine in an autoregressive state."""
    from dolo.algos.value_iteration import evaluate_policy
    from dolo.numeric.decision_rule import ConstantDecisionRule
    rng = ctx.rng
    u = lambda a, b: float(np.round(rng.uniform(a, b), 4))
    rho, beta, q, th = u(.3, .9), u(.8, .95), u(.5, 2), u(-1, 1)
    markov = ctx.rep % 2
    if markov:
        exo, V, P = models.exo_markov(rng, 1, scale=.3)
    else:
        exo, sg = models.exo_unormal(rng, .1)
    txt = f"""symbols:
    exogenous: [e]
    states: [k]
    controls: [x]
    values: [V, W]
    parameters: [rho, beta, q, th]
equations:
    transition: |
        k[t] = rho*k[t-1] + th*x[t-1] + e[t]
    arbitrage: |
        x[t] - 0.1*k[t+1]
    value: |
        V[t] = q*k[t] + x[t] + {'0.0' if not markov else 'e[t]'} + beta*V[t+1]
        W[t] = k[t+1] - x[t+1] + 0.5*beta*W[t+1]
calibration:
    rho: {rho}
    beta: {beta}
    q: {q}
    th: {th}
    e: 0.0
    k: 0.0
    x: 0.0
    V: 0.0
    W: 0.0
domain:
    k: [-2, 3]
{exo}
options:
    grid: !Cartesian
        n: [{int(rng.integers(4, 9))}]
"""
    with ctx.guard("import"):
        model = models.load(txt)
    xb = u(-1, 1)
    ctx.case("closed", rho, beta, q, xb, markov)
    interp = ["cubic", "linear"][int(rng.integers(2))]
    ev = call(ctx, evaluate_policy, model, ConstantDecisionRule(np.array([xb])), tag="evaluate:constant", verbose=False, details=True, tol=1e-12, interp_method=interp, maxit=3000)
    if not markov:
        V, P = np.zeros((1, 1)), np.ones((1, 1))
    v = V[:, 0]
    n = len(v)
    # V_i = a k + b_i : a = q + beta rho a ; b_i = x + e_i + beta (a th x + a E e' + E b)
    a1 = q / (1 - beta * rho)
    b1 = np.linalg.solve(np.eye(n) - beta * P, xb + v + beta * (a1 * th * xb + a1 * P @ v))
    h = .5 * beta
    a2 = rho / (1 - h * rho)
    b2 = np.linalg.solve(np.eye(n) - h * P, (th * xb + P @ v) * (1 + h * a2) - xb)
    pts = rng.uniform(-2, 3, (15, 1))
    dp = model.discretize()[1]
    for i in range(n):
        want = np.concatenate([a1 * pts + b1[i], a2 * pts + b2[i]], axis=1)
        ctx.close("closed-form", now(ev.solution, dp, i, pts), want, rtol=0, atol=1e-7, node=i, markov=markov, interp=interp)


def optimum(ctx):
    from dolo.algos.value_iteration import value_iteration
    rng = ctx.rng
    kind = ["iid", "markov", "iid", "var"][ctx.rep % 4]
    tight = ctx.rep % 4 in (1, 2)
    model, Y, d = make(ctx, kind, n=int(rng.integers(6, 10)), tight=tight)
    eq = Eq(Y, models.params_of(model))
    keep = snapshot(dict(model.calibration.flat))
    res = call(ctx, value_iteration, model, tag="value_iteration", maxit=100)
    grid, dp = model.discretize()
    s = grid["endo"].nodes
    ctx.case("vi", kind, tight, d["alpha"])
    ctx.ok("model-unchanged", snapshot(dict(model.calibration.flat)) == keep)
    ctx.ok("flag", bool(res.x_converged) == bool(res.x_err < res.x_tol) and bool(res.v_converged) == bool(res.v_err < res.v_tol), x=res.x_err, v=res.v_err)
    if not (res.x_converged and res.v_converged):
        ctx.count("not_converged")
        return
    ctx.count("converged")
    dr, drv = res.dr, res.drv
    r, v = value_residual(eq, drv, lambda i, q: now(dr, dp, i, q), lambda i, j, q: now(dr, dp, j, q), dp, s)
    ctx.ok("bellman", np.abs(r).max() <= 1e-5 * (1 + np.abs(v).max()), got=np.abs(r).max(), kind=kind, tight=tight)
    bites = 0
    for i in range(dp.n_nodes):
        m = np.ravel(dp.node(i))
        lo, hi = eq.bounds(m, s)
        x = now(dr, dp, i, s)
        ctx.ok("bounds", ((x >= lo - 1e-9) & (x <= hi + 1e-9)).all(), kind=kind, node=i)
        bites += ((x < lo + 1e-6) | (x > hi - 1e-6)).sum()
        best = np.full(len(s), -np.inf)
        for w in np.linspace(0, 1, 201):
            xx = lo + w * (hi - lo)
            t = eq.felicity(m, s, xx)[:, 0]
            for j in range(dp.n_inodes(i)):
                S = eq.next(m, s, xx, np.ravel(dp.inode(i, j)))
                t = t + d["beta"] * dp.iweight(i, j) * future(drv, dp, i, j, S)[:, 0]
            best = np.maximum(best, t)
        got = v[i][:, 0]
        ctx.ok("bellman", (best - got).max() <= 1e-5 * (1 + np.abs(got).max()), got=float((best - got).max()), node=i, kind=kind, tight=tight)
        ctx.ok("bellman", (got - best).max() <= 1e-3 * (1 + np.abs(got).max()), got=float((got - best).max()), node=i, kind=kind, tight=tight)
    ctx.count("nodes_on_a_bound", bites)
    short = call(ctx, value_iteration, model, maxit=100, details=False)
    ctx.close("repeatable", now(short[0], dp, 0, s), now(dr, dp, 0, s), rtol=0, atol=1e-12)
    ctx.close("repeatable", now(short[1], dp, 0, s), now(drv, dp, 0, s), rtol=0, atol=1e-12)
    few = call(ctx, value_iteration, model, maxit=1)
    ctx.ok("flag", few.iterations == 1 and not few.x_converged, why="non convergence reported", it=few.iterations)


SCENARIOS = [Scenario("policies", policies, quick=4, thorough=40), Scenario("closed_form", closed_form, quick=4, thorough=40),
             Scenario("optimum", optimum, quick=4, thorough=24)]
