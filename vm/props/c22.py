"""C22 ergodic distributions: probability, invariance, transition operator."""
import warnings
import numpy as np
from vm.core import Scenario, snapshot
from vm import models
from vm.props.c17 import now, future

RULE = ("random linear and nonlinear models with one or two states, iid / Markov / discretized autoregressive shocks, random (interpolated) "
        "and solved decision rules, next states inside and outside the grid; the operator is rebuilt from the text of the model; non-trivial: "
        "stochastic, several nodes")
REQUIRED = {"allocation": 60, "operator": 12, "invariant": 10, "probability": 20, "conditional-mean": 12, "labels": 10}


def hats(S, a, b, n):
    """N x prod(n) weights of the clipped points on the uniform grid"""
    W = np.ones((len(S), 1))
    for d in range(len(n)):
        x = np.linspace(a[d], b[d], n[d])
        c = np.clip(S[:, d], a[d], b[d])
        w = np.stack([np.interp(c, x, np.eye(n[d])[k]) for k in range(n[d])], axis=1)
        W = (W[:, :, None] * w[:, None, :]).reshape(len(S), -1)
    return W


def classes_at_one(P):
    return int((np.abs(np.linalg.eigvals(P)) > 1 - 1e-7).sum())


def build(ctx):
    rng = ctx.rng
    kind = ["iid", "markov", "var"][ctx.rep % 3]
    ns = 1 + (ctx.rep // 2) % 2
    nm = 1 if kind == "var" or rng.random() < .6 else 2
    sp = models.random_linear_spec(rng, ns=ns, nx=int(rng.integers(1, 3)), nm=nm, with_m_lag=kind != "iid", contraction=.95)
    sp.D = np.round(sp.D * rng.choice([1, 4]), 6)
    if kind == "iid":
        exo = models.exo_iid(rng, nm, .3)[0] if nm > 1 or rng.random() < .5 else models.exo_unormal(rng, .3)[0]
    elif kind == "var":
        exo = models.exo_var(rng, nm, .2)[0]
    else:
        exo = models.exo_markov(rng, nm, scale=.5)[0]
    n = [int(rng.integers(4, 8))]
    if ns == 2:
        n = [n[0], n[0] + int(rng.integers(1, 4))][::[1, -1][(ctx.rep // 4) % 2]]
    elif rng.random() < .7:
        n = [int(rng.integers(5, 16))]
    txt, info = models.linear_yaml(sp, exo, rng=rng, n=n, grid="cartesian", domain_order=rng.permutation(ns))
    with ctx.guard("import"):
        model = models.load(txt)
    nxt = lambda m, s, x, M: models.lin_next(sp, m, s, x, M)
    return kind, sp, model, nxt, info


def check(ctx, model, dr, dp, nxt, kind, tag):
    from dolo.algos.ergodic import ergodic_distribution
    g = dr.endo_grid
    a, b, n = np.array(g.min, float), np.array(g.max, float), [int(k) for k in g.n]
    s = np.stack([w.ravel() for w in np.meshgrid(*[np.linspace(a[d], b[d], n[d]) for d in range(len(n))], indexing="ij")], axis=1)
    ctx.close("nodes", g.nodes, s, rtol=1e-12, atol=1e-12)
    keep = snapshot([dr.coefficients, dict(model.calibration.flat)])
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with ctx.guard("ergodic", tag=tag, kind=kind):
            P, mu = ergodic_distribution(model, dr)
            Q = ergodic_distribution(model, dr, dr.exo_grid, dr.endo_grid, dr.dprocess, compute_μ=False)
    ctx.ok("arguments-unchanged", snapshot([dr.coefficients, dict(model.calibration.flat)]) == keep)
    nm, N = (1 if kind == "iid" else dp.n_nodes), len(s)
    ctx.ok("form", np.shape(P) == ((N, N) if kind == "iid" else (nm, N, nm, N)), got=np.shape(P), kind=kind)
    ctx.close("form", Q, P, rtol=0, atol=0)
    m0 = np.array(model.calibration["exogenous"], float)
    want = np.zeros((nm, N, nm, N))
    inside = 0
    mean = np.zeros((nm, N, len(n)))
    for i in range(nm):
        m = m0 if kind == "iid" else np.ravel(dp.node(i))
        x = now(dr, dp, i, s)
        for j in range(dp.n_inodes(i)):
            M = np.ravel(dp.inode(i, j))
            S = nxt(m, s, x, M)
            inside += ((S >= a) & (S <= b)).all(axis=1).sum()
            w = dp.iweight(i, j)
            want[i, :, 0 if kind == "iid" else j, :] += w * hats(S, a, b, n)
            mean[i] += w * np.clip(S, a, b)
    ctx.count("next_states_inside", inside)
    ctx.count("next_states_outside", nm * N * dp.n_inodes(0) - inside)
    got = np.reshape(P, (nm, N, nm, N))
    ctx.close("operator", got, want, rtol=0, atol=1e-9, kind=kind, tag=tag, n=n)
    ctx.ok("probability", (got >= -1e-13).all() and np.allclose(got.sum(axis=(2, 3)), 1, rtol=0, atol=1e-9), kind=kind, tag=tag,
           low=got.min(), mass=got.sum(axis=(2, 3)).ravel()[:5])
    ctx.close("conditional-mean", np.einsum("ijkl,ld->ijd", got, s), mean, rtol=0, atol=1e-8 * (1 + np.abs(mean).max()), kind=kind)
    T = want.reshape(nm * N, nm * N)
    k = classes_at_one(T)
    if k != 1:
        ctx.count("several_ergodic_classes")
        return
    v = np.asarray(mu)
    ctx.ok("labels", tuple(mu.dims) == (() if kind == "iid" else ("i_m",)) + tuple(model.symbols["states"]), dims=mu.dims)
    for d, nme in enumerate(model.symbols["states"]):
        ctx.close("labels", mu.coords[nme].values, np.linspace(a[d], b[d], n[d]), rtol=1e-12, atol=1e-12)
    ctx.ok("form", v.shape == (() if kind == "iid" else (nm,)) + tuple(n), got=v.shape)
    w = v.ravel()
    ctx.ok("probability", (w >= -1e-9).all() and abs(w.sum() - 1) < 1e-9, low=w.min(), mass=w.sum(), kind=kind)
    ctx.close("invariant", w @ T, w, rtol=0, atol=1e-8, kind=kind, tag=tag)
    u = np.full(len(w), 1 / len(w))
    A = T.copy()
    for _ in range(45):
        A = A @ A
        A = A / A.sum(axis=1, keepdims=True)
    far = u @ A
    if np.abs(far @ T - far).max() < 1e-10:
        ctx.close("limit", w, far, rtol=0, atol=1e-6, kind=kind)
    if kind != "iid":
        PP = np.array([[dp.iweight(i, j) for j in range(nm)] for i in range(nm)])
        marg = v.reshape(nm, -1).sum(axis=1)
        ctx.close("marginal", marg @ PP, marg, rtol=0, atol=1e-8)
    ctx.sample(kind=kind, tag=tag, n=n, states=nm * N, low=float(w.min()), residual=float(np.abs(w @ T - w).max()))


def arbitrary(ctx):
    from dolo.numeric.decision_rule import DecisionRule
    rng = ctx.rng
    kind, sp, model, nxt, info = build(ctx)
    grid, dp = model.discretize()
    N = len(grid["endo"].nodes)
    for it in range(3):
        base = sp.x0 + (grid["endo"].nodes - sp.s0) @ sp.F.T
        vals = np.array([base + rng.normal(size=(N, len(sp.x0))) * [0, .5, 3][it] for _ in range(dp.n_nodes)])
        interp = ["cubic", "linear"][int(rng.integers(2))]
        dr = DecisionRule(grid["exo"], grid["endo"], dprocess=dp, interp_method=interp, values=vals)
        ctx.case(kind, it, vals, interp)
        check(ctx, model, dr, dp, nxt, kind, "random%d" % it)


def solved(ctx):
    from dolo.algos.time_iteration import time_iteration
    kind, sp, model, nxt, info = build(ctx)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with ctx.guard("time_iteration"):
            r = time_iteration(model, verbose=False, maxit=60)
    ctx.case(kind, "solved", sp.A)
    check(ctx, model, r.dr, r.dprocess, nxt, kind, "solved")


def allocation(ctx):
    """The allocation of mass on the nodes around a point: tensor product of hat functions, accumulated."""
    from dolo.algos.ergodic import trembling_hand
    rng = ctx.rng
    for it in range(30):
        d = 1 + it % 2
        n = rng.integers(2, 9, d).tolist()
        if d == 2 and it % 4 == 1:
            n = [int(rng.integers(2, 5)), int(rng.integers(5, 12))][::[1, -1][int(rng.integers(2))]]
        N = int(rng.integers(1, 12))
        x = rng.uniform(-.3, 1.3, (N, d))
        for k in range(d):      # nodes, ends, next to the ends
            on = rng.random(N) < .3
            x[on, k] = np.linspace(0, 1, n[k])[rng.integers(0, n[k], on.sum())]
            near = rng.random(N) < .2
            x[near, k] = rng.choice([0.0, 1.0, 1e-15, 1 - 1e-15, -1e-15, 1 + 1e-15, -50.0, 50.0], near.sum())
        w = float(rng.uniform(.1, 1))
        start = rng.random((N, *n)) * (it % 3 > 0)
        A, keep = start.copy(), x.copy()
        ctx.case("allocation", n, x, w)
        with ctx.guard("allocation", n=n):
            trembling_hand(A, x, w)
        want = w * hats(x, np.zeros(d), np.ones(d), n).reshape(start.shape)
        ctx.close("allocation", A - start, want, rtol=0, atol=1e-11, n=n, x=x)
        ctx.ok("allocation:mass", np.allclose((A - start).reshape(N, -1).sum(axis=1), w, rtol=1e-10) and (A - start).min() > -1e-12, n=n)
        ctx.ok("arguments-unchanged", np.array_equal(x, keep))


SCENARIOS = [Scenario("allocation", allocation, quick=3, thorough=30), Scenario("arbitrary", arbitrary, quick=12, thorough=80), Scenario("solved", solved, quick=4, thorough=24)]
