"""C08 autoregressive processes as Markov chains and GDPs: the discretized law keeps the moments."""
import itertools
import math
import numpy as np
from vm.core import Scenario
from vm.props.c07 import rcov

RULE = ("random persistence (also negative), covariance (correlated, degenerate, with components whose covariances cancel), "
        "mean and number of nodes, for each discretization method; non-trivial: more than one node")


def stationary(P):
    n = P.shape[0]
    A = np.vstack([P.T - np.eye(n), np.ones((1, n))])
    b = np.zeros(n + 1)
    b[-1] = 1
    return np.linalg.lstsq(A, b, rcond=None)[0]


def stochastic_matrix(ctx, P, tag, **kw):
    P = np.asarray(P)
    ctx.ok(f"{tag}:stochastic-matrix", P.ndim == 2 and P.shape[0] == P.shape[1] and (P >= -1e-14).all()
           and np.allclose(P.sum(axis=1), 1, atol=1e-10), P=P, **kw)


def rrho(rng):
    k = int(rng.integers(5))
    if k == 0:
        return float(rng.uniform(-.9, 0))
    if k == 1:
        return float(rng.uniform(.95, .995))
    if k == 2:
        return 0.0
    return float(rng.uniform(0, .95))


def univariate(ctx):
    from dolo.numeric.discretization import rouwenhorst, tauchen
    from scipy.stats import norm
    rng = ctx.rng
    for _ in range(12):
        rho, sig = rrho(rng), float(10.0 ** rng.uniform(-3, .5))
        N = int(rng.integers(1, 12))
        det = dict(rho=rho, sigma=sig, N=N)
        with ctx.guard("rouwenhorst", **det):
            z, P = rouwenhorst(rho, sig, N)
        z = np.asarray(z)
        ctx.case("rouwenhorst", rho, sig, N, nontrivial=N > 1)
        stochastic_matrix(ctx, P, "rouwenhorst", **det)
        ctx.ok("rouwenhorst:size", z.shape == (N,) and P.shape == (N, N), **det)
        if N > 1:
            sd = sig / math.sqrt(1 - rho ** 2)
            ctx.close("rouwenhorst:conditional-mean", P @ z, rho * z, rtol=1e-9, atol=1e-11 * sd * N, **det)
            pi = stationary(P)
            ctx.close("rouwenhorst:stationary-law", pi, [math.comb(N - 1, k) / 2 ** (N - 1) for k in range(N)], rtol=1e-6, atol=1e-9, **det)
            ctx.close("rouwenhorst:variance", pi @ z ** 2, sd ** 2, rtol=1e-7, **det)
            cv = P @ z ** 2 - (P @ z) ** 2
            ctx.close("rouwenhorst:innovation-variance", pi @ cv, sig ** 2, rtol=1e-7, **det)
            ctx.close("rouwenhorst:even-spacing", np.diff(z), np.full(N - 1, 2 * sd * math.sqrt(N - 1) / (N - 1)), rtol=1e-9, **det)
        Nt = int(rng.integers(2, 15))
        mu, m = float(rng.normal() * rng.integers(0, 2)), float(rng.uniform(1, 4))
        det = dict(rho=rho, sigma=sig, N=Nt, mu=mu, m=m)
        with ctx.guard("tauchen", **det):
            Z, Q = tauchen(Nt, mu, rho, sig, m=m)
        Z = np.asarray(Z).ravel()
        ctx.case("tauchen", rho, sig, Nt, mu, m)
        stochastic_matrix(ctx, Q, "tauchen", **det)
        sd = sig / math.sqrt(1 - rho ** 2)
        want = mu + np.linspace(-m * sd, m * sd, Nt)
        ctx.close("tauchen:nodes", Z, want, rtol=1e-9, atol=1e-11 * (sd + abs(mu)), **det)
        edges = np.concatenate([[-np.inf], (want[1:] + want[:-1]) / 2, [np.inf]])
        mean = mu + rho * (want - mu)
        cdf = norm.cdf((edges[None, :] - mean[:, None]) / sig)
        ctx.close("tauchen:probabilities", Q, np.diff(cdf, axis=1), rtol=1e-6, atol=1e-9, **det)
        ctx.sample(**det, nodes=Z[:3], row=Q[0])


def multivariate(ctx):
    from dolo.numeric.discretization import multidimensional_discretization
    rng = ctx.rng
    for _ in range(10):
        d = int(rng.integers(1, 4))
        S = rcov(rng, d)
        rho = rrho(rng)
        N = int(rng.integers(2, 5 if d < 3 else 4))
        S0 = S.copy()
        det = dict(rho=rho, S=S, N=N)
        degenerate = np.where(np.diag(S) == 0)[0]
        with ctx.guard("multivariate", **det):
            z, P = multidimensional_discretization(rho, S, N=N, method="rouwenhorst")
            zt, Pt = multidimensional_discretization(rho, S, N=N, method="tauchen", m=3)
        ctx.case("multi", rho, S, N)
        ctx.ok("multivariate:pure", np.array_equal(S, S0), **det)
        for zz, PP, tag in ((z, P, "multi-rouwenhorst"), (zt, Pt, "multi-tauchen")):
            stochastic_matrix(ctx, PP, tag, **det)
            ctx.ok(f"{tag}:size", zz.shape == (N ** d, d) and PP.shape == (N ** d, N ** d), **det)
            for j in degenerate:
                ctx.ok(f"{tag}:degenerate", (zz[:, j] == 0).all(), **det)
        sc = np.sqrt(np.diag(S).max() / (1 - rho ** 2))
        ctx.close("multivariate:conditional-mean", P @ z, rho * z, rtol=1e-8, atol=1e-9 * sc, **det)
        pi = stationary(P)
        ctx.close("multivariate:mean", pi @ z, np.zeros(d), atol=1e-7 * sc, **det)
        ctx.close("multivariate:covariance", z.T @ (pi[:, None] * z), S / (1 - rho ** 2), rtol=1e-6, atol=1e-7 * sc ** 2, **det)
        # innovations: E[(z'-rho z)(z'-rho z)'] under the stationary law
        acc = np.zeros((d, d))
        for i in range(len(z)):
            e = z - rho * z[i]
            acc += pi[i] * (e.T @ (P[i][:, None] * e))
        ctx.close("multivariate:innovation-covariance", acc, S, rtol=1e-6, atol=1e-7 * sc ** 2, **det)
        # equal weights on the (symmetric, product) nodes keep the correlations
        ct = zt.T @ zt / len(zt)
        # same correlation structure with the other method, whatever the variances
        nd = [j for j in range(d) if j not in degenerate]
        if nd:
            sd = np.sqrt(np.diag(S)[nd])
            want = S[np.ix_(nd, nd)] / np.outer(sd, sd)
            sdt = np.sqrt(np.diag(ct)[nd])
            ctx.close("multivariate:tauchen-correlation", ct[np.ix_(nd, nd)] / np.outer(sdt, sdt), want, rtol=1e-6, atol=1e-6, **det)


def discrete_interface(ctx, mc, tag):
    n = mc.n_nodes
    ok = mc.values.shape == (n, mc.d) and mc.transitions.shape == (n, n)
    ctx.ok(f"{tag}:shape", ok)
    ctx.ok(f"{tag}:interface", all(np.array_equal(mc.node(i), mc.values[i]) and mc.n_inodes(i) == n
                                   and all(np.array_equal(mc.inode(i, j), mc.values[j]) and mc.iweight(i, j) == mc.transitions[i, j] for j in range(n))
                                   for i in range(n)) and np.array_equal(mc.nodes, mc.values))
    ctx.ok(f"{tag}:grid", np.array_equal(np.asarray(mc.grid.nodes), mc.values) and mc.grid.n_nodes == n)
    for i in range(n):
        it = list(mc.iteritems(i))
        ctx.close(f"{tag}:iteritems", sum(w * x for w, x in it), mc.transitions[i] @ mc.values, rtol=1e-9, atol=1e-12)
        ctx.ok(f"{tag}:iteritems-positive", all(w > 0 for w, _ in it) and abs(sum(w for w, _ in it) - 1) < 1e-9)
    g = mc.discretize(to="gdp")
    ctx.ok(f"{tag}:as-gdp", g.n_nodes == n and all(
        np.array_equal(g.node(i), mc.node(i)) and g.n_inodes(i) == n and
        all(np.array_equal(g.inode(i, j), mc.inode(i, j)) and g.iweight(i, j) == mc.iweight(i, j) for j in range(n)) for i in range(n)))
    ctx.ok(f"{tag}:idempotent", np.array_equal(mc.discretize().values, mc.values) and np.array_equal(mc.discretize(to="mc").transitions, mc.transitions))


def processes(ctx):
    from dolo.numeric.processes import VAR1, AR1, MarkovChain
    rng = ctx.rng
    for _ in range(6):
        d = int(rng.integers(1, 4))
        S = rcov(rng, d)
        rho = rrho(rng)
        mu = rng.normal(size=d) * 2 if rng.random() < .7 else None
        m = np.zeros(d) if mu is None else mu
        form = int(rng.integers(3))
        r = [rho, [rho] * d, (np.eye(d) * rho).tolist()][form]
        N = int(rng.integers(2, 5 if d < 3 else 4))
        det = dict(rho=rho, S=S, mu=mu, N=N, form=form)
        ctx.case("VAR1", rho, S, mu, N, form)
        with ctx.guard("VAR1", **det):
            p = (VAR1(ρ=r, Σ=S.tolist(), μ=None if mu is None else mu.tolist()) if rng.random() < .5
                 else VAR1(rho=r, Sigma=S, mu=mu))
            mc = p.discretize(N=N)
            mc2 = p.discretize(to="mc", N=N)
            m0 = p.discretize()
        ctx.ok("VAR1:kind", isinstance(mc, MarkovChain) and p.d == d and mc.d == d and mc.n_nodes == N ** d and m0.n_nodes == 3 ** d, **det)
        ctx.ok("VAR1:repeatable", np.array_equal(mc.values, mc2.values) and np.array_equal(mc.transitions, mc2.transitions), **det)
        ctx.ok("VAR1:untouched", np.array_equal(p.μ, m) and np.array_equal(p.Σ, S) and np.array_equal(p.ρ, rho * np.eye(d)), **det)
        stochastic_matrix(ctx, mc.transitions, "VAR1", **det)
        discrete_interface(ctx, mc, "VAR1")
        z, P = mc.values, mc.transitions
        sc = np.sqrt(np.diag(S).max() / (1 - rho ** 2)) + np.abs(m).max()
        ctx.close("VAR1:conditional-mean", P @ z, m + rho * (z - m), rtol=1e-8, atol=1e-9 * sc, **det)
        pi = stationary(P)
        ctx.close("VAR1:mean", pi @ z, m, rtol=1e-7, atol=1e-7 * sc, **det)
        ctx.close("VAR1:covariance", (z - m).T @ (pi[:, None] * (z - m)), S / (1 - rho ** 2), rtol=1e-6, atol=1e-7 * sc ** 2, **det)
        if d > 1:
            bad = np.eye(d) * rho
            bad[0, 1] = .3
            bad2 = np.diag([rho] * (d - 1) + [rho - .4])
            for b in (bad, bad2):
                ctx.raises("VAR1:matrix-persistence-rejected", lambda: VAR1(ρ=b, Σ=S).discretize(), rho=b)
        # one dimension: gdp, and AR1 as an alias
        v = float(S[0, 0]) if S[0, 0] > 0 else .3
        mu1 = float(m[0])
        Ng = int(rng.integers(2, 9))
        with ctx.guard("gdp", **det):
            q = VAR1(ρ=rho, Σ=[[v]], μ=[mu1])
            a = AR1(ρ=rho, σ=v, μ=mu1) if rng.random() < .5 else AR1(rho=rho, sigma=v, mu=mu1)
            gs = [x.discretize(to="gdp", N=Ng) for x in (q, a)]
            ms = [x.discretize(to="mc", N=Ng) for x in (q, a)]
        ctx.ok("AR1:same-chain", np.allclose(ms[0].values, ms[1].values, rtol=1e-12) and np.allclose(ms[0].transitions, ms[1].transitions, rtol=1e-12), **det)
        for g in gs:
            n = g.n_nodes
            ctx.ok("gdp:nodes", n == Ng and np.allclose(np.asarray(g.grid.nodes), g.nodes) and g.grid.n_nodes == n, **det)
            sd = math.sqrt(v / (1 - rho ** 2))
            ctx.close("gdp:nodes-centered", g.nodes[:, 0].mean(), mu1, atol=1e-9 * (sd + abs(mu1)), **det)
            ctx.ok("gdp:increasing", (np.diff(g.nodes[:, 0]) > 0).all(), **det)
            for i in range(n):
                x = g.node(i)[0]
                W = np.array([g.iweight(i, j) for j in range(g.n_inodes(i))])
                X = np.array([g.inode(i, j)[0] for j in range(g.n_inodes(i))])
                ctx.ok("gdp:probability", (W > 0).all() and abs(W.sum() - 1) < 1e-10)
                mm = mu1 + rho * (x - mu1)
                ctx.close("gdp:conditional-mean", W @ X, mm, rtol=1e-9, atol=1e-9 * (sd + abs(mu1)), **det)
                ctx.close("gdp:conditional-variance", W @ (X - mm) ** 2, v, rtol=1e-8, **det)
                ctx.close("gdp:conditional-fourth", W @ (X - mm) ** 4, 3 * v ** 2, rtol=1e-7, **det)
        n = int(rng.integers(1, 5))
        T = rng.dirichlet(np.ones(n), n)
        if n > 1:
            T[0] = 0
            T[0, 1] = 1
        with ctx.guard("MarkovChain"):
            discrete_interface(ctx, MarkovChain(T.tolist(), rng.normal(size=(n, d)).tolist()), "MarkovChain")
        ctx.sample(**det, values=z[:2], row=P[0])


def degenerate(ctx):
    """Every pattern of components without innovations, alone and together with correlated ones."""
    from dolo.numeric.discretization import multidimensional_discretization
    from dolo.numeric.processes import VAR1
    rng = ctx.rng
    for d in (2, 3, 4):
        for pat in itertools.product((0, 1), repeat=d):
            if not any(pat) or all(pat) or (d == 4 and rng.random() < .5):
                continue
            A = rng.normal(size=(d, d))
            S = A @ A.T * .1 * np.outer(pat, pat)
            off = np.array([j for j in range(d) if not pat[j]])
            on = np.array([j for j in range(d) if pat[j]])
            rho, N = rrho(rng), 2
            mu = rng.normal(size=d)
            det = dict(rho=rho, S=S, pattern=pat)
            ctx.case("degenerate", pat, rho, S)
            with ctx.guard("degenerate", **det):
                out = [multidimensional_discretization(rho, S, N=N, method="rouwenhorst"), multidimensional_discretization(rho, S, N=N, method="tauchen", m=2)]
                mc = VAR1(ρ=rho, Σ=S, μ=mu).discretize(N=N)
            for z, P in out:
                stochastic_matrix(ctx, P, "degenerate", **det)
                ctx.ok("degenerate:constant", (z[:, off] == 0).all(), z=z, **det)
                ctx.ok("degenerate:spread", (np.ptp(z[:, on], axis=0) > 0).all(), **det)
            z, P = out[0]
            sc = np.sqrt(np.diag(S).max() / (1 - rho ** 2))
            pi = stationary(P)
            ctx.close("degenerate:covariance", z.T @ (pi[:, None] * z), S / (1 - rho ** 2), rtol=1e-6, atol=1e-7 * sc ** 2, **det)
            ctx.close("degenerate:conditional-mean", P @ z, rho * z, rtol=1e-8, atol=1e-9 * sc, **det)
            ctx.close("degenerate:process", mc.values, z + mu, rtol=1e-9, atol=1e-9, **det)
            ctx.close("degenerate:process", mc.transitions, P, rtol=1e-9, atol=1e-12, **det)


SCENARIOS = [Scenario("degenerate", degenerate, 2, 20), Scenario("univariate", univariate, 6, 60), Scenario("multivariate", multivariate, 6, 60),
             Scenario("processes", processes, 8, 60)]
REQUIRED = {"degenerate:constant": 20, "rouwenhorst:conditional-mean": 30, "tauchen:probabilities": 40, "multivariate:covariance": 40,
            "VAR1:conditional-mean": 30, "gdp:conditional-variance": 100}
