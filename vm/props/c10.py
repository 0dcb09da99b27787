"""C10 sampling of exogenous processes follows the declared law."""
import numpy as np
from vm.core import Scenario, seed_everything

RULE = ("large samples of every process class with random parameters, compared by fixed-significance tests (p < 1e-9) with the exact "
        "law; paths checked step by step against the law of motion; non-trivial: random draws")
ALPHA = 1e-9


def ks(ctx, tag, x, cdf, **kw):
    from scipy.stats import kstest
    p = kstest(np.asarray(x, float), cdf).pvalue
    ctx.ok(tag, p > ALPHA, pvalue=p, **kw)


def distributions(ctx):
    import scipy.stats as st
    from vm.props.c07 import univariate
    from dolo.numeric.distribution import Normal, Bernouilli, Mixture, UNormal, FiniteDistribution, EquiprobableDistribution, Uniform
    from dolo.numeric.processes import ConstantProcess
    rng = ctx.rng
    n = 20000
    for _ in range(5):
        name, d, ref = univariate(rng)
        with ctx.guard("draw", dist=name):
            x = d.draw(n)
            s = d.simulate(N=40, T=50)
            one = d.draw(1)
        ctx.case("univariate", name)
        ctx.ok("draw:shape", np.shape(x) == (n, 1) and np.shape(one) == (1, 1), dist=name, got=np.shape(x))
        ks(ctx, f"draw:law:{name}", x[:, 0], ref.cdf, dist=name)
        ctx.ok("simulate:dims", s.shape == (50, 40, 1) and list(s.dims) == ["T", "N", "V"], dist=name)
        ks(ctx, "simulate:law", np.asarray(s).ravel(), ref.cdf, dist=name)
        ctx.sample(dist=name, draws=x[:3, 0])
        with ctx.guard("deterministic", dist=name):
            m = d.simulate(N=3, T=4, stochastic=False)
        v = np.asarray(m)
        dd = d.discretize()
        mean = sum(w * p for w, p in dd.items())[0]
        ctx.ok("simulate:deterministic", v.shape == (4, 3, 1) and np.ptp(v) == 0 and abs(v[0, 0, 0] - mean) < 1e-8 * (1 + abs(mean)), dist=name, got=v)
    d = int(rng.integers(1, 4))
    A = rng.normal(size=(d, d))
    S, mu = A @ A.T + .05 * np.eye(d), rng.normal(size=d) * 3
    with ctx.guard("draw-normal"):
        nd = Normal(Σ=S, Μ=mu)
        x = nd.draw(n)
        s = np.asarray(nd.simulate(N=100, T=100)).reshape(-1, d)
        one = nd.draw(1)
    ctx.case("normal", d, S)
    ctx.ok("draw:shape-nd", x.shape == (n, d) and np.reshape(one, (1, d)).shape == (1, d), got=x.shape, d=d)
    for z in (x, s):
        W = np.linalg.solve(np.linalg.cholesky(S), (z - mu).T).T
        for j in range(d):
            ks(ctx, "draw:normal-whitened", W[:, j], st.norm.cdf, S=S)
        C = W.T @ W / len(W)
        ctx.ok("draw:normal-correlation", np.abs(C - np.eye(d)).max() < 7 * np.sqrt(2 / len(W)), C=C)
        lag = (W[1:] * W[:-1]).mean(axis=0)
        ctx.ok("draw:independent", np.abs(lag).max() < 7 / np.sqrt(len(W)), lag=lag)
    # discrete laws
    pi = float(rng.uniform(0.02, .98))
    b = Bernouilli(π=pi).draw(n)
    ctx.ok("draw:bernouilli", b.shape == (n, 1) and set(np.unique(b)) <= {0, 1} and st.binomtest(int(b.sum()), n, pi).pvalue > ALPHA, mean=b.mean(), pi=pi)
    k, dd = int(rng.integers(1, 6)), int(rng.integers(1, 3))
    pts, w = rng.normal(size=(k, dd)), rng.dirichlet(np.ones(k))
    for law, D in ((w, FiniteDistribution(pts, w)), (np.full(k, 1 / k), EquiprobableDistribution(pts))):
        with ctx.guard("draw-finite"):
            x = D.draw(n)
        ctx.ok("draw:finite-shape", x.shape == (n, dd))
        dist = np.abs(x[:, None, :] - pts[None]).max(axis=2)
        ctx.ok("draw:finite-support", (dist.min(axis=1) == 0).all())
        cnt = np.bincount(dist.argmin(axis=1), minlength=k)
        pv = min(st.binomtest(int(c), n, min(1, q)).pvalue for c, q in zip(cnt, law))
        ctx.ok("draw:finite-law", pv > ALPHA, counts=cnt, law=law)
    s1, s2, m2 = float(rng.uniform(.1, 1)), float(rng.uniform(.1, 1)), float(rng.normal() * 3)
    mix = Mixture(index=Bernouilli(π=pi), distributions={"0": UNormal(σ=s1), "1": UNormal(σ=s2, μ=m2)})
    with ctx.guard("draw-mixture"):
        x = mix.draw(n)
    ctx.ok("draw:mixture-shape", x.shape == (n, 1))
    ks(ctx, "draw:mixture", x[:, 0], lambda v: (1 - pi) * st.norm.cdf(v / s1) + pi * st.norm.cdf((v - m2) / s2), pi=pi)
    c = ConstantProcess(μ=mu.tolist())
    with ctx.guard("draw-constant"):
        ctx.ok("draw:constant", np.array_equal(np.asarray(c.simulate(N=3, T=4)), np.zeros((4, 3, d)) + mu))
    # replication
    for D in (nd, mix, UNormal(σ=.1), Uniform(0., 1.), FiniteDistribution(pts, w)):
        np.random.seed(5)
        a = np.asarray(D.simulate(N=3, T=5))
        np.random.seed(5)
        b2 = np.asarray(D.simulate(N=3, T=5))
        ctx.ok("simulate:replicable", np.array_equal(a, b2), cls=type(D).__name__)


def autoregressive(ctx):
    import scipy.stats as st
    from dolo.numeric.processes import VAR1, AR1
    rng = ctx.rng
    for _ in range(3):
        d = int(rng.integers(1, 4))
        A = rng.normal(size=(d, d))
        S = A @ A.T * .1 + .02 * np.eye(d)
        kind = int(rng.integers(3))
        R = np.eye(d) * rng.uniform(-.9, .98) if kind == 0 else np.diag(rng.uniform(-.9, .95, d))
        if kind == 2:
            R = rng.normal(size=(d, d))
            R *= rng.uniform(.3, .9) / np.abs(np.linalg.eigvals(R)).max()
        mu = rng.normal(size=d) * 3 if rng.random() < .7 else np.zeros(d)
        if d == 1 and rng.random() < .5:
            p = AR1(ρ=float(R[0, 0]), σ=float(S[0, 0]), μ=float(mu[0]))
        else:
            p = VAR1(ρ=R if kind else R[0, 0], Σ=S, μ=mu)
        det = dict(R=R, S=S, mu=mu, cls=type(p).__name__)
        m0 = mu + rng.normal(size=d) if rng.random() < .5 else None
        N, T = 60, 200
        with ctx.guard("VAR1-simulate", **det):
            x = np.asarray(p.simulate(N=N, T=T, m0=None if m0 is None else m0.copy()))
            y = np.asarray(p.simulate(N, T, m0=m0, stochastic=False))
        ctx.case("VAR1", R, S, mu, m0)
        ctx.ok("VAR1:shape", x.shape == (T, N, d) and y.shape == (T, N, d), got=x.shape)
        start = mu if m0 is None else m0
        ctx.close("VAR1:start", x[0], np.zeros((N, d)) + start, rtol=1e-9, atol=1e-10, **det)
        E = (x[1:] - mu) - (x[:-1] - mu) @ R.T
        W = np.linalg.solve(np.linalg.cholesky(S), E.reshape(-1, d).T).T
        for j in range(d):
            ks(ctx, "VAR1:innovations", W[:, j], st.norm.cdf, **det)
        ctx.ok("VAR1:innovation-covariance", np.abs(W.T @ W / len(W) - np.eye(d)).max() < 7 * np.sqrt(2 / len(W)), **det)
        W3 = W.reshape(T - 1, N, d)
        ctx.ok("VAR1:independent-in-time", np.abs((W3[1:] * W3[:-1]).mean(axis=(0, 1))).max() < 7 / np.sqrt(len(W)), **det)
        ctx.ok("VAR1:independent-across-paths", np.abs((W3[:, 1:] * W3[:, :-1]).mean(axis=(0, 1))).max() < 7 / np.sqrt(len(W)), **det)
        want = [start]
        for t in range(T - 1):
            want.append(mu + R @ (want[-1] - mu))
        ctx.close("VAR1:deterministic", y, np.repeat(np.array(want)[:, None, :], N, axis=1), rtol=1e-8, atol=1e-9, **det)
        np.random.seed(3)
        a = p.simulate(3, 7)
        np.random.seed(3)
        ctx.ok("VAR1:replicable", np.array_equal(a, p.simulate(3, 7)))
        imp = rng.normal(size=d)
        with ctx.guard("VAR1-response", **det):
            r = p.response(9, imp)
        want = [np.zeros(d), imp]
        while len(want) < 10:
            want.append(R @ want[-1])
        ctx.close("VAR1:response", np.asarray(r), np.array(want) + mu, rtol=1e-9, atol=1e-10, **det)
        ctx.ok("VAR1:untouched", np.array_equal(p.__dict__["μ"], mu) if d > 1 else True)
        ctx.sample(**det, path=x[:3, 0])
    from dolo.numeric.distribution import UNormal, Normal
    q = Normal(Σ=np.eye(d))
    with ctx.guard("IID-response"):
        r = q.response(6, imp)
    want = np.zeros((7, d))
    want[1] = imp
    ctx.close("IID:response", np.asarray(r), want)


def markov(ctx):
    import scipy.stats as st
    from dolo.numeric.processes import MarkovChain, simulate_markov_chain
    rng = ctx.rng
    for _ in range(4):
        n, d = int(rng.integers(1, 6)), int(rng.integers(1, 3))
        P = rng.dirichlet(np.ones(n) * .7, n)
        for i in range(n):
            if rng.random() < .4:           # forbidden or deterministic transitions
                j = rng.integers(n)
                P[i] = 0 if rng.random() < .5 else P[i]
                P[i, j] = 1 if P[i].sum() == 0 else 0
                P[i] /= P[i].sum() if P[i].sum() > 0 else 1
                if P[i].sum() == 0:
                    P[i, i] = 1
        v = rng.normal(size=(n, d))
        mc = MarkovChain(P, v)
        i0 = int(rng.integers(n))
        N, T = 80, 150
        with ctx.guard("markov-simulate", P=P):
            x = np.asarray(mc.simulate(N=N, T=T, i0=i0))
            z = np.asarray(mc.simulate(N, T, i0=i0, stochastic=False))
            idx = simulate_markov_chain(v, P, N, T, i0=i0)
            i0v = rng.integers(0, n, N)
            idxv, vals = simulate_markov_chain(v, P, N, T, i0=i0v, return_values=True)
        ctx.case("mc", P, i0, nontrivial=n > 1)
        ctx.ok("markov:shape", x.shape == (T, N, d) and idx.shape == (T, N) and vals.shape == (T, N, d))
        ctx.ok("markov:values", np.array_equal(vals, v[idxv]) and np.array_equal(idxv[0], i0v))
        ctx.ok("markov:deterministic", np.array_equal(z, np.zeros((T, N, d)) + v[i0]))
        dist = np.abs(x[:, :, None, :] - v[None, None]).max(axis=3)
        ctx.ok("markov:support", (dist.min(axis=2) == 0).all())
        xi = dist.argmin(axis=2)
        for ii in (xi, idx, idxv):
            ctx.ok("markov:range", ii.min() >= 0 and ii.max() < n)
            cnt = np.zeros((n, n))
            np.add.at(cnt, (ii[:-1].ravel(), ii[1:].ravel()), 1)
            ctx.ok("markov:impossible-transitions", (cnt[P == 0] == 0).all(), P=P, counts=cnt)
            pv = 1.0
            for i in range(n):
                tot = int(cnt[i].sum())
                for j in range(n):
                    if tot > 0 and 0 < P[i, j] < 1:
                        pv = min(pv, st.binomtest(int(cnt[i, j]), tot, P[i, j]).pvalue)
            ctx.ok("markov:transition-frequencies", pv > ALPHA, P=P, counts=cnt)
        ctx.ok("markov:start", (xi[0] == i0).all() and (idx[0] == i0).all())
        if n > 1 and (P.max(axis=1) < .9).all():
            ctx.ok("markov:paths-differ", (np.ptp(idx[1:], axis=1) > 0).any())
        # memoryless: next state independent of the previous one given the current one
        np.random.seed(11)
        a = np.asarray(mc.simulate(5, 9, i0=i0))
        np.random.seed(11)
        ctx.ok("markov:replicable", np.array_equal(a, np.asarray(mc.simulate(5, 9, i0=i0))))
        ctx.sample(P=P, i0=i0, path=idx[:6, 0])
    # probabilities given with a few digits
    P = np.array([[.333, .333, .333], [.25, .25, .5], [0, .999, 0]])
    big = simulate_markov_chain(np.arange(3.)[:, None], P, 300, 400)
    ctx.ok("markov:rounded-probabilities", big.min() >= 0 and big.max() <= 2, max=int(big.max()))


def products(ctx):
    import scipy.stats as st
    from dolo.numeric.processes import ProductProcess, VAR1, MarkovChain
    from dolo.numeric.distribution import UNormal, Uniform
    rng = ctx.rng
    s, a, b = rng.uniform(.1, 1), -rng.uniform(0, 1), rng.uniform(.1, 1)
    p = ProductProcess(UNormal(σ=s, μ=2.0), VAR1(ρ=.5, Σ=[[.1, .02], [.02, .2]], μ=[1., -1.]), Uniform(a, b))
    with ctx.guard("product-simulate"):
        x = np.asarray(p.simulate(N=60, T=150))
        y = np.asarray(p.simulate(4, 5, stochastic=False))
    ctx.case("product", s, a, b)
    ctx.ok("product:shape", x.shape == (150, 60, 4))
    ks(ctx, "product:law", x[:, :, 0].ravel(), st.norm(2, s).cdf)
    ks(ctx, "product:law", x[:, :, 3].ravel(), st.uniform(a, b - a).cdf)
    E = (x[1:, :, 1:3] - [1, -1]) - .5 * (x[:-1, :, 1:3] - [1, -1])
    W = np.linalg.solve(np.linalg.cholesky([[.1, .02], [.02, .2]]), E.reshape(-1, 2).T)
    for w in W:
        ks(ctx, "product:law", w, st.norm.cdf)
    ctx.close("product:deterministic", y, np.zeros((5, 4, 4)) + [2, 1, -1, (a + b) / 2], rtol=1e-7, atol=1e-9)
    C = np.corrcoef(x[1:, :, [0, 3]].reshape(-1, 2).T, W)
    off = C[:2, 2:]
    ctx.ok("product:independent", np.abs(off).max() < 7 / np.sqrt(len(W[0])) and abs(C[0, 1]) < 7 / np.sqrt(len(W[0])), C=C)


SCENARIOS = [Scenario("distributions", distributions, 6, 40), Scenario("autoregressive", autoregressive, 6, 40),
             Scenario("markov", markov, 6, 40), Scenario("products", products, 2, 10)]
REQUIRED = {"draw:law:UNormal": 1, "VAR1:innovations": 15, "markov:transition-frequencies": 30, "draw:mixture": 4, "product:law": 4}
