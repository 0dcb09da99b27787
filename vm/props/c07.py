"""C07 discretized distributions: probability weights, quantile nodes, exact Gaussian moments."""
import itertools
import math
import numpy as np
from vm.core import Scenario
from vm import models

RULE = ("random parameters, number of points, placement of the mass points and target representation for every "
        "distribution class, including degenerate and correlated covariances; non-trivial: more than one point")


def moment_normal(k, mu, sd):
    """E[X^k] for N(mu, sd^2)."""
    tot = 0.0
    for j in range(0, k + 1, 2):
        dfact = 1.0
        for q in range(j - 1, 0, -2):
            dfact *= q
        tot += math.comb(k, j) * mu ** (k - j) * sd ** j * dfact
    return tot


def pts_w(ctx, d, tag):
    """Everything the discretized object says about its points must agree."""
    n = d.n
    P = np.array([d.point(i) for i in range(n)])
    W = np.array([d.weight(i) for i in range(n)])
    it = list(d.items())
    ctx.ok(f"{tag}:items", len(it) == n and np.array_equal(np.array([a for a, _ in it]), W)
           and np.array_equal(np.array([b for _, b in it]), P))
    ctx.ok(f"{tag}:inodes", d.n_inodes(0) == n and all(np.array_equal(d.inode(0, j), P[j]) and d.iweight(0, j) == W[j] for j in range(n)))
    ctx.ok(f"{tag}:points-weights", np.array_equal(np.asarray(d.points), P) and np.allclose(np.asarray(d.weights), W, rtol=1e-14))
    ctx.ok(f"{tag}:probability", (W >= 0).all() and abs(W.sum() - 1) < 1e-10, weights=W)
    ctx.ok(f"{tag}:dims", P.shape == (n, d.d) and d.n_nodes == 1, shape=P.shape, d=d.d)
    sel = [(w, x) for w, x in d.iteritems(0)]
    ctx.close(f"{tag}:iteritems", sum(w * x for w, x in sel), W @ P, rtol=1e-9, atol=1e-12)
    ctx.close(f"{tag}:integrate", d.integrate(lambda x: np.sin(x).sum()), (W * np.sin(P).sum(axis=1)).sum(), rtol=1e-9, atol=1e-12)
    return P, W


def check_mc(ctx, mc, P, W, tag):
    ctx.close(f"{tag}:mc-values", mc.values, P, rtol=1e-10, atol=1e-12)
    ctx.close(f"{tag}:mc-transitions", mc.transitions, np.repeat(W[None], len(W), axis=0), rtol=1e-10, atol=1e-14)


def univariate(rng):
    import scipy.stats as st
    from dolo.numeric import distribution as D
    k = int(rng.integers(5))
    if k == 0:
        mu, sd = rng.normal() * 2, rng.uniform(.01, 3)
        return "UNormal", D.UNormal(σ=sd, μ=mu) if rng.random() < .5 else D.UNormal(sigma=sd, mu=mu), st.norm(mu, sd)
    if k == 1:
        a = rng.normal() * 2
        b = a + rng.uniform(.1, 4)
        return "Uniform", D.Uniform(a, b), st.uniform(a, b - a)
    if k == 2:
        mu, sd = rng.normal() * .5, rng.uniform(.05, 1)
        return "LogNormal", D.LogNormal(μ=mu, σ=sd) if rng.random() < .5 else D.LogNormal(mu=mu, sigma=sd), st.lognorm(s=sd, scale=math.exp(mu))
    if k == 3:
        a, b = rng.uniform(.3, 5, 2)
        return "Beta", D.Beta(a, b), st.beta(a, b)
    mu, sd = rng.normal(), rng.uniform(.2, 2)
    lo = mu - sd * rng.uniform(.1, 2)
    hi = mu + sd * rng.uniform(.1, 2)
    side = int(rng.integers(3))
    dd = D.UNormal(σ=sd, μ=mu)
    if side == 0:
        return "Truncation", D.Truncation(dd, lo, hi), st.truncnorm((lo - mu) / sd, (hi - mu) / sd, loc=mu, scale=sd)
    if side == 1:
        return "Truncation", D.Truncation(dd, lb=lo), st.truncnorm((lo - mu) / sd, np.inf, loc=mu, scale=sd)
    return "Truncation", D.Truncation(dd, ub=hi), st.truncnorm(-np.inf, (hi - mu) / sd, loc=mu, scale=sd)


def equiprobable(ctx):
    rng = ctx.rng
    for _ in range(40):
        name, d, ref = univariate(rng)
        q = np.sort(rng.uniform(.001, .999, 7))
        ctx.close(f"ppf:{name}", d.ppf(q), ref.ppf(q), rtol=1e-7, atol=1e-9, dist=name)
        if name in ("UNormal", "Uniform"):
            ctx.close("cdf-inverts-ppf", d.cdf(d.ppf(q)), q, rtol=1e-9, atol=1e-11)
        N = int(rng.integers(1, 40))
        mass = ["median", "left", "middle", "right"][int(rng.integers(4))]
        if mass == "median":
            p = (np.arange(N) + .5) / N
            want = ref.ppf(p)
        elif mass == "left":
            want = ref.ppf(np.arange(N) / N)
        elif mass == "right":
            want = ref.ppf((np.arange(N) + 1) / N)
        else:
            e = ref.ppf(np.arange(N + 1) / N)
            with np.errstate(all="ignore"):
                want = (e[1:] + e[:-1]) / 2
        finite = np.isfinite(want).all()
        if N == 1 and mass in ("left", "right"):
            continue
        ctx.case("ep", name, N, mass, want[:3], nontrivial=N > 1)
        with ctx.guard("equiprobable", dist=name, N=N, mass=mass):
            dd = d.discretize(N=N, mass_point=mass)
            dd2 = d.discretize("iid", N, "equiprobable", mass)
            dm = d.discretize(to="mc", N=N, method="equiprobable", mass_point=mass)
        ctx.close(f"equiprobable:{name}:{mass}", np.asarray(dd.points)[:, 0], want, rtol=1e-6, atol=1e-8, N=N)
        ctx.ok("equiprobable:n", dd.n == N, got=dd.n, want=N)
        ctx.close("equiprobable:weights", [dd.weight(i) for i in range(dd.n)], np.full(N, 1 / N), rtol=1e-12)
        ctx.ok("equiprobable:positional", np.array_equal(np.asarray(dd.points), np.asarray(dd2.points), equal_nan=True))
        if finite:
            P, W = pts_w(ctx, dd, "equiprobable")
            ctx.ok("equiprobable:increasing", (np.diff(P[:, 0]) >= -1e-12).all())
            check_mc(ctx, dm, P, W, "equiprobable")
            check_mc(ctx, dd.discretize(to="mc"), P, W, "equiprobable-twice")
            ctx.ok("discrete:idempotent", dd.discretize() is dd or np.array_equal(dd.discretize().points, dd.points))
        ctx.sample(dist=name, N=N, mass_point=mass, points=want[:4])


def gauss_1d(ctx):
    from dolo.numeric.distribution import UNormal
    from dolo.numeric.discretization import gauss_hermite_nodes
    rng = ctx.rng
    for _ in range(20):
        mu, sd = rng.normal() * 2, rng.uniform(.01, 2)
        N = int(rng.integers(1, 25))
        d = UNormal(σ=sd, μ=mu)
        ctx.case("gh", mu, sd, N, nontrivial=N > 1)
        with ctx.guard("gauss-1d", N=N):
            dd = d.discretize(N=N, method="gauss-hermite")
            dm = d.discretize(to="mc", N=N, method="gauss-hermite")
        P, W = pts_w(ctx, dd, "gauss-1d")
        ctx.ok("gauss-1d:n", len(W) == N)
        for k in range(1, min(2 * N, 12)):
            want = moment_normal(k, mu, sd)
            scale = moment_normal(2 * ((k + 1) // 2), abs(mu), sd) + 1e-12
            ctx.ok("gauss-1d:moment", abs((W * P[:, 0] ** k).sum() - want) < 1e-8 * scale, k=k, N=N, mu=mu, sd=sd,
                   got=(W * P[:, 0] ** k).sum(), want=want)
        check_mc(ctx, dm, P, W, "gauss-1d")
        with ctx.guard("integrate"):
            ctx.close("integrate:normal", d.integrate(lambda x: x * x), mu * mu + sd * sd, rtol=1e-6, atol=1e-9)
        var = np.array([[sd ** 2]])
        for m in (np.array([mu]), None):
            x, w = gauss_hermite_nodes([N], var, mu=m)
            m_ = 0 if m is None else mu
            ctx.close("nodes-1d:mean", (w * x[:, 0]).sum(), m_, rtol=1e-9, atol=1e-9 * (1 + abs(mu)))
            if N > 1:
                ctx.close("nodes-1d:var", (w * (x[:, 0] - m_) ** 2).sum(), sd ** 2, rtol=1e-8, atol=1e-12)
        ctx.ok("nodes-1d:pure", var[0, 0] == sd ** 2)
        ctx.raises("unknown-method-rejected", lambda: d.discretize(method="simpson"))
        ctx.raises("unknown-target-rejected", lambda: d.discretize(to="nope"))
    from dolo.numeric.discretization.quadrature import hermgauss
    for n in rng.choice(np.arange(1, 64), 12, replace=False):
        from numpy.polynomial.hermite import hermgauss as ref
        with ctx.guard("hermgauss", n=int(n)):
            x, w = hermgauss(int(n))
        xr, wr = ref(int(n))
        o = np.argsort(x)
        ctx.close("hermgauss:nodes", x[o], xr, rtol=1e-9, atol=1e-9, n=int(n))
        ctx.close("hermgauss:weights", w[o], wr, rtol=1e-7, atol=1e-14, n=int(n))


def rcov(rng, d):
    kind = int(rng.integers(5))
    if kind == 0:
        S = np.diag(rng.uniform(.01, 2, d) ** 2)
    elif kind == 1 and d > 1:      # a column that sums to zero, yet has positive variance
        A = rng.normal(size=(d, d))
        S = A @ A.T + .1 * np.eye(d)
        j = int(rng.integers(d))
        others = [i for i in range(d) if i != j]
        cur = S[others, j].sum()
        S[j, others[0]] += -S[j, j] - cur
        S[others[0], j] = S[j, others[0]]
        # exact binary numbers, so that the sum is exactly zero
        S = np.array([[1.0, -1.0], [-1.0, 2.0]]) if d == 2 else np.array([[2.0, -1.0, -1.0], [-1.0, 2.0, .25], [-1.0, .25, 2.0]])
        S = S * 0.0625
    elif kind == 2 and d > 1:      # one degenerate component
        A = rng.normal(size=(d, d))
        S = A @ A.T * .1
        j = int(rng.integers(d))
        S[j, :] = 0
        S[:, j] = 0
    else:
        A = rng.normal(size=(d, d))
        S = A @ A.T * 10.0 ** rng.integers(-3, 1)
    return S


def normal_nd(ctx):
    from dolo.numeric.distribution import Normal
    from dolo.numeric.discretization import gauss_hermite_nodes
    rng = ctx.rng
    for _ in range(15):
        d = int(rng.integers(1, 4))
        S = rcov(rng, d)
        mu = rng.normal(size=d) if rng.random() < .7 else None
        try:
            dist = Normal(Σ=S.copy(), Μ=mu) if rng.random() < .5 else Normal(S.tolist(), None if mu is None else mu.tolist())
        except np.linalg.LinAlgError:
            # scipy refuses singular covariances: outside of what the class supports
            ctx.count("singular_covariance_refused")
            continue
        m = np.zeros(d) if mu is None else mu
        one = rng.random() < .5
        N = int(rng.integers(2, 6)) if one else rng.integers(2, 6, d).tolist()
        orders = [N] * d if one else N
        ctx.case("nd", d, S, mu, N)
        with ctx.guard("normal-nd", S=S, N=N):
            g = dist.discretize(N=N)
            g2 = dist.discretize(N=N)
            gm = dist.discretize(to="mc", N=N)
            g0 = dist.discretize()
        P, W = pts_w(ctx, g, "normal-nd")
        ctx.ok("normal-nd:n", len(W) == int(np.prod(orders)), got=len(W), orders=orders)
        ctx.ok("normal-nd:default-n", g0.n == 5 ** d)
        sc = np.abs(S).max()
        mean = W @ P
        det = dict(S=S, mu=m, N=orders)
        ctx.close("normal-nd:mean", mean, m, rtol=1e-9, atol=1e-9 * (1 + np.abs(m).max() + sc ** .5), **det)
        cov = (P - m).T @ (W[:, None] * (P - m))
        ctx.close("normal-nd:covariance", cov, S, rtol=1e-7, atol=1e-8 * sc, **det)
        # all third central moments vanish; fourth ones satisfy Isserlis when 2N-1 >= 5
        Z = P - m
        if min(orders) >= 3:
            for _k in range(4):
                a, b, c, e = rng.integers(0, d, 4)
                ctx.close("normal-nd:third", (W * Z[:, a] * Z[:, b] * Z[:, c]).sum(), 0.0, atol=1e-8 * sc ** 1.5 + 1e-14, **det)
                want = S[a, b] * S[c, e] + S[a, c] * S[b, e] + S[a, e] * S[b, c]
                ctx.close("normal-nd:fourth", (W * Z[:, a] * Z[:, b] * Z[:, c] * Z[:, e]).sum(), want, rtol=1e-7, atol=1e-7 * sc ** 2, **det)
        ctx.ok("normal-nd:repeatable", np.array_equal(g.points, g2.points) and np.array_equal(g.weights, g2.weights), **det)
        ctx.close("normal-nd:covariance-untouched", dist.Σ, S, rtol=1e-12, atol=0, **det)
        check_mc(ctx, gm, P, W, "normal-nd")
        S1 = S.copy()
        for mm in (None, m):
            with ctx.guard("nodes-nd", **det):
                x, w = gauss_hermite_nodes(orders, S1, mu=mm)
            m_ = np.zeros(d) if mm is None else mm
            ctx.close("nodes-nd:mean", w @ x, m_, rtol=1e-9, atol=1e-9 * (1 + np.abs(m).max() + sc ** .5), **det)
            ctx.close("nodes-nd:covariance", (x - m_).T @ (w[:, None] * (x - m_)), S, rtol=1e-7, atol=1e-8 * sc, **det)
        ctx.ok("nodes-nd:pure", np.array_equal(S1, S), **det)
        ctx.sample(S=S, mu=mu, N=N, mean=mean, cov=cov)


def discrete_and_mixtures(ctx):
    from dolo.numeric.distribution import (Bernouilli, Mixture, UNormal, Uniform, FiniteDistribution,
                                           EquiprobableDistribution, Normal)
    from dolo.numeric.processes import ConstantProcess
    rng = ctx.rng
    for _ in range(20):
        pi = float(rng.uniform(0, 1))
        b = Bernouilli(π=pi)
        db = b.discretize()
        ctx.case("mixture", pi)
        P, W = pts_w(ctx, db, "bernouilli")
        ctx.close("bernouilli:law", np.array([P[:, 0], W]), np.array([[0, 1], [1 - pi, pi]]))
        check_mc(ctx, b.discretize(to="mc"), P, W, "bernouilli")
        dim = int(rng.integers(1, 3))
        comps = []
        for k in range(2):
            if dim == 1:
                comps.append([lambda: UNormal(σ=rng.uniform(.01, 1), μ=rng.normal()), lambda: Uniform(-1.0, rng.uniform(0, 2)),
                              lambda: ConstantProcess(μ=float(rng.normal())), lambda: ConstantProcess(μ=[rng.normal()])][int(rng.integers(4))]())
            else:
                comps.append([lambda: ConstantProcess(μ=rng.normal(size=2).tolist()),
                              lambda: Normal(Σ=np.eye(2) * rng.uniform(.1, 1), Μ=rng.normal(size=2))][int(rng.integers(2))]())
        mix = Mixture(index=Bernouilli(π=pi), distributions={"0": comps[0], "1": comps[1]})
        with ctx.guard("mixture", kinds=[type(c).__name__ for c in comps]):
            dm = mix.discretize()
            mm = mix.discretize(to="mc")
        P, W = pts_w(ctx, dm, "mixture")
        d0, d1 = comps[0].discretize(to="iid"), comps[1].discretize(to="iid")
        want = [(1 - pi) * d0.weight(i) for i in range(d0.n)] + [pi * d1.weight(i) for i in range(d1.n)]
        wp = [d0.point(i) for i in range(d0.n)] + [d1.point(i) for i in range(d1.n)]
        # same law, whatever the order of the points
        def law(P, W):
            acc = {}
            for p, w in zip(P, W):
                key = tuple(np.round(np.asarray(p, float), 9))
                acc[key] = acc.get(key, 0) + w
            return acc
        a, c = law(P, W), law(wp, want)
        ctx.ok("mixture:law", set(a) == set(c) and all(abs(a[k] - c[k]) < 1e-12 for k in a), got=sorted(a.items())[:5], want=sorted(c.items())[:5])
        check_mc(ctx, mm, P, W, "mixture")
        # finite laws given by the user
        n, d = int(rng.integers(1, 6)), int(rng.integers(1, 3))
        pts = rng.normal(size=(n, d))
        w = rng.dirichlet(np.ones(n))
        P, W = pts_w(ctx, FiniteDistribution(pts, w), "finite")
        ctx.ok("finite:law", np.array_equal(P, pts) and np.array_equal(W, w))
        check_mc(ctx, FiniteDistribution(pts, w).discretize(to="mc"), pts, w, "finite")
        P, W = pts_w(ctx, EquiprobableDistribution(pts), "equi")
        ctx.ok("equi:law", np.array_equal(P, pts) and np.allclose(W, 1 / n))
        cst = ConstantProcess(μ=pts[0].tolist())
        ci = cst.discretize(to="iid")
        P, W = pts_w(ctx, ci, "constant")
        ctx.ok("constant:law", np.array_equal(P, pts[:1]) and W[0] == 1)
        cm = cst.discretize(to="mc")
        ctx.ok("constant:mc", np.array_equal(cm.values, pts[:1]) and np.array_equal(cm.transitions, np.eye(1)))
        cm = cst.discretize(to="mc", N=3)
        ctx.ok("constant:mc-N", np.array_equal(cm.values, np.repeat(pts[:1], 3, axis=0)) and np.allclose(cm.transitions.sum(axis=1), 1))


YAML = """
name: y
symbols:
    exogenous: [{exo}]
    states: [k]
    controls: [i]
    parameters: [aa, bb, cc]
equations:
    transition: |
        k[t] = 0.5*k[t-1] + i[t-1] + {sumexo}
    arbitrage: |
        i[t] - 0.1*k[t]
calibration:
    aa: {aa}
    bb: aa/2
    cc: aa + bb
    k: 0.0
    i: 0.0
{process}
domain:
    k: [-1, 1]
options:
    grid: !Cartesian
        n: [5]
"""


def declared(ctx):
    """The process written in a model file, with calibrated expressions, is the one that is built."""
    rng = ctx.rng
    aa = float(np.round(rng.uniform(.1, .9), 4))
    bb, cc = aa / 2, aa * 1.5
    opts = [
        ("exogenous: !UNormal\n    σ: aa\n    μ: bb", 1, "UNormal", dict(σ=aa, μ=bb)),
        ("exogenous: !UNormal\n    sigma: cc", 1, "UNormal", dict(σ=cc, μ=0.0)),
        ("exogenous: !Uniform\n    a: -bb\n    b: cc", 1, "Uniform", dict(a=-bb, b=cc)),
        ("exogenous: !LogNormal\n    σ: aa\n    μ: bb", 1, "LogNormal", dict(σ=aa, μ=bb)),
        ("exogenous: !LogNormal\n    sigma: aa", 1, "LogNormal", dict(σ=aa, μ=0.0)),
        ("exogenous: !Beta\n    α: aa\n    β: cc", 1, "Beta", dict(α=aa, β=cc)),
        ("exogenous: !Bernouilli\n    π: aa", 1, "Bernouilli", dict(π=aa)),
        ("exogenous: !Normal\n    Σ: [[aa^2, aa*bb/2], [aa*bb/2, cc]]", 2, "Normal", dict(Σ=[[aa ** 2, aa * bb / 2], [aa * bb / 2, cc]], Μ=[0., 0.])),
        ("exogenous: !Normal\n    Sigma: [[aa, 0], [0, cc]]\n    Μ: [bb, 0.25]", 2, "Normal", dict(Σ=[[aa, 0], [0, cc]], Μ=[bb, .25])),
        ("exogenous: !ConstantProcess\n    μ: [aa, bb]", 2, "ConstantProcess", dict(μ=[aa, bb])),
        ("exogenous: !VAR1\n    rho: aa\n    Sigma: [[cc, bb/4],[bb/4, aa]]", 2, "VAR1", dict(ρ=[[aa, 0], [0, aa]], Σ=[[cc, bb / 4], [bb / 4, aa]], μ=[0., 0.])),
        ("exogenous: !VAR1\n    ρ: bb\n    Σ: [[cc]]\n    μ: [aa]", 1, "VAR1", dict(ρ=[[bb]], Σ=[[cc]], μ=[aa])),
        ("exogenous: !AR1\n    rho: aa\n    sigma: cc", 1, "AR1", dict(ρ=aa, σ=cc, μ=0.0)),
        ("exogenous: !MarkovChain\n    values: [[-aa, bb],[cc, 1]]\n    transitions: [[1-bb, bb],[aa/2, 1-aa/2]]", 2, "MarkovChain",
         dict(values=[[-aa, bb], [cc, 1]], transitions=[[1 - bb, bb], [aa / 2, 1 - aa / 2]])),
        ("exogenous: !Mixture\n    index: !Bernouilli\n        π: bb\n    distributions:\n        0: !UNormal\n            σ: aa\n        1: !UNormal\n            σ: cc\n            μ: bb", 1, "Mixture", {}),
    ]
    ks = rng.permutation(len(opts))[:5] if not ctx.thorough else range(len(opts))
    if ctx.rep < 3:
        ks = range(ctx.rep * 5, ctx.rep * 5 + 5)
    for k in ks:
        ptxt, d, cls, attrs = opts[int(k)]
        exo = ["u", "v"][:d]
        txt = YAML.format(exo=", ".join(exo), sumexo=" + ".join(e + "[t]" for e in exo), aa=aa, process=ptxt)
        ctx.case("declared", ptxt, aa)
        try:
            with ctx.guard("declared", process=ptxt):
                m = models.load(txt)
                p = m.exogenous
                dp = m.discretize()[1]
        except Exception:
            continue
        ctx.ok("declared:class", type(p).__name__ == cls, got=type(p).__name__, want=cls)
        ctx.ok("declared:dimension", p.d == d if hasattr(p, "d") else False, process=ptxt)
        for a, v in attrs.items():
            ctx.close("declared:attribute", np.asarray(getattr(p, a), float), np.asarray(v, float), rtol=1e-12, process=ptxt, attr=a)
        if cls == "Mixture":
            ctx.ok("declared:attribute", p.index.π == bb and p.distributions["0"].σ == aa and p.distributions["1"].μ == bb)
        nd = dp.inode(0, 0)
        ctx.ok("declared:discretizes", np.asarray(nd).shape == (d,) and np.isclose(sum(dp.iweight(0, j) for j in range(dp.n_inodes(0))), 1))
        # the shock follows the calibration
        if attrs:
            with ctx.guard("declared-recalibrated", process=ptxt):
                m.set_calibration(aa=aa + .05)
                q = m.exogenous
            txt2 = YAML.format(exo=", ".join(exo), sumexo=" + ".join(e + "[t]" for e in exo), aa=repr(aa + .05), process=ptxt)
            r = models.load(txt2).exogenous
            for a in attrs:
                ctx.close("declared:recalibrated", np.asarray(getattr(q, a), float), np.asarray(getattr(r, a), float), rtol=1e-12, process=ptxt, attr=a)


SCENARIOS = [Scenario("equiprobable", equiprobable, 6, 60), Scenario("gauss_1d", gauss_1d, 4, 30),
             Scenario("normal_nd", normal_nd, 8, 60), Scenario("mixtures", discrete_and_mixtures, 4, 30),
             Scenario("declared", declared, 6, 20)]
REQUIRED = {"equiprobable:weights": 100, "gauss-1d:moment": 300, "normal-nd:covariance": 50, "mixture:law": 40, "declared:attribute": 20}
