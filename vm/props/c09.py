"""C09 composite processes: independent products keep the joint law of their components."""
import numpy as np
from vm.core import Scenario
from vm import models
from vm.props.c07 import rcov

RULE = ("products of two or three random processes of any kind (iid, autoregressive, Markov, constant), with shared or individual "
        "discretization options, built by hand, by the Product constructor or from a model file; non-trivial: at least two components")


def child_iid(rng):
    from dolo.numeric.distribution import UNormal, Uniform, Normal, Bernouilli, LogNormal, FiniteDistribution, EquiprobableDistribution, Mixture
    from dolo.numeric.processes import ConstantProcess
    k = int(rng.integers(8))
    if k == 0:
        return UNormal(σ=rng.uniform(.1, 1), μ=rng.normal())
    if k == 1:
        return Uniform(-1.0, float(rng.uniform(0, 2)))
    if k == 2:
        return Normal(Σ=np.array([[1., .3], [.3, .5]]) * rng.uniform(.1, 1), Μ=rng.normal(size=2))
    if k == 3:
        return Bernouilli(π=rng.uniform(.05, .95))
    if k == 4:
        return ConstantProcess(μ=rng.normal(size=int(rng.integers(1, 3))).tolist())
    if k == 5:
        return LogNormal(σ=.3, μ=rng.normal())
    if k == 6:
        n, d = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        return FiniteDistribution(rng.normal(size=(n, d)), rng.dirichlet(np.ones(n)))
    return Mixture(index=Bernouilli(π=rng.uniform(.05, .95)), distributions={"0": UNormal(σ=.3), "1": UNormal(σ=.2, μ=3.0)})


def child_any(rng):
    from dolo.numeric.processes import MarkovChain, VAR1, AR1
    k = int(rng.integers(5))
    if k == 0:
        n, d = int(rng.integers(2, 4)), int(rng.integers(1, 3))
        return MarkovChain(rng.dirichlet(np.ones(n), n), rng.normal(size=(n, d)))
    if k == 1:
        return VAR1(ρ=rng.uniform(.1, .9), Σ=np.array([[1., .3], [.3, .5]]) * rng.uniform(.1, 1), μ=rng.normal(size=2))
    if k == 2:
        return AR1(ρ=rng.uniform(.1, .9), σ=rng.uniform(.1, 1), μ=rng.normal())
    return child_iid(rng)


def law_product(parts):
    """[(points, weights)] of independent components -> {rounded point: probability}"""
    acc = {(): 1.0}
    for P, W in parts:
        new = {}
        for key, w in acc.items():
            for p, v in zip(P, W):
                k2 = key + tuple(np.round(np.asarray(p, float), 9) + 0.0)
                new[k2] = new.get(k2, 0) + w * v
        acc = new
    return acc


def law_of(P, W):
    acc = {}
    for p, w in zip(P, W):
        k = tuple(np.round(np.asarray(p, float), 9) + 0.0)
        acc[k] = acc.get(k, 0) + w
    return acc


def same_law(a, b, tol=1e-11):
    keys = set(a) | set(b)
    return all(abs(a.get(k, 0) - b.get(k, 0)) < tol for k in keys)


def iid_products(ctx):
    from dolo.numeric.processes import ProductProcess, Product
    from dolo.numeric.distribution import product_iid, ProductDistribution
    rng = ctx.rng
    for _ in range(12):
        ch = [child_iid(rng) for _ in range(int(rng.integers(1, 4)))]
        kinds = [type(c).__name__ for c in ch]
        with ctx.guard("iid-product", kinds=kinds):
            p = (ProductProcess if rng.random() < .5 else Product)(*ch)
            ds = [c.discretize(to="iid") for c in ch]
            dp = p.discretize() if rng.random() < .5 else p.discretize(to="iid")
            direct = product_iid(ds)
        ctx.case("iid", kinds, [d.n for d in ds], nontrivial=len(ch) > 1)
        want = law_product([([d.point(i) for i in range(d.n)], [d.weight(i) for i in range(d.n)]) for d in ds])
        for x in (dp, direct):
            P = [x.point(i) for i in range(x.n)]
            W = np.array([x.weight(i) for i in range(x.n)])
            ctx.ok("iid-product:law", same_law(law_of(P, W), want), kinds=kinds)
            ctx.ok("iid-product:size", x.n == np.prod([d.n for d in ds]) and x.d == p.d == sum(c.d for c in ch) and abs(W.sum() - 1) < 1e-10, kinds=kinds)
        ctx.sample(kinds=kinds, n=dp.n, d=dp.d)
        # individual options
        from dolo.numeric.distribution import UNormal, Normal
        n1, n2 = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        pp = ProductProcess(UNormal(σ=.1), UNormal(σ=.2, μ=1.0))
        with ctx.guard("iid-product-options"):
            q = pp.discretize(options=[{"N": n1, "mass_point": "median"}, {"N": n2, "method": "gauss-hermite"}])
            q2 = pp.discretize(options={"N": n1})
        want = law_product([(x.points, np.asarray(x.weights)) for x in
                            (pp.processes[0].discretize(N=n1), pp.processes[1].discretize(N=n2, method="gauss-hermite"))])
        ctx.ok("iid-product:options", q.n == n1 * n2 and same_law(law_of(q.points, q.weights), want))
        ctx.ok("iid-product:shared-options", q2.n == n1 * n1)
        # products of distributions
        with ctx.guard("product-distribution"):
            pd = ProductDistribution([UNormal(σ=.1), Normal(Σ=np.eye(2), Μ=[1., 2.])])
            f = pd.discretize()
            dr = pd.draw(7)
        ctx.ok("product-distribution", pd.d == 3 and f.d == 3 and f.n == 5 * 25 and np.allclose(np.asarray(f.weights) @ f.points, [0, 1, 2], atol=1e-9) and dr.shape == (7, 3))


def markov_law(mc_list, dp, ctx, kinds):
    # rows of the product chain, matched through the values of the components
    n = dp.n_nodes
    cuts = np.cumsum([0] + [m.d for m in mc_list])

    def locate(v):
        out = []
        for m, a, b in zip(mc_list, cuts[:-1], cuts[1:]):
            hit = np.where(np.abs(m.values - v[a:b]).max(axis=1) < 1e-9)[0]
            out.append(int(hit[0]) if len(hit) == 1 else (None if len(hit) == 0 else tuple(hit)))
        return out
    locs = [locate(dp.node(i)) for i in range(n)]
    if any(l is None for L in locs for l in L):
        ctx.ok("markov-product:values", False, kinds=kinds)
        return
    if any(isinstance(l, tuple) for L in locs for l in L):
        ctx.count("components_with_equal_values")
        return
    ctx.ok("markov-product:values", len({tuple(L) for L in locs}) == n, kinds=kinds)
    want = np.array([[np.prod([m.transitions[a, b] for m, a, b in zip(mc_list, Li, Lj)]) for Lj in locs] for Li in locs])
    ctx.close("markov-product:transitions", dp.transitions, want, rtol=1e-10, atol=1e-14, kinds=kinds)


def markov_products(ctx):
    from dolo.numeric.processes import ProductProcess, Product, MarkovChain, product_mc
    from dolo.numeric.discretization import tensor_markov
    rng = ctx.rng
    for _ in range(10):
        k = int(rng.integers(1, 4))
        ch = [child_any(rng) for _ in range(k)]
        if k == 3:
            n = 2
            ch[2] = MarkovChain(rng.dirichlet(np.ones(n), n), rng.normal(size=(n, 1)))
        if k > 1 and all(hasattr(c, "draw") for c in ch):
            n = 3
            ch[0] = MarkovChain(rng.dirichlet(np.ones(n), n), rng.normal(size=(n, 2)))
        kinds = [type(c).__name__ for c in ch]
        with ctx.guard("markov-product", kinds=kinds):
            ms = [c.discretize(to="mc") for c in ch]
            if np.prod([m.n_nodes for m in ms]) > 250:
                continue
            p = (ProductProcess if rng.random() < .5 else Product)(*ch)
            dp = p.discretize(to="mc")
            df = p.discretize()
        ctx.case("mc", kinds, [m.n_nodes for m in ms], nontrivial=k > 1)
        ctx.ok("markov-product:size", dp.n_nodes == np.prod([m.n_nodes for m in ms]) and dp.d == p.d == sum(c.d for c in ch), kinds=kinds)
        ctx.ok("markov-product:stochastic", (dp.transitions >= 0).all() and np.allclose(dp.transitions.sum(axis=1), 1))
        markov_law(ms, dp, ctx, kinds)
        if any(not hasattr(c, "draw") for c in ch):
            ctx.ok("markov-product:default-target", isinstance(df, MarkovChain) and np.array_equal(df.transitions, dp.transitions), kinds=kinds)
        tuples = [(m.values, m.transitions) for m in ms]
        with ctx.guard("tensor_markov", kinds=kinds):
            if k > 1:
                v, t = tensor_markov(*tuples)
                ctx.ok("tensor_markov", np.allclose(v, dp.values) and np.allclose(t, dp.transitions), kinds=kinds)
        ctx.sample(kinds=kinds, n=dp.n_nodes)
        # options by component
        from dolo.numeric.processes import VAR1
        from dolo.numeric.distribution import UNormal
        a, b = int(rng.integers(2, 5)), int(rng.integers(2, 5))
        with ctx.guard("markov-product-options"):
            q = ProductProcess(VAR1(ρ=.9, Σ=[[.1]]), VAR1(ρ=.2, Σ=[[.3]])).discretize(options=[{"N": a}, {"N": b}])
        ctx.ok("markov-product:options", q.n_nodes == a * b and len(np.unique(q.values[:, 0].round(9))) == a and len(np.unique(q.values[:, 1].round(9))) == b)


TXT = """
name: comp
symbols:
    exogenous: [{exo}]
    states: [k]
    controls: [i]
    parameters: [aa, bb]
equations:
    transition: |
        k[t] = 0.5*k[t-1] + i[t-1] + {sumexo}
    arbitrage: |
        i[t] - 0.1*k[t]
calibration:
    aa: {aa}
    bb: aa/2
    k: 0.0
    i: 0.0
exogenous:{tag}
{process}
domain:
    k: [-1, 1]
options:
    grid: !Cartesian
        n: [5]
"""


def declared(ctx):
    rng = ctx.rng
    aa = float(np.round(rng.uniform(.1, .9), 4))
    pieces = {
        1: [("!UNormal\n{i}σ: aa", lambda D, Q: D.UNormal(σ=aa)), ("!Uniform\n{i}a: -aa\n{i}b: bb", lambda D, Q: D.Uniform(-aa, aa / 2)),
            ("!VAR1\n{i}rho: bb\n{i}Sigma: [[aa]]", lambda D, Q: Q.VAR1(ρ=aa / 2, Σ=[[aa]])),
            ("!AR1\n{i}rho: aa\n{i}sigma: bb", lambda D, Q: Q.AR1(ρ=aa, σ=aa / 2)),
            ("!ConstantProcess\n{i}μ: [aa]", lambda D, Q: Q.ConstantProcess(μ=[aa]))],
        2: [("!Normal\n{i}Sigma: [[aa, bb/2],[bb/2, aa]]", lambda D, Q: D.Normal(Σ=[[aa, aa / 4], [aa / 4, aa]])),
            ("!MarkovChain\n{i}values: [[aa, 1],[bb, 2]]\n{i}transitions: [[aa, 1-aa],[bb, 1-bb]]",
             lambda D, Q: Q.MarkovChain([[aa, 1 - aa], [aa / 2, 1 - aa / 2]], [[aa, 1], [aa / 2, 2]])),
            ("!VAR1\n{i}rho: aa\n{i}Sigma: [[aa, bb/2],[bb/2, aa]]", lambda D, Q: Q.VAR1(ρ=aa, Σ=[[aa, aa / 4], [aa / 4, aa]]))],
    }
    from dolo.numeric import distribution as D, processes as Q
    for _ in range(2):
        k = int(rng.integers(1, 4))
        names = ["z", "e", "u", "a", "w", "b"]
        names = [names[i] for i in rng.permutation(6)]
        lines, refs, vars_, groups = [], [], [], []
        for _k in range(k):
            d = int(rng.integers(1, 3))
            txt, ref = pieces[d][int(rng.integers(len(pieces[d])))]
            g = names[len(vars_):len(vars_) + d]
            vars_ += g
            groups.append(g)
            refs.append(ref)
            lines.append(f"    {', '.join(g) if rng.random() < .5 else ','.join(g)}: " + txt.format(i=" " * 8))
        mk = lambda exo, proc, tag="": TXT.format(exo=", ".join(exo), sumexo=" + ".join(f"{e}[t]" for e in exo), aa=aa, process="\n".join(proc), tag=tag)
        ctx.case("declared", lines, aa)
        with ctx.guard("composite-declared", lines=lines):
            m = models.load(mk(vars_, lines))
            p = m.exogenous
            dp = p.discretize()
            g, dp2 = m.discretize()
        want = Q.ProductProcess(*[r(D, Q) for r in refs]).discretize()
        ctx.ok("composite-declared:dimension", p.d == len(vars_) and dp.d == len(vars_))
        if hasattr(want, "transitions"):
            ctx.ok("composite-declared:same", type(dp) is type(want) and np.allclose(dp.values, want.values) and np.allclose(dp.transitions, want.transitions)
                   and np.allclose(dp2.values, want.values), lines=lines)
            ctx.ok("composite-declared:grid", np.allclose(np.asarray(g["exo"].nodes if hasattr(g, "__getitem__") else g.grids[0].nodes), want.values), lines=lines)
        else:
            ctx.ok("composite-declared:same", type(dp) is type(want) and np.allclose(dp.points, want.points) and np.allclose(dp.weights, want.weights), lines=lines)
        if len(vars_) > 1:
            # a specification which does not follow the declaration order is rejected
            sw = [vars_[1], vars_[0]] + vars_[2:]
            ctx.raises("composite-declared:order-rejected", lambda: models.load(mk(sw, lines)).exogenous, lines=lines)
            ctx.raises("composite-declared:missing-rejected", lambda: models.load(mk(vars_ + ["nn"], lines)).exogenous, lines=lines)


SCENARIOS = [Scenario("iid_products", iid_products, 5, 50), Scenario("markov_products", markov_products, 5, 50),
             Scenario("declared", declared, 6, 24)]
REQUIRED = {"iid-product:law": 80, "markov-product:transitions": 25, "composite-declared:same": 8}
