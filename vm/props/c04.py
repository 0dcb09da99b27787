"""C04 grids and domains: node ordering, bounds, products, discretized domains."""
import itertools
import numpy as np
from vm.core import Scenario

RULE = ("random dimensions, bounds, node counts and unevenly spaced node lists (ints, floats, mixed); "
        "non-trivial: at least two dimensions or an uneven/mixed-type node list")
REQUIRED = {}


def product_nodes(lists):
    """Independent definition: lexicographic product, last dimension fastest."""
    return np.array(list(itertools.product(*[[float(e) for e in l] for l in lists])), dtype=float).reshape(-1, len(lists))


def even(a, b, n):
    if n == 1:
        return [a]
    return [a + (b - a) * k / (n - 1) for k in range(n)]


def rbounds(rng, d):
    lo = rng.uniform(-10, 10, d) * 10.0 ** rng.integers(-3, 3, d)
    w = rng.uniform(0.1, 5, d) * 10.0 ** rng.integers(-2, 3, d)
    return lo, lo + w


def rlists(rng, d, ints=False):
    out = []
    for _ in range(d):
        n = int(rng.integers(2, 6))
        kind = rng.integers(0, 3)
        if kind == 0:
            v = np.sort(rng.choice(np.arange(-20, 20), n, replace=False)).astype(int)
            v = v.tolist() if rng.random() < 0.5 else v
        else:
            v = np.cumsum(rng.uniform(0.01, 3, n)) + rng.uniform(-5, 5)
            v = v.tolist() if kind == 1 else v
        out.append(v)
    return out


def check_grid(ctx, g, nodes, tag):
    ctx.close(f"{tag}:nodes", g.nodes, nodes, rtol=1e-12, atol=1e-12 * (1 + np.abs(nodes).max()))
    ctx.ok(f"{tag}:n_nodes", g.n_nodes == nodes.shape[0], got=g.n_nodes, want=nodes.shape[0])
    N = nodes.shape[0]
    for i in {0, N - 1, int(ctx.rng.integers(N))}:
        ctx.close(f"{tag}:node(i)", g.node(i), nodes[i], rtol=1e-12, atol=1e-12 * (1 + np.abs(nodes).max()), i=i)
    from dolo.numeric import grids as G
    ctx.ok(f"{tag}:module-functions", G.n_nodes(g) == N and np.array_equal(G.nodes(g), g.nodes)
           and np.array_equal(G.node(g, N - 1), g.nodes[N - 1]))


def uniform(ctx):
    from dolo.numeric.grids import UniformCartesianGrid
    from dolo.numeric.misc import mlinspace
    rng = ctx.rng
    for _ in range(25):
        d = int(rng.integers(1, 5))
        a, b = rbounds(rng, d)
        n = rng.integers(1 if rng.random() < .1 else 2, 6, d)
        lists = [even(a[k], b[k], n[k]) for k in range(d)]
        ref = product_nodes(lists)
        form = int(rng.integers(3))
        conv = [lambda v: v, lambda v: v.tolist(), lambda v: tuple(v.tolist())][form]
        ctx.case("uniform", d, n.tolist(), a, form, nontrivial=d > 1)
        aa, bb, nn = conv(a), conv(b), conv(n)
        with ctx.guard("uniform", a=a, b=b, n=n):
            g = UniformCartesianGrid(aa, bb, nn)
        check_grid(ctx, g, ref, "uniform")
        ctx.ok("uniform:attrs", g.d == d and np.array_equal(g.min, a) and np.array_equal(g.max, b)
               and np.array_equal(np.asarray(g.n), n), min=g.min, max=g.max, n=g.n)
        ctx.close("mlinspace", mlinspace(aa, bb, nn), ref, rtol=1e-12, atol=1e-12 * (1 + np.abs(ref).max()))
        # what the interpolation library is told about the grid
        rp = g.__numba_repr__()
        ctx.ok("uniform:numba-repr", len(rp) == d and all(r[0] == a[k] and r[1] == b[k] and r[2] == n[k] for k, r in enumerate(rp)),
               got=rp)
        ctx.sample(kind="uniform", a=a, b=b, n=n, first_nodes=g.nodes[:3])
    # default size: 20 points per dimension
    d = int(rng.integers(1, 4))
    a, b = rbounds(rng, d)
    with ctx.attempt("uniform-default", a=a, b=b):
        g = UniformCartesianGrid(a, b)
        check_grid(ctx, g, product_nodes([even(a[k], b[k], 20) for k in range(d)]), "uniform-default")


def nonuniform(ctx):
    from dolo.numeric.grids import NonUniformCartesianGrid, UnstructuredGrid
    from dolo.numeric.misc import cartesian
    rng = ctx.rng
    for _ in range(25):
        d = int(rng.integers(1, 5))
        ls = rlists(rng, d)
        ref = product_nodes(ls)
        ctx.case("nonuniform", [np.asarray(l).tolist() for l in ls])
        with ctx.guard("nonuniform", ls=ls):
            g = NonUniformCartesianGrid(ls)
        check_grid(ctx, g, ref, "nonuniform")
        ctx.close("nonuniform:min", g.min, ref.min(axis=0))
        ctx.close("nonuniform:max", g.max, ref.max(axis=0))
        ctx.ok("nonuniform:n", np.array_equal(np.asarray(g.n), [len(l) for l in ls]))
        with ctx.guard("cartesian", ls=ls):
            c = cartesian(ls)
        ctx.close("cartesian:product", c, ref, ls=ls)
        out = np.full(ref.shape, np.nan)
        cartesian(ls, out=out)
        ctx.close("cartesian:out", out, ref, ls=ls)
        pts = rng.normal(size=(int(rng.integers(1, 8)), d))
        arg = pts.copy() if rng.random() < .5 else pts.tolist()
        u = UnstructuredGrid(arg)
        check_grid(ctx, u, pts, "unstructured")
        ctx.close("unstructured:bounds", np.array([u.min, u.max]), np.array([pts.min(axis=0), pts.max(axis=0)]))


def algebra(ctx):
    """Sum / product of grids: nodes are the product set, first grid slowest."""
    from dolo.numeric.grids import (UniformCartesianGrid, NonUniformCartesianGrid, EmptyGrid, cat_grids,
                                    UnstructuredGrid, ProductGrid, PointGrid)
    rng = ctx.rng
    for _ in range(25):
        d1, d2 = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        a1, b1 = rbounds(rng, d1)
        a2, b2 = rbounds(rng, d2)
        n1, n2 = rng.integers(2, 5, d1), rng.integers(2, 5, d2)
        g1, g2 = UniformCartesianGrid(a1, b1, n1), UniformCartesianGrid(a2, b2, n2)
        ref = product_nodes([even(a1[k], b1[k], n1[k]) for k in range(d1)] + [even(a2[k], b2[k], n2[k]) for k in range(d2)])
        ctx.case("algebra", a1, b1, a2, b2, n1, n2)
        for nm, op in (("sum", lambda x, y: x + y), ("mul", lambda x, y: x * y), ("cat", cat_grids)):
            with ctx.attempt(f"algebra-{nm}"):
                g = op(g1, g2)
                check_grid(ctx, g, ref, f"algebra-{nm}")
                ctx.close(f"algebra-{nm}:bounds", np.array([g.min, g.max]),
                          np.array([np.concatenate([a1, a2]), np.concatenate([b1, b2])]))
                ctx.ok(f"algebra-{nm}:n", np.array_equal(np.asarray(g.n), np.concatenate([n1, n2])))
        # operands are left alone
        check_grid(ctx, g1, product_nodes([even(a1[k], b1[k], n1[k]) for k in range(d1)]), "algebra-operand")
        l1, l2 = rlists(rng, d1), rlists(rng, d2)
        h = NonUniformCartesianGrid(l1) + NonUniformCartesianGrid(l2)
        check_grid(ctx, h, product_nodes(l1 + l2), "algebra-nonuniform")
        for k, gg in enumerate((g1, h, UnstructuredGrid(rng.normal(size=(3, 2))))):
            e = EmptyGrid()
            s = e + gg
            ctx.ok("algebra:empty-neutral", np.array_equal(s.nodes, gg.nodes))
            with ctx.attempt("algebra:empty-mul"):
                ctx.ok("algebra:empty-mul", np.array_equal((e * gg).nodes, gg.nodes))
        e = EmptyGrid()
        ctx.ok("empty", e.n_nodes == 0 and e.nodes is None and e.node(0) is None)
        p = ProductGrid(g1, g2, names=["exo", "endo"])
        ctx.ok("product-grid", p["exo"] is g1 and p["endo"] is g2 and p.grids[0] is g1 and p.grids[1] is g2)


def smolyak(ctx):
    from dolo.numeric.grids import SmolyakGrid
    rng = ctx.rng
    for _ in range(4):
        d = int(rng.integers(2, 4))
        a, b = rbounds(rng, d)
        mu = int(rng.integers(1, 4))
        ctx.case("smolyak", d, a, b, mu)
        with ctx.guard("smolyak"):
            g = SmolyakGrid(a, b, mu)
        nd = g.nodes
        w = b - a
        ctx.ok("smolyak:inside", (nd >= a - 1e-9 * w).all() and (nd <= b + 1e-9 * w).all())
        ctx.close("smolyak:hull", np.array([nd.min(axis=0), nd.max(axis=0)]), np.array([a, b]), rtol=1e-9)
        ctx.ok("smolyak:distinct", len({tuple(np.round((r - a) / w, 9)) for r in nd}) == nd.shape[0])
        ctx.ok("smolyak:center", np.isclose(nd, (a + b) / 2, rtol=1e-9, atol=1e-12).all(axis=1).any())
        ctx.ok("smolyak:attrs", g.n_nodes == len(nd) and g.d == d and g.mu == mu)
        # node count of the isotropic Smolyak rule with nested Chebyshev extrema
        m = lambda i: 1 if i == 1 else 2 ** (i - 1) + 1
        new = lambda i: m(i) - (m(i - 1) if i > 1 else 0)
        cnt = sum(int(np.prod([new(i) for i in ix])) for ix in itertools.product(range(1, mu + 2), repeat=d) if sum(ix) <= d + mu)
        ctx.ok("smolyak:count", cnt == len(nd), got=len(nd), want=cnt)


def domains(ctx):
    from dolo.compiler.objects import CartesianDomain
    rng = ctx.rng
    for _ in range(10):
        d = int(rng.integers(1, 5))
        names = [f"s{k}" for k in rng.permutation(9)[:d]]
        a, b = rbounds(rng, d)
        D = CartesianDomain(**{names[k]: [a[k], b[k]] for k in range(d)})
        ctx.case("domain", names, a, b)
        ctx.ok("domain:states", tuple(D.states) == tuple(names))
        ctx.close("domain:min", D.min, a)
        ctx.close("domain:max", D.max, b)
        n = rng.integers(2, 5, d).tolist()
        g = D.discretize(n=n)
        check_grid(ctx, g, product_nodes([even(a[k], b[k], n[k]) for k in range(d)]), "domain-discretize")
        if d <= 3:
            check_grid(ctx, D.discretize(), product_nodes([even(a[k], b[k], 10) for k in range(d)]), "domain-default")


def model_domain(ctx):
    """The grid of a model: axis j spans the domain of state j, whatever the order of the YAML keys."""
    import dolo
    from vm import models
    rng = ctx.rng
    for it in range(4):
        spec = models.random_linear_spec(rng, ns=int(rng.integers(1, 4)), nx=1)
        perm = rng.permutation(len(spec.states)).tolist()
        style = ["cartesian", "default", "nonuniform", "smolyak"][int(rng.integers(4))] if it else "cartesian"
        if len(spec.states) == 1 and style == "smolyak":
            style = "cartesian"
        txt, info = models.linear_yaml(spec, domain_order=perm, grid=style, rng=rng, extra_domain=rng.random() < .5)
        ctx.case("model-domain", txt)
        with ctx.guard("model-domain", yaml=txt):
            m = models.load(txt)
        lo = np.array([info["domain"][s][0] for s in spec.states])
        hi = np.array([info["domain"][s][1] for s in spec.states])
        dom = m.domain
        ctx.close("model-domain:min", dom.min, lo, yaml=txt)
        ctx.close("model-domain:max", dom.max, hi, yaml=txt)
        with ctx.guard("endo-grid", yaml=txt):
            g = m.endo_grid
            g2, dp = m.discretize()
        g2 = g2["endo"]
        if style == "nonuniform":
            ref = product_nodes(info["nodes"])
        elif style == "smolyak":
            ref = None
            ctx.ok("endo-grid:smolyak-mu", g.mu == info["mu"])
            ctx.close("endo-grid:smolyak-hull", np.array([g.nodes.min(axis=0), g.nodes.max(axis=0)]), np.array([lo, hi]), rtol=1e-9)
        else:
            ref = product_nodes([even(lo[k], hi[k], info["n"][k]) for k in range(len(lo))])
        if ref is not None:
            check_grid(ctx, g, ref, "endo-grid")
            check_grid(ctx, g2, ref, "discretize-endo")
        n = rng.integers(2, 5, len(lo)).tolist()
        gg, _ = m.discretize(grid_options=dict(n=n))
        check_grid(ctx, gg["endo"], product_nodes([even(lo[k], hi[k], n[k]) for k in range(len(lo))]), "discretize-options")
        ctx.sample(yaml=txt, grid_style=style)


SCENARIOS = [
    Scenario("uniform", uniform, 4, 40),
    Scenario("nonuniform", nonuniform, 4, 40),
    Scenario("algebra", algebra, 4, 40),
    Scenario("smolyak", smolyak, 2, 12),
    Scenario("domains", domains, 2, 20),
    Scenario("model_domain", model_domain, 8, 40),
]
REQUIRED = {"uniform:nodes": 50, "nonuniform:nodes": 50, "algebra-sum:nodes": 30, "smolyak:inside": 4,
            "endo-grid:nodes": 5, "model-domain:min": 10, "cartesian:product": 50}
