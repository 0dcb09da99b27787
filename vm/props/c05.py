"""C05 interpolated decision rules reproduce their values and evaluate consistently."""
import itertools
import numpy as np
from vm.core import Scenario

RULE = ("random exogenous grid (none / Markov states / cartesian) x endogenous cartesian grid (even / uneven) x "
        "linear / cubic x number of controls; non-trivial: two or more controls or grid dimensions")


def tensor_interp(axes, values, pts, kind):
    """Reference interpolant. values: shape (n1,..,nd,nx); pts (N,d) inside the hull."""
    from scipy.interpolate import RegularGridInterpolator, CubicSpline
    if kind == "linear":
        return RegularGridInterpolator(axes, values, method="linear")(pts)
    out = np.empty((len(pts), values.shape[-1]))
    for k, p in enumerate(pts):
        v = values
        for ax, c in zip(axes, p):
            if len(ax) == 2:
                w = (c - ax[0]) / (ax[1] - ax[0])
                v = v[0] * (1 - w) + v[1] * w
            else:
                v = CubicSpline(ax, v, axis=0, bc_type="natural")(c)
        out[k] = v
    return out


def rand_axes(rng, d, uniform=True, cubic=False):
    ax = []
    for _ in range(d):
        n = int(rng.integers(3 if cubic else 2, 7))
        a = rng.uniform(-3, 3)
        b = a + rng.uniform(.3, 4)
        if uniform:
            ax.append(np.linspace(a, b, n))
        else:
            u = np.concatenate([[0], np.sort(rng.uniform(.05, .95, n - 2)), [1]])
            while len(u) > 2 and np.diff(u).min() < .02:
                u = np.concatenate([[0], np.sort(rng.uniform(.05, .95, n - 2)), [1]])
            ax.append(a + (b - a) * u)
    return ax


def mk(ax, uniform):
    from dolo.numeric.grids import UniformCartesianGrid, NonUniformCartesianGrid
    if uniform:
        return UniformCartesianGrid([a[0] for a in ax], [a[-1] for a in ax], [len(a) for a in ax])
    return NonUniformCartesianGrid(ax)


def inside(rng, ax, N):
    p = np.stack([a[0] + (a[-1] - a[0]) * rng.random(N) for a in ax], axis=1)
    # some points exactly on nodes / faces
    for i in range(0, N, 3):
        j = int(rng.integers(len(ax)))
        p[i, j] = ax[j][int(rng.integers(len(ax[j])))]
    return p


def prod(ax):
    return np.array(list(itertools.product(*ax)))


def one(ctx, exo, uniform, method):
    from dolo.numeric.decision_rule import DecisionRule
    from dolo.numeric.grids import EmptyGrid, UnstructuredGrid
    rng = ctx.rng
    cubic = method == "cubic"
    d = int(rng.integers(1, 4 if exo != "cartesian" else 3))
    nx = int(rng.integers(1, 4))
    ax = rand_axes(rng, d, uniform, cubic)
    endo = mk(ax, uniform)
    nodes = prod(ax)
    N = len(nodes)
    if exo == "empty":
        eg, ne = EmptyGrid(), 1
    elif exo == "markov":
        ne = int(rng.integers(2, 5))
        eg = UnstructuredGrid(rng.normal(size=(ne, int(rng.integers(1, 3)))))
    else:
        de = int(rng.integers(1, 3))
        eax = rand_axes(rng, de, uniform, cubic)
        eg = mk(eax, uniform)
        ne = eg.n_nodes
    vals = rng.normal(size=(ne, N, nx)) * 10.0 ** rng.integers(-2, 3)
    if exo == "cartesian":
        vals = vals.reshape(ne, N, nx)
    keep = vals.copy()
    tag = f"{exo}-{method}-{'even' if uniform else 'uneven'}"
    ctx.case(tag, d, nx, ne, [len(a) for a in ax], vals.ravel()[:3], nontrivial=nx > 1 or d > 1)
    det = dict(config=tag, d=d, nx=nx, shape=[len(a) for a in ax], n_exo=ne)
    with ctx.guard(f"build", **det):
        dr = DecisionRule(eg, endo, interp_method=method)
        dr.set_values(vals)
        dr2 = DecisionRule(eg, endo, interp_method=method, values=vals)
    ctx.ok("values-untouched", np.array_equal(vals, keep), **det)
    sc = np.abs(vals).max()
    tol = dict(rtol=1e-9, atol=1e-9 * sc)
    M = int(rng.integers(4, 9))
    pts = inside(rng, ax, M)
    ctx.sample(config=tag, axes=[a.tolist() for a in ax], point=pts[0])
    shape = tuple(len(a) for a in ax) + (nx,)
    if exo == "empty":
        ref = tensor_interp(ax, vals[0].reshape(shape), pts, method)
        with ctx.guard("eval", **det):
            at_nodes = dr.eval_s(nodes)
            e1 = dr.eval_s(pts)
            e2 = dr(pts)
            e3 = np.array([dr(p) for p in pts])
            e4 = dr.eval_is(0, pts)
            e5 = dr.eval_ms(rng.normal(size=(M, 1)), pts)
            e6 = dr.eval_ijs(0, 1, pts)
            e7 = dr(0, pts)
            e8 = dr(np.array([0.3]), pts[0])
            e9 = dr(pts.tolist())
        ctx.close("nodes-reproduced", at_nodes, vals[0], **tol, **det)
        ctx.close("between-nodes", e1, ref, **tol, **det)
        ctx.close("same-through-values-argument", dr2.eval_s(pts), e1, **tol, **det)
        for nm, e in (("call", e2), ("call-vector", e3), ("eval_is", e4), ("eval_ms", e5), ("eval_ijs", e6), ("call-is", e7),
                      ("call-list", e9)):
            ctx.close("consistent:" + nm, e, e1, rtol=1e-12, atol=1e-12 * sc, **det)
        ctx.close("consistent:call-ms-vector", e8, e1[0], rtol=1e-12, atol=1e-12 * sc, **det)
    elif exo == "markov":
        for i in range(ne):
            ref = tensor_interp(ax, vals[i].reshape(shape), pts, method)
            with ctx.guard("eval", **det):
                at_nodes = dr.eval_is(i, nodes)
                e1 = dr.eval_is(i, pts)
                e2 = dr(i, pts)
                e3 = np.array([dr(i, p) for p in pts])
                e4 = dr.eval_ijs(int(rng.integers(ne)), i, pts)
            ctx.close("nodes-reproduced", at_nodes, vals[i], **tol, **det)
            ctx.close("between-nodes", e1, ref, **tol, **det)
            ctx.close("same-through-values-argument", dr2.eval_is(i, pts), e1, **tol, **det)
            for nm, e in (("call", e2), ("call-vector", e3), ("eval_ijs", e4)):
                ctx.close("consistent:" + nm, e, e1, rtol=1e-12, atol=1e-12 * sc, **det)
    else:
        full = tuple(len(a) for a in eax) + shape
        fv = vals.reshape(full)
        mpts = inside(rng, eax, M)
        ref = tensor_interp(eax + ax, fv, np.concatenate([mpts, pts], axis=1), method)
        with ctx.guard("eval", **det):
            e1 = dr.eval_ms(mpts, pts)
            e2 = dr(mpts, pts)
            e3 = np.array([dr(a, b) for a, b in zip(mpts, pts)])
        ctx.close("between-nodes", e1, ref, **tol, **det)
        ctx.close("same-through-values-argument", dr2.eval_ms(mpts, pts), e1, **tol, **det)
        for nm, e in (("call", e2), ("call-vector", e3)):
            ctx.close("consistent:" + nm, e, e1, rtol=1e-12, atol=1e-12 * sc, **det)
        for i in sorted({0, ne - 1, int(rng.integers(ne))}):
            with ctx.guard("eval_is", **det):
                an = dr.eval_is(i, nodes)
                ai = dr(i, pts)
            ctx.close("nodes-reproduced", an, vals[i], **tol, **det)
            ctx.close("consistent:eval_is", ai, dr.eval_ms(np.repeat(eg.nodes[i:i + 1], M, axis=0), pts), rtol=1e-12, atol=1e-12 * sc, **det)
        # a single exogenous point against many states, and conversely
        with ctx.guard("broadcast", **det):
            b1 = dr(mpts[0], pts)
            b2 = dr(mpts, pts[0])
        ctx.close("consistent:one-m-many-s", b1, dr.eval_ms(np.repeat(mpts[:1], M, axis=0), pts), rtol=1e-12, atol=1e-12 * sc, **det)
        ctx.close("consistent:many-m-one-s", b2, dr.eval_ms(mpts, np.repeat(pts[:1], M, axis=0)), rtol=1e-12, atol=1e-12 * sc, **det)
    # rebinding the values replaces them entirely
    v2 = rng.normal(size=vals.shape)
    given = v2.copy()
    dr.set_values(given)
    look = (lambda r: r.eval_s(pts)) if exo == "empty" else (lambda r: r.eval_is(ne - 1, pts))
    before, before2, pk = look(dr), look(dr2), pts.copy()
    # the rule owns its values: neither the caller's array nor the returned one is shared with it
    given[...] = 1e3
    np.multiply(vals, -7.0, out=vals)
    ctx.close("caller-array-not-shared", look(dr), before, rtol=0, atol=0, **det)
    ctx.close("caller-array-not-shared", look(dr2), before2, rtol=0, atol=0, **det)
    vals[...] = keep
    got = look(dr)
    got[...] = 0
    ctx.close("returned-array-not-shared", look(dr), before, rtol=0, atol=0, **det)
    ctx.ok("points-untouched", np.array_equal(pts, pk), **det)
    if exo == "empty":
        ctx.close("set_values-again", dr.eval_s(nodes), v2[0], rtol=1e-9, atol=1e-9, **det)
        ctx.close("rules-independent", dr2.eval_s(nodes), vals[0], **tol, **det)
    else:
        ctx.close("set_values-again", dr.eval_is(ne - 1, nodes), v2[ne - 1], rtol=1e-9, atol=1e-9, **det)
        ctx.close("rules-independent", dr2.eval_is(0, nodes), vals[0], **tol, **det)


def make(exo, uniform, method):
    def f(ctx):
        for _ in range(12):
            one(ctx, exo, uniform, method)
    return f


def constant_and_errors(ctx):
    from dolo.numeric.decision_rule import DecisionRule, ConstantDecisionRule
    from dolo.numeric.grids import EmptyGrid
    rng = ctx.rng
    for _ in range(10):
        x0 = rng.normal(size=int(rng.integers(1, 4)))
        dr = ConstantDecisionRule(x0)
        s = rng.normal(size=(5, 2))
        ctx.case("constant", x0)
        ctx.close("constant", dr(s), np.repeat(x0[None], 5, axis=0))
        ctx.close("constant", dr(s[0]), x0)
        ctx.close("constant", dr(0, s), np.repeat(x0[None], 5, axis=0))
        ctx.close("constant", dr(rng.normal(size=(5, 1)), s), np.repeat(x0[None], 5, axis=0))
    ctx.raises("unknown-method-rejected", lambda: DecisionRule(EmptyGrid(), mk(rand_axes(rng, 1), True), interp_method="quintic"))
    ctx.raises("unknown-method-rejected", lambda: DecisionRule(EmptyGrid(), mk(rand_axes(rng, 1), True), interp_method="Cubic "))


SCENARIOS = [Scenario("constant", constant_and_errors, 1, 4)]
for exo_ in ("empty", "markov", "cartesian"):
    for u_, m_ in ((True, "linear"), (True, "cubic"), (False, "linear"), (True, "multilinear")):
        if m_ == "multilinear":
            continue
        SCENARIOS.append(Scenario(f"{exo_}-{m_}-{'even' if u_ else 'uneven'}", make(exo_, u_, m_), 3, 30, timeout=400))
REQUIRED = {"nodes-reproduced": 100, "between-nodes": 100, "consistent:one-m-many-s": 10, "consistent:eval_ijs": 30}
