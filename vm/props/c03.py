"""C03 derivatives: compiled functions, numerical differentiation helpers, assembled Jacobians."""
import warnings
import numpy as np
from vm.core import Scenario, snapshot
from vm import models
from vm.exprs import E, gen
from vm.props import c02

RULE = ("random models with every kind of equation block: derivatives of each compiled function, for points and batches, against complex-step derivatives of the "
        "expression trees (exact), and values with derivatives against values alone; numerical differentiation helpers on random smooth functions with known "
        "Jacobians, sizes all different; Jacobian of the stacked system of perfect foresight and of the residuals of improved time iteration; non-trivial: the Jacobian is not constant")
REQUIRED = {"jac-point": 100, "jac-batch": 100, "value": 80, "helper": 40, "stacked": 6, "perturbation": 15, "euler": 6, "smooth": 6, "shape": 30}


def jac(M, b, vecs, p):
    """exact derivatives w.r.t. each vector, by complex steps on the trees; None if not smooth there"""
    h = 1e-30
    try:
        v0 = M.eval(b, vecs, p)
    except (TypeError, OverflowError, ZeroDivisionError):
        return None, None
    if not np.isfinite(v0).all() or abs(v0).max(initial=0) > 100:
        return None, None
    out = []
    for i, v in enumerate(vecs):
        J = np.zeros((len(v0), len(v)))
        for j in range(len(v)):
            env = [np.array(a, dtype=complex) for a in vecs]
            env[i][j] += 1j * h
            z = ceval(M, b, env, p)
            if z is None:
                return None, None
            J[:, j] = z.imag / h
        if not np.isfinite(J).all() or abs(J).max(initial=0) > 1e3:
            return None, None
        out.append(J)
    return v0, out


def ceval(M, b, vecs, p):
    """Model.eval with complex arguments"""
    args = M.args(b)
    env = dict(zip(M.g["parameters"], map(float, p)))
    for (grp, d), v in zip(args, vecs):
        env.update({(n, d): z for n, z in zip(M.g[grp], v)})
    dates = {d for grp, d in args if grp == "states"} & {d for grp, d in args if grp == "controls"}
    try:
        for d in dates:
            sub = {(k[0], k[1] - d) if isinstance(k, tuple) else k: v for k, v in env.items()}
            for v, t in M.defs.items():
                try:
                    sub[(v, 0)] = t.val(sub)
                except KeyError:
                    continue
                env[(v, d)] = sub[(v, 0)]
        if b in ("arbitrage_lb", "arbitrage_ub"):
            z = M.lb if b.endswith("lb") else M.ub
            return np.array([0.0 if t is None or isinstance(t, str) else t.val(env) for t in z], dtype=complex)
        if b == "auxiliary":
            return np.array([env[(v, 0)] for v in M.deforder], dtype=complex)
        out = []
        for t, l in zip(M.eq[b], M.lhs[b]):
            if c02.SPEC[b][0] is None and l is None and M.style[b] == "text" and b != "arbitrage":
                l = E("v", (M.g["controls"][0], 0))
            out.append(t.val(env) - (l.val(env) if l is not None else 0.0))
            if b in c02.RECURSIVE:
                env[(M.g[c02.SPEC[b][0][0]][len(out) - 1], c02.SPEC[b][0][1])] = out[-1]
        return np.array(out, dtype=complex)
    except (TypeError, OverflowError, ZeroDivisionError):
        return None


def tol(v0, J):
    """forward differences of step 1e-8"""
    s = max(1.0, abs(v0).max(initial=0), max([abs(j).max(initial=0) for j in J], default=0))
    return dict(rtol=2e-5, atol=4e-6 * s)


def functions(ctx):
    rng = ctx.rng
    opt = [b for b in c02.SPEC if b not in ("transition", "arbitrage")]
    k = ctx.rep % 3
    M = c02.Model(rng, optional=[opt[i] for i in range(k, len(opt), 3)])
    with ctx.guard("import"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            model = models.load(M.text())
    for b in list(M.blocks) + (["auxiliary"] if M.defs else []):
        f = model.functions[b]
        args = M.args(b)
        dims = [len(M.g[g]) for g, _ in args]
        npar = len(M.g["parameters"])
        for _ in range(3):
            vecs = [rng.uniform(.4, 1.8, d) for d in dims]
            p = rng.uniform(.4, 1.8, npar)
            v0, J = jac(M, b, vecs, p)
            if v0 is None:
                ctx.count("not_smooth")
                continue
            fp = snapshot(vecs + [p])
            with ctx.guard("diff", block=b):
                r = f(*vecs, p, diff=True)
            ctx.ok("args", snapshot(vecs + [p]) == fp, block=b)
            ctx.case(b, M.show(M.eq[b][0]) if b in M.eq else b, nontrivial=any(abs(j).max(initial=0) > 0 for j in J))
            if not ctx.ok("shape", len(r) == 1 + len(J), got=len(r), block=b):
                continue
            with ctx.guard("call", block=b):
                ctx.close("value", r[0], f(*vecs, p), rtol=0, atol=0, block=b)
            for i, (g, d) in enumerate(args):
                ctx.close("jac-point", r[i + 1], J[i], block=b, wrt=(g, d), **tol(v0, J))
        for _ in range(2):
            N = int(rng.integers(1, 5))
            batch = [rng.uniform(.4, 1.8, (N, d)) for d in dims]
            P = rng.uniform(.4, 1.8, (N, npar)) if rng.random() < .3 else rng.uniform(.4, 1.8, npar)
            exact = [jac(M, b, [v[i] for v in batch], P[i] if P.ndim == 2 else P) for i in range(N)]
            if any(e[0] is None for e in exact):
                continue
            fp = snapshot(batch + [P])
            with ctx.guard("diff", block=b):
                r = f(*batch, P, diff=True)
            ctx.ok("args", snapshot(batch + [P]) == fp, block=b)
            if not ctx.ok("shape", len(r) == 1 + len(dims), got=len(r), block=b):
                continue
            with ctx.guard("call", block=b):
                ctx.close("value", r[0], f(*batch, P), rtol=1e-13, atol=0, block=b, how="batch")
            for i, (g, d) in enumerate(args):
                if ctx.ok("shape", np.asarray(r[i + 1]).shape == (N, len(exact[0][0]), dims[i]), got=np.asarray(r[i + 1]).shape, block=b, wrt=(g, d)):
                    for n in range(N):
                        ctx.close("jac-batch", r[i + 1][n], exact[n][1][i], block=b, wrt=(g, d), row=n, **tol(*exact[n]))
    # the linearization used by perturbation is made of these derivatives
    from dolo.algos.perturbation import get_derivatives
    c = model.calibration
    m, s, x, p = [np.asarray(c[g]) for g in ("exogenous", "states", "controls", "parameters")]
    f0, Jf = jac(M, "arbitrage", [m, s, x, m, s, x], p)
    g0, Jg = jac(M, "transition", [m, s, x, m], p)
    if f0 is not None and g0 is not None:
        with ctx.guard("perturbation"):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                D = get_derivatives(model)
        want = [Jg[1], Jg[2], None, Jf[1], Jf[2], Jf[4], Jf[5]]
        t = tol(np.concatenate([f0, g0]), Jf + Jg)
        for nm, d, w in zip("G_s G_x G_e F_s F_x F_S F_X".split(), D, want):
            if w is not None:
                ctx.close("perturbation", d, w, name=nm, **t)
    stacked(ctx, M, model)
    euler(ctx, M, model)
    ctx.sample(blocks=M.blocks, definitions=len(M.defs))


def stacked(ctx, M, model):
    """Jacobian of the stacked system against the exact one"""
    from dolo.algos.perfect_foresight import det_residual
    rng = ctx.rng
    ns, nx, nm = [len(M.g[g]) for g in ("states", "controls", "exogenous")]
    N = int(rng.integers(2, 5))
    G = rng.uniform(.4, 1.8, (N, ns + nx))
    sh = rng.uniform(.4, 1.8, (N, nm))
    p = np.asarray(model.calibration["parameters"])
    start, final = rng.uniform(.4, 1.8, ns), rng.uniform(.4, 1.8, nx)
    W = np.zeros((N, ns + nx, N, ns + nx))
    R = np.zeros((N, ns + nx))
    big = 1.0
    for t in range(N - 1):
        s, x, S, X = G[t, :ns], G[t, ns:], G[t + 1, :ns], G[t + 1, ns:]
        f0, Jf = jac(M, "arbitrage", [sh[t], s, x, sh[t + 1], S, X], p)
        g0, Jg = jac(M, "transition", [sh[t], s, x, sh[t + 1]], p)
        if f0 is None or g0 is None:
            return
        big = max([big, abs(f0).max(), abs(g0).max()] + [abs(j).max(initial=0) for j in Jf + Jg])
        R[t, ns:] = f0
        R[t + 1, :ns] = g0 - S
        W[t, ns:, t, :ns], W[t, ns:, t, ns:] = Jf[1], Jf[2]
        W[t, ns:, t + 1, :ns], W[t, ns:, t + 1, ns:] = Jf[4], Jf[5]
        W[t + 1, :ns, t, :ns], W[t + 1, :ns, t, ns:] = Jg[1], Jg[2]
        W[t + 1, :ns, t + 1, :ns] = -np.eye(ns)
    W[0, :ns, 0, :ns] = -np.eye(ns)
    R[0, :ns] = start - G[0, :ns]
    W[-1, ns:, -1, ns:] = -np.eye(nx)
    W[-1, ns:, -2, ns:] = np.eye(nx)
    R[-1, ns:] = G[-2, ns:] - G[-1, ns:]
    nn = N * (ns + nx)
    fp = snapshot([G, sh, start, final])
    for jt in ("sparse", "full"):
        with ctx.guard("stacked", jactype=jt):
            r, J = det_residual(model, G, start, final, sh, jactype=jt)
            r0 = det_residual(model, G, start, final, sh, diff=False)
        if jt == "sparse":
            J = np.asarray(J.todense())
        ctx.ok("args", snapshot([G, sh, start, final]) == fp, what="det_residual")
        ctx.close("stacked", np.ravel(r), R.ravel(), rtol=1e-9, atol=1e-9, what="residual")
        ctx.close("stacked", r0, R, rtol=1e-9, atol=1e-9, what="residual, diff=False")
        ctx.close("stacked", J, W.reshape(nn, nn), rtol=2e-5, atol=4e-6 * big, jactype=jt, sizes=(N, ns, nx))


def euler(ctx, M, model):
    """residuals of improved time iteration and their derivatives w.r.t. future controls"""
    import dolo
    from dolo.algos.improved_time_iteration import euler_residuals, smooth
    from dolo.numeric.decision_rule import DecisionRule
    rng = ctx.rng
    with ctx.guard("discretize"):
        grid, dp = model.discretize()
    dr = DecisionRule(grid["exo"], grid["endo"], dprocess=dp, interp_method="linear")
    s = grid["endo"].nodes
    nx = len(M.g["controls"])
    n_m = max(dp.n_nodes, 1)
    x = rng.uniform(.5, 1.5, (n_m, len(s), nx))
    p = np.asarray(model.calibration["parameters"])
    f, g = model.functions["arbitrage"], model.functions["transition"]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with ctx.guard("euler"):
            res, jres, S_ij = euler_residuals(f, g, s, x, dr, dp, p, with_jres=True)
            res0 = euler_residuals(f, g, s, x, dr, dp, p, with_jres=False)
    seen = 0
    for i in range(n_m):
        for n in rng.permutation(len(s))[:3]:
            tot = np.zeros(nx)
            for j in range(dp.n_inodes(i)):
                m, Mf, w = np.asarray(dp.node(i)).ravel(), np.asarray(dp.inode(i, j)).ravel(), float(dp.iweight(i, j))
                try:
                    S = M.eval("transition", [m, s[n], x[i, n], Mf], p)
                    XM = np.asarray(dr.eval_ijs(i, j, S[None, :]))[0]
                except (TypeError, OverflowError, ZeroDivisionError):
                    tot = None
                    break
                if not np.isfinite(S).all() or not np.isfinite(XM).all():
                    tot = None
                    break
                f0, J = jac(M, "arbitrage", [m, s[n], x[i, n], Mf, S, XM], p)
                if f0 is None:
                    tot = None
                    break
                tot += w * f0
                ctx.close("euler", jres[i, j, n], w * J[5], what="jres", **tol(f0, J))
                ctx.close("euler", S_ij[i, j, n], S, rtol=1e-9, atol=1e-9, what="future states")
            if tot is not None:
                seen += 1
                ctx.close("euler", res[i, n], tot, rtol=1e-9, atol=1e-9, what="residual")
                ctx.close("euler", res0[i, n], tot, rtol=1e-9, atol=1e-9, what="residual without derivatives")
    # smoothed complementarity: values and both derivatives
    n_m, N, nx = 2, 3, int(rng.integers(1, 4))
    r = rng.normal(size=(n_m, N, nx))
    dres = rng.normal(size=(n_m, N, nx, nx))
    jr = rng.normal(size=(n_m, 2, N, nx, nx))
    gap = rng.uniform(.05, 2, (n_m, N, nx))
    gap[rng.random(gap.shape) < .2] = np.inf
    pos = float(rng.choice([-1.0, 1.0]))
    j0 = jr.copy()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with ctx.guard("smooth"):
            H, Hx, Hj = smooth(r.copy(), dres.copy(), jr, gap.copy(), pos=pos)
    a, d = r, np.where(np.isinf(gap), 1.0, gap)
    q = np.sqrt(a ** 2 + d ** 2)
    inf = np.isinf(gap)
    ctx.close("smooth", H, np.where(inf, a, a + d - q), rtol=1e-12, atol=1e-13)
    Ra, Rd = np.where(inf, 1.0, 1 - a / q), np.where(inf, 0.0, 1 - d / q)
    want = Ra[..., None] * dres + pos * Rd[..., None] * np.eye(nx)
    ctx.close("smooth", Hx, want, rtol=1e-12, atol=1e-13, pos=pos)
    ctx.close("smooth", Hj, Ra[:, None, :, :, None] * j0, rtol=1e-12, atol=1e-13)


def helpers(ctx):
    from dolo.numeric.serial_operations import numdiff1, numdiff2
    from dolo.numeric.misc import MyJacobian
    from dolo.numeric.optimize.newton import SerialDifferentiableFunction
    from dolo.compiler.misc import numdiff, allocating_function
    rng = ctx.rng
    for _ in range(6):
        n, k, N = [int(v) for v in rng.permutation(np.arange(1, 6))[:3]]
        A, B, c = rng.normal(size=(k, n)), rng.normal(size=(k, n)), rng.normal(size=k)
        # one point: R^n -> R^k
        F = lambda x: np.sin(A @ x) + (B @ x) ** 2 + c
        J = lambda x: np.cos(A @ x)[:, None] * A + 2 * (B @ x)[:, None] * B
        x = rng.normal(size=n)
        fp = snapshot(x)
        ctx.case("helper", n, k, N, A)
        with ctx.guard("helper"):
            ctx.close("helper", MyJacobian(F)(x), J(x), rtol=1e-5, atol=1e-5, fn="MyJacobian")
            ctx.close("helper", MyJacobian(F, eps=1e-5)(x), J(x), rtol=1e-5, atol=1e-5, fn="MyJacobian")
        ctx.ok("args", snapshot(x) == fp)
        # rows
        X = rng.normal(size=(N, n))
        FR = lambda X: np.array([F(r) for r in X])
        JR = np.array([J(r) for r in X])
        fp = snapshot(X)
        with ctx.guard("helper"):
            v, d = SerialDifferentiableFunction(FR)(X)
        ctx.ok("args", snapshot(X) == fp, fn="SerialDifferentiableFunction")
        ctx.close("helper", v, FR(X), rtol=0, atol=0, fn="SerialDifferentiableFunction")
        ctx.close("helper", d, JR, rtol=1e-5, atol=1e-5, fn="SerialDifferentiableFunction")
        with ctx.guard("helper"):
            v, d = SerialDifferentiableFunction(FR, epsilon=1e-6)(X)
        ctx.close("helper", d, JR, rtol=1e-4, atol=1e-4, fn="SerialDifferentiableFunction, epsilon")
        # several arguments
        l = int(rng.integers(1, 4))
        C = rng.normal(size=(k, l))
        Y = rng.normal(size=(N, l))
        G = lambda X, Y: FR(X) * np.exp(.3 * np.array([C @ y for y in Y]))
        w = np.exp(.3 * np.array([C @ y for y in Y]))
        fp = snapshot([X, Y])
        with ctx.guard("helper", fn="numdiff", sizes=(N, k, n, l)):
            v, dX, dY = numdiff(G, [X, Y])
        ctx.ok("args", snapshot([X, Y]) == fp, fn="numdiff")
        ctx.close("helper", v, G(X, Y), rtol=0, atol=0, fn="numdiff")
        ctx.close("helper", dX, JR * w[:, :, None], rtol=1e-5, atol=2e-5, fn="numdiff")
        ctx.close("helper", dY, .3 * G(X, Y)[:, :, None] * C[None], rtol=1e-5, atol=2e-5, fn="numdiff")
        H = allocating_function(lambda X, Y, out: out.__setitem__(slice(None), G(X, Y)), (N, k))
        with ctx.guard("helper", fn="allocating_function"):
            a, b, z = H(X, Y), H(X, Y, diff=False), H(X, Y, diff=True)
        ctx.close("helper", a, G(X, Y), rtol=0, atol=0, fn="allocating_function")
        ctx.close("helper", b, G(X, Y), rtol=0, atol=0, fn="allocating_function, diff=False")
        if ctx.ok("helper", len(z) == 3, fn="allocating_function"):
            ctx.close("helper", z[1], dX, rtol=0, atol=0, fn="allocating_function, diff=True")
        # observations last, any number of leading dimensions
        d0 = [(n,), (n, 2)][int(rng.integers(2))]
        T = rng.normal(size=(k,) + d0)
        ax = len(d0)
        F1 = lambda x: np.tanh(np.tensordot(T, x, axes=ax))                        # (k, N)
        x = rng.normal(size=d0 + (N,)) * .5
        fp = snapshot(x)
        with ctx.guard("helper", fn="numdiff1"):
            d = numdiff1(F1, x, dv=1e-6)
        ctx.ok("args", snapshot(x) == fp, fn="numdiff1")
        s2 = 1 - F1(x) ** 2
        want = np.expand_dims(s2, tuple(range(1, 1 + ax))) * T[..., None]
        ctx.close("helper", d, want, rtol=1e-5, atol=1e-6, fn="numdiff1", dims=d0)
        # derivative w.r.t. arguments common to all observations
        V = rng.normal(size=(k, N) + d0)
        F2 = lambda x: np.tanh(np.tensordot(V, x, axes=ax))
        x = rng.normal(size=d0) * .5
        fp = snapshot(x)
        with ctx.guard("helper", fn="numdiff2"):
            d = numdiff2(F2, x, dv=1e-6)
        ctx.ok("args", snapshot(x) == fp, fn="numdiff2")
        want = np.moveaxis((1 - F2(x) ** 2).reshape((k, N) + (1,) * ax) * V, 1, -1)
        ctx.close("helper", d, want, rtol=1e-5, atol=1e-6, fn="numdiff2", dims=d0)


SCENARIOS = [Scenario("functions", functions, quick=9, thorough=60), Scenario("helpers", helpers, quick=4, thorough=40)]
