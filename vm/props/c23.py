"""C23 newton and ncpsolve: roots, or a report of failure."""
import warnings
import numpy as np
from vm.core import Scenario, snapshot

RULE = ("random strongly monotone systems (unique solution) with random boxes, one system or batches, dense, sparse and stacked jacobians, "
        "exact or numerical; systems with several roots, without roots, with singular jacobians, few iterations; every returned point is "
        "re-evaluated; non-trivial: more than one equation or a binding bound")
REQUIRED = {"residual": 100, "alone": 40, "silent-failure": 60, "binding": 10}


class Sys:
    """f(x) = W x + c * atan-like(x) - b, strongly monotone for each row of the batch"""

    def __init__(self, rng, N, n, nl=True, shared=False):
        K = rng.normal(size=(N, n, n))
        self.W = np.einsum("nij,nkj->nik", K, K) * .3 + np.eye(n) * rng.uniform(.3, 2) + (lambda Z: Z - Z.transpose(0, 2, 1))(rng.normal(size=(N, n, n))) * .3
        self.c = rng.uniform(0, 2, (N, n)) * (1 if nl else 0)
        self.d = rng.uniform(.5, 2, (N, n))
        self.b = rng.normal(size=(N, n)) * 2
        self.N, self.n = N, n
        self.calls = 0

    def row(self, i):
        o = object.__new__(Sys)
        o.W, o.c, o.d, o.b, o.N, o.n, o.calls = self.W[i:i + 1], self.c[i:i + 1], self.d[i:i + 1], self.b[i:i + 1], 1, self.n, 0
        return o

    def val(self, x):
        return np.einsum("nij,nj->ni", self.W, x) + self.c * np.arctan(self.d * x) - self.b

    def jac(self, x):
        J = self.W.copy()
        k = np.arange(self.n)
        J[:, k, k] += self.c * self.d / (1 + (self.d * x) ** 2)
        return J

    def __call__(self, x):
        self.calls += 1
        return [self.val(x), self.jac(x)]

    def flat(self, kind):
        """the batch as one big system"""
        import scipy.sparse as sp

        def f(z):
            x = z.reshape(self.N, self.n)
            J = sp.block_diag(list(self.jac(x)), format="csc")
            return [self.val(x).ravel(), J if kind == "sparse" else J.toarray()]
        return f


def run(ctx, fn, *a, tag="solve", **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with ctx.guard(tag), np.errstate(all="ignore"):
            out = fn(*a, **kw)
    return out, not any("converge" in str(x.message).lower() for x in w)


def natural(x, r, lb, ub):
    return np.maximum(np.minimum(r, x - lb), x - ub)


def newton_(ctx):
    from dolo.numeric.optimize.newton import newton, serial_newton, SerialDifferentiableFunction
    rng = ctx.rng
    for it in range(10):
        N, n = int(rng.integers(1, 12)), int(rng.integers(1, 5))
        S = Sys(rng, N, n)
        x0 = rng.normal(size=(N, n)) * 3
        keep = snapshot(x0)
        tol = 10.0 ** -int(rng.integers(5, 12))
        ctx.case("newton", N, n, tol, S.b, nontrivial=N * n > 1)
        (out, conv) = run(ctx, newton, S, x0, tol=tol, maxit=60)
        x, nit = out
        ctx.ok("form", np.asarray(x).shape == (N, n) and 0 <= nit <= 60, shape=np.shape(x), nit=nit)
        ctx.ok("converged", conv)
        ctx.ok("residual", np.abs(S.val(x)).max() < tol, residual=np.abs(S.val(x)).max(), tol=tol)
        ctx.ok("guess-unmodified", snapshot(x0) == keep)
        # one by one
        for i in rng.permutation(N)[:3]:
            o1, c1 = run(ctx, newton, S.row(i), x0[i:i + 1], tol=tol, maxit=60)
            ctx.close("alone", o1[0][0], x[i], rtol=0, atol=20 * max(tol, 1e-9))
        # the stacked system, sparse and dense
        for kind in ("sparse", "full"):
            o2, c2 = run(ctx, newton, S.flat(kind), x0.ravel(), tol=tol, maxit=60, jactype=kind)
            ctx.ok("converged", c2, kind=kind)
            ctx.ok("form", np.asarray(o2[0]).shape == (N * n,), kind=kind, shape=np.shape(o2[0]))
            ctx.close("stacked", o2[0].reshape(N, n), x, rtol=0, atol=20 * max(tol, 1e-9), kind=kind)
        # numerical jacobian
        if tol > 1e-9:
            o3, c3 = run(ctx, serial_newton, SerialDifferentiableFunction(S.val), x0, tol=tol, maxit=60)
            ctx.ok("converged", c3)
            ctx.ok("residual", np.abs(S.val(o3[0])).max() < tol, kind="numerical")
            v, dv = SerialDifferentiableFunction(S.val)(x0)
            ctx.close("numerical-values", v, S.val(x0), rtol=1e-12)
            ctx.close("numerical-jacobian", dv, S.jac(x0), rtol=1e-4, atol=1e-4)
        # verbose prints, and changes nothing
        o4, c4 = run(ctx, newton, S, x0, tol=tol, maxit=60, verbose=True)
        ctx.ok("verbose-identical", np.array_equal(o4[0], x))
        # started at the solution
        o5, c5 = run(ctx, newton, S, x, tol=tol, maxit=60)
        ctx.ok("fixed-point", c5 and o5[1] == 0 and np.array_equal(o5[0], x))
        ctx.sample(N=N, n=n, tol=tol, residual=np.abs(S.val(x)).max(), iterations=nit)


def box(rng, N, n):
    lb = np.where(rng.random((N, n)) < .5, rng.normal(size=(N, n)), -np.inf)
    ub = np.where(rng.random((N, n)) < .5, np.where(np.isfinite(lb), lb, 0) + rng.uniform(.05, 2, (N, n)), np.inf)
    return lb, ub


def ncp(ctx):
    from dolo.numeric.optimize.ncpsolve import ncpsolve
    from dolo.numeric.optimize.newton import SerialDifferentiableFunction
    rng = ctx.rng
    conv_n = tot = 0
    for it in range(10):
        N, n = int(rng.integers(1, 10)), int(rng.integers(1, 4))
        S = Sys(rng, N, n, nl=it % 3 > 0)
        lb, ub = box(rng, N, n)
        x0 = rng.normal(size=(N, n))
        start = it % 4
        if start == 1:
            x0 = np.clip(x0, lb, ub)
        if start == 2:                      # on the bounds
            x0 = np.where(np.isfinite(lb), lb, np.where(np.isfinite(ub), ub, 0.0))
        if start == 3:                      # a residual which vanishes exactly on a bound
            x0 = np.clip(np.zeros((N, n)), lb, ub)
            S.b[0] += S.val(x0)[0]
        keep = snapshot([x0, lb, ub])
        tol = 10.0 ** -int(rng.integers(6, 10))
        ctx.case("ncp", N, n, tol, S.b, start)
        info = dict(start=start, N=N, n=n, tol=tol)
        (out, conv) = run(ctx, ncpsolve, S, lb, ub, x0, tol=tol, maxit=100)
        x, nit = out
        tot += 1
        conv_n += conv
        ctx.ok("arguments-unmodified", snapshot([x0, lb, ub]) == keep)
        ctx.ok("form", np.shape(x) == (N, n) and 0 <= nit <= 100)
        if conv:
            ctx.ok("bounds", (x >= lb - 3 * tol).all() and (x <= ub + 3 * tol).all(), **info)
            nat = natural(x, S.val(x), lb, ub)
            ctx.ok("residual", np.abs(nat).max() < 5 * tol, residual=np.abs(nat).max(), **info)
            hit = (np.abs(x - lb) < 1e-4) | (np.abs(x - ub) < 1e-4)
            if hit.any():
                ctx.events["binding"] = ctx.events.get("binding", 0) + 1
            for i in rng.permutation(N)[:3]:
                o1, c1 = run(ctx, ncpsolve, S.row(i), lb[i:i + 1], ub[i:i + 1], x0[i:i + 1], tol=tol)
                if c1:
                    ctx.close("alone", o1[0][0], x[i], rtol=0, atol=100 * tol, **info)
            for kind in ("sparse", "full"):
                o2, c2 = run(ctx, ncpsolve, S.flat(kind), lb.ravel(), ub.ravel(), x0.ravel(), tol=tol, jactype=kind)
                tot += 1
                conv_n += c2
                if c2:
                    ctx.close("stacked", np.reshape(o2[0], (N, n)), x, rtol=0, atol=100 * tol, kind=kind, **info)
            if tol > 1e-9:
                o3, c3 = run(ctx, ncpsolve, SerialDifferentiableFunction(S.val), lb, ub, x0, tol=tol)
                if c3:
                    ctx.close("stacked", o3[0], x, rtol=0, atol=100 * tol, kind="numerical", **info)
        # no bounds: a plain root
        o4, c4 = run(ctx, ncpsolve, S, np.full((N, n), -np.inf), np.full((N, n), np.inf), x0, tol=tol)
        tot += 1
        conv_n += c4
        if c4:
            ctx.ok("residual", np.abs(S.val(o4[0])).max() < tol, kind="unbounded", **info)
    ctx.count("problems", tot)
    ctx.count("solved", conv_n)
    ctx.ok("mostly-solved", conv_n >= .9 * tot, solved=conv_n, of=tot)


def smooth_(ctx):
    """The smoothed residual vanishes exactly where the complementarity condition holds; its jacobian is its derivative."""
    from dolo.numeric.optimize.ncpsolve import smooth
    import scipy.sparse as sp
    rng = ctx.rng
    for it in range(20):
        N, n = int(rng.integers(1, 8)), int(rng.integers(1, 4))
        S = Sys(rng, N, n)
        lb, ub = box(rng, N, n)
        x = rng.normal(size=(N, n))
        ctx.case("smooth", N, n, S.b)
        f = lambda z: smooth(z, lb, ub, -S.val(z), -S.jac(z))
        with np.errstate(all="ignore"):
            v, dv = f(x)
            num = np.zeros_like(dv)
            for k in range(n):
                h = np.zeros(n)
                h[k] = 1e-6
                num[:, :, k] = (f(x + h)[0] - f(x - h)[0]) / 2e-6
            ctx.close("jacobian", dv, num, rtol=1e-4, atol=1e-5)
            # explicit formula
            r = -S.val(x)
            da, db = lb - x, ub - x
            p = np.where(np.isfinite(lb), r + np.sqrt(r ** 2 + da ** 2) + da, r)
            want = np.where(np.isfinite(ub), p - np.sqrt(p ** 2 + db ** 2) + db, p)
            ctx.close("smoothed-residual", v, want, rtol=1e-9, atol=1e-12)
            flat = lambda J: smooth(x.ravel(), lb.ravel(), ub.ravel(), -S.val(x).ravel(), J[0], jactype=J[1])
            B = sp.block_diag(list(-S.jac(x)), format="csc")
            vs, ds = flat((B, "sparse"))
            vf, df = flat((B.toarray(), "full"))
        D = sp.block_diag(list(dv)).toarray()
        ctx.close("sparse-form", vs, v.ravel(), rtol=1e-12)
        ctx.close("sparse-form", ds.toarray(), D, rtol=1e-10, atol=1e-13)
        ctx.close("full-form", vf, v.ravel(), rtol=1e-12)
        ctx.close("full-form", df, D, rtol=1e-10, atol=1e-13)
        # zero iff solved: points built to satisfy one of the three cases
        xx = np.clip(x, lb, ub)
        rr = np.where(xx <= lb, np.abs(rng.normal(size=(N, n))), np.where(xx >= ub, -np.abs(rng.normal(size=(N, n))), 0.0))
        with np.errstate(all="ignore"):
            v0 = smooth(xx, lb, ub, -rr, -S.jac(x))[0]
            wrong = np.where(xx <= lb, -np.abs(rr) - .1, np.where(xx >= ub, np.abs(rr) + .1, .3))
            v1 = smooth(xx, lb, ub, -wrong, -S.jac(x))[0]
        ctx.close("zero-at-solutions", v0, np.zeros((N, n)), atol=1e-12)
        ctx.ok("nonzero-elsewhere", (np.abs(v1) > 1e-3).all(), values=v1)


def hard(ctx):
    """Systems that newton may not solve: a non-solution is never returned silently."""
    from dolo.numeric.optimize.newton import newton
    from dolo.numeric.optimize.ncpsolve import ncpsolve
    rng = ctx.rng
    fam = [lambda x, c: (x ** 2 + c, 2 * x), lambda x, c: (np.exp(x) + c, np.exp(x)), lambda x, c: (np.cos(x) + c, -np.sin(x)),
           lambda x, c: (x ** 3 - c * x, 3 * x ** 2 - c), lambda x, c: (np.log(x) + c, 1 / x), lambda x, c: (np.tanh(20 * x) - .5 * c, 20 / np.cosh(20 * x) ** 2),
           lambda x, c: (np.sqrt(np.abs(x)) - c, .5 * np.sign(x) / np.sqrt(np.abs(x)))]
    for it in range(50):
        k = int(rng.integers(len(fam)))
        N = int(rng.integers(1, 5))
        c = rng.uniform(-1, 1.5, (N, 1))
        f = lambda x: [fam[k](x, c)[0], fam[k](x, c)[1][:, :, None]]
        x0 = rng.normal(size=(N, 1)) * 2
        maxit = int(rng.integers(1, 30))
        tol = [1e-6, 1e-8, 1e-4][it % 3]
        bounded = it % 2
        lb, ub = np.full((N, 1), -1.0), np.full((N, 1), 1.5)
        ctx.case("hard", k, N, c, maxit)
        ctx.events["silent-failure"] = ctx.events.get("silent-failure", 0) + 1
        with warnings.catch_warnings(record=True) as w, np.errstate(all="ignore"):
            warnings.simplefilter("always")
            try:
                x, nit = ncpsolve(f, lb, ub, x0, tol=tol, maxit=maxit) if bounded else newton(f, x0, tol=tol, maxit=maxit)
            except Exception:
                ctx.count("raised")
                continue
            said = any("converge" in str(m.message).lower() for m in w)
            v = f(x)[0]
        r = natural(x, v, lb, ub) if bounded else v
        good = np.isfinite(r).all() and np.abs(r).max() < (5 if bounded else 1) * tol
        ctx.count("warned" if said else "claimed_solved")
        if not good and not said:
            ctx.violation("silent-failure", family=k, residual=r, maxit=maxit, tol=tol, bounded=bounded)
        ctx.ok("iterations", nit <= maxit, nit=nit, maxit=maxit)


SCENARIOS = [Scenario("newton", newton_, quick=4, thorough=200), Scenario("ncp", ncp, quick=6, thorough=300),
             Scenario("smooth", smooth_, quick=2, thorough=100), Scenario("hard", hard, quick=4, thorough=200)]
