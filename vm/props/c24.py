"""C24 lmmcp: mixed complementarity conditions hold at the returned point, or an error is raised."""
import warnings
import numpy as np
from vm.core import Scenario, snapshot
from vm.props.c23 import Sys, natural

RULE = ("random strongly monotone problems (unique solution) with every kind of bounds, feasible and infeasible starts; classical test "
        "problems; non-monotone, unsolvable and partly undefined problems; every returned point is re-evaluated; non-trivial: some "
        "bound is finite")
REQUIRED = {"complementarity": 80, "no-silent-failure": 40, "case:lower": 5, "case:upper": 5, "case:inside": 5, "nearby": 200}


def call(ctx, fun, jac, x0, lb, ub, **kw):
    from dolo.numeric.extern.lmmcp import lmmcp
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return lmmcp(fun, jac, x0, lb, ub, **kw)


def problem(rng, n, i):
    lb = np.full(n, -np.inf)
    ub = np.full(n, np.inf)
    BIG = [np.inf, 1e20, np.inf][i % 3]
    for j in range(n):
        k = int(rng.integers(4))
        lb[j], ub[j] = -BIG, BIG
        if k in (1, 3):
            lb[j] = rng.normal()
        if k in (2, 3):
            ub[j] = (lb[j] if k == 3 else rng.normal()) + rng.uniform(.05, 2)
    return lb, ub


def monotone(ctx):
    rng = ctx.rng
    solved = 0
    total = 25
    for it in range(total):
        n = int(rng.integers(1, 7)) if it else int(rng.integers(95, 108))
        S = Sys(rng, 1, n, nl=it % 3 > 0)
        if n > 20:
            S.W[0] += n * .1 * np.eye(n)
        # the origin is anywhere: bounds are not small numbers
        org = np.zeros(n)
        if it % 4 == 3:
            org = np.round(rng.normal(size=n) * 10.0 ** rng.uniform(1, 6, n), 3)
        fun = lambda x: S.val((x - org)[None])[0]
        jac = lambda x: S.jac((x - org)[None])[0]
        lb, ub = problem(rng, n, it)
        lb, ub = (np.where(np.abs(v) < 1e9, v + org, v) for v in (lb, ub))
        x0 = rng.normal(size=n) * [1, 5, 0][it % 3] + org
        if it % 5 == 1:
            x0 = np.where(np.abs(lb) < 1e9, lb, x0)
        if it % 7 == 2:       # degenerate: zero on a bound
            x0 = np.clip(x0, lb, ub)
            S.b[0] += fun(x0)
        keep = snapshot([x0, lb, ub])
        kw = {}
        if rng.random() < .4:
            kw["options"] = [dict(preprocess=False), dict(presteps=3), dict(eps1=1e-12)][int(rng.integers(3))]
        kw["verbose"] = bool(rng.random() < .3)
        ctx.case("monotone", n, S.b, lb, ub, nontrivial=(np.abs(lb) < 1e9).any() or (np.abs(ub) < 1e9).any())
        info = dict(n=n, start=x0, options=kw.get("options"))
        ctx.events["no-silent-failure"] = ctx.events.get("no-silent-failure", 0) + 1
        try:
            x = call(ctx, fun, jac, x0, lb, ub, **kw)
        except Exception as e:
            if "convergence" not in str(e).lower():
                ctx.violation("raised", error=repr(e)[:300], **info)
            ctx.count("reported_failure")
            continue
        solved += 1
        ctx.ok("form", np.shape(x) == (n,))
        ctx.ok("bounds", (x >= lb - 1e-5).all() and (x <= ub + 1e-5).all(), x=x, lb=lb, ub=ub, **info)
        r = natural(x, fun(x), lb, ub)
        ctx.ok("complementarity", np.abs(r).max() < 3e-5, residual=r, **info)
        ctx.ok("arguments-unmodified", snapshot([x0, lb, ub]) == keep)
        for name, c in (("lower", np.abs(x - lb) < 1e-6), ("upper", np.abs(x - ub) < 1e-6)):
            if c.any():
                ctx.events["case:" + name] = ctx.events.get("case:" + name, 0) + 1
        if ((x > lb + 1e-4) & (x < ub - 1e-4)).any():
            ctx.events["case:inside"] = ctx.events.get("case:inside", 0) + 1
        ctx.sample(n=n, lb=lb, ub=ub, x=x, f=fun(x))
        # the solution is unique: another start gives the same point
        if n < 20:
            try:
                y = call(ctx, fun, jac, np.clip(rng.normal(size=n) + org, lb, ub), lb, ub, verbose=False)
                ctx.close("unique", y, x, rtol=0, atol=1e-4)
            except Exception:
                ctx.count("reported_failure")
    ctx.ok("mostly-solved", solved >= .8 * total, solved=solved, of=total)


def nearby(ctx):
    """From a point close to the solution of a strongly monotone problem, Newton steps lead to it at once, and it is also found from afar."""
    rng = ctx.rng
    lost, counts = 0, []
    total = 40
    for it in range(total):
        n = int(rng.integers(1, 7))
        S = Sys(rng, 1, n, nl=it % 3 > 0)
        fun = lambda x: S.val(x[None])[0]
        lb, ub = problem(rng, n, it)
        ctx.case("nearby", n, S.b, lb, ub, nontrivial=(np.abs(lb) < 1e9).any() or (np.abs(ub) < 1e9).any())
        try:
            x = call(ctx, fun, lambda x: S.jac(x[None])[0], rng.normal(size=n), lb, ub, verbose=False)
        except Exception:
            lost += 1
            continue
        k = [0]

        def jac(z):
            k[0] += 1
            return S.jac(z[None])[0]
        x0 = x + rng.normal(size=n) * 10.0 ** -rng.integers(3, 6)
        with ctx.guard("nearby", n=n, start=x0):
            y = call(ctx, fun, jac, x0, lb, ub, verbose=False, options=dict(preprocess=bool(rng.integers(2))))
        ctx.close("nearby", y, x, rtol=0, atol=1e-4)
        ctx.ok("nearby", k[0] <= 10, evaluations=k[0], n=n, lb=lb, ub=ub, start=x0)
        counts.append(k[0])
    ctx.ok("finds", lost <= .05 * total, lost=lost, of=total)
    ctx.ok("fast", np.mean(counts) <= 4, mean=np.mean(counts), counts=counts)


def josephy(x):
    return np.array([3 * x[0] ** 2 + 2 * x[0] * x[1] + 2 * x[1] ** 2 + x[2] + 3 * x[3] - 6,
                     2 * x[0] ** 2 + x[0] + x[1] ** 2 + 3 * x[2] + 2 * x[3] - 2,
                     3 * x[0] ** 2 + x[0] * x[1] + 2 * x[1] ** 2 + 2 * x[2] + 3 * x[3] - 1,
                     x[0] ** 2 + 3 * x[1] ** 2 + 2 * x[2] + 3 * x[3] - 3])


def numjac(f, h=1e-6):
    return lambda x: np.stack([(f(x + h * e) - f(x - h * e)) / (2 * h) for e in np.eye(len(x))], axis=1)


def classical(ctx):
    """Known problems, from many starts."""
    rng = ctx.rng
    quad = lambda Q, q: (lambda x: Q @ x + q)
    for it in range(12):
        k = it % 3
        if k == 0:
            f, n, lb, ub = josephy, 4, np.zeros(4), np.full(4, np.inf)
        elif k == 1:      # bimatrix-like LCP
            n = 3
            Q = np.array([[0, 2, 1.], [2, 1, 3], [1, 3, 4]]) + np.eye(3) * 2
            f, lb, ub = quad(Q, rng.normal(size=3) * 2), np.zeros(3), np.full(3, np.inf)
        else:             # first-order conditions of a box-constrained concave problem
            n = 2
            a = rng.normal(size=2)
            f = lambda x: np.array([np.exp(x[0]) - 1 + .3 * x[1] - a[0], np.exp(.5 * x[1]) - 1 + .3 * x[0] - a[1]])
            lb, ub = np.full(2, -.5), np.full(2, .5)
        x0 = np.clip(rng.uniform(-1, 3, n), lb, ub) if it % 2 else rng.uniform(-1, 3, n)
        ctx.case("classical", k, x0)
        ctx.events["no-silent-failure"] = ctx.events.get("no-silent-failure", 0) + 1
        try:
            x = call(ctx, f, numjac(f), x0, lb, ub, verbose=False)
        except Exception:
            ctx.count("reported_failure")
            continue
        r = natural(x, f(x), lb, ub)
        ctx.ok("complementarity", np.abs(r).max() < 3e-5, residual=r, problem=k, start=x0)


def hard(ctx):
    """Problems without solution or with an undefined function: nothing but an error may come back."""
    rng = ctx.rng
    fam = [lambda x: x ** 2 + .5, lambda x: np.exp(x) + .1, lambda x: np.log(x) + 1, lambda x: np.cos(x) + 1.5, lambda x: np.sqrt(x) + 2 - x * 0,
           lambda x: 1 / x, lambda x: np.cos(3 * x) - .2 + .1 * x, lambda x: x ** 3 - 2 * x + .3]
    for it in range(20):
        k = int(rng.integers(len(fam)))
        n = int(rng.integers(1, 4))
        g = fam[k]
        f = lambda x: g(x) + .1 * np.roll(x, 1)
        x0 = rng.normal(size=n)
        bounded = rng.random() < .5
        lb = np.full(n, -2.0) if bounded else np.full(n, -np.inf)
        ub = np.full(n, 3.0) if rng.random() < .5 else np.full(n, np.inf)
        ctx.case("hard", k, n, x0, bounded)
        ctx.events["no-silent-failure"] = ctx.events.get("no-silent-failure", 0) + 1
        try:
            x = call(ctx, f, numjac(f), x0, lb, ub, verbose=False)
        except Exception:
            ctx.count("reported_failure")
            continue
        ctx.count("answered")
        with np.errstate(all="ignore"):
            r = natural(x, f(x), lb, ub)
        if not (np.isfinite(r).all() and np.abs(r).max() < 3e-5):
            ctx.violation("no-silent-failure", family=k, x=x, residual=r, lb=lb, ub=ub, start=x0)


SCENARIOS = [Scenario("nearby", nearby, quick=4, thorough=80), Scenario("monotone", monotone, quick=6, thorough=200), Scenario("classical", classical, quick=2, thorough=60),
             Scenario("hard", hard, quick=3, thorough=100)]
