"""C06 symbolic and Taylor decision rules evaluate to the formula they stand for."""
import numpy as np
from vm.core import Scenario
from vm import models

RULE = ("random Taylor coefficients of order 1-3, random one-variable/two-variable first order rules, random symbolic rules "
        "(with auxiliary definitions in any order) on models with shuffled symbol names; non-trivial: two or more arguments")


def taylor(ctx):
    from dolo.numeric.taylor_expansion import TaylorExpansion, CDR
    rng = ctx.rng
    for _ in range(20):
        ns, nx = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        order = int(rng.integers(1, 4))
        s0, x0 = rng.normal(size=ns), rng.normal(size=nx)
        coefs = [rng.normal(size=(nx,) + (ns,) * k) for k in range(1, order + 1)]
        ctx.case("taylor", ns, nx, order, s0, nontrivial=ns > 1)
        with ctx.guard("taylor", order=order):
            dr = TaylorExpansion(s0, x0, *coefs) if rng.random() < .5 else TaylorExpansion([s0, x0, *coefs])
        pts = rng.normal(size=(int(rng.integers(1, 6)), ns)) * 2
        ds = pts - s0
        ref = np.repeat(x0[None], len(pts), axis=0)
        ref = ref + np.einsum("xi,ni->nx", coefs[0], ds)
        if order >= 2:
            ref = ref + np.einsum("xij,ni,nj->nx", coefs[1], ds, ds) / 2
        if order >= 3:
            ref = ref + np.einsum("xijk,ni,nj,nk->nx", coefs[2], ds, ds, ds) / 6
        t = dict(rtol=1e-10, atol=1e-10)
        with ctx.guard("taylor-eval", order=order):
            ctx.close("taylor:batch", dr(pts), ref, **t, order=order)
            ctx.close("taylor:eval_s", dr.eval_s(pts), ref, **t, order=order)
            ctx.close("taylor:point", np.array([dr(p) for p in pts]), ref, **t, order=order)
            ctx.close("taylor:ms", dr.eval_ms(rng.normal(size=(len(pts), 1)), pts), ref, **t, order=order)
            ctx.close("taylor:steady", dr(s0), x0, **t)
        ind = rng.permutation(nx)[: int(rng.integers(1, nx + 1))].tolist()
        with ctx.guard("taylor-select"):
            sub = dr[ind]
            ctx.close("taylor:selection", sub(pts), ref[:, ind], **t, order=order, ind=ind)
        ctx.ok("taylor:order", dr.order == order)
        ctx.sample(order=order, s0=s0, point=pts[0], value=ref[0])


def bivariate(ctx):
    from dolo.algos.perturbation import BivariateTaylor
    rng = ctx.rng
    for _ in range(20):
        nm, ns, nx = (int(rng.integers(1, 4)) for _ in range(3))
        m0, s0, x0 = rng.normal(size=nm), rng.normal(size=ns), rng.normal(size=nx)
        Cs = rng.normal(size=(nx, ns))
        Cm = rng.normal(size=(nx, nm)) if rng.random() < .6 else None
        dr = BivariateTaylor(m0, s0, x0, Cm, Cs)
        N = int(rng.integers(2, 6))
        m, s = rng.normal(size=(N, nm)), rng.normal(size=(N, ns))
        ref = x0 + (s - s0) @ Cs.T + (0 if Cm is None else (m - m0) @ Cm.T)
        ctx.case("bivariate", nm, ns, nx, Cm is None, s0)
        t = dict(rtol=1e-11, atol=1e-11)
        with ctx.guard("bivariate-eval", iid=Cm is None):
            ctx.close("bivariate:batch", dr(m, s), ref, **t)
            ctx.close("bivariate:eval_ms", dr.eval_ms(m, s), ref, **t)
            ctx.close("bivariate:point", np.array([dr(a, b) for a, b in zip(m, s)]), ref, **t)
            ctx.close("bivariate:point-eval_ms", dr.eval_ms(m[0], s[0]), ref[0], **t)
            ctx.close("bivariate:one-m", dr(m[0], s), x0 + (s - s0) @ Cs.T + (0 if Cm is None else (m[0] - m0) @ Cm.T), **t)
            if Cm is not None:
                ctx.close("bivariate:one-s", dr(m, s[0]), x0 + (s[0] - s0) @ Cs.T + (m - m0) @ Cm.T, **t)
            else:
                ctx.close("bivariate:states-only", dr(s), ref, **t)
                ctx.close("bivariate:states-only", dr.eval_s(s[0]), ref[0], **t)
                ctx.close("bivariate:states-only", dr(s[1]), ref[1], **t)


OPS = ["{a} + {b}", "{a} - {b}", "{a}*{b}", "exp(-({a})^2) + {b}", "{a}/(2 + ({b})^2)", "sin({a})*{b}"]


def rexpr(rng, atoms, depth=2):
    if depth == 0:
        return atoms[int(rng.integers(len(atoms)))] if rng.random() < .85 else models.num(round(rng.uniform(.1, 2), 3))
    a, b = rexpr(rng, atoms, depth - 1), rexpr(rng, atoms, depth - 1)
    return "(" + OPS[int(rng.integers(len(OPS)))].format(a=a, b=b) + ")"


def custom(ctx):
    from dolo.numeric.decision_rule import CustomDR
    rng = ctx.rng
    spec = models.random_linear_spec(rng, ns=int(rng.integers(1, 4)), nx=int(rng.integers(1, 4)), nm=int(rng.integers(1, 3)))
    txt, info = models.linear_yaml(spec, rng=rng)
    model = models.load(txt)
    p = {k: float(model.calibration[k]) for k in model.symbols["parameters"]}
    for it in range(2):
        atoms = spec.states + spec.exo
        par = list(p)
        npre = int(rng.integers(0, 3))
        pre = {}
        avail = atoms + par
        for k in range(npre):
            nm = f"aux{k}"
            pre[nm] = rexpr(rng, avail, 1)
            avail = avail + [nm, nm]
        ctl = {c: rexpr(rng, avail, 2) for c in spec.controls}
        items = list(pre.items()) + list(ctl.items())
        if rng.random() < .7:      # neither the order of the controls nor of the definitions matters
            items = [items[i] for i in rng.permutation(len(items))]
        values = dict(items)
        ctx.case("custom", values)
        with ctx.guard("custom", values=values):
            dr = CustomDR(dict(values), model)
        R = models.Reader(spec.states + spec.exo, [(k + "[t]", v) for k, v in pre.items()])
        N = int(rng.integers(2, 6))
        m, s = rng.normal(size=(N, len(spec.exo))), rng.normal(size=(N, len(spec.states)))
        ref = np.empty((N, len(spec.controls)))
        for n in range(N):
            v = {(k, 0): m[n, i] for i, k in enumerate(spec.exo)}
            v.update({(k, 0): s[n, i] for i, k in enumerate(spec.states)})
            ref[n] = [R.eval(ctl[c], v, p) for c in spec.controls]
        t = dict(rtol=1e-9, atol=1e-9, values=values)
        with ctx.guard("custom-eval", values=values):
            ctx.close("custom:batch", dr(m, s), ref, **t)
            ctx.close("custom:eval_ms", dr.eval_ms(m, s), ref, **t)
            ctx.close("custom:one-m-many-s", dr(m[0], s)[0], ref[0], **t)
            ctx.ok("custom:one-m-shape", dr(m[0], s).shape == ref.shape and dr(m, s[0]).shape == ref.shape)
            ctx.close("custom:point", np.array([dr(a, b) for a, b in zip(m, s)]), ref, **t)
        ctx.sample(values=values, m=m[0], s=s[0], controls=ref[0])


SCENARIOS = [Scenario("taylor", taylor, 3, 30), Scenario("bivariate", bivariate, 3, 30),
             Scenario("custom", custom, 16, 80)]
REQUIRED = {"taylor:batch": 40, "bivariate:batch": 40, "custom:batch": 20}
