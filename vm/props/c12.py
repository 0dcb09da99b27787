"""C12 impulse responses: the response to a shock follows the model from the steady state on."""
import numpy as np
from vm.core import Scenario
from vm import models

RULE = ("random linear models with univariate normal, multivariate normal, AR1 or VAR1 shocks and random or perturbed decision rules, "
        "closed-form impulse responses; also responses of the nonlinear examples, re-checked against the equations of the model file")


def linear(ctx):
    from dolo.algos.simulations import response
    from dolo.algos.perturbation import BivariateTaylor, perturb
    from dolo.algos.results import PerturbationResult
    rng = ctx.rng
    kind = ["unormal", "normal", "var", "ar1"][ctx.rep % 4]
    nm = 1 if kind in ("unormal", "ar1") else int(rng.integers(1, 4))
    spec = models.random_linear_spec(rng, ns=int(rng.integers(1, 4)), nx=int(rng.integers(1, 3)), nm=nm)
    ns, nx = len(spec.states), len(spec.controls)
    rho = 0.0
    if kind == "unormal":
        exo, sg = models.exo_unormal(rng)
        sd = np.array([sg])
    elif kind == "normal":
        exo, S = models.exo_iid(rng, nm)
        sd = np.sqrt(np.diag(S))
    elif kind == "var":
        exo, rho, S = models.exo_var(rng, nm)
        sd = np.sqrt(np.diag(S))
    else:
        v = float(np.round(rng.uniform(.001, .01), 6))
        rho = float(np.round(rng.uniform(.1, .9), 4))
        exo, sd = f"exogenous: !AR1\n    rho: {models.num(rho)}\n    sigma: {models.num(v)}", np.array([np.sqrt(v)])
    defs = models.auxiliaries(rng, spec)
    txt, info = models.linear_yaml(spec, exo_text=exo, rng=rng, definitions=defs, width=3.0)
    with ctx.guard("import"):
        model = models.load(txt)
    par = models.params_of(model)
    for it in range(3):
        Cs = rng.normal(size=(nx, ns)) * .3
        Cm = rng.normal(size=(nx, nm)) * .3 if kind in ("var", "ar1") or rng.random() < .5 else None
        dr = BivariateTaylor(spec.m0, spec.s0, spec.x0, Cm, Cs)
        j = int(rng.integers(nm))
        T = int(rng.integers(4, 30))
        default = rng.random() < .5
        size = float(rng.normal())
        kw = {} if default else dict(impulse=size)
        e = np.zeros(nm)
        e[j] = sd[j] if default else size
        obj = PerturbationResult(dr, [], True, True, True) if it == 0 else dr
        ctx.case(kind, j, T, default, spec.A)
        with ctx.guard("response", kind=kind, shock=spec.exo[j]):
            irf = response(model, obj, spec.exo[j], T=T, **kw)
            twice = response(model, dr, spec.exo[j], T=T, impulse=2 * e[j])
            again = response(model, obj, spec.exo[j], T=T, **kw)
        names = spec.exo + spec.states + spec.controls + [k for k, _ in defs]
        ctx.ok("response:dims", tuple(irf.dims) == ("T", "V") and irf.shape == (T, len(names)) and [str(v) for v in irf.coords["V"].values] == names)
        m = np.zeros((T, nm))
        m[1] = e
        for t in range(2, T):
            m[t] = rho * m[t - 1]
        s, x = np.zeros((T, ns)), np.zeros((T, nx))
        s[0] = spec.s0
        for t in range(T):
            x[t] = spec.x0 + Cs @ (s[t] - spec.s0) + (0 if Cm is None else Cm @ (m[t] - spec.m0))
            if t + 1 < T:
                s[t + 1] = models.lin_next(spec, m[t:t + 1], s[t:t + 1], x[t:t + 1], m[t + 1:t + 2])[0]
        a = np.asarray(irf)
        det = dict(kind=kind, shock=j, default=default)
        ctx.close("response:shock", a[:, :nm], m, rtol=1e-8, atol=1e-12, **det)
        ctx.close("response:states", a[:, nm:nm + ns], s, rtol=1e-7, atol=1e-10, **det)
        ctx.close("response:controls", a[:, nm + ns:nm + ns + nx], x, rtol=1e-7, atol=1e-10, **det)
        ctx.close("response:definitions", a[:, nm + ns + nx:], models.eval_aux(defs, spec, m, s, x, par), rtol=1e-7, atol=1e-9, **det)
        b = np.asarray(twice)
        base = a[:1, :nm + ns + nx]
        ctx.close("response:linear", b[:, :nm + ns + nx] - base, 2 * (a[:, :nm + ns + nx] - base), rtol=1e-7, atol=1e-10, **det)
        ctx.ok("response:deterministic", np.array_equal(a, np.asarray(again)))
        ctx.ok("response:starts-at-steady-state", np.allclose(a[0, nm:nm + ns], spec.s0) and np.allclose(a[0, nm + ns:nm + ns + nx], spec.x0))
        ctx.sample(kind=kind, shock=spec.exo[j], impulse=e[j], row1=a[1])
    ctx.raises("response:unknown-shock-rejected", lambda: response(model, dr, "nosuchshock"))


def examples(ctx):
    import os
    from dolo.algos.simulations import response
    from dolo.algos.perturbation import perturb
    name, shock, sd, rho = [("rbc.yaml", "e_z", .01, 0), ("rbc_ar1.yaml", None, None, .8), ("rbc_iid.yaml", None, None, 0)][ctx.rep % 3]
    with ctx.guard("import", model=name):
        model = models.example(name)
    spec = models.read_yaml(os.path.join(models.REPO, "examples", "models", name))
    shock = shock or model.symbols["exogenous"][0]
    with ctx.guard("response", model=name):
        dr = perturb(model)
        irf = response(model, dr, shock, T=20)
        double = response(model, dr, shock, T=20, impulse=2 * float(irf.sel(T=1, V=shock)))
    if sd is None:
        p = model.exogenous
        sd = float(np.sqrt(np.atleast_2d(p.Σ)[0, 0])) if hasattr(p, "Σ") else p.σ
    ctx.case(name)
    sy = model.symbols
    E, S, X, A = sy["exogenous"], sy["states"], sy["controls"], [d[0].split("[")[0].strip() for d in spec["definitions"]]
    ctx.close("example:default-impulse", float(irf.sel(T=1, V=shock)), sd, rtol=1e-9)
    ctx.close("example:persistence", float(irf.sel(T=2, V=shock)), sd * rho, rtol=1e-9, atol=1e-14)
    ctx.close("example:double-shock", float(double.sel(T=1, V=shock)), 2 * sd, rtol=1e-9)
    par = models.params_of(model)
    R = models.Reader(E + S + X + A, spec["definitions"])
    for t in range(19):
        v = {}
        for k in (0, 1):
            for nm_ in E + S + X:
                v[(nm_, k)] = float(irf.sel(T=t + k, V=nm_))
        for eq in spec["equations"]["transition"]:
            lhs, rhs = eq.split("=", 1)
            l, r = R.eval(lhs, v, par, shift=1), R.eval(rhs, v, par, shift=1)
            ctx.ok("example:transition", abs(l - r) <= 1e-9 * (1 + abs(r)), model=name, eq=eq, t=t, lhs=l, rhs=r)
        for a in A:
            ctx.close("example:definitions", float(irf.sel(T=t, V=a)), R.eval(f"{a}[t]", v, par), rtol=1e-9, model=name, var=a)
        m = [v[(k, 0)] for k in E]
        s = [v[(k, 0)] for k in S]
        ctx.close("example:decision-rule", [v[(k, 0)] for k in X], dr.dr(np.array(m), np.array(s)), rtol=1e-9, atol=1e-12, model=name)
    ctx.sample(model=name, shock=shock, row1=np.asarray(irf)[1])


SCENARIOS = [Scenario("linear", linear, 16, 90), Scenario("examples", examples, 3, 3)]
REQUIRED = {"response:states": 40, "example:transition": 30}
