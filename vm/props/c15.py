"""C15 residuals are those of the written equations; the steady state is a root of them, or failure is reported."""
import re
import os
import numpy as np
from vm.core import Scenario, snapshot
from vm import models

RULE = ("random linear models with perturbed calibrations (root known by linear algebra), random nonlinear models with known steady "
        "states, the example models with perturbed parameters, and models without a steady state; residuals re-evaluated by an "
        "independent reader of the model file; non-trivial: the point is not the steady state")
REQUIRED = {"residual": 40, "root": 20, "no-root": 2}


def reader_residuals(Y, m, s, x, par):
    """transition and arbitrage residuals at a stationary point, from the text of the equations"""
    sym = Y["symbols"]
    defs = Y["definitions"]
    R = models.Reader(sym["states"] + sym["controls"] + sym["exogenous"] + [re.match(r"\s*(\w+)", k).group(1) for k, _ in defs], defs)
    v = {}
    for names, row in ((sym["exogenous"], m), (sym["states"], s), (sym["controls"], x)):
        for k, r in zip(names, row):
            for d in (-1, 0, 1):
                v[(k, d)] = float(r)
    tr, ar = [], []
    for e in Y["equations"]["transition"]:
        lhs, rhs = e.split("=", 1)
        tr.append(R.eval(rhs, v, par) - R.eval(lhs, v, par))
    for e in Y["equations"]["arbitrage"]:
        e = re.split(r"[⟂|]", e)[0]
        if "=" in e:
            lhs, rhs = e.split("=", 1)
            ar.append(R.eval(rhs, v, par) - R.eval(lhs, v, par))
        else:
            ar.append(R.eval(e, v, par))
    return np.array(tr), np.array(ar)


def check_residuals(ctx, model, Y, calib=None, **kw):
    c = model.calibration if calib is None else calib
    par = models.params_of(model)
    if calib is not None:
        par = dict(zip(model.symbols["parameters"], np.asarray(c["parameters"], float)))
    want = reader_residuals(Y, c["exogenous"], c["states"], c["controls"], par)
    with ctx.guard("residuals", **kw):
        if calib is None:
            got = model.residuals()
        else:
            got = model.residuals(calib)
    ctx.close("residual", np.asarray(got["transition"], float), want[0], rtol=1e-9, atol=1e-9, block="transition", **kw)
    ctx.close("residual", np.asarray(got["arbitrage"], float), want[1], rtol=1e-9, atol=1e-9, block="arbitrage", **kw)
    return want


def check_root(ctx, model, Y, m=None, want=None, must=True, tol=1e-6, **kw):
    from dolo.algos.steady_state import find_steady_state
    before = snapshot({k: model.calibration[k] for k in ("states", "controls", "exogenous", "parameters")})
    keep = snapshot(m)
    try:
        with ctx.guard("find") if must else _null():
            ss = find_steady_state(model) if m is None else find_steady_state(model, m=m)
    except Exception as e:
        if must:
            raise
        ctx.count("reported_failure")
        return None
    mm = np.asarray(model.calibration["exogenous"] if m is None else m, float)
    par = models.params_of(model)
    ctx.close("exogenous-kept", np.asarray(ss["exogenous"], float), mm, rtol=0, atol=0)
    ctx.close("parameters-kept", np.asarray(ss["parameters"], float), model.calibration["parameters"], rtol=0, atol=0)
    tr, ar = reader_residuals(Y, mm, ss["states"], ss["controls"], par)
    r = np.abs(np.concatenate([tr, ar])).max()
    ctx.ok("root", r < tol, residual=r, **kw)
    for k in model.symbols["states"]:
        ctx.ok("by-name", ss[k] == ss["states"][model.symbols["states"].index(k)])
    for k in model.symbols["controls"]:
        ctx.ok("by-name", ss[k] == ss["controls"][model.symbols["controls"].index(k)])
    if want is not None:
        ctx.close("unique-root", np.concatenate([ss["states"], ss["controls"]]), want, rtol=1e-5, atol=1e-6, **kw)
    ctx.ok("model-unmodified", snapshot({k: model.calibration[k] for k in ("states", "controls", "exogenous", "parameters")}) == before
           and snapshot(m) == keep)
    return ss


class _null:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        return False


def linear_ss(spec, par, m):
    """s = s_ss + A(s-s_ss) + ...;  stationary solution for exogenous m"""
    S, X, M = spec.states, spec.controls, spec.exo
    s0 = np.array([par[k + "_ss"] for k in S])
    x0 = np.array([par[k + "_ss"] for k in X])
    m0 = np.array([par[k + "_ss"] for k in M])
    ns, nx = len(S), len(X)
    dm = m - m0
    L = np.block([[np.eye(ns) - spec.A, -spec.B], [-(spec.F + spec.Q), np.eye(nx) - spec.P]])
    r = np.concatenate([(spec.C + spec.D) @ dm, (spec.G + spec.R) @ dm])
    if np.linalg.cond(L) > 1e4:
        return None
    d = np.linalg.solve(L, r)
    return np.concatenate([s0 + d[:ns], x0 + d[ns:]])


def linear(ctx):
    rng = ctx.rng
    spec = models.random_linear_spec(rng)
    txt, info = models.linear_yaml(spec, rng=rng, definitions=None, style=["new", "old"][ctx.rep % 2])
    with ctx.guard("import"):
        model = models.load(txt)
    Y = models.read_yaml(txt, is_text=True)
    ctx.case("lin", spec.s0, spec.x0)
    check_residuals(ctx, model, Y)
    ctx.close("residual-zero-at-ss", np.concatenate([model.residuals()[k] for k in ("transition", "arbitrage")]), np.zeros(len(spec.states) + len(spec.controls)), atol=1e-9)
    for it in range(4):
        # values of states/controls no longer at the steady state
        names = spec.states + spec.controls
        ch = {k: float(np.round(rng.normal(), 4)) for k in names if rng.random() < .6}
        with ctx.guard("set_calibration"):
            model.set_calibration(**ch)
        want = check_residuals(ctx, model, Y, changed=sorted(ch))
        ctx.case("off", spec.s0, it)
        ctx.sample(states=spec.states, controls=spec.controls, residuals=want)
        m = None if it % 2 else rng.normal(size=len(spec.exo)) * .5
        mm = np.array([model.calibration[k] for k in spec.exo]) if m is None else m
        sol = linear_ss(spec, models.params_of(model), mm)
        if sol is not None:
            check_root(ctx, model, Y, m=m, want=sol, kind="linear")
        # explicit calibration, group by group
        c = dict(exogenous=rng.normal(size=len(spec.exo)), states=rng.normal(size=len(spec.states)),
                 controls=rng.normal(size=len(spec.controls)), parameters=model.calibration["parameters"] + rng.normal(size=len(model.symbols["parameters"])) * .1)
        keep = snapshot(c)
        check_residuals(ctx, model, Y, calib=c, explicit=True)
        ctx.ok("arguments-unmodified", snapshot(c) == keep)


NL = """name: nl
symbols:
    exogenous: [{e}]
    states: [{k}]
    controls: [{c}]
    parameters: [alpha, delta, beta, gam, zz]
definitions: |
    yy[t] = zz*exp({e}[t])*{k}[t]^alpha
equations:
    transition: |
        {k}[t] = (1-delta)*{k}[t-1] + yy[t-1] - {c}[t-1] + 0.1*{e}[t]
    arbitrage: |
        1 - beta*({c}[t]/{c}[t+1])^gam*(1-delta + alpha*yy[t+1]/{k}[t+1]) ⟂ -inf <= {c}[t] <= inf
calibration:
    alpha: {alpha}
    delta: {delta}
    beta: {beta}
    gam: {gam}
    zz: {zz}
    {e}: 0.0
    {k}: ((1/beta-1+delta)/(alpha*zz))^(1/(alpha-1))*{kf}
    yy: zz*{k}^alpha
    {c}: (yy - delta*{k})*{cf}
exogenous: !UNormal
    sigma: 0.01
"""


def nonlinear(ctx):
    rng = ctx.rng
    for it in range(3):
        u = lambda a, b: float(np.round(rng.uniform(a, b), 4))
        e, k, c = [["eps", "kap", "con"], ["z", "a", "b"], ["a", "z", "m"]][int(rng.integers(3))]
        v = dict(e=e, k=k, c=c, alpha=u(.2, .5), delta=u(.02, .2), beta=u(.92, .99), gam=u(.5, 3), zz=u(.5, 2), kf=u(.85, 1.15), cf=u(.9, 1.1))
        txt = NL.format(**v)
        with ctx.guard("import"):
            model = models.load(txt)
        Y = models.read_yaml(txt, is_text=True)
        check_residuals(ctx, model, Y)
        ctx.case(v)
        m = None if it == 0 else np.array([u(-.1, .1)])
        m0 = 0.0 if m is None else m[0]
        kk = ((1 / v["beta"] - 1 + v["delta"]) / (v["alpha"] * v["zz"] * np.exp(m0))) ** (1 / (v["alpha"] - 1))
        cc = v["zz"] * np.exp(m0) * kk ** v["alpha"] - v["delta"] * kk + .1 * m0
        ss = check_root(ctx, model, Y, m=m, must=False, kind="nonlinear")
        if ss is not None:
            ctx.close("closed-form", [ss[k], ss[c]], [kk, cc], rtol=1e-5)
            ctx.count("found")
        if it == 2:
            model.set_calibration(alpha=v["alpha"] + .02)
            check_residuals(ctx, model, Y)


NOROOT = """name: nr
symbols:
    exogenous: [e]
    states: [s]
    controls: [x]
    parameters: [r, q]
equations:
    transition: |
        s[t] = r*s[t-1] + {a} + e[t]
    arbitrage: |
        {f}
calibration:
    r: {r}
    q: {q}
    e: 0.0
    s: {s}
    x: {x}
exogenous: !UNormal
    sigma: 0.01
"""


def failure(ctx):
    """Models without a steady state: an answer would be wrong."""
    from dolo.algos.steady_state import find_steady_state
    rng = ctx.rng
    u = lambda a, b: float(np.round(rng.uniform(a, b), 3))
    forms = ["x[t]^2 + 1 + q*(s[t]-s[t+1])", "exp(x[t]) + q^2 + 0.05", "cos(x[t]) + 2 + s[t]*s[t]"]
    txts = [NOROOT.format(f=f, r=.5, q=u(.1, 1), s=u(-1, 1), x=u(.1, 1), a=.1) for f in forms]
    txts.append(NOROOT.format(f="x[t] - q*s[t]", r=1.0, q=.5, s=.3, x=u(-1, 1), a=u(.1, 1)))      # s grows for ever
    txts.append(NOROOT.format(f="log(x[t]) - 1", r=.5, q=.5, s=.3, x=-1.0, a=.1))                 # undefined at the start
    for i, txt in enumerate(txts):
        with ctx.guard("import"):
            model = models.load(txt)
        ctx.case("noroot", i, txt)
        ctx.events["no-root"] = ctx.events.get("no-root", 0) + 1
        try:
            ss = find_steady_state(model)
        except Exception:
            continue
        r = np.concatenate([np.atleast_1d(v) for v in model.residuals(ss).values()])
        if np.isfinite(r).all() and np.abs(r).max() < 1e-6:
            continue       # a point that is a root to numerical accuracy
        ctx.violation("no-root", why="a point which is not a steady state was returned", residual=r, model=i)


def examples(ctx):
    names = ["rbc.yaml", "rbc_iid.yaml", "rbc_mc.yaml", "rbc_ar1.yaml", "rmt3_ch11.yaml", "consumption_savings_iid.yaml"]
    nm = names[ctx.rep % len(names)]
    rng = ctx.rng
    path = os.path.join(models.REPO, "examples", "models", nm)
    with ctx.guard("import", name=nm):
        model = models.example(nm)
    Y = models.read_yaml(path)
    check_residuals(ctx, model, Y, name=nm)
    check_root(ctx, model, Y, must=(not nm.startswith("cons") and ctx.rep < len(names)), name=nm)
    ctx.case(nm)
    for it in range(3):
        par = models.params_of(model)
        ch = {}
        for k in par:
            if k in ("alpha", "delta", "sigma", "eta", "gamma", "A") and rng.random() < .7:
                ch[k] = float(np.round(par[k] * rng.uniform(.95, 1.05), 5))
        model.set_calibration(**ch)
        check_residuals(ctx, model, Y, name=nm, changed=sorted(ch))
        check_root(ctx, model, Y, must=False, name=nm, changed=sorted(ch))
        c = {g: np.array(model.calibration[g]) * (1 + rng.uniform(-.03, .03, len(model.calibration[g]))) for g in ("exogenous", "states", "controls", "parameters")}
        check_residuals(ctx, model, Y, calib=c, name=nm)
        ctx.case(nm, it, ch)


SCENARIOS = [Scenario("linear", linear, quick=8, thorough=80), Scenario("nonlinear", nonlinear, quick=4, thorough=40),
             Scenario("failure", failure, quick=2, thorough=10), Scenario("examples", examples, quick=6, thorough=24)]
