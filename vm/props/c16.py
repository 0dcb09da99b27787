"""C16 perfect-foresight paths satisfy the equations of the model at every date."""
import os
import re
import warnings
import numpy as np
from vm.core import Scenario, snapshot
from vm import models
from vm.props.c15 import linear_ss, NL

RULE = ("random linear models (with and without bounds, definitions) under random paths of shocks in every accepted form, initial states and "
        "horizons, and nonlinear models; every returned path is re-checked date by date against the equations read from the model file, "
        "and against the stacked linear system when it is linear; non-trivial: shocks or initial state off the steady state")
REQUIRED = {"transition": 75, "arbitrage": 75, "initial-state": 30, "stacked-solution": 8, "forms": 8, "complementarity-bites": 2}


def solve(ctx, model, tag="solve", expect=True, **kw):
    """-> (frame, converged?)"""
    from dolo.algos.perfect_foresight import deterministic_solve
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with ctx.guard(tag, kw=sorted(kw)):
            df = deterministic_solve(model, verbose=False, **kw)
    conv = not any("converge" in str(x.message).lower() for x in w)
    return df, conv


def natural(x, r, lb, ub):
    """zero iff the complementarity condition holds"""
    return np.maximum(np.minimum(r, x - lb), x - ub)


def stacked(spec, par, eps, s0):
    """The linear stacked system, solved at once (no bounds)."""
    T = len(eps) - 1
    ns, nx = len(spec.states), len(spec.controls)
    sb = np.array([par[k + "_ss"] for k in spec.states])
    xb = np.array([par[k + "_ss"] for k in spec.controls])
    mb = np.array([par[k + "_ss"] for k in spec.exo])
    n = ns + nx
    L = np.zeros(((T + 1) * n, (T + 1) * n))
    r = np.zeros((T + 1) * n)
    e = eps - mb
    for t in range(T + 1):
        i = t * n
        S_, X_ = slice(i, i + ns), slice(i + ns, i + n)
        L[S_, S_] = np.eye(ns)
        if t == 0:
            r[S_] = s0 - sb
        else:
            P_, Q_ = slice(i - n, i - n + ns), slice(i - nx, i)
            L[S_, P_] = -spec.A
            L[S_, Q_] = -spec.B
            r[S_] = spec.C @ e[t - 1] + spec.D @ e[t]
        L[X_, X_] = np.eye(nx)
        if t == T:
            L[X_, slice(i - nx, i)] = -np.eye(nx)
        else:
            L[X_, S_] = -spec.F
            L[X_, slice(i + n, i + n + ns)] = -spec.Q
            L[X_, slice(i + n + ns, i + 2 * n)] = -spec.P
            r[X_] = spec.G @ e[t] + spec.R @ e[t + 1]
    sol = np.linalg.solve(L, r).reshape(T + 1, n)
    return sol + np.concatenate([sb, xb])


def check_path(ctx, df, names, eps, s0, trans, resid, lb, ub, auxs, first=0, tol=2e-5, **kw):
    """names = (states, controls, aux, exo); trans(m,s,x,M), resid(m,s,x,M,S,X) work on rows."""
    S, X, A, M = names
    T = len(eps) - 1
    ctx.ok("columns", list(df.columns) == S + X + A + M, got=list(df.columns))
    ctx.ok("index", list(df.index) == list(range(first, T + 1)), got=[int(i) for i in df.index[:3]], n=len(df), T=T)
    d = df.loc[0:]
    m, s, x, a = (np.asarray(d[k], float).reshape(T + 1, len(k)) for k in (M, S, X, A))
    ctx.close("exogenous-kept", m, eps, rtol=1e-12, atol=1e-14, **kw)
    if s0 is not None:
        ctx.close("initial-state", s[0], s0, rtol=1e-6, atol=1e-7, **kw)
    g = trans(m[:-1], s[:-1], x[:-1], m[1:])
    sc = 1 + np.abs(s[1:]).max()
    ctx.ok("transition", np.abs(g - s[1:]).max() < tol * sc, err=np.abs(g - s[1:]).max(), where=int(np.abs(g - s[1:]).max(axis=1).argmax()), **kw)
    f = resid(m[:-1], s[:-1], x[:-1], m[1:], s[1:], x[1:])
    nat = natural(x[:-1], f, lb, ub)
    ctx.ok("arbitrage", np.abs(nat).max() < tol, err=np.abs(nat).max(), where=int(np.abs(nat).max(axis=1).argmax()), **kw)
    ctx.ok("terminal", np.abs(x[-1] - x[-2]).max() < tol * (1 + np.abs(x[-1]).max()), err=np.abs(x[-1] - x[-2]).max(), **kw)
    if A:
        ctx.close("definitions", a, auxs(m, s, x), rtol=1e-8, atol=1e-9, **kw)
    if np.isfinite(lb).any() or np.isfinite(ub).any():
        hit = (x[:-1] < lb + 1e-4) | (x[:-1] > ub - 1e-4)
        if hit.any() and not hit.all():
            ctx.events["complementarity-bites"] = ctx.events.get("complementarity-bites", 0) + 1
    return m, s, x


def linear(ctx):
    import pandas as pd
    rng = ctx.rng
    nm = int(rng.integers(1, 4))
    spec = models.random_linear_spec(rng, nm=nm)
    ns, nx = len(spec.states), len(spec.controls)
    bounded = ctx.rep % 2 == 1
    bounds = None
    lb, ub = np.full(nx, -np.inf), np.full(nx, np.inf)
    if bounded:
        bounds = []
        for i, v in enumerate(spec.controls):
            lo, hi = "-inf", "inf"
            k = int(rng.integers(4))
            if k in (0, 2):
                w = float(np.round(rng.uniform(.02, .2), 3))
                lo, lb[i] = f"{v}_ss - {w}", spec.x0[i] - w
            if k in (1, 2):
                w = float(np.round(rng.uniform(.02, .2), 3))
                hi, ub[i] = f"{v}_ss + {w}", spec.x0[i] + w
            bounds.append((lo, hi))
    defs = models.auxiliaries(rng, spec)
    txt, info = models.linear_yaml(spec, rng=rng, definitions=defs, bounds=bounds, style=["new", "old"][int(rng.integers(2))])
    with ctx.guard("import"):
        model = models.load(txt)
    par = models.params_of(model)
    A = [k for k, _ in defs]
    names = (spec.states, spec.controls, A, spec.exo)
    trans = lambda m, s, x, M: models.lin_next(spec, m, s, x, M)
    resid = lambda m, s, x, M, S, X: models.lin_residual(spec, m, s, x, M, S, X)
    auxs = lambda m, s, x: models.eval_aux(defs, spec, m, s, x, par)
    keep = snapshot({k: model.calibration[k] for k in ("states", "controls", "exogenous", "parameters")})
    mb = spec.m0
    for it in range(5):
        T = int(rng.integers(3, 40))
        kw = dict(T=T)
        mode = ["exo", "s0", "s0m0", "both", "exo"][it]
        L = int(rng.integers(1, T + 6))
        path = mb + rng.normal(size=(L, nm)) * .3
        eps = np.zeros((T + 1, nm)) + mb
        if mode in ("exo", "both"):
            n = min(L, T + 1)
            eps[:n] = path[:n]
            eps[n:] = path[-1]
            form = ["array", "dict", "frame"][(it + ctx.rep) % 3]
            arg = path if form == "array" else {k: path[:, i].tolist() for i, k in enumerate(spec.exo)}
            if form == "frame":
                arg = pd.DataFrame(arg)
            if form == "dict" and nm > 1 and rng.random() < .6:
                # series of different lengths, one of them missing
                arg = {}
                for i, k in enumerate(spec.exo):
                    if i == 0 and rng.random() < .5:
                        eps[:, i] = mb[i]
                        continue
                    l = int(rng.integers(1, T + 4))
                    v = mb[i] + rng.normal(size=l) * .3
                    arg[k] = v.tolist() if rng.random() < .5 else v
                    c = min(l, T + 1)
                    eps[:c, i], eps[c:, i] = v[:c], v[-1]
                if not arg:
                    arg = {spec.exo[0]: [float(mb[0])]}
            kw["exogenous"] = arg
        s0 = None
        if mode in ("s0", "s0m0", "both"):
            s0 = spec.s0 + rng.normal(size=ns) * .4
            kw["s0"] = s0
            if rng.random() < .4:
                pick = [k for k in spec.states if rng.random() < .6]
                s0 = np.array([s0[i] if k in pick else spec.s0[i] for i, k in enumerate(spec.states)])
                kw["s0"] = {k: float(s0[spec.states.index(k)]) for k in pick}
        if mode == "s0m0":
            eps[0] = mb + rng.normal(size=nm) * .3
            kw["m0"] = eps[0].copy()
        if s0 is None:
            ss = linear_ss(spec, par, eps[0])
            if ss is None:
                continue
            s0 = ss[:ns]
        ignore = bounded and rng.random() < .3
        if ignore:
            kw["ignore_constraints"] = True
        solver = "lmmcp" if bounded and not ignore and T < 12 and rng.random() < .5 else "ncpsolve"
        kw["solver"] = solver
        def frozen():
            e = kw.get("exogenous")
            return snapshot([[list(e.columns), e.to_numpy()] if isinstance(e, pd.DataFrame) else e, kw.get("s0"), kw.get("m0")])
        args = frozen()
        ctx.case(mode, T, spec.A, eps, s0, nontrivial=True)
        info_ = dict(mode=mode, T=T, bounded=bounded, ignore=ignore, solver=solver)
        df, conv = solve(ctx, model, **kw)
        ctx.ok("arguments-unmodified", frozen() == args, **info_)
        free = not bounded or ignore
        if free:
            ctx.ok("converged", conv, **info_)
        if not conv:
            ctx.count("not_converged")
            continue
        l, u = (lb, ub) if not free else (np.full(nx, -np.inf), np.full(nx, np.inf))
        check_path(ctx, df, names, eps, s0, trans, resid, l, u, auxs, **info_)
        if free:
            ref = stacked(spec, par, eps, s0)
            if np.isfinite(ref).all() and np.abs(ref).max() < 1e4:
                ctx.close("stacked-solution", np.asarray(df[spec.states + spec.controls]), ref, rtol=1e-4, atol=2e-5, **info_)
        sol = np.asarray(df[spec.states + spec.controls])
        # the same path of shocks in every other form
        if "exogenous" in kw:
            base = {k: v for k, v in kw.items() if k != "exogenous"}
            for form in ("array", "frame", "dict", "deprecated"):
                full = eps.copy()
                if form == "array":
                    k2 = dict(base, exogenous=full)
                elif form == "frame":
                    k2 = dict(base, exogenous=pd.DataFrame(full[:, ::-1], columns=spec.exo[::-1]))
                elif form == "dict":
                    k2 = dict(base, exogenous={k: full[:, i] for i, k in enumerate(spec.exo)})
                else:
                    k2 = dict(base, shocks=full.tolist())
                    if "s0" in k2:
                        k2["s1"] = k2.pop("s0")
                d2, c2 = solve(ctx, model, tag="form:" + form, **k2)
                ctx.ok("forms", c2 and d2.shape == df.shape and np.allclose(np.asarray(d2), np.asarray(df), rtol=1e-6, atol=1e-7), form=form, **info_)
            if nm == 1:
                d2, c2 = solve(ctx, model, tag="form:1d", exogenous=eps[:, 0], **base)
                ctx.ok("forms", c2 and np.allclose(np.asarray(d2), np.asarray(df), rtol=1e-6, atol=1e-7), form="1d", **info_)
            ss = linear_ss(spec, par, eps[0])
            if ss is not None:
                d3, c3 = solve(ctx, model, tag="keep_steady_state", keep_steady_state=True, **kw)
                ctx.ok("keep-steady-state", list(d3.index) == list(range(-1, T + 1)) and np.allclose(np.asarray(d3.loc[0:]), np.asarray(df), atol=1e-7))
                ctx.close("steady-state-row", np.asarray(d3.loc[-1][spec.states + spec.controls], float), ss, rtol=1e-5, atol=1e-5)
                ctx.close("steady-state-row", np.asarray(d3.loc[-1][spec.exo], float), eps[0], rtol=1e-12)
                d4, c4 = solve(ctx, model, tag="initial_guess", **dict(kw, initial_guess=d3))
                ctx.ok("initial-guess", c4 and np.allclose(np.asarray(d4[spec.states + spec.controls]), sol, atol=1e-4), **info_)
        d4, c4 = solve(ctx, model, tag="initial_guess", **dict(kw, initial_guess=df))
        ctx.ok("initial-guess", c4 and np.allclose(np.asarray(d4[spec.states + spec.controls]), sol, atol=1e-4), **info_)
        ctx.ok("model-unmodified", snapshot({k: model.calibration[k] for k in ("states", "controls", "exogenous", "parameters")}) == keep)
        ctx.sample(mode=mode, T=T, first_row=df.iloc[0].to_dict())


def moving_bounds(ctx):
    """Bounds that depend on the state cannot be handled: refused, not ignored."""
    rng = ctx.rng
    spec = models.random_linear_spec(rng, nx=2)
    st = spec.states[0]
    for combo in range(3):
        bounds = [("-inf", "inf"), (f"{spec.controls[1]}_ss - 1 + 0.5*{st}[t]", "inf")]
        if combo == 1:
            bounds = [("-inf", "inf"), ("-inf", f"{spec.controls[1]}_ss + 1 + 0.5*{st}[t]")]
        if combo == 2:
            bounds = [(f"{spec.controls[0]}_ss - 1 + 0.5*{st}[t]", "inf"), ("-inf", "inf")]
        txt, info = models.linear_yaml(spec, rng=rng, bounds=bounds)
        with ctx.guard("import"):
            model = models.load(txt)
        from dolo.algos.perfect_foresight import deterministic_solve
        s0 = spec.s0 + .7
        ctx.case("moving", combo, spec.A)
        ctx.raises("moving-bounds", lambda: deterministic_solve(model, s0=s0, T=10, verbose=False), combo=combo)


def nonlinear(ctx):
    """The example models and a growth model, re-read from their files."""
    from dolo.algos.perfect_foresight import deterministic_solve
    rng = ctx.rng
    u = lambda a, b: float(np.round(rng.uniform(a, b), 4))
    which = ["nl", "rbc.yaml", "rmt3_ch11.yaml", "nl"][ctx.rep % 4]
    if which == "nl":
        v = dict(e="eps", k="kap", c="con", alpha=u(.2, .5), delta=u(.05, .2), beta=u(.92, .98), gam=u(.8, 3), zz=u(.5, 2), kf=1.0, cf=1.0)
        txt = NL.format(**v)
        with ctx.guard("import"):
            model = models.load(txt)
        Y = models.read_yaml(txt, is_text=True)
    else:
        path = os.path.join(models.REPO, "examples", "models", which)
        with ctx.guard("import"):
            model = models.example(which)
        Y = models.read_yaml(path)
    sym = Y["symbols"]
    S, X, M = sym["states"], sym["controls"], sym["exogenous"]
    Dn = [re.match(r"\s*(\w+)", k).group(1) for k, _ in Y["definitions"]]
    R = models.Reader(S + X + M + Dn, Y["definitions"])
    T = int(rng.integers(40, 70))
    for it in range(3):
        par = models.params_of(model)
        kw = {}
        eps = np.zeros((T + 1, len(M))) + np.asarray(model.calibration["exogenous"], float)
        s0 = None
        if it % 2 == 0:
            if which == "rmt3_ch11.yaml":
                j = int(rng.integers(3))
                p = np.concatenate([eps[:int(rng.integers(1, 9)), j], eps[:1, j] + [u(.05, .2)]])
            else:
                j = 0
                p = u(.01, .05) * .7 ** np.arange(int(rng.integers(1, 20)))
                p[-1] = 0.0
            eps[:len(p), j] = p
            eps[len(p):, j] = p[-1]
            kw["exogenous"] = {M[j]: p.tolist()}
        else:
            s0 = np.array(model.calibration["states"]) * 1.0
            i = S.index({"nl": "kap", "rbc.yaml": "k", "rmt3_ch11.yaml": "k"}[which])
            s0[i] *= u(.85, 1.1)
            kw["s0"] = s0
        ctx.case(which, it, eps, s0)

        def vals(n, m, s, x, M_=None, S_=None, X_=None):
            v = {}
            for nm_, a in ((M, m), (S, s), (X, x)):
                v.update({(k, 0): float(q) for k, q in zip(nm_, a[n])})
            for nm_, a in ((M, M_), (S, S_), (X, X_)):
                if a is not None:
                    v.update({(k, 1): float(q) for k, q in zip(nm_, a[n])})
            return v

        def trans(m, s, x, M_):
            out = np.empty_like(s)
            for n in range(len(s)):
                v = {(k, d - 1): q for (k, d), q in vals(n, m, s, x, M_).items()}
                out[n] = [R.eval(e.split("=", 1)[1], v, par) for e in Y["equations"]["transition"]]
            return out

        def resid(m, s, x, M_, S_, X_):
            out = np.empty_like(x)
            for n in range(len(s)):
                v = vals(n, m, s, x, M_, S_, X_)
                out[n] = [R.eval(re.split(r"[⟂|]", e)[0], v, par) for e in Y["equations"]["arbitrage"]]
            return out
        lo, hi = [], []
        for e in Y["equations"]["arbitrage"]:
            b = re.split(r"[⟂|]", e)[1]
            a, _, c = b.split("<=")
            lo.append(R.eval(a, {}, par))
            hi.append(R.eval(c, {}, par))
        ignore = it == 2
        if ignore:
            kw["ignore_constraints"] = True
            lo, hi = [-np.inf] * len(X), [np.inf] * len(X)
        df, conv = solve(ctx, model, T=T, **kw)
        if not conv:
            ctx.count("not_converged")
            continue
        ctx.count("converged_nonlinear")

        def auxs(m, s, x):
            return np.array([[R.eval(k + "[t]", vals(n, m, s, x), par) for k in Dn] for n in range(len(m))])
        check_path(ctx, df, (S, X, Dn, M), eps, s0, trans, resid, np.array(lo), np.array(hi), auxs, tol=1e-4, model=which)


def reported(ctx):
    """A solver stopped short of a solution says so."""
    rng = ctx.rng
    u = lambda a, b: float(np.round(rng.uniform(a, b), 4))
    v = dict(e="eps", k="kap", c="con", alpha=u(.2, .5), delta=u(.05, .2), beta=u(.92, .98), gam=u(1, 3), zz=u(.5, 2), kf=1.0, cf=1.0)
    txt = NL.format(**v)
    with ctx.guard("import"):
        model = models.load(txt)
    from dolo.algos.perfect_foresight import det_residual
    for it in range(4):
        s0 = np.array(model.calibration["states"]) * u(.7, .9)
        tol = [1e-6, 1e-10, 1e-4, 1e-6][it]
        ctx.case("reported", v, it)
        for maxit in (1, 2, 3, 30):
            for ign in (False, True):
                with np.errstate(all="ignore"):
                    df, conv = solve(ctx, model, T=30, s0=s0, maxit=maxit, tol=tol, ignore_constraints=ign)
                if ign:
                    ctx.count("ignored")
                path = np.asarray(df[["kap", "con"]])
                eps = np.zeros((31, 1))
                s, x = path[:, :1], path[:, 1:]
                p = v
                y = p["zz"] * s ** p["alpha"]
                g = (1 - p["delta"]) * s + y - x
                f = 1 - p["beta"] * (x[:-1] / x[1:]) ** p["gam"] * (1 - p["delta"] + p["alpha"] * y[1:] / s[1:])
                res = max(np.abs(g[:-1] - s[1:]).max(), np.abs(f).max(), np.abs(s[0] - s0).max())
                if conv:
                    ctx.ok("reported", res < 20 * tol, residual=res, tol=tol, maxit=maxit, ignore=ign)
                    ctx.count("claimed_converged")
                else:
                    ctx.count("reported_failure")
                    ctx.ok("enough-iterations", maxit < 30, residual=res, tol=tol, ignore=ign)


SCENARIOS = [Scenario("linear", linear, quick=16, thorough=160), Scenario("moving_bounds", moving_bounds, quick=2, thorough=12),
             Scenario("nonlinear", nonlinear, quick=4, thorough=32), Scenario("reported", reported, quick=2, thorough=16)]
