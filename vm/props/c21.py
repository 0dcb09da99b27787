"""C21 perturbation: the stable first-order solution, or a report that there is none."""
import warnings
import numpy as np
from scipy import linalg as sl
from vm.core import Scenario, snapshot
from vm import models

RULE = ("random linear models (iid and VAR1 shocks) sorted by the independent count of stable generalized eigenvalues in: unique, explosive, "
        "indeterminate; complex roots included; nonlinear growth models; the linearised conditions are re-evaluated at random states and "
        "shocks from the text of the model; non-trivial: several equations or complex roots")
REQUIRED = {"linearised": 30, "stable": 30, "steady-state": 30, "reported": 16, "eigenvalues": 30}


def state_space(sp, rho=None):
    """(g_s, g_x, f_s, f_x, f_S, f_X) of the linear spec, shocks being states when autoregressive"""
    nm, ns, nx = len(sp.exo), len(sp.states), len(sp.controls)
    if rho is None:
        return sp.A, sp.B, -sp.F, np.eye(nx), -sp.Q, -sp.P
    R = rho * np.eye(nm)
    gs = np.block([[R, np.zeros((nm, ns))], [sp.C + sp.D @ R, sp.A]])
    gx = np.concatenate([np.zeros((nm, nx)), sp.B])
    return gs, gx, np.concatenate([-sp.G, -sp.F], axis=1), np.eye(nx), np.concatenate([-sp.R, -sp.Q], axis=1), -sp.P


def pencil(gs, gx, fs, fx, fS, fX):
    """moduli of the roots z of  A v(t+1) = B v(t)"""
    n, k = gs.shape[0], gx.shape[1]
    A = np.block([[np.eye(n), np.zeros((n, k))], [-fS, -fX]])
    B = np.block([[gs, gx], [fs, fx]])
    ab = sl.eig(B, A, right=False, homogeneous_eigvals=True)
    with np.errstate(all="ignore"):
        z = ab[0] / ab[1]
    return np.sort(np.abs(z)), z, A, B


def classify(sp, rho):
    m = state_space(sp, rho)
    z, zc, A, B = pencil(*m)
    n = m[0].shape[0]
    if np.isnan(z).any() or (np.abs(z - 1) < .05).any() or np.abs(zc[np.isfinite(zc)]).min() < 1e-9:
        return None, z, zc, n
    k = int((z < 1).sum())
    cl = "unique" if k == n else ("indeterminate" if k > n else "explosive")
    if cl != "unique" and abs(z[n] - z[n - 1]) < 1e-3:
        cl += "-tie"
    if cl == "unique":
        # the stable subspace must be a graph over the states
        AA, BB, al, be, Q, Z = sl.ordqz(B, A, sort="iuc", output="complex")
        if np.linalg.cond(Z[:n, :n]) > 1e5:
            return None, z, zc, n
    return cl, z, zc, n


def draw(ctx, want, kind, complex_=False):
    rng = ctx.rng
    for _ in range(3000):
        ns, nx = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        nm = int(rng.integers(1, 3))
        sp = models.random_linear_spec(rng, ns=ns, nx=nx, nm=nm, forward=rng.choice([.35, .8, 2.0]), contraction=.95)
        if rng.random() < .5:
            sp.A = np.round(rng.normal(size=(ns, ns)) * rng.choice([.5, 1.0, 1.6]), 6)
        if rng.random() < .5:
            sp.B = np.round(rng.normal(size=(ns, nx)), 6)
            sp.F = np.round(rng.normal(size=(nx, ns)), 6)
        if kind == "iid-static":
            sp.C = sp.C * 0
            sp.G = sp.G * 0
        rho = None
        if kind == "var":
            txt, rho, Sg = models.exo_var(rng, nm)
        else:
            txt = models.exo_iid(rng, nm)[0] if nm > 1 or rng.random() < .5 else models.exo_unormal(rng)[0]
        cl, z, zc, n = classify(sp, rho)
        if cl != want:
            continue
        if complex_ and not (np.abs(zc.imag[np.isfinite(zc)]) > 1e-3 * (1 + np.abs(zc[np.isfinite(zc)]))).any():
            continue
        return sp, rho, txt, z, zc, n
    return None


def solve(ctx, model, tag="perturb", **kw):
    from dolo.algos.perturbation import perturb
    with warnings.catch_warnings(record=True) as w, np.errstate(all="ignore"):
        warnings.simplefilter("always")
        with ctx.guard(tag):
            out = perturb(model, verbose=False, **kw)
    return out, [str(x.message) for x in w if not issubclass(x.category, (DeprecationWarning, PendingDeprecationWarning))]


def examine(ctx, dr, ev, m0, s0, x0, rho, g, f, zs, D, tag, tol=1e-7):
    """g(m,s,x,M), f(m,s,x,M,S,X): linear(ised) functions; D: displacement scale; zs: stable moduli"""
    rng = ctx.rng
    nm, ns, nx = len(m0), len(s0), len(x0)
    ctx.close("steady-state", dr(m0, s0), x0, rtol=1e-12, atol=1e-12, tag=tag)
    N = 12
    m = m0 + D * rng.normal(size=(N, nm))
    s = s0 + D * rng.normal(size=(N, ns))
    x = dr(m, s)
    ctx.ok("form", np.shape(x) == (N, nx), got=np.shape(x))
    EM = m0 + (0 if rho is None else rho) * (m - m0)
    S = g(m, s, x, EM)
    X = dr(EM, S)
    r = f(m, s, x, EM, S, X)
    sc = 1 + np.abs(x - x0).max() / D
    ctx.ok("linearised", np.abs(r).max() <= tol * D * sc * sc, got=np.abs(r).max() / D, tag=tag, rho=rho)
    # one point, mixed shapes
    ctx.close("batch", np.array([dr(m[k], s[k]) for k in range(3)]), x[:3], rtol=1e-12, atol=1e-12)
    ctx.close("batch", dr(m[0], s), dr(np.repeat(m[:1], N, axis=0), s), rtol=1e-12, atol=1e-12)
    # moduli of the transition of (m, s) under the rule
    h = D
    J = np.zeros((nm + ns, nm + ns))
    for k in range(nm + ns):
        dm, ds = m0.copy(), s0.copy()
        (dm if k < nm else ds)[k if k < nm else k - nm] += h
        EM = m0 + (0 if rho is None else rho) * (dm - m0)
        S = g(dm[None], ds[None], dr(dm, ds)[None], EM[None])[0]
        J[:nm, k] = (EM - m0) / h
        J[nm:, k] = (S - s0) / h
    if rho is None:
        J = J[nm:, nm:]
    lam = np.sort(np.abs(np.linalg.eigvals(J)))
    ctx.ok("stable", lam.max() < 1, got=lam, tag=tag)
    ctx.ok("stable", np.allclose(lam, zs, rtol=1e-4, atol=1e-5), got=lam, want=zs, tag=tag)
    if ev is not None:
        e = np.abs(np.asarray(ev, dtype=complex))
        with np.errstate(all="ignore"):
            inv = 1 / e
        near = lambda v: all(np.min(np.abs(v[np.isfinite(v)] - l), initial=np.inf) <= 1e-4 * (1 + l) for l in lam)
        ctx.ok("eigenvalues", near(e) or near(inv), reported=e, transition=lam, tag=tag)


def unique(ctx):
    kind = ["var", "iid", "iid-static", "var", "iid"][ctx.rep % 5]
    for it in range(2):
        got = draw(ctx, "unique", kind, complex_=it == 0)
        if got is None:
            continue
        sp, rho, txt, z, zc, n = got
        with ctx.guard("import"):
            model = models.load(models.linear_yaml(sp, txt, style=["new", "old"][it], rng=ctx.rng)[0])
        ctx.case("unique", kind, sp.A, nontrivial=len(z) > 2)
        if np.iscomplexobj(zc) and (np.abs(zc.imag[np.isfinite(zc)]) > 1e-6).any():
            ctx.count("complex_roots")
        keep = snapshot([dict(model.calibration.flat)])
        res, w = solve(ctx, model)
        ctx.ok("model-unchanged", snapshot([dict(model.calibration.flat)]) == keep)
        ctx.ok("reported", bool(res.stable) and bool(res.unique) and bool(res.determined) and not w, why="unique solution", flags=[res.stable, res.determined, res.unique], warnings=w)
        m0, s0, x0 = sp.m0, sp.s0, sp.x0
        # all roots are reported
        e = np.abs(np.asarray(res.generalized_eigenvalues, dtype=complex))
        ctx.ok("eigenvalues", len(e) == len(z), n=len(e), want=len(z))
        with np.errstate(all="ignore"):
            cands = [np.sort(e), np.sort(1 / e)]
        zz = np.where(z > 1e8, np.inf, z)
        same = lambda a: np.allclose(np.where(a > 1e8, np.inf, a), zz, rtol=1e-4, atol=1e-6)
        ctx.ok("eigenvalues", any(same(a) for a in cands), reported=e, want=zz, kind=kind)
        g = lambda m, s, x, M: models.lin_next(sp, m, s, x, M)
        f = lambda *a: models.lin_residual(sp, *a)
        zs = z[:n]
        for D in (1e-3, 10.0):
            examine(ctx, res.dr, res.generalized_eigenvalues, m0, s0, x0, rho, g, f, zs, D, kind)
        dr, w = solve(ctx, model, details=False)
        pt = s0 + ctx.rng.normal(size=(4, len(s0)))
        pm = m0 + ctx.rng.normal(size=(4, len(m0)))
        ctx.close("details", dr(pm, pt), res.dr(pm, pt), rtol=1e-13, atol=1e-13)
        if rho is None and kind == "iid-static":
            ctx.close("details", res.dr(pt), res.dr(pm, pt), rtol=1e-13, atol=1e-13)
        ctx.sample(kind=kind, states=len(s0), controls=len(x0), roots=[str(np.round(v, 4)) for v in zc], stable=int(n))


def others(ctx):
    for want in ("explosive", "indeterminate"):
        kind = ["var", "iid", "iid-static"][int(ctx.rng.integers(3))]
        got = draw(ctx, want, kind, complex_=ctx.rep % 2 == 0)
        if got is None:
            continue
        sp, rho, txt, z, zc, n = got
        with ctx.guard("import"):
            model = models.load(models.linear_yaml(sp, txt, rng=ctx.rng)[0])
        ctx.case(want, kind, sp.A)
        from dolo.algos.perturbation import perturb
        with warnings.catch_warnings(record=True) as w, np.errstate(all="ignore"):
            warnings.simplefilter("always")
            try:
                res = perturb(model, verbose=False)
            except Exception as e:
                ctx.ok("reported", True)
                ctx.count("rejected")
                continue
        flags = [bool(res.stable), bool(res.determined), bool(res.unique)]
        ctx.ok("reported", not all(flags), why=want + " model reported as uniquely solved", flags=flags, roots=z, n_states=n, kind=kind)
        ctx.ok("reported", flags[0] == (want == "indeterminate"), why="stability of the solution", flags=flags, roots=z, case=want)
        if want == "indeterminate":
            ctx.ok("reported", not flags[2], why="uniqueness", flags=flags, roots=z)
        msgs = [str(x.message) for x in w if not issubclass(x.category, (DeprecationWarning, PendingDeprecationWarning))]
        ctx.ok("warned", len(msgs) > 0, case=want, roots=z)
        for t in msgs:
            if "not convergent" in t:
                ctx.ok("warned", want == "explosive", message=t, roots=z)
            if "multiple" in t:
                ctx.ok("warned", want == "indeterminate", message=t, roots=z)
        # whatever was returned satisfies the conditions with the smallest roots
        x, s = None, sp.s0 + ctx.rng.normal(size=(8, len(sp.s0)))
        m = sp.m0 + ctx.rng.normal(size=(8, len(sp.m0)))
        x = res.dr(m, s)
        EM = (0 if rho is None else rho) * m
        S = models.lin_next(sp, m, s, x, EM)
        r = models.lin_residual(sp, m, s, x, EM, S, res.dr(EM, S))
        sc = 1 + np.abs(x).max()
        ctx.ok("linearised", np.abs(r).max() <= 1e-6 * sc * sc, got=np.abs(r).max(), case=want, roots=z)


def jac(fun, z0):
    """central differences with Richardson extrapolation"""
    out = []
    for k in range(len(z0)):
        d = []
        for h in (1e-3, 5e-4):
            hh = h * (min(1.0, abs(z0[k])) if abs(z0[k]) > 1e-4 else 1.0)
            a, b = z0.copy(), z0.copy()
            a[k] += hh
            b[k] -= hh
            d.append((fun(a) - fun(b)) / (2 * hh))
        out.append((4 * d[1] - d[0]) / 3)
    return np.array(out).T


def nonlinear(ctx):
    rng = ctx.rng
    for it in range(2):
        kind = ["iid", "var"][(ctx.rep + it) % 2]
        model, txt, R = make_growth(ctx, kind)
        Y, par, Rd = R
        sym = Y["symbols"]
        St, X_, M_ = sym["states"], sym["controls"], sym["exogenous"]
        m0, s0, x0 = [np.array(model.calibration[k], float) for k in ("exogenous", "states", "controls")]
        eqv = lambda e: e.split("⟂")[0]

        def vals(dt, names, v):
            return {(k, dt): float(a) for k, a in zip(names, v)}

        def g1(z):
            m, s, x, M = np.split(z, np.cumsum([len(M_), len(St), len(X_)]))
            v = {**vals(-1, M_, m), **vals(-1, St, s), **vals(-1, X_, x), **vals(0, M_, M)}
            return np.array([float(Rd.eval(e.split("=", 1)[1], v, par)) for e in Y["equations"]["transition"]])

        def f1(z):
            m, s, x, M, S, X = np.split(z, np.cumsum([len(M_), len(St), len(X_), len(M_), len(St)]))
            v = {**vals(0, M_, m), **vals(0, St, s), **vals(0, X_, x), **vals(1, M_, M), **vals(1, St, S), **vals(1, X_, X)}
            return np.array([float(Rd.eval(eqv(e), v, par)) for e in Y["equations"]["arbitrage"]])
        z0g = np.concatenate([m0, s0, x0, m0])
        z0f = np.concatenate([m0, s0, x0, m0, s0, x0])
        if np.abs(f1(z0f)).max() > 1e-8 or np.abs(g1(z0g) - s0).max() > 1e-8:
            ctx.ok("workload", False, why="calibration is not the steady state", f=f1(z0f), g=g1(z0g) - s0)
            return
        Jg, Jf = jac(g1, z0g), jac(f1, z0f)
        cat = lambda *a: np.concatenate([np.broadcast_to(b, (len(a[1]), np.shape(b)[-1])) for b in a], axis=1)
        g = lambda *a: s0 + (cat(*a) - z0g) @ Jg.T
        f = lambda *a: (cat(*a) - z0f) @ Jf.T
        rho = float(model.calibration["rho"]) if kind == "var" else None
        nm, ns, nx = len(m0), len(s0), len(x0)
        c = np.cumsum([nm, ns, nx, nm, ns])
        fm, fs, fx, fM, fS, fX = np.split(Jf, c, axis=1)
        gm, gs, gx, gM = np.split(Jg, c[:3], axis=1)
        if rho is None:
            mats = (gs, gx, fs, fx, fS, fX)
        else:
            Rm = rho * np.eye(nm)
            mats = (np.block([[Rm, np.zeros((nm, ns))], [gm + gM @ Rm, gs]]), np.concatenate([np.zeros((nm, nx)), gx]),
                    np.concatenate([fm, fs], axis=1), fx, np.concatenate([fM, fS], axis=1), fX)
        z, zc, A, B = pencil(*mats)
        n = mats[0].shape[0]
        if (z < 1).sum() != n or (np.abs(z - 1) < 1e-3).any():
            ctx.count("not_unique")
            continue
        ctx.case("nonlinear", kind, par)
        keep = snapshot([dict(model.calibration.flat)])
        res, w = solve(ctx, model)
        ctx.ok("model-unchanged", snapshot([dict(model.calibration.flat)]) == keep)
        ctx.ok("reported", bool(res.stable) and bool(res.unique) and bool(res.determined) and not w, flags=[res.stable, res.determined, res.unique], warnings=w)
        lin_examine(ctx, res, m0, s0, x0, rho, g, f, z[:n], kind, np.abs(Jf).max())
        # a steady state given explicitly
        cal = model.calibration
        res2, w = solve(ctx, model, steady_state=cal)
        pt = s0 * (1 + .01 * rng.normal(size=(4, ns)))
        pm = m0 + .01 * rng.normal(size=(4, nm))
        ctx.close("details", res2.dr(pm, pt), res.dr(pm, pt), rtol=1e-12, atol=1e-12)
        # a calibration away from the steady state, which has to be solved for; or given
        flat = {k: float(v) for k, v in cal.flat.items()}
        with ctx.guard("import"):
            away = models.load(txt)
            away.set_calibration(**{k: flat[k] for k in sym["parameters"]}, **{k: flat[k] * rng.uniform(.97, 1.03) for k in St + X_})
        if np.abs(np.asarray(away.calibration["states"]) / s0 - 1).max() < 1e-3:
            continue
        keep = snapshot([dict(away.calibration.flat)])
        for tag, kw in (("found", dict(solve_steady_state=True)), ("given", dict(steady_state=cal))):
            r3, w = solve(ctx, away, tag="perturb-" + tag, **kw)
            ctx.close("steady-state-" + tag, r3.dr(m0, s0), x0, rtol=1e-6, atol=1e-7)
            ctx.close("steady-state-" + tag, r3.dr(pm, pt), res.dr(pm, pt), rtol=1e-5, atol=1e-6)
            ctx.close("steady-state-" + tag, np.sort(np.abs(r3.generalized_eigenvalues))[:n], np.sort(np.abs(res.generalized_eigenvalues))[:n], rtol=1e-4, atol=1e-6)
        ctx.ok("model-unchanged", snapshot([dict(away.calibration.flat)]) == keep)


def lin_examine(ctx, res, m0, s0, x0, rho, g, f, zs, kind, scale):
    examine(ctx, res.dr, res.generalized_eigenvalues, m0, s0, x0, rho, g, f, zs, 1e-2, "nonlinear-" + kind, tol=2e-6 * (1 + scale))     # dolo differentiates numerically


TXT = """symbols:
    exogenous: [{e}]
    states: [{k}]
    controls: [{n}, {i}]
    parameters: [alpha, delta, beta, sig, eta, chi, rho, A]
definitions: |
    y[t] = A*exp({ed})*{k}[t]^alpha*{n}[t]^(1-alpha)
    c[t] = y[t] - {i}[t]
    w[t] = (1-alpha)*y[t]/{n}[t]
    rk[t] = alpha*y[t]/{k}[t]
equations:
    transition: |
        {k}[t] = (1-delta)*{k}[t-1]{q} + {i}[t-1]
    arbitrage: |
        chi*{n}[t]^eta*c[t]^sig - w[t] ⟂ 0.0 <= {n}[t] <= inf
        1 - beta*(c[t]/c[t+1])^sig*(1-delta + rk[t+1]) ⟂ 0.0 <= {i}[t] <= inf
calibration:
    alpha: {alpha}
    delta: {delta}
    beta: {beta}
    sig: {sig}
    eta: {eta}
    rho: {rho}
    A: {A}
    {n}: {nss}
    {e}: 0.0
    kn: ((1/beta-1+delta)/(alpha*A))^(1/(alpha-1))
    {k}: kn*{n}
    {i}: delta*{k}
    y: A*{k}^alpha*{n}^(1-alpha)
    c: y - {i}
    w: (1-alpha)*y/{n}
    rk: alpha*y/{k}
    chi: w/c^sig/{n}^eta
{exo}
"""


def make_growth(ctx, kind):
    rng = ctx.rng
    u = lambda a, b: models.num(np.round(rng.uniform(a, b), 4))
    e, k, i, n = [("e", "k", "i", "n"), ("z", "kap", "a", "hours"), ("b", "stock", "inv", "l")][int(rng.integers(3))]
    rho = u(.3, .97)
    if kind == "var":
        exo = f"exogenous: !VAR1\n    rho: {rho}\n    Sigma: [[{u(.0001, .01)}]]"
        ed, q = f"{e}[t]", ""
    else:
        exo = f"exogenous: !UNormal\n    sigma: {u(.001, .05)}"
        # an iid shock entering the production of the period and/or the accumulation
        ed = [f"{e}[t]", "0.0*sig"][int(rng.integers(2))]
        q = f"*exp({e}[t])" if ed.startswith("0") or rng.random() < .5 else ""
    txt = TXT.format(e=e, k=k, i=i, n=n, ed=ed, q=q, exo=exo, rho=rho, alpha=u(.2, .45), delta=u(.02, .2), beta=u(.85, .99), sig=u(.6, 6),
                     eta=u(.3, 4), A=u(.5, 2), nss=u(.2, .9))
    with ctx.guard("import"):
        model = models.load(txt)
    Y = models.read_yaml(txt, is_text=True)
    import re
    D = [re.match(r"\s*(\w+)", a).group(1) for a, _ in Y["definitions"]]
    s = Y["symbols"]
    return model, txt, (Y, models.params_of(model), models.Reader(s["states"] + s["controls"] + s["exogenous"] + D, Y["definitions"]))


SCENARIOS = [Scenario("unique", unique, quick=10, thorough=80), Scenario("others", others, quick=10, thorough=80),
             Scenario("nonlinear", nonlinear, quick=6, thorough=40)]
