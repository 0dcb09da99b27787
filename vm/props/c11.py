"""C11 simulated paths satisfy the model equations, the decision rule and the shock process at every date."""
import numpy as np
from vm.core import Scenario, snapshot
from vm import models

RULE = ("random linear models (shuffled names, with and without definitions) with iid, VAR1, Markov or given shocks and arbitrary "
        "decision rules, plus the example models; each path is re-checked date by date against the equations read from the model "
        "file; non-trivial: more than one path or state")


def random_dr(rng, spec, kind, info, model, V=None, P=None):
    """A decision rule that is not a solution: simulations must follow it anyway."""
    from dolo.numeric.decision_rule import DecisionRule
    from dolo.algos.perturbation import BivariateTaylor
    from dolo.numeric.grids import EmptyGrid, UnstructuredGrid, UniformCartesianGrid
    ns, nx, nm = len(spec.states), len(spec.controls), len(spec.exo)
    if kind == "markov":
        from dolo.numeric.processes import MarkovChain
        lo = [info["domain"][v][0] for v in spec.states]
        hi = [info["domain"][v][1] for v in spec.states]
        endo = UniformCartesianGrid(lo, hi, [3] * ns)
        dp = MarkovChain(P, V)
        vals = spec.x0 + rng.normal(size=(len(V), endo.n_nodes, nx)) * .2
        dr = DecisionRule(UnstructuredGrid(V), endo, interp_method="linear", dprocess=dp, values=vals)
        from vm.props.c05 import tensor_interp
        axes = [np.linspace(a, b, 3) for a, b in zip(lo, hi)]

        def ref(i, m, s):
            out = np.empty((len(s), nx))
            for k in range(len(s)):
                out[k] = dr_interp(axes, vals[i[k]].reshape([3] * ns + [nx]), s[k])
            return out
        return dr, ref
    Cs = rng.normal(size=(nx, ns)) * .3
    Cm = rng.normal(size=(nx, nm)) * .3 if kind != "iid" or rng.random() < .5 else None
    dr = BivariateTaylor(spec.m0, spec.s0, spec.x0, Cm, Cs)
    return dr, lambda i, m, s: spec.x0 + (s - spec.s0) @ Cs.T + (0 if Cm is None else (m - spec.m0) @ Cm.T)


def dr_interp(axes, V, p):
    """multilinear with linear extrapolation"""
    for ax, c in zip(axes, p):
        j = int(np.clip(np.searchsorted(ax, c) - 1, 0, len(ax) - 2))
        w = (c - ax[j]) / (ax[j + 1] - ax[j])
        V = V[j] * (1 - w) + V[j + 1] * w
    return V


def columns(ctx, sim, names, tag="columns"):
    ctx.ok(tag, [str(v) for v in sim.coords["V"].values] == list(names), got=[str(v) for v in sim.coords["V"].values], want=list(names))


def linear(ctx):
    from dolo.algos.simulations import simulate
    from dolo.algos.results import PerturbationResult
    rng = ctx.rng
    kind = ["iid", "var", "markov"][ctx.rep % 3]
    spec = models.random_linear_spec(rng, ns=int(rng.integers(1, 4)), nx=int(rng.integers(1, 3)), nm=int(rng.integers(1, 3)))
    nm = len(spec.exo)
    V = P = None
    if kind == "iid":
        exo, S = models.exo_iid(rng, nm)
    elif kind == "var":
        exo, rho, S = models.exo_var(rng, nm)
    else:
        exo, V, P = models.exo_markov(rng, nm)
        if rng.random() < .3:
            V[-1] = V[0]        # two regimes sharing the same value
            exo = exo.split("values:")[0] + "values: [" + ", ".join("[" + ", ".join(models.num(v) for v in r) + "]" for r in V) + "]\n    transitions:" + exo.split("transitions:")[1]
    defs = models.auxiliaries(rng, spec)
    txt, info = models.linear_yaml(spec, exo_text=exo, rng=rng, definitions=defs, width=3.0, style=["new", "old"][int(rng.integers(2))])
    with ctx.guard("import"):
        model = models.load(txt)
    par = models.params_of(model)
    names = spec.exo + spec.states + spec.controls + [k for k, _ in defs]
    ns, nx = len(spec.states), len(spec.controls)
    c0, c1, c2 = nm, nm + ns, nm + ns + nx

    def check(sim, T, N, s0, ref, tag, i0=None, driving=None, idriving=None):
        ctx.ok(f"{tag}:dims", tuple(sim.dims) == ("T", "N", "V") and sim.shape[:2] == (T, N)
               and list(sim.coords["T"].values) == list(range(T)) and list(sim.coords["N"].values) == list(range(N)))
        discrete = kind == "markov"
        columns(ctx, sim, (["_i_m"] if discrete else []) + names)
        a = np.asarray(sim)
        if discrete:
            im = a[:, :, 0]
            a = a[:, :, 1:]
            ii = im.astype(int)
            ctx.ok(f"{tag}:index-range", (ii == im).all() and ii.min() >= 0 and ii.max() < len(V))
            ctx.close(f"{tag}:exogenous-follow-index", a[:, :, :nm], V[ii], rtol=1e-12)
            if idriving is None:
                ctx.ok(f"{tag}:start-index", (ii[0] == (i0 or 0)).all(), got=ii[0], want=i0)
                ctx.ok(f"{tag}:possible-transitions", (P[ii[:-1], ii[1:]] > 0).all())
            else:
                ctx.ok(f"{tag}:driving", np.array_equal(ii, idriving))
        else:
            ii = np.zeros((T, N), int)
            if driving is not None:
                ctx.ok(f"{tag}:driving", np.array_equal(a[:, :, :nm], driving))
        m, s, x, y = a[:, :, :c0], a[:, :, c0:c1], a[:, :, c1:c2], a[:, :, c2:]
        ctx.close(f"{tag}:initial-state", s[0], np.zeros((N, ns)) + s0, rtol=1e-12)
        for t in range(T):
            ctx.close(f"{tag}:decision-rule", x[t], ref(ii[t], m[t], s[t]), rtol=1e-7, atol=1e-9, t=t)
            if t + 1 < T:
                ctx.close(f"{tag}:transition", s[t + 1], models.lin_next(spec, m[t], s[t], x[t], m[t + 1]), rtol=1e-9, atol=1e-10, t=t + 1)
        for t in sorted(set([0, T - 1, int(rng.integers(T))])):
            ctx.close(f"{tag}:definitions", y[t], models.eval_aux(defs, spec, m[t], s[t], x[t], par), rtol=1e-9, atol=1e-10, t=t)
        return a, ii

    for it in range(3):
        dr, ref = random_dr(rng, spec, kind, info, model, V, P)
        T, N = int(rng.integers(2, 30)), int(rng.integers(1, 6))
        s0 = spec.s0 + rng.normal(size=ns) * .3 if rng.random() < .5 else None
        i0 = int(rng.integers(len(V))) if kind == "markov" and rng.random() < .6 else None
        seed = int(rng.integers(1000))
        kw = dict(N=N, T=T, seed=seed)
        if s0 is not None:
            kw["s0"] = s0
        if i0 is not None:
            kw["i0"] = i0
        obj = PerturbationResult(dr, [], True, True, True) if it == 0 else dr
        before = (snapshot(model.calibration), snapshot(s0), snapshot(dr.__dict__))
        ctx.case(kind, T, N, spec.A, s0, i0, nontrivial=N > 1 or ns > 1)
        with ctx.guard("simulate", kind=kind, N=N, T=T):
            sim = simulate(model, obj, **kw)
            sim2 = simulate(model, obj, **kw)
            sim3 = simulate(model, obj, **{**kw, "seed": seed + 1})
            det = simulate(model, obj, stochastic=False, **kw)
        st = spec.s0 if s0 is None else s0
        a, ii = check(sim, T, N, st, ref, "stochastic", i0=i0)
        check(sim3, T, N, st, ref, "stochastic", i0=i0)
        d, di = check(det, T, N, st, ref, "deterministic", i0=i0)
        ctx.ok("same-seed-same-path", np.array_equal(np.asarray(sim), np.asarray(sim2)), kind=kind)
        if kind != "markov":
            ctx.ok("other-seed-other-path", not np.array_equal(np.asarray(sim)[1:, :, :nm], np.asarray(sim3)[1:, :, :nm]), kind=kind)
            if N > 1:
                ctx.ok("paths-differ", np.ptp(a[1, :, 0]) > 0, kind=kind)
        elif T * N > 60 and P.max() < .8:
            ctx.ok("other-seed-other-path", not np.array_equal(np.asarray(sim)[:, :, 0], np.asarray(sim3)[:, :, 0]), kind=kind)
        ctx.ok("deterministic-shocks", np.ptp(d[:, :, :nm], axis=(0, 1)).max() < 1e-12 if kind != "var" else np.abs(d[:, :, :nm]).max() < 1e-12, kind=kind)
        ctx.ok("arguments-untouched", before == (snapshot(model.calibration), snapshot(s0), snapshot(dr.__dict__)))
        # given shocks
        if kind == "markov":
            drv = rng.integers(0, len(V), (T, N))
            d0 = drv.copy()
            with ctx.guard("driving", kind=kind):
                sd = simulate(model, dr, driving_process=drv, N=N, T=T, **({"s0": s0} if s0 is not None else {}))
            g, _ = check(sd, T, N, st, ref, "driven", idriving=d0)
            with ctx.guard("process"):
                from dolo.numeric.processes import MarkovChain
                sp = simulate(model, dr, process=MarkovChain(P, V), N=N, T=T, i0=len(V) - 1)
            check(sp, T, N, spec.s0, ref, "process", i0=len(V) - 1)
        else:
            drv = rng.normal(size=(T, N, nm)) * .1
            d0 = drv.copy()
            with ctx.guard("driving", kind=kind):
                sd = simulate(model, dr, driving_process=drv, N=N, T=T, **({"s0": s0} if s0 is not None else {}))
            g, _ = check(sd, T, N, st, ref, "driven", driving=d0)
            if kind == "var":
                m0 = rng.normal(size=nm) * .1
                with ctx.guard("m0"):
                    sm = simulate(model, dr, m0=m0, **kw)
                ctx.close("initial-shock", np.asarray(sm)[0, :, :nm], np.zeros((N, nm)) + m0, rtol=1e-10)
                check(sm, T, N, st, ref, "m0")
        ctx.ok("driving-untouched", np.array_equal(drv, d0))
        # each path of a batch is what a lone path would be
        n = int(rng.integers(N))
        with ctx.guard("driving-one"):
            one = simulate(model, dr, driving_process=drv[:, n:n + 1], N=1, T=T, **({"s0": s0} if s0 is not None else {}))
        ctx.close("paths-independent", np.asarray(one)[:, 0], np.asarray(sd)[:, n], rtol=1e-9, atol=1e-11)
        # the horizon only adds dates
        if T > 2:
            with ctx.guard("driving-short"):
                sh = simulate(model, dr, driving_process=drv[:T - 1], N=N, T=T - 1, **({"s0": s0} if s0 is not None else {}))
            ctx.close("prefix", np.asarray(sh), np.asarray(sd)[:T - 1], rtol=1e-9, atol=1e-11)
        ctx.sample(kind=kind, T=T, N=N, names=names, first=a[0, 0], second=a[1, 0])


EX = ["rbc.yaml", "rbc_iid.yaml", "rbc_ar1.yaml", "rbc_mc.yaml", "consumption_savings_iid.yaml"]


def examples(ctx):
    """Example models, with (perturbed or flat) rules; equations read from the file."""
    import os
    from dolo.algos.simulations import simulate
    from dolo.numeric.decision_rule import DecisionRule
    from dolo.numeric.grids import UnstructuredGrid, UniformCartesianGrid, EmptyGrid
    from dolo.algos.perturbation import BivariateTaylor
    rng = ctx.rng
    name = EX[ctx.rep % len(EX)]
    with ctx.guard("import", model=name):
        model = models.example(name)
    spec = models.read_yaml(os.path.join(models.REPO, "examples", "models", name))
    sy = model.symbols
    E, S, X, A = sy["exogenous"], sy["states"], sy["controls"], [d[0].split("[")[0].strip() for d in spec["definitions"]]
    par = models.params_of(model)
    R = models.Reader(E + S + X + A, spec["definitions"])
    x0, s0, m0 = model.calibration["controls"], model.calibration["states"], model.calibration["exogenous"]
    mc = name == "rbc_mc.yaml"
    if mc:
        dp = model.exogenous
        endo = UniformCartesianGrid(s0 * .5, s0 * 1.5, [4] * len(S))
        dr = DecisionRule(UnstructuredGrid(dp.values), endo, interp_method="linear", dprocess=dp,
                          values=np.abs(x0 * (1 + .05 * rng.normal(size=(dp.n_nodes, endo.n_nodes, len(x0))))))
    else:
        dr = BivariateTaylor(m0, s0, x0, rng.normal(size=(len(X), len(E))) * .02, rng.normal(size=(len(X), len(S))) * .02)
    T, N = 12, 2
    with ctx.guard("simulate", model=name):
        sim = simulate(model, dr, N=N, T=T, seed=ctx.rep)
    ctx.case(name, ctx.rep)
    columns(ctx, sim, (["_i_m"] if mc else []) + E + S + X + A)
    for n in range(N):
        for t in range(T - 1):
            v = {}
            for k, dt in ((0, t), (1, t + 1)):
                for nm_ in E + S + X:
                    v[(nm_, k)] = float(sim.sel(T=dt, N=n, V=nm_))
            for eq in spec["equations"]["transition"]:
                lhs, rhs = eq.split("=", 1)
                # equations are written with t and t-1: shift by one date
                l = R.eval(lhs, v, par, shift=1)
                r = R.eval(rhs, v, par, shift=1)
                ctx.ok("example:transition", abs(l - r) <= 1e-9 * (1 + abs(r)), model=name, eq=eq, t=t, lhs=l, rhs=r)
            for a in A:
                got = float(sim.sel(T=t, N=n, V=a))
                want = R.eval(f"{a}[t]", v, par)
                ctx.ok("example:definitions", abs(got - want) <= 1e-9 * (1 + abs(want)) or (np.isnan(got) and np.isnan(want)), model=name, var=a)
    ctx.sample(model=name, row=[float(v) for v in np.asarray(sim)[1, 0]])


SCENARIOS = [Scenario("linear", linear, 15, 90), Scenario("examples", examples, 5, 15)]
REQUIRED = {"stochastic:transition": 200, "driven:transition": 100, "stochastic:definitions": 40, "example:transition": 50}
