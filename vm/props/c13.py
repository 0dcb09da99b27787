"""C13 tabulated decision rules: one state varies over the requested range, everything else is held fixed."""
import numpy as np
from vm.core import Scenario, snapshot
from vm import models
from vm.props.c11 import random_dr, dr_interp

RULE = ("random linear models with iid, VAR1 or Markov shocks, arbitrary decision rules, each state tabulated with default or given "
        "bounds, steps, fixed state and exogenous point; non-trivial: more than one state")


def linear(ctx):
    from dolo.algos.simulations import tabulate, tabulate_2d
    from dolo.algos.results import PerturbationResult
    from dolo.numeric.decision_rule import DecisionRule
    from dolo.numeric.grids import EmptyGrid, UniformCartesianGrid
    rng = ctx.rng
    kind = ["iid", "var", "markov", "interp"][ctx.rep % 4]
    nm = int(rng.integers(1, 3))
    spec = models.random_linear_spec(rng, ns=int(rng.integers(1, 4)) if ctx.rep % 3 else 2, nx=int(rng.integers(1, 3)), nm=nm)
    V = P = None
    if kind in ("iid", "interp"):
        exo, S = models.exo_iid(rng, nm)
    elif kind == "var":
        exo, rho, S = models.exo_var(rng, nm)
    else:
        exo, V, P = models.exo_markov(rng, nm, n=int(rng.integers(2, 5)))
    defs = models.auxiliaries(rng, spec)
    order = list(rng.permutation(len(spec.states)))
    txt, info = models.linear_yaml(spec, exo_text=exo, rng=rng, definitions=defs, domain_order=order)
    with ctx.guard("import"):
        model = models.load(txt)
    par = models.params_of(model)
    ns, nx = len(spec.states), len(spec.controls)
    dom = np.array([info["domain"][v] for v in spec.states])
    for it in range(4):
        if kind == "interp":
            lo, hi = dom[:, 0] - .5, dom[:, 1] + .25
            endo = UniformCartesianGrid(lo, hi, [3] * ns)
            vals = spec.x0 + rng.normal(size=(1, endo.n_nodes, nx)) * .2
            dr = DecisionRule(EmptyGrid(), endo, interp_method="linear", dprocess=model.exogenous.discretize(), values=vals)
            axes = [np.linspace(a, b, 3) for a, b in zip(lo, hi)]
            ref = lambda i, m, s: np.array([dr_interp(axes, vals[0].reshape([3] * ns + [nx]), p) for p in s])
            rng_b = np.stack([lo, hi], axis=1)
        else:
            dr, ref = random_dr(rng, spec, kind, info, model, V, P)
            rng_b = dom          # the grid of a markov rule, or the domain of the model
        j = int(rng.integers(ns))
        n = int(rng.integers(2, 30))
        kw = {}
        b = rng_b[j]
        if rng.random() < .5:
            b = np.sort(dom[j].mean() + rng.normal(size=2))
            kw["bounds"] = b.tolist()
        s0 = spec.s0
        if rng.random() < .5:
            s0 = spec.s0 + rng.normal(size=ns) * .2
            kw["s0"] = s0
        if rng.random() < .7:
            kw["n_steps"] = n
        else:
            n = 100
        if kind == "markov":
            i0 = (len(V) + 1) // 2 - 1
            if rng.random() < .6:
                i0 = int(rng.integers(len(V)))
                kw["i0"] = i0
            m0 = V[i0]
        else:
            i0, m0 = 0, np.zeros(nm)
            if rng.random() < .5:
                m0 = rng.normal(size=nm) * .1
                kw["m0"] = m0
        keep = snapshot([s0, m0, model.calibration])
        obj = PerturbationResult(dr, [], True, True, True) if it == 0 else dr
        ctx.case(kind, j, n, sorted(kw), spec.s0, nontrivial=ns > 1)
        with ctx.guard("tabulate", kind=kind, kw=sorted(kw)):
            df = tabulate(model, obj, spec.states[j], **kw)
        names = spec.exo + spec.states + spec.controls + [k for k, _ in defs]
        ctx.ok("tabulate:columns", list(df.columns) == names and len(df) == n, got=list(df.columns), want=names)
        a = df.values
        s = np.zeros((n, ns)) + s0
        s[:, j] = np.linspace(b[0], b[1], n)
        m = np.zeros((n, nm)) + m0
        det = dict(kind=kind, state=j, kw=sorted(kw))
        ctx.close("tabulate:exogenous", a[:, :nm], m, rtol=1e-10, atol=1e-13, **det)
        ctx.close("tabulate:states", a[:, nm:nm + ns], s, rtol=1e-9, atol=1e-11, **det)
        x = ref([i0] * n, m, s)
        ctx.close("tabulate:controls", a[:, nm + ns:nm + ns + nx], x, rtol=1e-7, atol=1e-9, **det)
        ctx.close("tabulate:definitions", a[:, nm + ns + nx:], models.eval_aux(defs, spec, m, s, x, par), rtol=1e-7, atol=1e-9, **det)
        ctx.ok("tabulate:arguments-untouched", keep == snapshot([s0, m0, model.calibration]))
        ctx.sample(**det, row=a[1], names=names)
        if ns >= 2 and kind == "markov":
            pick = [int(k) for k in rng.permutation(ns)[:2]]
            two = [spec.states[k] for k in pick]
            nn = [int(rng.integers(2, 6)), int(rng.integers(2, 6))]
            with ctx.guard("tabulate_2d"):
                tab = tabulate_2d(model, dr, states=two, i0=i0, s0=s0, n=nn)
            ctx.ok("tabulate_2d:dims", list(tab.dims) == two + ["V"] and tab.shape == (nn[0], nn[1], ns + nx)
                   and [str(v) for v in tab.coords["V"].values] == spec.states + spec.controls)
            l0, l1 = np.linspace(*dom[pick[0]], nn[0]), np.linspace(*dom[pick[1]], nn[1])
            ctx.close("tabulate_2d:coords", np.concatenate([tab.coords[two[0]].values, tab.coords[two[1]].values]), np.concatenate([l0, l1]), rtol=1e-9, atol=1e-11)
            for p in range(nn[0]):
                for q in range(nn[1]):
                    sv = np.array(s0, float)
                    sv[pick[0]], sv[pick[1]] = l0[p], l1[q]
                    ctx.close("tabulate_2d:values", np.asarray(tab)[p, q], np.concatenate([sv, ref([i0], V[i0:i0 + 1], sv[None])[0]]), rtol=1e-7, atol=1e-9)
            ctx.ok("tabulate_2d:arguments-untouched", keep == snapshot([s0, m0, model.calibration]))


SCENARIOS = [Scenario("linear", linear, 20, 100)]
REQUIRED = {"tabulate:controls": 60, "tabulate_2d:values": 20}
