"""C14 formulas are evaluated with the right rows, operators and context."""
import numpy as np
from vm.core import Scenario, snapshot
from vm import models

RULE = ("random formulas (operators, functions, precedence, leads and lags in both notations) over random data frames (various "
        "indexes) and contexts, against a tree evaluator working row by row; also through models; non-trivial: several dates or "
        "operators")
REQUIRED = {"value": 300}

PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "^": 3}


def gen(rng, cols, ctxn, depth, maxshift=2):
    """-> tree"""
    r = rng.random()
    if depth == 0 or r < .15:
        q = rng.random()
        if q < .55 and cols:
            return ("v", cols[int(rng.integers(len(cols)))], int(rng.integers(-maxshift, maxshift + 1)))
        if q < .8 and ctxn:
            return ("c", ctxn[int(rng.integers(len(ctxn)))])
        if q < .85 and cols:
            return ("t",)
        return ("n", float(np.round(rng.uniform(.2, 3), 2)))
    if r < .3:
        f = ["exp", "log", "sin", "cos"][int(rng.integers(4))]
        return ("f", f, gen(rng, cols, ctxn, depth - 1))
    if r < .36:
        return ("neg", gen(rng, cols, ctxn, depth - 1))
    op = "+-*/^"[int(rng.integers(5))]
    a = gen(rng, cols, ctxn, depth - 1)
    b = ("n", float(rng.integers(1, 4))) if op == "^" else gen(rng, cols, ctxn, depth - 1)
    return ("o", op, a, b)


def show(rng, t, style):
    """text, precedence"""
    k = t[0]
    if k == "v":
        if t[2] == 0 and style == "br":
            return f"{t[1]}[t]", 9
        if style == "br":
            return f"{t[1]}[t{t[2]:+d}]", 9
        return f"{t[1]}({t[2]})", 9
    if k == "c":
        return t[1], 9
    if k == "t":
        return "t", 9
    if k == "n":
        return models.num(t[1]), 9
    if k == "f":
        return f"{t[1]}({show(rng, t[2], style)[0]})", 9
    if k == "neg":
        s, p = show(rng, t[1], style)
        return f"(-{s if p > 8 else '(' + s + ')'})", 9
    op = t[1]
    a, pa = show(rng, t[2], style)
    b, pb = show(rng, t[3], style)
    p = PREC[op]
    if pa < p or (op == "^" and pa < 9) or rng.random() < .1:
        a = f"({a})"
    if pb <= p:
        b = f"({b})"
    sp = " " if rng.random() < .5 else ""
    if op == "^" and rng.random() < .3:
        op = "**"
    return f"{a}{sp}{op}{sp}{b}", p


def ev(t, get):
    k = t[0]
    if k in "vct" and k != "neg":
        return get(t)
    if k == "n":
        return t[1]
    if k == "f":
        return dict(exp=np.exp, log=np.log, sin=np.sin, cos=np.cos)[t[1]](ev(t[2], get))
    if k == "neg":
        return -ev(t[1], get)
    a, b = np.float64(ev(t[2], get)), np.float64(ev(t[3], get))
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "^": lambda: a ** b}[t[1]]()


def finite(make, *contexts):
    """A formula which needs no division by zero nor overflow (python scalars raise there)."""
    while True:
        tree = make()
        ok = True
        for cx in contexts:
            sub = []

            def walk(t):
                v = ev(t, lambda u: cx[u[1]])
                sub.append(v)
                for u in t[1:]:
                    if isinstance(u, tuple):
                        walk(u)
            walk(tree)
            ok = ok and all(np.isfinite(v) and abs(v) < 1e6 for v in sub)
        if ok:
            return tree


def frames(ctx):
    import pandas as pd
    from dolo.compiler.eval_formula import eval_formula
    rng = ctx.rng
    np.seterr(all="ignore")
    for it in range(40):
        pool = ["k", "y", "alpha_1", "Δk", "c", "w2", "r"]
        pool = [pool[i] for i in rng.permutation(len(pool))]
        cols, ctxn = pool[:3], pool[3:6]
        T = int(rng.integers(1, 12))
        idx = [np.arange(T), np.arange(T) + 5, np.arange(T) * 2.0][int(rng.integers(3))]
        df = pd.DataFrame(rng.uniform(.5, 2, (T, 3)), index=idx, columns=cols)
        if rng.random() < .2:
            df.iloc[int(rng.integers(T)), 0] = np.nan
        cx = {k: float(rng.uniform(.3, 2)) for k in ctxn}
        if rng.random() < .4:
            cx.update({k: 100.0 for k in cols})      # calibrated values must not shadow the data
        tree = gen(rng, cols, ctxn, int(rng.integers(1, 5)))
        style = ["br", "par"][int(rng.integers(2))]
        txt = show(rng, tree, style)[0]
        vals = df.values.copy()

        def at(n):
            def get(t):
                if t[0] == "v":
                    j = n + t[2]
                    return vals[j, cols.index(t[1])] if 0 <= j < T else np.nan
                if t[0] == "c":
                    return cx[t[1]]
                return idx[n]
            return get
        want = np.array([ev(tree, at(n)) for n in range(T)], dtype=float)
        keep, keepx = snapshot([df.values, list(df.columns), list(df.index)]), dict(cx)
        ctx.case(txt, T, nontrivial=tree[0] in ("o", "f"))
        ctx.sample(formula=txt, rows=T, value=want[:3])
        with ctx.guard("eval", formula=txt):
            got = eval_formula(txt, df, cx)
        g = np.asarray(got, dtype=float)
        if g.ndim == 0:                    # a formula without data is a constant
            g = np.zeros(T) + g
        if isinstance(got, pd.Series):
            ctx.ok("index", list(got.index) == list(df.index), formula=txt)
        with np.errstate(all="ignore"):
            ctx.close("value", g, want, rtol=1e-9, atol=1e-10, formula=txt, T=T)
        ctx.ok("unmodified", snapshot([df.values, list(df.columns), list(df.index)]) == keep and cx == keepx, formula=txt)


def scalars(ctx):
    from dolo.compiler.eval_formula import eval_formula
    rng = ctx.rng
    np.seterr(all="ignore")
    for it in range(40):
        names = ["alpha", "beta", "k", "zz"]
        cx = {k: float(rng.uniform(.3, 2)) for k in names}
        tree = finite(lambda: gen(rng, [], names, int(rng.integers(1, 5))), cx)
        txt = show(rng, tree, "br")[0]
        keep = dict(cx)
        ctx.case(txt)
        with ctx.guard("eval", formula=txt):
            got = eval_formula(txt, context=cx)
        want = ev(tree, lambda t: cx[t[1]])
        ctx.close("value", float(got), float(want), rtol=1e-9, atol=1e-10, formula=txt)
        ctx.ok("unmodified", cx == keep, formula=txt)
    ctx.raises("unknown-name", lambda: eval_formula("alpha*nosuchname", context={"alpha": 1.0}))


def through_model(ctx):
    """Model.eval_formula: columns of a simulation, parameters of the current calibration."""
    import pandas as pd
    from dolo.algos.simulations import simulate
    from dolo.algos.perturbation import BivariateTaylor
    rng = ctx.rng
    np.seterr(all="ignore")
    spec = models.random_linear_spec(rng)
    txt, info = models.linear_yaml(spec, rng=rng)
    with ctx.guard("import"):
        model = models.load(txt)
    dr = BivariateTaylor(spec.m0, spec.s0, spec.x0, None, rng.normal(size=(len(spec.controls), len(spec.states))) * .1)
    with ctx.guard("simulate"):
        sim = simulate(model, dr, N=2, T=9, seed=3).sel(N=1).to_pandas()
    names = spec.exo + spec.states + spec.controls
    for it in range(12):
        if it == 6:
            p = spec.states[0] + "_ss"
            newval = float(np.round(model.calibration[p] + 1, 4))
            with ctx.guard("set_calibration"):
                model.set_calibration(**{p: newval})
            ctx.close("calibration-change", model.calibration[p], newval, rtol=1e-12)
        calib0 = snapshot({k: model.calibration[k] for k in names})
        par = {k: float(model.calibration[k]) for k in model.symbols["parameters"]}
        tree = gen(rng, names, list(par), 3)
        f = show(rng, tree, ["br", "par"][it % 2])[0]
        T = len(sim)
        vals = {k: np.asarray(sim[k], float) for k in names}

        def at(n):
            def get(t):
                if t[0] == "v":
                    j = n + t[2]
                    return vals[t[1]][j] if 0 <= j < T else np.nan
                return par[t[1]] if t[0] == "c" else n
            return get
        want = np.array([ev(tree, at(n)) for n in range(T)], dtype=float)
        ctx.case(f)
        before = sim.copy()
        with ctx.guard("eval", formula=f):
            got = model.eval_formula(f, sim)
        g = np.asarray(got, float)
        ctx.close("model-value", g if g.ndim else np.zeros(T) + g, want, rtol=1e-9, atol=1e-10, formula=f)
        ctx.ok("model-unmodified", before.equals(sim) and snapshot({k: model.calibration[k] for k in names}) == calib0)
        # explicit calibration, no data
        tree = finite(lambda: gen(rng, [], list(par), 2), par, {k: v + .5 for k, v in par.items()})
        f = show(rng, tree, "br")[0]
        with ctx.guard("eval", formula=f):
            got = model.eval_formula(f)
        ctx.close("model-scalar", float(got), float(ev(tree, lambda t: par[t[1]])), rtol=1e-9, atol=1e-10, formula=f)
        oc = {k: v + .5 for k, v in par.items()}
        with ctx.guard("eval", formula=f):
            got = model.eval_formula(f, calib=oc)
        ctx.close("model-calib", float(got), float(ev(tree, lambda t: oc[t[1]])), rtol=1e-9, atol=1e-10, formula=f)


SCENARIOS = [Scenario("frames", frames, quick=8, thorough=400), Scenario("scalars", scalars, quick=2, thorough=60),
             Scenario("through_model", through_model, quick=4, thorough=40)]
