"""C33 what is displayed is what was computed: graphs, model summaries, progress tables."""
import contextlib
import html
import io
import os
import re
import numpy as np
from vm.core import Scenario, snapshot
from vm import models
from vm.props import c15, c19, c20
from vm.props.c11 import random_dr
from vm.props.c17 import make_linear

RULE = ("graphs of random decision rules and of random simulations, read back from the figure and compared with the rule evaluated by an "
        "independent formula and with the data; model summaries (terminal and html) at the steady state and at random calibrations, parsed and "
        "compared with the residuals of an independent reader of the model; progress tables printed by the algorithms, parsed and compared with "
        "the returned results, with and without verbosity; non-trivial: something differs from the default")
REQUIRED = {"decision-rule:lines": 40, "irf:lines": 200, "summary:residual": 60, "html:residual": 60, "progress:last": 12, "silent": 12,
            "printer:values": 100}

RED = re.compile(r"\x1b\[31m(.*?)\x1b\[0m")


# --------------------------------------------------------------------------- graphs
@contextlib.contextmanager
def figure():
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    plt.close("all")
    try:
        yield plt
    finally:
        plt.close("all")


def rules(ctx):
    from dolo.algos.simulations import plot_decision_rule, tabulate
    from dolo.algos.results import PerturbationResult
    rng = ctx.rng
    kind = ["iid", "var", "markov"][ctx.rep % 3]
    nm = int(rng.integers(1, 3))
    spec = models.random_linear_spec(rng, ns=int(rng.integers(1, 4)), nx=int(rng.integers(1, 4)), nm=nm)
    V = P = None
    if kind == "iid":
        exo, S = models.exo_iid(rng, nm)
    elif kind == "var":
        exo, rho, S = models.exo_var(rng, nm)
    else:
        exo, V, P = models.exo_markov(rng, nm, n=int(rng.integers(2, 5)))
    defs = models.auxiliaries(rng, spec)
    txt, info = models.linear_yaml(spec, exo_text=exo, rng=rng, definitions=defs)
    with ctx.guard("import"):
        model = models.load(txt)
    par = models.params_of(model)
    ns, nx = len(spec.states), len(spec.controls)
    dom = np.array([info["domain"][v] for v in spec.states])
    for it in range(4):
        dr, ref = random_dr(rng, spec, kind, info, model, V, P)
        j = int(rng.integers(ns))
        kw = {}
        b = dom[j]
        if rng.random() < .5:
            b = np.sort(dom[j].mean() + rng.normal(size=2))
            kw["bounds"] = b.tolist()
        n = 100
        if rng.random() < .7:
            n = kw["n_steps"] = int(rng.integers(2, 30))
        s0 = spec.s0
        if rng.random() < .5:
            s0 = kw["s0"] = spec.s0 + rng.normal(size=ns) * .2
        i0, m0 = 0, np.zeros(nm)
        if kind == "markov":
            i0 = (len(V) + 1) // 2 - 1
            if rng.random() < .7:
                i0 = kw["i0"] = int(rng.integers(len(V)))
            m0 = V[i0]
        elif rng.random() < .6:
            m0 = kw["m0"] = rng.normal(size=nm) * .1
        s = np.zeros((n, ns)) + s0
        s[:, j] = np.linspace(b[0], b[1], n)
        m = np.zeros((n, nm)) + m0
        x = ref([i0] * n, m, s)
        cols = dict(zip(spec.exo + spec.states + spec.controls + [k for k, _ in defs],
                        np.concatenate([m, s, x, models.eval_aux(defs, spec, m, s, x, par)], axis=1).T))
        shown = [list(cols)[int(k)] for k in rng.permutation(len(cols))[:int(rng.integers(1, 4))]]
        mode = it % 3
        pc = [None, shown[0], shown][mode]
        style = dict(color=["red", "blue"][it % 2], linewidth=float(1 + it)) if mode and rng.random() < .6 else {}
        obj = PerturbationResult(dr, [], True, True, True) if kind != "markov" and rng.random() < .3 else dr
        det = dict(kind=kind, controls=pc, options=sorted(kw), style=style)
        ctx.case("rule", kind, j, mode, sorted(kw), spec.s0)
        keep = snapshot([s0, m0, model.calibration])
        with figure() as plt, ctx.guard("plot_decision_rule", **det):
            if mode:
                got = plot_decision_rule(model, obj, spec.states[j], plot_controls=pc, **kw, **style)
            else:
                got = plot_decision_rule(model, obj, spec.states[j], **kw)
            if mode == 0:
                ctx.ok("decision-rule:no-graph", not plt.get_fignums() or not plt.gca().lines)
                if ctx.ok("decision-rule:table", list(got.columns) == list(cols) and len(got) == n, got=list(got.columns)):
                    ctx.close("decision-rule:table", got.values, np.stack(list(cols.values()), axis=1), rtol=1e-7, atol=1e-9, **det)
                continue
            ax = plt.gca()
            lines = ax.get_lines()
            names = [pc] if mode == 1 else pc
            if not ctx.ok("decision-rule:number", len(lines) == len(names), got=len(lines), **det):
                continue
            for l, c in zip(lines, names):
                ctx.close("decision-rule:lines", np.asarray(l.get_xdata(), float), s[:, j], rtol=1e-9, atol=1e-11, axis="x", **det)
                ctx.close("decision-rule:lines", np.asarray(l.get_ydata(), float), cols[c], rtol=1e-7, atol=1e-9, axis="y", variable=c, **det)
                for k, v in style.items():
                    ctx.ok("decision-rule:style", getattr(l, "get_" + k)() == v, got=getattr(l, "get_" + k)(), want=v)
            if mode == 2:
                leg = ax.get_legend()
                ctx.ok("decision-rule:legend", leg is not None and [t.get_text() for t in leg.get_texts()] == names,
                       got=None if leg is None else [t.get_text() for t in leg.get_texts()], want=names)
            ctx.ok("decision-rule:axis", spec.states[j] in ax.get_xlabel(), got=ax.get_xlabel())
        ctx.ok("arguments-unchanged", keep == snapshot([s0, m0, model.calibration]))


def irfs(ctx):
    import pandas as pd
    from dolo.misc.graphs import plot_irfs
    rng = ctx.rng
    for it in range(3):
        nv = int(rng.integers(1, 13))
        k = int(rng.integers(1, 4))
        T = int(rng.integers(2, 40))
        names = [f"v{i}_{'xyz'[i % 3]}" for i in rng.permutation(30)[:nv + int(rng.integers(0, 3))]]
        sims = [pd.DataFrame(rng.normal(size=(T, len(names))) * 10.0 ** rng.integers(-2, 3) + rng.normal() * 5, columns=[names[i] for i in rng.permutation(len(names))])
                for _ in range(k)]
        kw = {}
        var = list(sims[0].columns)
        if rng.random() < .7 or len(names) > 12:
            var = kw["variables"] = [names[i] for i in rng.permutation(len(names))[:nv]]
        titles = var
        if rng.random() < .4:
            titles = kw["titles"] = [f"title {i}" for i in range(len(var))]
        h = T
        if rng.random() < .5:
            h = kw["horizon"] = int(rng.integers(1, T + 1))
        lo = [{}] * k
        if rng.random() < .5:
            lo = kw["line_options"] = [dict(color=["red", "green", "blue"][j], linestyle=["-", "--", ":"][j]) for j in range(k)]
        po = {}
        if rng.random() < .4:
            po = kw["plot_options"] = dict(linewidth=3.0)
        if rng.random() < .3:
            kw["figsize"] = (7.0, 5.0)
        if rng.random() < .3:
            r = int(rng.integers(1, 4))
            kw["layout"] = (r, -(-len(var) // r) + int(rng.integers(2)))
        arg = sims[0] if k == 1 and rng.random() < .5 else sims
        keep = [s.copy() for s in sims], snapshot(kw)
        det = dict(options=sorted(kw), n=len(var), sims=k, T=T)
        ctx.case("irf", len(var), k, T, sorted(kw), nontrivial=bool(kw))
        with figure() as plt, ctx.guard("plot_irfs", **det):
            fig = plot_irfs(arg, **kw)
            axes = fig.axes
            if "figsize" in kw:
                ctx.close("irf:size", fig.get_size_inches(), kw["figsize"])
            if not ctx.ok("irf:panels", len(axes) >= len(var) and all(not a.lines for a in axes[len(var):]), got=len(axes), want=len(var), **det):
                continue
            if "layout" in kw:
                ctx.ok("irf:layout", len(axes) == kw["layout"][0] * kw["layout"][1], got=len(axes), want=kw["layout"])
            for i, v in enumerate(var):
                ax = axes[i]
                ctx.ok("irf:title", ax.get_title() == titles[i], got=ax.get_title(), want=titles[i])
                if not ctx.ok("irf:number", len(ax.lines) == k, got=len(ax.lines), want=k, **det):
                    continue
                for j in range(k):
                    l = ax.lines[j]
                    ctx.close("irf:lines", np.asarray(l.get_ydata(), float), sims[j][v].values[:h], rtol=1e-12, atol=0, variable=i, simulation=j, **det)
                    ctx.close("irf:lines", np.asarray(l.get_xdata(), float), np.arange(h), rtol=0, atol=0, axis="x", **det)
                    for o, w in {**po, **lo[j]}.items():
                        ctx.ok("irf:style", getattr(l, "get_" + o)() == w, option=o, got=getattr(l, "get_" + o)(), want=w)
                lo_, hi_ = ax.get_ylim()
                a = np.concatenate([s[v].values[:h] for s in sims])
                ctx.ok("irf:visible", lo_ <= a.min() and a.max() <= hi_, got=[lo_, hi_], want=[a.min(), a.max()], **det)
                x0, x1 = ax.get_xlim()
                ctx.ok("irf:visible", x0 <= 0 and x1 >= h - 1, got=[x0, x1], horizon=h)
        ctx.ok("arguments-unchanged", all(a.equals(b) for a, b in zip(keep[0], sims)) and keep[1] == snapshot(kw))


# --------------------------------------------------------------------------- summaries
def parse_text(txt):
    """-> head, {block: [(number, residual or None, red, equation)]}"""
    head, _, body = txt.partition("Equations:")
    out, cur = {}, None
    for line in body.split("\n"):
        if not line.strip() or set(line.strip()) == {"-"}:
            continue
        m = re.match(r"^ (\S+)\s*: (.*)$", line)
        if m is None:
            cur = out.setdefault(line.strip(), [])
            continue
        rest = m.group(2)
        r = re.match(r"^(\x1b\[31m)?([-+]?\d+\.\d+|nan|inf|-inf)(\x1b\[0m)? : (.*)$", rest)
        if r:
            cur.append((m.group(1), r.group(2), bool(r.group(1)) and bool(r.group(3)), r.group(4)))
        else:
            cur.append((m.group(1), None, False, rest))
    return head, out


def check_summary(ctx, model, want, path=None, name=None, **info):
    """want: {block: residuals}"""
    os.environ.pop("ANSI_COLORS_DISABLED", None)
    before = snapshot(model.calibration)
    with ctx.guard("str", **info):
        txt, rep = str(model), repr(model)
    ctx.ok("summary:same", txt == rep)
    head, blocks = parse_text(txt)
    if name is not None:
        ctx.ok("summary:name", f'"{name}"' in head, got=head, want=name)
    if path is not None:
        ctx.ok("summary:file", f'"{path}' in head, got=head, want=path)
    eqs = model.equations
    for g, res in want.items():
        rows = blocks.get(g, [])
        if not ctx.ok("summary:block", len(rows) == len(res) and [r[0] for r in rows] == [str(i + 1) for i in range(len(res))],
                      block=g, got=rows, **info):
            continue
        for i, (r, v) in enumerate(zip(rows, res)):
            ctx.ok("summary:equation", r[3].strip() == eqs[g][i].strip(), block=g, got=r[3], want=eqs[g][i])
            shown(ctx, "summary:residual", r[1], r[2], v, 4, block=g, line=i, **info)
    defs = [f"{k} = {v}" for k, v in model.definitions.items()]
    ctx.ok("summary:definitions", [r[3].strip() for r in blocks.get("definitions", [])] == [e.strip() for e in defs]
           and all(r[1] is None for r in blocks.get("definitions", [])), got=blocks.get("definitions"), want=defs)
    # ---- html
    with ctx.guard("html", **info):
        h = model._repr_html_()
    ctx.ok("html:name", name is None or f"<td>{name}</td>" in h)
    if path is not None:
        ctx.ok("html:file", f"<td>{path}</td>" in h, want=path)
    table = h[h.rindex("<table>"):]
    rows = re.findall(r"<tr><td>([^<]*)</td><td>\$(.*?)\$</td><td>(.*?)</td></tr>", table, flags=re.S)
    cur, got = None, {}
    for g, eq, val in rows:
        cur = g or cur
        got.setdefault(cur, []).append(val)
    for g in list(eqs) + ["definitions"]:
        n = len(model.definitions) if g == "definitions" else len(eqs[g])
        ctx.ok("html:equations", len(got.get(g, [])) == n, block=g, got=len(got.get(g, [])), want=n, **info)
    for g, res in want.items():
        for i, (val, v) in enumerate(zip(got.get(g, []), res)):
            r = re.match(r'^<span style="color: red;">(.*?)</span>$', val)
            shown(ctx, "html:residual", r.group(1) if r else val, bool(r), v, 4 if r else 3, block=g, line=i, **info)
    ctx.ok("summary:model-unchanged", snapshot(model.calibration) == before)


def shown(ctx, mon, text, red, value, digits, **info):
    if .2e-8 < abs(value) < 5e-8:
        return      # at the limit between zero and not zero
    try:
        v = float(text)
    except (TypeError, ValueError):
        ctx.ok(mon, False, why="no number", got=text, want=value, **info)
        return
    ctx.ok(mon, abs(v - value) <= .5001 * 10.0 ** -digits + 1e-9 * abs(value), got=text, want=value, **info)
    ctx.ok(mon + ":signalled", red == (abs(value) > 1e-8), got=red, want=value, **info)


def perturbed(ctx, model, names):
    """Another calibration of some variables, by a large or a small amount."""
    rng = ctx.rng
    kw = {}
    for v in names:
        if rng.random() < .6:
            kw[v] = float(model.calibration[v]) + float(rng.normal()) * 10.0 ** int(rng.integers(-6, 2))
    if kw:
        model.set_calibration(**kw)
    return kw


def summaries(ctx):
    import dolo
    rng = ctx.rng
    style = ["new", "old"][ctx.rep % 2]
    spec = models.random_linear_spec(rng)
    nm = len(spec.exo)
    bounds = [(f"{models.num(x - 1)}", "inf") for x in spec.x0] if rng.random() < .4 else None
    txt, info = models.linear_yaml(spec, exo_text=models.exo_iid(rng, nm)[0], rng=rng, definitions=models.auxiliaries(rng, spec), style=style, bounds=bounds)
    name = ["Growth", "My Model (v2)", "é ü", None][int(rng.integers(4))]
    txt = txt.replace("name: lin\n", "" if name is None else f"name: {name}\n")
    path = os.path.join(os.environ.get("VM_SCRATCH", "/tmp"), f"s_{os.getpid()}_{ctx.rep}.yaml")
    with open(path, "w", encoding="utf-8") as f:
        f.write(txt)
    try:
        with ctx.guard("import"):
            model = dolo.yaml_import(path)
    finally:
        os.remove(path)
    ctx.ok("infos", model.infos["filename"] == path and model.infos["name"] == (name or "Anonymous"), got=model.infos, want=[name, path])
    Y = models.read_yaml(txt, is_text=True)
    for it in range(4):
        kw = perturbed(ctx, model, spec.states + spec.controls) if it else {}
        c = model.calibration
        tr, ar = c15.reader_residuals(Y, c["exogenous"], c["states"], c["controls"], models.params_of(model))
        ctx.case("summary", style, sorted(kw.items()), spec.s0, nontrivial=bool(kw))
        check_summary(ctx, model, dict(transition=tr, arbitrage=ar), path=path, name=name or "Anonymous", style=style, changed=kw)


def nonlinear(ctx):
    rng = ctx.rng
    u = lambda a, b: float(np.round(rng.uniform(a, b), 4))
    v = dict(e="eps", k="kap", c="con", alpha=u(.2, .5), delta=u(.02, .2), beta=u(.92, .99), gam=u(.5, 3), zz=u(.5, 2), kf=u(.85, 1.15), cf=u(.9, 1.1))
    txt = c15.NL.format(**v)
    with ctx.guard("import"):
        model = models.load(txt)
    Y = models.read_yaml(txt, is_text=True)
    for it in range(4):
        kw = perturbed(ctx, model, ["eps"]) if it else {}
        if it:
            model.set_calibration(kap=float(model.calibration["kap"]) * u(.8, 1.2), alpha=u(.2, .5))
        c = model.calibration
        tr, ar = c15.reader_residuals(Y, c["exogenous"], c["states"], c["controls"], models.params_of(model))
        ctx.case("nonlinear", v, it)
        check_summary(ctx, model, dict(transition=tr, arbitrage=ar), kind="nonlinear")


# --------------------------------------------------------------------------- progress
def table(txt):
    """Rows of numbers of a printed table, and its title row."""
    rows, title = [], None
    for l in txt.split("\n"):
        if not l.startswith("|"):
            continue
        cells = [c.strip() for c in l.strip().strip("|").split("|")]
        try:
            rows.append([float(c) for c in cells])
        except ValueError:
            if len(cells) > 1:
                title = cells
    return title, rows


def loud(fn, *a, **kw):
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        r = fn(*a, **kw)
    return r, f.getvalue()


def same_number(text, v):
    """text was printed with three decimals of the mantissa."""
    return bool(np.isclose(text, v, rtol=6e-4, atol=1e-300)) or (np.isnan(text) and np.isnan(v))


def compare(ctx, name, fn, values, last, first, nrows, **kw):
    """fn(verbose=True) and fn(verbose=False): same result, one table, nothing printed."""
    with ctx.guard(name, **kw):
        r, out = loud(fn, verbose=True, **kw)
        q, quiet = loud(fn, verbose=False, **kw)
    ctx.ok("silent", quiet == "", algorithm=name, got=quiet[:300])
    a, b = values(r), values(q)
    ctx.ok("verbosity-changes-nothing", len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)), algorithm=name)
    title, rows = table(out)
    ctx.case("progress", name, len(rows), kw.get("maxit"))
    if not ctx.ok("progress:rows", title is not None and len(rows) == nrows(r) and all(len(x) == len(title) for x in rows),
                  algorithm=name, rows=len(rows), want=nrows(r), title=title):
        return r
    n = title.index("N")
    ctx.ok("progress:count", [x[n] for x in rows] == list(range(first, first + len(rows))), algorithm=name, got=[x[n] for x in rows][:20])
    for c, v in last(r).items():
        ctx.ok("progress:last", same_number(rows[-1][title.index(c)], v), algorithm=name, column=c, got=rows[-1][title.index(c)], want=v)
    for gain, err in (("Gain", "Error"), ("Gain_V", "Error_V"), ("Gain_x", "Error_x")):
        if gain in title:
            g, e = title.index(gain), title.index(err)
            for p, c in zip(rows, rows[1:]):
                if p[e] > 0:
                    ctx.ok("progress:gain", np.isclose(c[g], c[e] / p[e], rtol=3e-3, atol=1.1e-3), algorithm=name, got=c[g], want=c[e] / p[e])
    ctx.sample(algorithm=name, title=title, row=rows[-1])
    return r


def progress(ctx):
    from dolo.algos.time_iteration import time_iteration
    from dolo.algos.improved_time_iteration import improved_time_iteration
    from dolo.algos.perfect_foresight import deterministic_solve
    from dolo.algos.perturbation import perturb
    from dolo.algos.steady_state import find_steady_state
    rng = ctx.rng
    kind = ["var", "iid", "markov"][ctx.rep % 3]
    d = make_linear(ctx, kind, ns=1, n=[int(rng.integers(3, 6))], bounds=bool(rng.integers(2)))
    model = d["model"]
    vals = lambda r: [r.dr(i, r.dr.endo_grid.nodes) if r.dr.exo_grid.__class__.__name__ != "EmptyGrid" else r.dr(r.dr.endo_grid.nodes)
                      for i in range(max(1, getattr(r.dr.exo_grid, "n_nodes", 1)))]
    mx = [500, 3, 8][int(rng.integers(3))]
    compare(ctx, "time_iteration", lambda **k: time_iteration(model, **k), lambda r: vals(r) + [r.err, r.iterations, r.x_converged],
            lambda r: dict(Error=r.err), 1, lambda r: r.iterations, maxit=mx, tol=float(10.0 ** -rng.integers(4, 9)))
    compare(ctx, "improved_time_iteration", lambda **k: improved_time_iteration(model, details=True, **k), lambda r: vals(r) + [r.f_x, r.d_x, r.N],
            lambda r: dict(f_x=r.f_x, d_x=r.d_x), 0, lambda r: r.N + 1, maxit=[20, 3][int(rng.integers(2))])
    if kind != "markov":
        with ctx.guard("quiet"):
            _, out = loud(perturb, model, verbose=False)
            _, out2 = loud(deterministic_solve, model, T=10, verbose=False)
        ctx.ok("silent", out == "", algorithm="perturb", got=out[:300])
        from dolo.algos.simulations import response, simulate, tabulate
        with ctx.guard("quiet"):
            dr = perturb(model, verbose=False)
            calls = dict(simulate=lambda: simulate(model, dr, N=2, T=5), response=lambda: response(model, dr, model.symbols["exogenous"][0], T=5),
                         tabulate=lambda: tabulate(model, dr, model.symbols["states"][0], n_steps=4, bounds=[-1.0, 1.0]),
                         discretize=lambda: model.exogenous.discretize(to="mc" if kind == "var" else "iid"), residuals=lambda: model.residuals())
            outs = {n: loud(f)[1] for n, f in calls.items()}
        for n, o in outs.items():
            ctx.ok("silent", o == "", algorithm=n, got=o[:300])
        ctx.ok("silent", out2 == "", algorithm="deterministic_solve", got=out2[:300])
        with ctx.guard("verbose"):
            a, _ = loud(deterministic_solve, model, T=10, verbose=True)
            b, _ = loud(deterministic_solve, model, T=10, verbose=False)
        ctx.ok("verbosity-changes-nothing", a.equals(b), algorithm="deterministic_solve")
    with ctx.guard("quiet"):
        _, out = loud(find_steady_state, model)
    ctx.ok("silent", out == "", algorithm="find_steady_state", got=out[:300])


def progress_values(ctx):
    from dolo.algos.egm import egm
    from dolo.algos.value_iteration import value_iteration, evaluate_policy
    from dolo.algos.time_iteration import time_iteration
    rng = ctx.rng
    kind = ["iid", "markov"][ctx.rep % 2]
    model, Y, d = c20.make(ctx, kind, n=8)
    s = lambda r: r.dr.endo_grid.nodes
    both = lambda dr: [dr.eval_is(i, dr.endo_grid.nodes) for i in range(max(1, getattr(dr.exo_grid, "n_nodes", 1)))]
    r = compare(ctx, "value_iteration", lambda **k: value_iteration(model, **k), lambda r: both(r.dr) + both(r.drv) + [r.iterations],
                lambda r: dict(Error_V=r.v_err, Error_x=r.x_err), 1, lambda r: r.iterations, maxit=int(rng.integers(2, 6)))
    with ctx.guard("evaluate_policy"):
        ti = time_iteration(model, verbose=False, maxit=10)
    compare(ctx, "evaluate_policy", lambda **k: evaluate_policy(model, ti.dr, details=True, **k), lambda r: both(r.solution) + [r.iterations],
            lambda r: {}, 1, lambda r: r.iterations, maxit=int(rng.integers(3, 30)), tol=1e-12)
    model, d = c19.make(ctx, kind, n=20)
    ag = d["amin"] + np.linspace(0, 1, 15) ** 2 * 5
    with ctx.guard("egm"):
        _, out = loud(egm, model, a_grid=ag, verbose=False)
    ctx.ok("silent", out == "", algorithm="egm", got=out[:300])


def printer(ctx):
    from dolo.misc.itprinter import IterationsPrinter
    rng = ctx.rng
    for it in range(12):
        k = int(rng.integers(1, 8))
        types = [[int, float][int(rng.integers(2))] for _ in range(k)]
        names = [f"{'nefgab'[i % 6]}{'_long_name'[:int(rng.integers(0, 10))]}{i}" for i in range(k)]
        vals = [{n: int(rng.integers(0, 10 ** int(rng.integers(1, 6)))) if t is int else float(rng.choice([rng.normal() * 10.0 ** rng.integers(-12, 12), np.nan, np.inf, 0.0], p=[.85, .05, .05, .05]))
                 for n, t in zip(names, types)} for _ in range(5)]

        def show(verbose, vals=vals, names=names, types=types):
            p = IterationsPrinter(*zip(names, types), verbose=verbose)
            p.print_header("Something.")
            for v in vals:
                p.print_iteration(**v)
            p.print_finished()
        with ctx.guard("printer"):
            _, out = loud(show, True)
            _, no = loud(show, False)
        ctx.ok("silent", no == "", got=no[:200])
        ctx.case("printer", names, [t.__name__ for t in types])
        title, rows = table(out)
        if k == 1:
            title = names if any(l.strip("| ") == names[0] for l in out.split("\n")) else title
        ctx.ok("printer:title", title == names, got=title, want=names)
        ctx.ok("printer:message", "Something." in out and "Elapsed" in out)
        if ctx.ok("printer:rows", len(rows) == len(vals), got=len(rows), want=len(vals)):
            for r, v in zip(rows, vals):
                ctx.ok("printer:values", all(same_number(a, v[n]) if t is float else a == v[n] for a, n, t in zip(r, names, types)), got=r, want=v)


SCENARIOS = [Scenario("rules", rules, 12, 90, 120), Scenario("irfs", irfs, 10, 80, 180), Scenario("summaries", summaries, 8, 64, 120),
             Scenario("nonlinear", nonlinear, 3, 24, 120), Scenario("progress", progress, 6, 36, 240),
             Scenario("progress_values", progress_values, 2, 10, 400), Scenario("printer", printer, 4, 24, 60)]
