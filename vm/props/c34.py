"""C34 model files that say the same thing give the same model."""
import os
import re
import warnings
import numpy as np
from vm.core import Scenario, Skip
from vm import models
from vm.props import c15, c17, c19, c20

RULE = ("random and example model files, rewritten without changing what they say (order of sections and entries, flow or block style, quotes, "
        "indentation, comments, line endings, numbers written as expressions, location and name of the file, names of the symbols, order in which "
        "states, controls, shocks and definitions are declared); symbols, calibration, equations, domain, grid, discretized shocks, compiled "
        "functions and solutions of both models are compared; non-trivial: the two files differ")
REQUIRED = {"symbols": 30, "calibration": 30, "functions": 60, "process": 30, "grid": 30, "solution": 10, "imported": 8}


# ------------------------------------------------------------------ what a model says
def specs():
    import yaml
    with open(os.path.join(models.REPO, "dolo", "compiler", "recipes.yaml")) as f:
        return yaml.safe_load(f)["dtcc"]["specs"]


def functions_of(model, rng_seed, order=None):
    """name -> outputs at random points around the calibration (one column per equation)."""
    sp = specs()
    out = {}
    for name, fun in model.functions.items():
        if name == "auxiliary":
            args = [["exogenous"], ["states"], ["controls"], ["parameters"]]
        elif name in ("arbitrage_lb", "arbitrage_ub"):
            args = [["exogenous"], ["states"], ["parameters"]]
        elif name in sp:
            args = sp[name]["eqs"]
        else:
            continue
        a = []
        for j, g in enumerate(args):
            g = g[0]
            c = np.asarray(model.calibration[g], float)
            if g == "parameters":
                a.append(c)
                continue
            # the perturbation belongs to the name of the variable, not to its position
            pts = np.empty((4, len(c)))
            for k, n in enumerate(model.symbols[g]):
                n = n if order is None else order[n]
                r = np.random.default_rng([rng_seed, j] + [ord(ch) for ch in n])
                pts[:, k] = (c[k] if np.isfinite(c[k]) else 1.0) + (.1 * abs(c[k]) if np.isfinite(c[k]) else .1) * r.uniform(0, 1, 4) + .02 * r.normal(size=4) * (c[k] == 0)
            a.append(pts)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            out[name] = np.asarray(fun(*a), float)
    return out


def leaves(o, d=0):
    """All numbers held by an object, in the order of its attributes."""
    if d > 5 or isinstance(o, (str, bool)) or o is None or callable(o):
        return []
    if isinstance(o, (int, float, np.generic)):
        return [np.atleast_1d(float(o))]
    if isinstance(o, np.ndarray):
        return [o.ravel().astype(float)] if o.dtype.kind in "fiu" else []
    if isinstance(o, (list, tuple)):
        return [l for e in o for l in leaves(e, d + 1)]
    if isinstance(o, dict):
        return [l for k in sorted(o, key=str) for l in leaves(o[k], d + 1)]
    if hasattr(o, "__dict__"):
        return leaves({k: v for k, v in vars(o).items() if not k.startswith("_")}, d + 1)
    return []


def nodes(dp):
    n = max(1, dp.n_nodes)
    res = []
    for i in range(n):
        k = dp.n_inodes(i)
        res.append((np.ravel(dp.node(i)) if dp.n_nodes else np.zeros(0),
                    np.array([np.ravel(dp.inode(i, j)) for j in range(k)]), np.array([dp.iweight(i, j) for j in range(k)])))
    return res


def same(ctx, a, b, back=None, what="", solve=True, rtol=1e-11):
    """a and b are the same model; back: names of b -> names of a."""
    back = back or {}
    nm = lambda v: back.get(v, v)
    A, B = a.symbols, b.symbols
    ctx.ok("symbols", set(A) == set(B) and all(list(A[k]) == [nm(v) for v in B[k]] for k in A), what=what, got=dict(B), want=dict(A))
    try:
        n1, n2 = [len(v) for v in a.equations.values()], [len(b.equations[k]) for k in a.equations]
    except KeyError as e:
        n1, n2 = 0, repr(e)
    ctx.ok("equations", n1 == n2 and set(a.equations) == set(b.equations) and len(a.definitions) == len(b.definitions), what=what, got=n2, want=n1)
    for g in A:
        ctx.close("calibration", np.asarray(b.calibration[g], float), np.asarray(a.calibration[g], float), rtol=rtol, atol=1e-13, group=g, what=what)
    ctx.close("domain", np.array([list(b.domain.min), list(b.domain.max)], float), np.array([list(a.domain.min), list(a.domain.max)], float), rtol=rtol, atol=1e-13, what=what)
    fa, fb = functions_of(a, 5), functions_of(b, 5, order={n: nm(n) for g in B.values() for n in g})
    if ctx.ok("functions", set(fa) == set(fb), got=sorted(fb), want=sorted(fa), what=what):
        for k in fa:
            ctx.close("functions", fb[k], fa[k], rtol=1e-9, atol=1e-11, function=k, what=what)
    with ctx.guard("grid"):
        ga, gb = a.endo_grid, b.endo_grid
        ctx.ok("grid", type(ga) is type(gb), got=type(gb).__name__, want=type(ga).__name__, what=what)
        ctx.close("grid", gb.nodes, ga.nodes, rtol=rtol, atol=1e-13, what=what)
    ea, eb = a.exogenous, b.exogenous
    ctx.ok("process", type(ea) is type(eb) and [nm(v) for v in getattr(eb, "variables", ())] == list(getattr(ea, "variables", ())),
           got=[type(eb).__name__, list(getattr(eb, "variables", ()))], want=[type(ea).__name__, list(getattr(ea, "variables", ()))], what=what)
    la, lb = leaves(ea), leaves(eb)
    if ctx.ok("process", len(la) == len(lb), what=what):
        for p, q in zip(la, lb):
            ctx.close("process", q, p, rtol=rtol, atol=1e-13, what=what)
    with ctx.guard("discretize", what=what):
        na, nb = nodes(ea.discretize()), nodes(eb.discretize())
    if ctx.ok("process", len(na) == len(nb), what=what):
        for p, q in zip(na, nb):
            for u, v in zip(p, q):
                ctx.close("process", v, u, rtol=1e-9, atol=1e-12, part="discretized", what=what)
    if solve:
        solution(ctx, a, b, what)


def solution(ctx, a, b, what):
    from dolo.algos.perturbation import perturb
    from dolo.algos.time_iteration import time_iteration
    from dolo.numeric.processes import MarkovChain
    if isinstance(a.exogenous, MarkovChain) or any("/" in e for e in a.equations["arbitrage"]):
        with ctx.guard("time_iteration", what=what):
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                r = [time_iteration(m, verbose=False, maxit=3, interp_method="linear") for m in (a, b)]
        ctx.close("solution", r[1].dr(0, b.endo_grid.nodes) if a.exogenous.__class__ is MarkovChain else r[1].dr.eval_is(0, b.endo_grid.nodes),
                  r[0].dr(0, a.endo_grid.nodes) if a.exogenous.__class__ is MarkovChain else r[0].dr.eval_is(0, a.endo_grid.nodes), rtol=1e-6, atol=1e-8, what=what)
    else:
        with ctx.guard("perturb", what=what):
            r = [perturb(m, verbose=False) for m in (a, b)]
        if r[0].determined and r[0].stable:
            for x in ("C_s", "C_m"):
                if hasattr(r[0].dr, x):
                    ctx.close("solution", getattr(r[1].dr, x), getattr(r[0].dr, x), rtol=1e-6, atol=1e-8, part=x, what=what)
            ctx.close("solution", r[1].dr.x_bar, r[0].dr.x_bar, rtol=1e-9, atol=1e-11, what=what)


# ------------------------------------------------------------------ sources
def source(ctx, k=None):
    """Text of a random model."""
    rng = ctx.rng
    k = int(rng.integers(8)) if k is None else k % 8
    if k < 3:
        kind = ["iid", "var", "markov"][k]
        c17.make_linear(ctx, kind, bounds=bool(rng.integers(2)), grid=["cartesian", "nonuniform", "default"][int(rng.integers(3))] if k else "cartesian", ns=2)
        return models.LAST[0]
    if k == 3:
        return c17.growth(ctx, ["iid", "var", "markov"][int(rng.integers(3))])
    if k == 4:
        c20.make(ctx, ["iid", "markov", "var"][int(rng.integers(3))])
        return models.LAST[0]
    if k == 5:
        c19.make(ctx, ["iid", "markov"][int(rng.integers(2))])
        return models.LAST[0]
    if k == 6:
        spec = models.random_linear_spec(rng, ns=2)
        return models.linear_yaml(spec, exo_text=models.exo_iid(rng, len(spec.exo))[0], rng=rng, definitions=models.auxiliaries(rng, spec), style="new")[0]
    ex = ["rbc.yaml", "rbc_iid.yaml", "rbc_mc.yaml", "rbc_ar1.yaml", "consumption_savings_iid.yaml"]
    with open(os.path.join(models.REPO, "examples", "models", ex[int(rng.integers(len(ex)))]), encoding="utf-8") as f:
        return f.read()


# ------------------------------------------------------------------ rewriting
def rewrite(rng, txt):
    """The same file in another style -> text, what was done."""
    import yaml
    root = yaml.compose(txt)
    done = []

    def literal(n):
        if isinstance(n, yaml.ScalarNode):
            return n.style == "|"
        if isinstance(n, yaml.SequenceNode):
            return any(literal(e) for e in n.value)
        return any(literal(v) for _, v in n.value)

    def walk(n, path=()):
        if isinstance(n, yaml.MappingNode):
            # sections, and entries which refer to each other by name, can come in any order
            if path in ((), ("calibration",), ("domain",), ("symbols",)) and rng.random() < .7:
                n.value = [n.value[int(i)] for i in rng.permutation(len(n.value))]
                done.append("order of " + ("/".join(path) or "sections"))
            for k, v in n.value:
                walk(v, path + (k.value,))
        elif isinstance(n, yaml.SequenceNode):
            for v in n.value:
                walk(v, path + ("-",))
        elif n.style is None and path[:1] in (("calibration",), ("domain",)) and rng.random() < .25:
            if re.fullmatch(r"[-\d.]+", n.value) and len(path) == 2:
                n.value = [f"({n.value})", f"1*({n.value})", f"({n.value}) + 0"][int(rng.integers(3))]
                n.tag = "tag:yaml.org,2002:str"
                done.append("expressions")
        if not isinstance(n, yaml.ScalarNode) and path and not literal(n):
            # (an equation in quotes is not an equation)
            n.flow_style = bool(rng.integers(2)) and path[0] not in ("equations", "definitions")
    walk(root)
    out = yaml.serialize(root, allow_unicode=True, indent=int(rng.choice([2, 3, 4, 8])), width=10 ** 6, explicit_start=bool(rng.integers(2)))
    lines, res, block = out.split("\n"), [], None
    for l in lines:
        ind = len(l) - len(l.lstrip())
        if block is not None and l.strip() and ind <= block:
            block = None
        if block is None and l.strip() and ind == 0 and rng.random() < .3 and not l.startswith("---"):
            res.append("# a comment: with [brackets] and 'quotes'")
            if rng.random() < .5:
                res.append("")
        if block is None and re.search(r"[\w\]})]$", l) and not l.startswith("---") and not l.endswith("|") and rng.random() < .3:
            l += "   # k = 3 [t]"
            done.append("comments")
        res.append(l)
        if re.search(r"\|[-+\d]*$", l) and block is None:
            block = ind
    out = "\n".join(res)
    return out, sorted(set(done))


def write_load(ctx, txt, path, newline="\n", rel=False, tag="imported"):
    import dolo
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8", newline=newline) as f:
        f.write(txt)
    cwd = os.getcwd()
    try:
        with ctx.guard(tag, path=os.path.basename(path)):
            if rel:
                os.chdir(os.path.dirname(path))
                return dolo.yaml_import(os.path.basename(path) if rel == 1 else os.path.join(".", os.path.basename(path)))
            return dolo.yaml_import(path)
    finally:
        os.chdir(cwd)
        os.remove(path)


def style(ctx):
    rng = ctx.rng
    txt = source(ctx, ctx.rep)
    with ctx.guard("import"):
        a = models.load(txt)
    for it in range(2):
        other, what = rewrite(rng, txt)
        with ctx.guard("rewritten", text=other):
            b = models.load(other)
        ctx.case("style", other, nontrivial=other != txt)
        same(ctx, a, b, what=what, solve=it == 0)
        ctx.sample(rewritten=what, text=other[:600])


def location(ctx):
    rng = ctx.rng
    txt = source(ctx)
    with ctx.guard("import"):
        a = models.load(txt)
    base = os.path.join(os.environ.get("VM_SCRATCH", "/tmp"), f"loc_{os.getpid()}_{ctx.rep}")
    names = ["http_model.yaml", "a/http:/x.yaml", "my model (2).yaml", "modèle.yml", "noextension", "HTTPS.yaml", "dir.with.dots/.hidden.yaml",
             "ftp/https/m.yaml", "x" * 120 + ".yaml", "model.yaml.txt", "%41.yaml", "a#b?c=d.yaml"]
    for n in [names[int(i)] for i in rng.permutation(len(names))[:4]]:
        nl = ["\n", "\r\n"][int(rng.integers(2))]
        rel = int(rng.integers(3))
        ctx.case("location", n, nl, rel)
        p = os.path.join(base, n)
        b = write_load(ctx, txt, p, newline=nl, rel=rel)
        ctx.ok("filename", os.path.basename(b.infos["filename"]) == os.path.basename(p), got=b.infos["filename"], want=p)
        same(ctx, a, b, what=[n, repr(nl), rel], solve=False, rtol=0)
    with ctx.guard("string"):
        import yaml
        from dolo.compiler.model import Model
        b = Model(yaml.compose(txt))
    same(ctx, a, b, what="from a string", solve=True, rtol=0)


KEYS = {"rho", "sigma", "Sigma", "mu", "n", "orders", "values", "transitions", "grid", "states", "controls", "exogenous", "parameters", "N", "t"}


def rename(ctx):
    rng = ctx.rng
    txt = source(ctx, ctx.rep)
    with ctx.guard("import"):
        a = models.load(txt)
    old = [v for g in a.symbols.values() for v in g] + [re.match(r"\w+", d).group(0) for d in a.definitions]
    old = [v for v in dict.fromkeys(old) if v not in KEYS]
    # names which contain one another, resemble functions, sort differently, are written in Greek
    pool = ["k", "kk", "k_", "k_1", "K", "x1", "x11", "e", "E1", "expo", "logs", "sinus", "tt", "t_1", "ab", "b", "B", "x_x", "lag", "z9", "Zz",
            "beta2", "α", "β1", "δ", "κ", "a0", "aa", "w", "y_t", "cosy", "inf_", "pi_", "S", "M1", "p_", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8"]
    pool = [p for p in pool if p not in KEYS]
    new = [pool[int(i)] for i in rng.permutation(len(pool))][:len(old)]
    if len(new) < len(old):
        raise Skip("many symbols")
    m = dict(zip(old, new))
    other = re.sub(r"(?<![\w.])([^\W\d]\w*)(?!\w)", lambda q: m.get(q.group(1), q.group(1)), txt)
    with ctx.guard("renamed", names=m, text=other):
        b = models.load(other)
    ctx.case("rename", m, nontrivial=True)
    same(ctx, a, b, back={v: k for k, v in m.items()}, what=m)


def permuted(ctx):
    """Declaring states, controls and shocks (and their equations) in another order permutes the solution."""
    import copy
    from dolo.algos.perturbation import perturb
    from dolo.algos.time_iteration import time_iteration
    rng = ctx.rng
    kind = ["iid", "var"][ctx.rep % 2]
    ns, nx, nm = int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
    for _ in range(60):
        sp = models.random_linear_spec(rng, ns=ns, nx=nx, nm=nm, with_m_lag=kind != "iid")
        if kind == "iid":
            sp.G[:] = 0
        if c17.rational(sp, kind, 0.0) is not None and c17.rational(sp, kind, .6) is not None:
            break
    else:
        raise Skip("no spec")
    S = np.round(np.cov(rng.normal(size=(nm, 6))).reshape(nm, nm) * .01, 8) + np.eye(nm) * .001
    fmt = lambda A: "[" + ", ".join("[" + ", ".join(models.num(v) for v in r) + "]" for r in A) + "]"
    exo = lambda S: f"exogenous: !Normal\n    Sigma: {fmt(S)}" if kind == "iid" else f"exogenous: !VAR1\n    rho: 0.6\n    Sigma: {fmt(S)}"
    ps, px, pm = rng.permutation(ns), rng.permutation(nx), rng.permutation(nm)
    q = copy.deepcopy(sp)
    q.states, q.controls, q.exo = [sp.states[i] for i in ps], [sp.controls[i] for i in px], [sp.exo[i] for i in pm]
    for k, r, c in (("A", ps, ps), ("B", ps, px), ("C", ps, pm), ("D", ps, pm), ("F", px, ps), ("G", px, pm), ("P", px, px), ("Q", px, ps), ("R", px, pm)):
        setattr(q, k, getattr(sp, k)[np.ix_(r, c)])
    q.s0, q.x0, q.m0 = sp.s0[ps], sp.x0[px], sp.m0[pm]
    n = rng.integers(3, 6, ns)
    dom = [f"    {v}: [{v}_ss - {models.num(1 + i)}, {v}_ss + {models.num(2 - .3 * i)}]" for i, v in enumerate(sp.states)]

    def text(s, S, n):
        t = models.linear_yaml(s, exo_text=exo(S), rng=rng, n=[int(v) for v in n])[0]
        i, j = t.index("domain:\n"), t.index("exogenous: !")
        return t[:i] + "domain:\n" + "\n".join(dom[int(k)] for k in rng.permutation(ns)) + "\n" + t[j:]
    with ctx.guard("import"):
        a, b = models.load(text(sp, S, n)), models.load(text(q, S[np.ix_(pm, pm)], n[ps]))
    ctx.case("permuted", kind, ps, px, pm, nontrivial=bool((ps != np.arange(ns)).any() or (px != np.arange(nx)).any() or (pm != np.arange(nm)).any()))
    for g, p in (("states", ps), ("controls", px), ("exogenous", pm)):
        ctx.close("calibration", b.calibration[g], a.calibration[g][p], rtol=0, atol=1e-14, group=g)
    fa, fb = functions_of(a, 9), functions_of(b, 9)
    ctx.close("functions", fb["transition"], fa["transition"][:, ps], rtol=1e-9, atol=1e-11)
    ctx.close("functions", fb["arbitrage"], fa["arbitrage"][:, px], rtol=1e-9, atol=1e-11)
    with ctx.guard("perturb"):
        ra, rb = perturb(a, verbose=False), perturb(b, verbose=False)
    ctx.ok("solution", (ra.stable, ra.determined, ra.unique) == (rb.stable, rb.determined, rb.unique))
    pts = a.endo_grid.nodes[:20]
    m0 = np.zeros((len(pts), nm)) + .1 * np.arange(nm)
    if ra.determined:
        ctx.close("solution", rb.dr(m0[:, pm], pts[:, ps]), ra.dr(m0, pts)[:, px], rtol=1e-7, atol=1e-9, part="perturb", kind=kind)
    with ctx.guard("time_iteration"):
        ta, tb = time_iteration(a, verbose=False, maxit=6), time_iteration(b, verbose=False, maxit=6)
    # the nodes of the shocks depend on their order: compare through the rule of iid models only
    if kind == "iid":
        ctx.close("solution", tb.dr(pts[:, ps]), ta.dr(pts)[:, px], rtol=1e-6, atol=1e-6, part="time_iteration", kind=kind)


def law(dp):
    """The discretized shocks as lists sorted by their values, so that the order of enumeration does not matter."""
    ns = nodes(dp)
    key = lambda v: tuple(np.round(np.ravel(v), 9))
    out = []
    for m, x, w in sorted(ns, key=lambda q: key(q[0])):
        o = sorted(range(len(w)), key=lambda i: key(x[i]))
        out.append((m, x[o], w[o]))
    return out


def shocks(ctx):
    """Equivalent ways of declaring the shocks."""
    from dolo.algos.time_iteration import time_iteration
    rng = ctx.rng
    kind = ["normal", "independent", "ar1", "var1", "chain", "uniform", "constant"][ctx.rep % 7]
    nm = 1 if kind in ("ar1", "uniform") else 2
    num = models.num
    while True:
        sp = models.random_linear_spec(rng, ns=1, nx=1, nm=nm, with_m_lag=kind in ("ar1", "var1", "chain"))
        if kind not in ("ar1", "var1", "chain"):
            sp.G[:] = 0
        if kind in ("normal", "independent", "uniform", "constant"):
            sp.m0 = np.zeros(nm)
        if c17.rational(sp, "iid" if kind in ("normal", "independent", "uniform", "constant") else "var", 0.0) is not None:
            break
    e = sp.exo
    fmt = lambda A: "[" + ", ".join("[" + ", ".join(num(v) for v in r) + "]" for r in np.atleast_2d(A)) + "]"
    vec = lambda a: "[" + ", ".join(num(v) for v in a) + "]"
    keys = [", ".join(e), ",".join(e), " , ".join(e), ",   ".join(e), "'" + ", ".join(e) + "'", '"' + ",".join(e) + '"']

    def entry(tag, body, key=None):
        """tag and arguments, with or without names, in block or flow style"""
        if rng.random() < .5:
            t = f"!{tag} {{" + ", ".join(f"{k}: {v}" for k, v in body) + "}"
        else:
            t = f"!{tag}\n" + "\n".join(f"        {k}: {v}" for k, v in body)
        return f"exogenous: {t}" if key is None else f"    {key}: {t}"

    def keyed(*entries):
        return "exogenous:\n" + "\n".join(entries)
    S = np.round(np.cov(rng.normal(size=(nm, 6))).reshape(nm, nm) * .01 + np.eye(nm) * .002, 8)
    S = (S + S.T) / 2
    pick = lambda *a: a[int(rng.integers(len(a)))]
    if kind == "normal":
        body = lambda: [(pick("Sigma", "Σ"), fmt(S))]
        forms = [entry("Normal", body()), entry("Normal", body())] + [keyed(entry("Normal", body(), k)) for k in keys]
    elif kind == "independent":
        # with one shock per entry
        sd = np.round(rng.uniform(.02, .2, 2), 4)
        uni = rng.random(2) < .5        # (both classes have their own default discretization)
        one = lambda i: pick(entry("UNormal", [(pick("sigma", "σ"), num(sd[i]))], e[i]),
                             entry("UNormal", [(pick("sigma", "σ"), num(sd[i])), (pick("mu", "μ"), "0.0")][::pick(1, -1)], e[i])) if uni[i] else (
                             entry("Normal", [(pick("Sigma", "Σ"), fmt([[round(sd[i] ** 2, 12)]]))], e[i]))
        forms = [keyed(one(0), one(1)) for _ in range(6)]
    elif kind == "ar1":
        rho, v, mu = round(float(rng.uniform(-.5, .95)), 3), round(float(rng.uniform(.001, .02)), 5), pick(None, 0.0)
        m = [] if mu is None else [(pick("mu", "μ"), num(mu))]
        ar = lambda k=None: entry("AR1", [(pick("rho", "ρ"), num(rho)), (pick("sigma", "σ"), num(v))] + m, k)
        va = lambda k=None: entry("VAR1", [(pick("rho", "ρ"), pick(num(rho), vec([rho]), fmt([[rho]]))), (pick("Sigma", "Σ"), fmt([[v]]))]
                                  + [(a, vec([float(b)])) for a, b in m], k)
        forms = [ar(), va(), va(), keyed(ar(e[0])), keyed(va(e[0]))]
    elif kind == "var1":
        rho = round(float(rng.uniform(-.3, .9)), 3)
        va = lambda k=None: entry("VAR1", [(pick("rho", "ρ"), pick(num(rho), vec([rho, rho]), fmt(np.eye(2) * rho))), (pick("Sigma", "Σ"), fmt(S))]
                                  + pick([], [(pick("mu", "μ"), "[0.0, 0.0]")]), k)
        forms = [va(), va(), va()] + [keyed(va(k)) for k in keys[:4]]
    elif kind == "chain":
        n = int(rng.integers(2, 4))
        V = np.round(rng.normal(size=(n, 2)) * .1, 4)
        P = np.round(rng.dirichlet(np.ones(n), n), 4)
        P[:, -1] = np.round(1 - P[:, :-1].sum(axis=1), 4)
        ch = lambda k=None: entry("MarkovChain", [("values", fmt(V)), ("transitions", fmt(P))][::pick(1, -1)], k)
        forms = [ch(), ch()] + [keyed(ch(k)) for k in keys[:4]]
    elif kind == "uniform":
        a, b = sorted(np.round(rng.uniform(-.3, .3, 2), 3))
        un = lambda k=None: entry("Uniform", [("a", num(a)), ("b", num(b))][::pick(1, -1)], k)
        forms = [un(), keyed(un(e[0])), keyed(un(keys[4]))]
    else:
        c = np.round(rng.normal(size=2) * .1, 3)
        co = lambda k=None: entry("ConstantProcess", [(pick("mu", "μ"), vec(c))], k)
        forms = [co(), co()] + [keyed(co(k)) for k in keys[:3]]
    ref = None
    for t in forms:
        txt = models.linear_yaml(sp, exo_text=t, rng=np.random.default_rng(1), n=[4])[0]
        with ctx.guard("shocks", declared=t):
            m = models.load(txt)
            dp = m.exogenous.discretize()
            l = law(dp)
            ti = time_iteration(m, verbose=False, maxit=4) if kind != "constant" else None
        ctx.case("shocks", kind, t)
        pts = m.endo_grid.nodes
        order = sorted(range(max(1, dp.n_nodes)), key=lambda i: tuple(np.round(np.ravel(dp.node(i)), 9)) if dp.n_nodes else ())
        rule = ti and [ti.dr.eval_is(i, pts) for i in order]
        if ref is None:
            ref = (m, l, rule)
            continue
        fa, fb = functions_of(ref[0], 3), functions_of(m, 3)
        for k in fa:
            ctx.close("functions", fb[k], fa[k], rtol=1e-9, atol=1e-11, function=k, what=t)
        if ctx.ok("shocks", len(ref[1]) == len(l), got=len(l), want=len(ref[1]), what=t):
            for p, q in zip(ref[1], l):
                for u, v in zip(p, q):
                    ctx.close("shocks", v, u, rtol=1e-8, atol=1e-11, what=t)
            if ti:
                for p, q in zip(ref[2], rule):
                    ctx.close("shocks", q, p, rtol=1e-6, atol=1e-7, part="solution", what=t)


SCENARIOS = [Scenario("shocks", shocks, 7, 70, 240), Scenario("style", style, 16, 160, 240), Scenario("location", location, 4, 32, 240), Scenario("rename", rename, 16, 120, 240),
             Scenario("permuted", permuted, 6, 60, 240)]
