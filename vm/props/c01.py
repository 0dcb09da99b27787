"""C01 calibration: solution of the calibration section, histories of changes."""
import warnings
import numpy as np
from vm.core import Scenario, Skip, snapshot
from vm import models
from vm.exprs import E, gen

RULE = ("random calibration sections (dependency graphs of expressions over parameters, states, controls, shocks and definitions, in any order); "
        "random sequences of changes (numbers and expressions, by keyword or mapping, new and existing keys) interleaved with reads; every quantity "
        "is compared with values computed from the expression trees and with a fresh import of the edited file; non-trivial: an expression depends on others")
REQUIRED = {"value": 300, "vector": 60, "missing": 10, "edited-file": 60, "process": 15, "domain": 20, "grid": 15, "rejected": 12, "old-view": 15}

NAMES = [a + b for a in ("k", "z", "alpha", "beta", "c", "i", "n", "y", "w", "rho", "A", "B", "β", "σ", "x", "a", "Z", "theta") for b in ("", "1", "_ss", "_2")]


class Model:
    """text and values of a model whose calibration is a random graph"""

    def __init__(self, rng, missing=True):
        for _ in range(200):
            self.draw(rng, missing)
            if self.sane():
                return
        raise Skip("no calibration drawn")

    def draw(self, rng, missing):
        pick = [NAMES[i] for i in rng.permutation(len(NAMES))]
        take = lambda k: [pick.pop() for _ in range(k)]
        self.rng = rng
        self.st, self.x, self.m = take(int(rng.integers(1, 4))), take(int(rng.integers(1, 4))), take(int(rng.integers(1, 3)))
        self.par, self.free, self.aux = take(int(rng.integers(3, 7))), take(int(rng.integers(0, 3))), take(int(rng.integers(0, 3)))
        # special parameters of the shock process and domain
        self.sig, self.rho, self.wid = take(3)
        self.par = self.par + [self.sig, self.rho, self.wid]
        self.par = [self.par[i] for i in rng.permutation(len(self.par))]
        order = [v for v in self.par if v not in (self.sig, self.rho, self.wid)] + self.free + self.st + self.x
        order = [order[i] for i in rng.permutation(len(order))]
        self.val = {}
        self.unset = []
        for q, v in enumerate(order):
            if missing and rng.random() < .2 and v not in self.free + self.st + self.x:
                self.unset.append(v)
                continue
            deps = [k for k in order[:q] if k not in self.unset]
            self.val[v] = float(np.round(rng.uniform(.3, 2), 3)) if not deps or rng.random() < .35 else self.tree(deps)
        self.val[self.sig] = float(np.round(rng.uniform(.01, .2), 4))
        self.val[self.rho] = float(np.round(rng.uniform(.1, .9), 3))
        self.val[self.wid] = float(np.round(rng.uniform(.2, 1), 3))
        for v in self.m:
            if rng.random() < .6:
                self.val[v] = 0.0
        self.defs = {}
        for q, v in enumerate(self.aux):
            self.defs[v] = self.tree(self.st + self.x + self.aux[:q] + [k for k in self.par if k in self.val], 2)
            if rng.random() < .3:
                self.val[v] = self.tree(self.st + self.x + self.aux[:q], 2) if rng.random() < .7 else 1.5
        self.kind = ["var", "iid", "markov"][int(rng.integers(3))]
        self.gridkind = ["cartesian", "nonuniform", "smolyak"][int(rng.integers(3 if len(self.st) > 1 else 2))]   # Smolyak grids need two states
        self.n = int(rng.integers(3, 6))
        self.order = [k for k in self.val]
        self.order = [self.order[i] for i in rng.permutation(len(self.order))]
        self.texts = {k: self.show(v) for k, v in self.val.items()}

    def tree(self, deps, depth=3):
        for _ in range(50):
            t = gen(self.rng, deps, depth)
            if t.leaves():
                return t
        return E("v", deps[0])

    def sane(self):
        """values are real, moderate (NaN only from missing symbols)"""
        try:
            V = self.values()
        except (TypeError, OverflowError, ZeroDivisionError):
            return False
        bad = set(self.unset) - set(self.val)
        src = {**self.defs, **self.val}

        def tainted(k):
            return k in bad or (isinstance(src.get(k), E) and any(tainted(q) for q in src[k].leaves()))
        for k, v in V.items():
            if tainted(k) or k in self.m:
                continue
            if not np.isfinite(v) or abs(v) > 1e4 or (isinstance(src.get(k), E) and k not in self.aux and v < .05):
                return False
        return True

    def show(self, v):
        return models.num(v) if isinstance(v, float) else v.text(lambda k: k, self.rng)

    def values(self):
        """{symbol: value} of every symbol of the model and of the calibration section"""
        out, busy = {}, set()
        src = dict(self.defs)
        src.update(self.val)

        def get(k):
            if k in out:
                return out[k]
            if k not in src:
                return 0.0 if k in self.m else float("nan")
            t = src[k]
            if isinstance(t, float):
                out[k] = t
            else:
                env = {d: get(d) for d in t.leaves()}
                out[k] = float(t.val(env))
            return out[k]
        for k in list(src) + self.st + self.x + self.m + self.par:
            out[k] = get(k)
        return out

    def text(self):
        rng = np.random.default_rng(5)
        v = lambda k, d: f"{k}[{d}]"
        L = ["symbols:", f"    exogenous: [{', '.join(self.m)}]", f"    states: [{', '.join(self.st)}]", f"    controls: [{', '.join(self.x)}]",
             f"    parameters: [{', '.join(self.par)}]"]
        if self.defs:
            dated = lambda k: k + "[t]" if k in self.st + self.x + self.aux else k
            L += ["definitions: |"] + [f"    {k}[t] = {t.text(dated, rng)}" for k, t in self.defs.items()]
        L += ["equations:", "    transition: |"]
        for q, s in enumerate(self.st):
            L.append(f"        {s}[t] = {self.rho}*{s}[t-1] + {self.x[q % len(self.x)]}[t-1]*{self.wid} + {self.m[q % len(self.m)]}[t]")
        L += ["    arbitrage: |"]
        for q, x in enumerate(self.x):
            L.append(f"        {x}[t] - {self.sig}*{self.st[q % len(self.st)]}[t+1] - {x}[t+1]*{self.rho} ⟂ -{self.wid}*{self.st[0]}[t] <= {x}[t] <= {self.wid} + {self.m[0]}[t]")
        L += ["calibration:"] + [f"    {k}: {self.texts[k]}" for k in self.order]
        L += ["domain:"] + [f"    {s}: [{s} - {self.wid}*{q + 1}, {s} + 2*{self.wid}^2]" for q, s in enumerate(self.st)]
        nm = len(self.m)
        if self.kind == "markov":
            row = lambda z: "[" + ", ".join(z for _ in range(nm)) + "]"
            L += ["exogenous: !MarkovChain", f"    values: [{row('-' + self.sig)}, {row(self.sig + '*2')}]", f"    transitions: [[{self.rho}, 1-{self.rho}], [(1-{self.rho})/2, 1-(1-{self.rho})/2]]"]
        else:
            S = "[" + ", ".join("[" + ", ".join(f"{self.sig}^2" if a == b else f"{self.sig}^2*0.3" for b in range(nm)) + "]" for a in range(nm)) + "]"
            L += [f"exogenous: !{'VAR1' if self.kind == 'var' else 'Normal'}"] + ([f"    rho: {self.rho}"] if self.kind == "var" else []) + [f"    Sigma: {S}"]
        L += ["options:"]
        if self.gridkind == "cartesian":
            L += ["    grid: !Cartesian", f"        n: [{', '.join([str(self.n)] * len(self.st))}]"]
        elif self.gridkind == "smolyak":
            L += ["    grid: !Smolyak", "        mu: 2"]
        else:
            L += ["    grid: !NonUniformCartesian"] + [f"        - [{s}, {s} + {self.wid}, {s} + {self.wid}*3]" for s in self.st]
        return "\n".join(L) + "\n"


def observe(ctx, M, model, tag):
    """every view of the calibration against the values of the trees"""
    V = M.values()
    with ctx.guard("read", tag=tag):
        c = model.calibration
    for k in M.st + M.x + M.m + M.par + M.aux:
        ctx.close("value", c[k], V[k], rtol=1e-10, atol=1e-12, symbol=k, tag=tag, text=M.texts.get(k))
    for g, names in (("states", M.st), ("controls", M.x), ("exogenous", M.m), ("parameters", M.par)) + ((("auxiliaries", M.aux),) if M.aux else ()):
        ctx.close("vector", c[g], np.array([V[k] for k in names]), rtol=1e-10, atol=1e-12, group=g, tag=tag)
        ctx.ok("vector", list(model.symbols[g]) == list(names), group=g, got=model.symbols[g], want=names)
        a = np.asarray(c[g])
        if len(a):
            ctx.raises("read-only", lambda: a.__setitem__(0, 3.0), ValueError, group=g)
    a, b = c["states", M.x[0]]
    ctx.close("vector", a, c["states"], rtol=0, atol=0)
    ctx.close("value", b, V[M.x[0]], rtol=1e-10, atol=1e-12)
    ctx.close("vector", c["actions"], c["controls"], rtol=0, atol=0)
    for k in M.unset:
        if k not in M.val:
            ctx.ok("missing", np.isnan(c[k]), symbol=k, got=c[k])
    if any(np.isnan(V[k]) for k in M.st + [M.sig, M.rho, M.wid]):
        return
    w = V[M.wid]
    D = model.domain
    ctx.close("domain", D.min, np.array([V[s] - w * (q + 1) for q, s in enumerate(M.st)]), rtol=1e-10, atol=1e-12, tag=tag)
    ctx.close("domain", D.max, np.array([V[s] + 2 * w ** 2 for s in M.st]), rtol=1e-10, atol=1e-12, tag=tag)
    g = model.endo_grid
    if M.gridkind == "nonuniform":
        axes = [[V[s], V[s] + w, V[s] + 3 * w] for s in M.st]
        want = np.stack([q.ravel() for q in np.meshgrid(*axes, indexing="ij")], axis=1)
        ctx.close("grid", g.nodes, want, rtol=1e-10, atol=1e-12, tag=tag)
    elif M.gridkind == "cartesian":
        axes = [np.linspace(a, b, M.n) for a, b in zip([V[s] - w * (q + 1) for q, s in enumerate(M.st)], [V[s] + 2 * w ** 2 for s in M.st])]
        want = np.stack([q.ravel() for q in np.meshgrid(*axes, indexing="ij")], axis=1)
        ctx.close("grid", g.nodes, want, rtol=1e-10, atol=1e-12, tag=tag)
    else:
        N = g.nodes
        ctx.close("grid", np.array([N.min(axis=0), N.max(axis=0)]), np.array([[V[s] - w * (q + 1) for q, s in enumerate(M.st)], [V[s] + 2 * w ** 2 for s in M.st]]), rtol=1e-9, atol=1e-9, tag=tag)
    P = model.exogenous
    nm = len(M.m)
    S = V[M.sig] ** 2 * (np.eye(nm) * .7 + .3)
    if M.kind == "var":
        ctx.close("process", P.Σ, S, rtol=1e-10, atol=1e-14, tag=tag)
        ctx.close("process", np.diag(np.atleast_2d(P.ρ)), np.full(nm, V[M.rho]), rtol=1e-10, atol=1e-14, tag=tag)
    elif M.kind == "iid":
        ctx.close("process", P.Σ, S, rtol=1e-10, atol=1e-14, tag=tag)
    else:
        ctx.close("process", P.transitions, np.array([[V[M.rho], 1 - V[M.rho]], [(1 - V[M.rho]) / 2, 1 - (1 - V[M.rho]) / 2]]), rtol=1e-10, atol=1e-14, tag=tag)
        ctx.close("process", P.values, np.array([[-V[M.sig]] * nm, [2 * V[M.sig]] * nm]), rtol=1e-10, atol=1e-14, tag=tag)
    # bounds and residuals use the current parameters
    if not any(np.isnan(V[k]) for k in M.st + M.x + M.m):
        p = c["parameters"]
        lb, ub = [f(c["exogenous"], c["states"], p) for f in model.x_bounds]
        ctx.close("bounds", lb, np.full(len(M.x), -w * V[M.st[0]]), rtol=1e-10, atol=1e-12, tag=tag)
        ctx.close("bounds", ub, np.full(len(M.x), w + V[M.m[0]]), rtol=1e-10, atol=1e-12, tag=tag)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            with ctx.guard("residuals", tag=tag):
                r = model.residuals()
        nx, ns = len(M.x), len(M.st)
        ctx.close("residuals", r["transition"], np.array([V[M.rho] * V[s] + V[M.x[q % nx]] * w + V[M.m[q % len(M.m)]] - V[s] for q, s in enumerate(M.st)]), rtol=1e-9, atol=1e-10, tag=tag)
        arb = np.array([V[x] - V[M.sig] * V[M.st[q % ns]] - V[x] * V[M.rho] for q, x in enumerate(M.x)])
        lbv, ubv = np.full(nx, -w * V[M.st[0]]), np.full(nx, w + V[M.m[0]])
        X = np.array([V[x] for x in M.x])
        far = (X > lbv + 1e-6) & (X < ubv - 1e-6)
        got = np.asarray(r["arbitrage"])
        if ctx.ok("residuals", got.shape == (nx,), got=got.shape):
            ctx.close("residuals", got[far], arb[far], rtol=1e-9, atol=1e-10, tag=tag)


def static(ctx):
    for it in range(3):
        M = Model(ctx.rng)
        with ctx.guard("import", text=M.text()):
            model = models.load(M.text())
        ctx.case("static", M.texts, nontrivial=any(isinstance(v, E) for v in M.val.values()))
        observe(ctx, M, model, "file")
        V = M.values()
        if it == 0:
            # the order of the entries does not matter
            M.order = [M.order[i] for i in ctx.rng.permutation(len(M.order))]
            with ctx.guard("import"):
                model = models.load(M.text())
            observe(ctx, M, model, "reordered")
        ctx.sample(entries=len(M.val), expressions=sum(isinstance(v, E) for v in M.val.values()), kind=M.kind)


def histories(ctx):
    rng = ctx.rng
    M = Model(rng)
    with ctx.guard("import", text=M.text()):
        model = models.load(M.text())
        witness = models.load(M.text())
    V0 = M.values()
    for step in range(6):
        kw = {}
        for _ in range(int(rng.integers(1, 4))):
            src = [k for k in M.st + M.x + M.par + M.free if k in M.val]
            k = src[int(rng.integers(len(src)))]
            if rng.random() < .25 and M.unset:
                k = M.unset[int(rng.integers(len(M.unset)))]
            if rng.random() < .1:
                k = M.m[0]
            if k in (M.sig, M.rho, M.wid):
                kw[k] = float(np.round(rng.uniform(.05, .9), 3))
            elif k in M.m:
                kw[k] = float(np.round(rng.uniform(-.1, .1), 3))
            elif rng.random() < .55:
                v = float(np.round(rng.uniform(.3, 2), 3))
                kw[k] = int(np.ceil(v)) if rng.random() < .15 else (np.float64(v) if rng.random() < .2 else v)
            else:
                # an expression over symbols which do not depend on k
                def dep(s, seen=()):
                    t = {**M.defs, **M.val, **{a: b for a, b in kw.items() if isinstance(b, E)}}.get(s)
                    return set() if not isinstance(t, E) else t.leaves().union(*[dep(q) for q in t.leaves()])
                ok = [s for s in src if s != k and k not in dep(s)]
                if ok:
                    kw[k] = M.tree(ok, 2)
        keep = dict(M.val)
        M.val.update({k: v if isinstance(v, E) else float(v) for k, v in kw.items()})
        sane = M.sane()
        M.val = keep
        if not kw or not sane:
            continue
        call = {k: (v.text(lambda s: s, rng) if isinstance(v, E) else v) for k, v in kw.items()}
        before = model.calibration
        fp = snapshot({k: v for k, v in before.flat.items()})
        with ctx.guard("set_calibration", call=repr(call)):
            if rng.random() < .5:
                model.set_calibration(**call)
            else:
                model.set_calibration(dict(call))
        ctx.ok("old-view", snapshot({k: v for k, v in before.flat.items()}) == fp, call=repr(call))
        for k, v in kw.items():
            M.val[k] = v if isinstance(v, E) else float(v)
            M.texts[k] = call[k] if isinstance(v, E) else models.num(v)
            if k not in M.order:
                M.order.append(k)
                ctx.count("new_keys")
        if rng.random() < .3:
            continue                    # several changes before the next read
        ctx.case("history", step, M.texts)
        observe(ctx, M, model, f"after {step + 1} changes")
        if rng.random() < .5:
            with ctx.guard("import", text=M.text()):
                fresh = models.load(M.text())
            a, b = model.calibration, fresh.calibration
            for k in b.flat:
                ctx.close("edited-file", a[k], b[k], rtol=1e-13, atol=1e-14, symbol=k, call=repr(call))
            ctx.ok("edited-file", set(a.flat) == set(b.flat), diff=sorted(set(a.flat) ^ set(b.flat)))
            try:
                g, h = model.discretize()[0]["endo"].nodes, fresh.discretize()[0]["endo"].nodes
            except Exception as e:
                g = h = np.zeros(0)
            ctx.close("edited-file", g, h, rtol=1e-12, atol=1e-12)
    # other models made from the same file did not move
    Mw = witness.calibration
    for k in M.st + M.x + M.par:
        ctx.close("other-model", Mw[k], V0[k], rtol=1e-10, atol=1e-12, symbol=k)


def rejected(ctx):
    rng = ctx.rng
    base = Model(rng, missing=False)
    for it in range(4):
        M = base
        keep = dict(M.texts)
        a, b = [k for k in M.st + M.x][:2]
        if it == 0:
            # a cycle through two or more entries
            M.texts[a], M.texts[b] = f"{b} + 1", f"2*{a}"
        elif it == 1:
            M.texts[a] = f"{a}*0.5 + 1"
        elif it == 2:
            M.texts[a] = f"({b} + 1"
        else:
            M.texts[a] = "undeclared_symbol*2 + 1"
        txt = M.text()
        M.texts = keep
        ctx.case("rejected", it, txt)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctx.raises("rejected", lambda: models.load(txt), case=["cycle", "self", "syntax", "undeclared"][it], text=txt[-400:])
    with ctx.guard("import"):
        model = models.load(base.text())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b = (base.st + base.x)[:2]

        def cyc():
            model.set_calibration(**{a: f"{b} + 1", b: f"2*{a}"})
            model.calibration
        ctx.raises("rejected", cyc, case="cycle by set_calibration")
        # and the model can be repaired
        base.val[a], base.val[b] = 1.0, E("*", E("c", 2.0), E("v", a))
        if base.sane():
            with ctx.guard("repair"):
                model.set_calibration(**{a: 1.0, b: f"2*{a}"})
            base.texts[a], base.texts[b] = "1.0", f"2*{a}"
            observe(ctx, base, model, "repaired")
        ctx.raises("rejected", lambda: model.calibration["no_such_symbol"], case="unknown symbol")


SCENARIOS = [Scenario("static", static, quick=6, thorough=60), Scenario("histories", histories, quick=10, thorough=80),
             Scenario("rejected", rejected, quick=4, thorough=20)]
