"""C02 compiled functions: random models (trees known), every block, every argument shape."""
import glob
import os
import warnings
import numpy as np
from vm.core import Scenario, snapshot
from vm import models
from vm.exprs import E, gen
from vm.props.c01 import NAMES

RULE = ("random models with every kind of equation block (transition, arbitrage with and without bounds, value, felicity, expectation, half transition, "
        "direct responses, reverse state, definitions), random names, order, styles of equations and of dates; each compiled function against the "
        "expression trees for points, batches, broadcast and higher dimensional arguments; example models against an independent reader of equations; "
        "non-trivial: the point differs from the calibration")
REQUIRED = {"point": 60, "batch": 60, "broadcast": 30, "grid": 25, "bounds": 15, "auxiliary": 6, "example": 60, "rejected": 20, "twin": 8, "args": 40}

# block: (target group and date, argument groups (name, group, date))
SPEC = dict(
    transition=(("states", 0), [("exogenous", -1), ("states", -1), ("controls", -1), ("exogenous", 0)]),
    arbitrage=(None, [("exogenous", 0), ("states", 0), ("controls", 0), ("exogenous", 1), ("states", 1), ("controls", 1)]),
    value=(("values", 0), [("exogenous", 0), ("states", 0), ("controls", 0), ("values", 0), ("exogenous", 1), ("states", 1), ("controls", 1), ("values", 1)]),
    felicity=(("rewards", 0), [("exogenous", 0), ("states", 0), ("controls", 0)]),
    expectation=(("expectations", 0), [("exogenous", 1), ("states", 1), ("controls", 1)]),
    half_transition=(("states", 0), [("exogenous", -1), ("poststates", -1), ("exogenous", 0)]),
    direct_response_egm=(("controls", 0), [("exogenous", 0), ("poststates", 0), ("expectations", 0)]),
    reverse_state=(("states", 0), [("exogenous", 0), ("poststates", 0), ("controls", 0)]),
    direct_response=(("controls", 0), [("exogenous", 0), ("states", 0), ("expectations", 0)]),
    arbitrage_exp=(None, [("states", 0), ("controls", 0)]),
)
RECURSIVE = ("felicity", "direct_response", "direct_response_egm", "reverse_state")
BOUNDS = [("exogenous", 0), ("states", 0)]


class Model:
    def __init__(self, rng, optional=None):
        self.rng = rng
        pick = [NAMES[i] for i in rng.permutation(len(NAMES))]
        take = lambda k: [pick.pop() for _ in range(k)]
        self.g = dict(exogenous=take(int(rng.integers(1, 4))), states=take(int(rng.integers(1, 4))), controls=take(int(rng.integers(1, 4))),
                      parameters=take(int(rng.integers(1, 5))))
        self.blocks = ["transition", "arbitrage"]
        opt = [b for b in SPEC if b not in self.blocks]
        self.blocks += optional if optional is not None else [opt[i] for i in rng.permutation(len(opt))[:3]]
        for grp in ("values", "rewards", "expectations", "poststates"):
            if any(grp in [x for x, _ in SPEC[b][1]] + ([SPEC[b][0][0]] if SPEC[b][0] else []) for b in self.blocks) or rng.random() < .1:
                self.g[grp] = take(int(rng.integers(1, 4)))
        self.blocks = [self.blocks[i] for i in rng.permutation(len(self.blocks))]
        self.style = {b: "text" if rng.random() < .6 else "list" for b in self.blocks}
        self.defs = {}
        self.defstyle = "text" if rng.random() < .5 else "map"
        dk = [(v, 0) for grp in ("states", "controls") + (() if "arbitrage_exp" in self.blocks else ("exogenous",)) for v in self.g[grp]] + self.g["parameters"]
        for q, v in enumerate(take(int(rng.integers(0, 4)))):
            self.defs[v] = gen(rng, dk + [(k, 0) for k in self.defs] * 3, 2)
        self.deforder = list(self.defs)
        if self.defstyle == "map" and rng.random() < .5:
            self.deforder = [self.deforder[i] for i in rng.permutation(len(self.deforder))]     # any order there
        self.eq, self.lhs, self.lb, self.ub = {}, {}, [], []
        for b in self.blocks:
            tgt, args = SPEC[b]
            n = len(self.g[tgt[0]]) if tgt else (len(self.g["controls"]) if b == "arbitrage" else int(rng.integers(1, 4)))
            # what the equations may use: not the value being defined (it is both an argument and a target);
            # some blocks may use the targets defined above
            free = [a for a in args if a != ("values", 0)]
            self.eq[b] = [self.tree(free, more=[(v, tgt[1]) for v in self.g[tgt[0]][:q]] if b in RECURSIVE else []) for q in range(n)]
            # conditions may be written  lhs = rhs
            self.lhs[b] = [self.tree(args, 2) if (tgt is None and self.style[b] == "list" and rng.random() < .5) else None for _ in range(n)]
        self.bounded = rng.random() < .75
        for q, _ in enumerate(self.g["controls"]):
            if self.bounded and rng.random() < .8 and self.lhs["arbitrage"][q] is None:
                self.lb.append(self.tree(BOUNDS, 2, defs=False) if rng.random() < .8 else "-inf")
                self.ub.append(self.tree(BOUNDS, 2, defs=False) if rng.random() < .8 else "inf")
            else:
                self.lb.append(None)
                self.ub.append(None)
        self.bounded = any(v is not None for v in self.lb)

    def keys(self, args, defs=True):
        k = [(v, d) for grp, d in args for v in self.g[grp]]
        if defs:
            dates = {d for grp, d in args if grp == "states"} & {d for grp, d in args if grp == "controls"}
            k += [(v, d) for v in self.defs for d in dates]
        return k + self.g["parameters"]

    def tree(self, args, depth=3, defs=True, more=()):
        rng = self.rng
        keys = self.keys(args, defs) + list(more)
        t = gen(rng, keys, depth)
        for i in rng.permutation(len(keys))[:int(rng.integers(1, 4))]:
            t = E("+" if rng.random() < .5 else "-", t, E("*", E("c", float(np.round(rng.uniform(.2, 2), 3))), E("v", keys[i])))
        return t

    def leaf(self, key, strict=False):
        if isinstance(key, str):
            return key
        v, d = key
        r = self.rng.random()
        if d == 0:
            return f"{v}[t]" if strict or r < .6 else (v if r < .8 else f"{v}(0)")
        return f"{v}[t{d:+d}]" if r < .6 else (f"{v}({d})" if r < .8 else f"{v}[ t{d:+d} ]")

    def show(self, t, strict=False):
        if isinstance(t, str):
            return t
        s = t.text(lambda k: self.leaf(k, strict), self.rng)
        return "0 " + s if s.startswith("-") else s

    def text(self, mutate=None):
        L = ["symbols:"]
        for k, v in self.g.items():
            L.append(f"    {k}: [{', '.join(v)}]")
        if self.defs:
            if self.defstyle == "text":
                L += ["definitions: |"] + [f"    {k}[t] = {self.show(self.defs[k], True)}" for k in self.deforder]
            else:
                L += ["definitions:"] + [f"    {k}{'[t]' if self.rng.random() < .7 else ''}: {self.show(self.defs[k], True)}" for k in self.deforder]
        L.append("equations:")
        for b in self.blocks:
            tgt, _ = SPEC[b]
            L.append(f"    {b}:" + (" |" if self.style[b] == "text" else ""))
            for q, t in enumerate(self.eq[b]):
                e = self.show(t)
                if tgt:
                    e = f"{self.g[tgt[0]][q]}[t] = {e}"
                elif self.lhs[b][q] is not None:
                    e = f"{self.show(self.lhs[b][q])} = {e}"
                elif self.style[b] == "text" and b != "arbitrage":
                    e = f"{self.g['controls'][0]}[t] = {e}"         # an assignment block
                if b == "arbitrage" and self.lb[q] is not None:
                    x = self.g["controls"][q]
                    e = f"{e} {'⟂' if self.rng.random() < .8 else '|'} {self.show(self.lb[q])} <= {x}[t] <= {self.show(self.ub[q])}"
                if mutate:
                    e = mutate(b, q, e)
                L.append("        " + ("- " if self.style[b] == "list" else "") + e)
        L.append("calibration:")
        for grp in ("parameters", "states", "controls"):
            L += [f"    {v}: {models.num(np.round(self.rng.uniform(.3, 2), 3))}" for v in self.g[grp]]
        L += ["domain:"] + [f"    {s}: [0.1, 3.0]" for s in self.g["states"]]
        nm = len(self.g["exogenous"])
        L += ["exogenous: !Normal", f"    Sigma: {(np.eye(nm) * .01).tolist()}", "options:", "    grid: !Cartesian", f"        n: {[3] * len(self.g['states'])}"]
        return "\n".join(L) + "\n"

    def env(self, args, vecs, p):
        env = dict(zip(self.g["parameters"], map(float, p)))
        for (grp, d), v in zip(args, vecs):
            env.update({(n, d): float(z) for n, z in zip(self.g[grp], v)})
        dates = {d for grp, d in args if grp == "states"} & {d for grp, d in args if grp == "controls"}
        for d in dates:
            sub = {(k[0], k[1] - d) if isinstance(k, tuple) else k: v for k, v in env.items()}
            for v, t in self.defs.items():
                try:
                    sub[(v, 0)] = t.val(sub)
                except KeyError:
                    continue
                env[(v, d)] = sub[(v, 0)]
        return env

    def eval(self, b, vecs, p):
        if b in ("arbitrage_lb", "arbitrage_ub"):
            env = self.env(BOUNDS, vecs, p)
            z = self.lb if b.endswith("lb") else self.ub
            inf = np.inf if b.endswith("ub") else -np.inf
            return np.array([inf if t is None or isinstance(t, str) else t.val(env) for t in z], dtype=float)
        if b == "auxiliary":
            args = SPEC["felicity"][1]
            env = self.env(args, vecs, p)
            return np.array([env[(v, 0)] for v in self.deforder], dtype=float)
        env = self.env(SPEC[b][1], vecs, p)
        out = []
        for t, l in zip(self.eq[b], self.lhs[b]):
            if SPEC[b][0] is None and l is None and self.style[b] == "text" and b != "arbitrage":
                l = E("v", (self.g["controls"][0], 0))
            out.append(t.val(env) - (l.val(env) if l is not None else 0.0))
            if b in RECURSIVE:
                env[(self.g[SPEC[b][0][0]][len(out) - 1], SPEC[b][0][1])] = out[-1]
        return np.array(out, dtype=float)

    def args(self, b):
        return BOUNDS if b in ("arbitrage_lb", "arbitrage_ub") else SPEC["felicity" if b == "auxiliary" else b][1]


TOL = dict(rtol=1e-9, atol=1e-10)


def probe(ctx, M, f, b):
    rng = ctx.rng
    args = M.args(b)
    dims = [len(M.g[grp]) for grp, _ in args] + [len(M.g["parameters"])]
    draw = lambda *sh: [rng.uniform(.3, 2, sh + (d,)) for d in dims]
    mon = "bounds" if b.startswith("arbitrage_") and b[-2:] in ("lb", "ub") else ("auxiliary" if b == "auxiliary" else "point")

    def want(vs):
        try:
            return M.eval(b, vs[:-1], vs[-1])
        except (TypeError, OverflowError, ZeroDivisionError):
            return None
    for _ in range(2):
        a = draw()
        w = want(a)
        if w is None or not np.isfinite(w[np.isfinite(w)]).all():
            continue
        fp = snapshot(a)
        with ctx.guard("call", block=b):
            r = f(*a)
        ctx.case(b, M.eq.get(b) and M.show(M.eq[b][0]))
        ctx.close(mon, r, w, block=b, **TOL)
        ctx.ok("args", snapshot(a) == fp, block=b)
        o = np.full(len(w), 7.0)
        with ctx.guard("call", block=b):
            f(*a, out=o)
        ctx.close(mon, o, w, block=b, how="out", **TOL)
    # batches: each row on its own; some layouts of memory
    N = int(rng.integers(1, 6))
    a = draw(N)
    k = int(rng.integers(4))
    if k == 1:
        a = [np.asfortranarray(v) for v in a]
    elif k == 2:
        a = [np.repeat(v, 2, axis=0)[::2] for v in a]
    W = [want([v[i] for v in a]) for i in range(N)]
    if all(w is not None for w in W):
        with ctx.guard("call", block=b):
            r = f(*a)
        ctx.close("batch", r, np.array(W), block=b, layout=k, **TOL)
        one = int(rng.integers(N))
        with ctx.guard("call", block=b):
            r1 = f(*[v[one] for v in a])
        ctx.close("batch", r1, W[one], block=b, how="row", **TOL)
    # some arguments constant
    mask = rng.random(len(dims)) < .5
    mask[int(rng.integers(len(dims)))] = True
    a2 = [v if mk else v[0] for v, mk in zip(a, mask)]
    W = [want([v[i] if mk else v for v, mk in zip(a2, mask)]) for i in range(N)]
    if all(w is not None for w in W):
        with ctx.guard("call", block=b):
            r = f(*a2)
        ctx.close("broadcast", r, np.array(W), block=b, mask=mask.tolist(), **TOL)
    # (K,N,n) arrays with constants and with (N,n) arrays
    K = int(rng.integers(1, 4))
    lev = [int(rng.integers(3)) for _ in dims]
    lev[int(rng.integers(len(dims)))] = 2
    big = [rng.uniform(.3, 2, ((K, N)[2 - l:] if l else ()) + (d,)) for l, d in zip(lev, dims)]
    at = lambda v, l, i, j: v[i, j] if l == 2 else (v[j] if l == 1 else v)
    W = [[want([at(v, l, i, j) for v, l in zip(big, lev)]) for j in range(N)] for i in range(K)]
    if all(w is not None for row in W for w in row):
        with ctx.guard("call", block=b):
            r = f(*big)
        ctx.close("grid", r, np.array(W), block=b, levels=lev, **TOL)


def random_models(ctx):
    opt = [b for b in SPEC if b not in ("transition", "arbitrage")]
    k = ctx.rep % 3
    M = Model(ctx.rng, optional=[opt[i] for i in range(k, len(opt), 3)])
    txt = M.text()
    with ctx.guard("import", text=txt):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            model = models.load(txt)
    F = model.functions
    names = list(M.blocks) + (["auxiliary"] if M.defs else []) + (["arbitrage_lb", "arbitrage_ub"] if M.bounded else [])
    for b in names:
        ctx.ok("functions", b in F, block=b, text=txt)
        with ctx.guard("function", block=b):
            f = F[b]
        probe(ctx, M, f, b)
    ctx.ok("functions", F["equilibrium"] is F["arbitrage"] and F["optimality"] is F["arbitrage"])
    # the bounds used by solvers
    a = [ctx.rng.uniform(.3, 2, len(M.g[g])) for g in ("exogenous", "states", "parameters")]
    with ctx.guard("x_bounds"):
        xb = model.x_bounds
    if M.bounded:
        if ctx.ok("bounds", xb is not None):
            for f, b in zip(xb, ("arbitrage_lb", "arbitrage_ub")):
                try:
                    w = M.eval(b, a[:-1], a[-1])
                except (TypeError, OverflowError, ZeroDivisionError):
                    continue
                ctx.close("bounds", f(*a), w, block=b, **TOL)
    ctx.sample(blocks=M.blocks, styles=M.style, definitions=len(M.defs), bounded=M.bounded, equation=M.show(M.eq["arbitrage"][0]))


def twins(ctx):
    """the same model written again: other names, declaration order, order of the blocks and style"""
    rng = ctx.rng
    M = Model(rng, optional=["felicity", "value"][:1 + int(rng.integers(2))])
    with ctx.guard("import"):
        m1 = models.load(M.text())
    perm = {g: rng.permutation(len(v)) for g, v in M.g.items()}
    if "rewards" in perm:
        perm["rewards"] = np.arange(len(M.g["rewards"]))           # each may use the previous ones
    fresh = [n for n in NAMES if n not in sum(M.g.values(), []) and n not in M.defs]
    fresh = [fresh[i] for i in rng.permutation(len(fresh))]
    ren = {v: (fresh.pop() if rng.random() < .5 else v) for v in sum(M.g.values(), []) + list(M.defs)}
    import copy
    T = copy.copy(M)
    rk = lambda k: ren[k] if isinstance(k, str) else (ren[k[0]], k[1])
    rt = lambda t: t if t is None or isinstance(t, str) else E(t.op, *[rt(a) if isinstance(a, E) else (rk(a) if t.op == "v" else a) for a in t.a])
    T.g = {g: [ren[v[i]] for i in perm[g]] for g, v in M.g.items()}
    keys = list(T.g)
    T.g = {k: T.g[k] for k in [keys[i] for i in rng.permutation(len(keys))]}
    T.defs = {ren[k]: rt(v) for k, v in M.defs.items()}
    T.defstyle = "text" if M.defstyle == "map" else "map"
    T.deforder = list(T.defs)
    T.blocks = list(reversed(M.blocks))
    T.style = {b: s if any(l is not None for l in M.lhs[b]) else ("list" if s == "text" else "text") for b, s in M.style.items()}
    T.eq, T.lhs = {}, {}
    for b in M.blocks:
        tgt = SPEC[b][0]
        o = perm[tgt[0]] if tgt else (perm["controls"] if b == "arbitrage" else np.arange(len(M.eq[b])))
        T.eq[b] = [rt(M.eq[b][i]) for i in o]
        T.lhs[b] = [rt(M.lhs[b][i]) for i in o]
    T.lb, T.ub = [rt(M.lb[i]) for i in perm["controls"]], [rt(M.ub[i]) for i in perm["controls"]]
    with ctx.guard("import", text=T.text()):
        m2 = models.load(T.text())
    ctx.case("twin", ctx.rep, T.text())
    for b in M.blocks + (["arbitrage_lb", "arbitrage_ub"] if M.bounded else []):
        args = M.args(b) + [("parameters", 0)]
        tgt = SPEC[b][0] if b in SPEC else None
        o = perm[tgt[0]] if tgt else (perm["controls"] if b.startswith("arbitrage") and b != "arbitrage_exp" else slice(None))
        for N in ((), (4,)):
            a = [rng.uniform(.3, 2, N + (len(M.g[g]),)) for g, _ in args]
            with ctx.guard("call", block=b):
                r1 = m1.functions[b](*a)
                r2 = m2.functions[b](*[np.ascontiguousarray(v[..., perm[g]]) for v, (g, _) in zip(a, args)])
            ctx.close("twin", r2, r1[..., o], rtol=1e-9, atol=1e-10, block=b)


def examples(ctx):
    files = sorted(glob.glob(os.path.join(models.REPO, "examples", "models", "*.yaml")))
    rng = ctx.rng
    for q, fn in enumerate(files):
        if q % 4 != ctx.rep % 4:
            continue
        raw = models.read_yaml(fn)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                import dolo
                model = dolo.yaml_import(fn)
        except Exception as e:
            ctx.count("not_loaded")
            continue
        sym = raw["symbols"]
        variables = sum([v for k, v in sym.items() if k != "parameters"], [])
        R = models.Reader(variables, raw["definitions"])
        cal = model.calibration
        for b, eqs in raw["equations"].items():
            if b not in SPEC:
                continue
            tgt, args = SPEC[b]
            f = model.functions[b]
            vals = lambda: [np.asarray(cal[g]) * rng.uniform(.97, 1.03, len(cal[g])) + (rng.normal(size=len(cal[g])) * .01 if g == "exogenous" else 0) for g, _ in args]
            for _ in range(2):
                a, p = vals(), np.asarray(cal["parameters"])
                env = {(n, d): float(z) for (g, d), v in zip(args, a) for n, z in zip(sym[g], v)}
                pd = dict(zip(sym["parameters"], map(float, p)))
                want = []
                try:
                    for e in eqs:
                        e = e.split("⟂")[0].split("|")[0]
                        if "=" in e:
                            l, r = [z.strip() for z in e.replace("==", "=").split("=")]
                            want.append(R.eval(r, env, pd) - (0 if tgt else R.eval(l, env, pd)))
                            if b in RECURSIVE:
                                env[(sym[tgt[0]][len(want) - 1], tgt[1])] = want[-1]
                        else:
                            want.append(R.eval(e.strip(), env, pd))
                except ZeroDivisionError:
                    continue
                except (SyntaxError, KeyError, NameError) as ex:
                    ctx.count("unreadable_blocks")
                    break
                want = np.array(want)
                if np.iscomplexobj(want) or not np.isfinite(want).all():
                    continue
                with ctx.guard("call", file=fn, block=b):
                    got = f(*a, p)
                ctx.case("example", os.path.basename(fn), b)
                ctx.close("example", got, want, file=os.path.basename(fn), block=b, rtol=1e-9, atol=1e-9)
                with ctx.guard("call", file=fn, block=b):
                    got2 = f(*[np.tile(v, (3, 1)) for v in a], p)
                ctx.close("example", got2, np.tile(want, (3, 1)), file=os.path.basename(fn), block=b, how="batch", rtol=1e-9, atol=1e-9)


def rejected(ctx):
    rng = ctx.rng
    M = Model(rng, optional=["felicity"])
    for _ in range(30):
        if M.defs and M.bounded and M.lb[0] is not None and len(M.g["controls"]) > 1:
            break
        M = Model(rng, optional=["felicity"])
    s, x, m, p = M.g["states"][0], M.g["controls"][0], M.g["exogenous"][0], M.g["parameters"][0]
    add = lambda blk, z: lambda b, q, e: (e.replace("⟂", "|").split("|")[0] + " + " + z + (" ⟂ " + e.replace("⟂", "|").split("|", 1)[1] if "⟂" in e or "|" in e else "")) if b == blk and q == 0 else e
    bnd = lambda z: lambda b, q, e: e.replace("<=", f"+ {z} <=", 1) if b == "arbitrage" and q == 0 else e
    d0 = next(iter(M.defs), None)
    cases = [("undeclared in transition", add("transition", "nowhere")), ("undeclared in arbitrage", add("arbitrage", "nowhere[t+1]")),
             ("undeclared in felicity", add("felicity", "nowhere[t]")), ("control[t] in transition", add("transition", f"{x}[t]")),
             ("state[t] in transition", add("transition", f"{s}[t]")), ("state[t+1] in transition", add("transition", f"{s}[t+1]")),
             ("shock[t+1] in transition", add("transition", f"{m}[t+1]")), ("state[t-1] in arbitrage", add("arbitrage", f"{s}[t-1]")),
             ("state[t+2] in arbitrage", add("arbitrage", f"{s}[t+2]")), ("shock[t-1] in arbitrage", add("arbitrage", f"{m}(-1)")),
             ("control[t+1] in felicity", add("felicity", f"{x}[t+1]")), ("control in a bound", bnd(f"{x}[t]")), ("future state in a bound", bnd(f"{s}[t+1]")),
             ("future shock in a bound", bnd(f"{m}[t+1]")), ("undeclared in a bound", bnd("nowhere")),
             ("syntax", add("transition", "* 3"))]
    if M.lb[0] is not None and len(M.g["controls"]) > 1:
        y = M.g["controls"][1]
        cases.append(("another control in the complementarity", lambda b, q, e: e.replace(f"<= {x}[t] <=", f"<= {y}[t] <=") if b == "arbitrage" and q == 0 else e))
    if d0:
        cases += [("definition[t] in transition", add("transition", f"{d0}[t]")), ("definition[t+2] in arbitrage", add("arbitrage", f"{d0}[t+2]"))]
    # the model itself is accepted
    with ctx.guard("import", text=M.text()):
        models.load(M.text())
    pick = [cases[i] for i in rng.permutation(len(cases))[:len(cases) if ctx.thorough else 9]]
    for name, mu in pick:
        txt = M.text(mu)
        if "bound" in name and M.lb[0] is None:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctx.case("rejected", name, ctx.rep)
            ctx.raises("rejected", lambda: models.load(txt), case=name, text=[l for l in txt.splitlines() if "nowhere" in l or "[t" in l][:20])
    # definitions
    M.defstyle = "text"
    if d0:
        M.deforder = list(M.defs)
        for name, fn in (("definition dated t-1", lambda t: t.replace(f"    {d0}[t] =", f"    {d0}[t-1] =")),
                         ("definition of a state", lambda t: t.replace(f"    {d0}[t] =", f"    {s}[t] =")),
                         ("undeclared parameter in a definition", lambda t: t.replace(f"    {d0}[t] =", f"    {d0}[t] = nowhere +")),
                         ("undeclared variable in a definition", lambda t: t.replace(f"    {d0}[t] =", f"    {d0}[t] = nowhere[t] +"))):
            txt = fn(M.text())
            ctx.raises("rejected", lambda: models.load(txt), case=name)


SCENARIOS = [Scenario("random", random_models, quick=9, thorough=60), Scenario("twins", twins, quick=3, thorough=20),
             Scenario("examples", examples, quick=4, thorough=8), Scenario("rejected", rejected, quick=4, thorough=16)]
