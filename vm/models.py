"""Model files written by the harness (random and fixed), and an independent reader of
equations: a small evaluator of dolo's language that shares no code with dolo/dolang."""
import os
import re
import tempfile
import numpy as np

REPO = os.environ.get("VM_REPO", "/repo")
_n = [0]
LAST = [None]      # text of the last model loaded


def load(txt, **kw):
    import dolo
    _n[0] += 1
    LAST[0] = txt
    d = os.environ.get("VM_SCRATCH", tempfile.gettempdir())
    p = os.path.join(d, f"m_{os.getpid()}_{_n[0]}.yaml")
    with open(p, "w", encoding="utf-8") as f:
        f.write(txt)
    try:
        return dolo.yaml_import(p, **kw)
    finally:
        os.remove(p)


def example(name):
    import dolo
    return dolo.yaml_import(os.path.join(REPO, "examples", "models", name))


def num(v):
    """A float literal that YAML and dolo's grammar read back exactly (no bare exponent)."""
    v = float(v)
    s = repr(v)
    if "e" in s or "E" in s:
        s = f"{v:.17f}"
    return s


class LinSpec:
    """s' = A s + B x + C m + D m';   0 = x - (F s + G m) - E[ P x' + Q s' + R m' ] + const
    written around the calibrated steady state."""
    pass


def random_linear_spec(rng, ns=None, nx=None, nm=None, forward=0.35, contraction=0.6, with_m_lag=True):
    s = LinSpec()
    ns = int(rng.integers(1, 4)) if ns is None else ns
    nx = int(rng.integers(1, 3)) if nx is None else nx
    nm = int(rng.integers(1, 3)) if nm is None else nm
    names = [f"{a}{b}" for a in "abcdfghkpquvwyz" for b in ("", "_1", "2")]
    # lexically shuffled names: nothing may depend on the alphabetical order of symbols
    pick = [names[i] for i in rng.permutation(len(names))]
    s.states, s.controls, s.exo = pick[:ns], pick[ns:ns + nx], pick[ns + nx:ns + nx + nm]
    A = rng.normal(size=(ns, ns))
    A *= contraction * rng.uniform(.5, 1) / max(1e-9, np.abs(np.linalg.eigvals(A)).max(), np.linalg.norm(A, 2))
    s.A = A
    s.B = rng.normal(size=(ns, nx)) * 0.15
    s.C = rng.normal(size=(ns, nm)) * 0.3 * (1 if with_m_lag else 0)
    s.D = rng.normal(size=(ns, nm)) * 0.5
    s.F = rng.normal(size=(nx, ns)) * 0.4
    s.G = rng.normal(size=(nx, nm)) * 0.4
    s.P = rng.normal(size=(nx, nx)) * forward / max(1, nx)
    s.Q = rng.normal(size=(nx, ns)) * 0.2
    s.R = rng.normal(size=(nx, nm)) * 0.3
    s.s0 = rng.uniform(-2, 2, ns)
    s.x0 = rng.uniform(-2, 2, nx)
    s.m0 = np.zeros(nm)
    for k in "A B C D F G P Q R s0 x0 m0".split():
        setattr(s, k, np.round(getattr(s, k), 6))
    return s


def _lin(coefs, names, dates):
    out = []
    for c, n, d in zip(coefs, names, dates):
        if c != 0:
            out.append(f"({num(c)})*({n}[{d}] - {n}_ss)")
    return out or ["0.0"]


def linear_yaml(spec, exo_text=None, domain_order=None, grid="cartesian", rng=None, n=None, width=1.5,
                bounds=None, extra_domain=False, style="new", definitions=None):
    S, X, M = spec.states, spec.controls, spec.exo
    par = [f"{v}_ss" for v in S + X + M] + ["wid"]
    trans, arb = [], []
    for i, v in enumerate(S):
        rhs = (_lin(spec.A[i], S, ["t-1"] * len(S)) + _lin(spec.B[i], X, ["t-1"] * len(X))
               + _lin(spec.C[i], M, ["t-1"] * len(M)) + _lin(spec.D[i], M, ["t"] * len(M)))
        trans.append(f"{v}[t] = {v}_ss + " + " + ".join(rhs))
    for i, v in enumerate(X):
        rhs = (_lin(spec.F[i], S, ["t"] * len(S)) + _lin(spec.G[i], M, ["t"] * len(M))
               + _lin(spec.P[i], X, ["t+1"] * len(X)) + _lin(spec.Q[i], S, ["t+1"] * len(S)) + _lin(spec.R[i], M, ["t+1"] * len(M)))
        e = f"({v}[t] - {v}_ss) - (" + " + ".join(rhs) + ")"
        if bounds is not None:
            lo, hi = bounds[i]
            e += f" ⟂ {lo} <= {v}[t] <= {hi}"
        arb.append(e)
    if exo_text is None:
        Sg = np.diag([0.0004] * len(M))
        exo_text = "exogenous: !Normal\n    Sigma: " + repr(Sg.tolist())
    lines = ["name: lin", "symbols:",
             f"    exogenous: [{', '.join(M)}]", f"    states: [{', '.join(S)}]",
             f"    controls: [{', '.join(X)}]", f"    parameters: [{', '.join(par)}]"]
    if definitions:
        if style == "new":
            lines += ["definitions: |"] + [f"    {k}[t] = {v}" for k, v in definitions]
        else:
            lines += ["definitions:"] + [f"    {k}[t]: {v}" for k, v in definitions]
    lines += ["equations:"]
    if style == "new":
        lines += ["    transition: |"] + ["        " + e for e in trans]
        lines += ["    arbitrage: |"] + ["        " + e for e in arb]
    else:
        lines += ["    transition:"] + ["        - " + e for e in trans]
        lines += ["    arbitrage:"] + ["        - " + e for e in arb]
    lines += ["calibration:"]
    for names, vals in ((S, spec.s0), (X, spec.x0), (M, spec.m0)):
        for v, c in zip(names, vals):
            lines += [f"    {v}_ss: {num(c)}", f"    {v}: {v}_ss"]
    if definitions:
        lines += [f"    {k}: 0.0" for k, v in definitions]
    lines += [f"    wid: {num(width)}"]
    info = dict(domain={v: (spec.s0[i] - width * (i + 1), spec.s0[i] + 2 * width) for i, v in enumerate(S)})
    if grid != "nodomain":
        lines += ["domain:"]
        order = domain_order if domain_order is not None else range(len(S))
        items = [f"    {S[i]}: [{S[i]}_ss - wid*{i+1}, {S[i]} + 2*wid]" for i in order]
        if extra_domain:
            items.insert(int(rng.integers(len(items) + 1)), f"    {X[0]}: [-1.0, 1.0]")
        lines += items
    lines += [exo_text, "options:"]
    if grid in ("cartesian",):
        n = (rng.integers(3, 6, len(S)).tolist() if n is None else n)
        info["n"] = n
        key = "orders" if rng is not None and rng.random() < .5 else "n"
        lines += [f"    grid: !Cartesian", f"        {key}: {list(n)}"]
    elif grid == "default":
        info["n"] = [20] * len(S)
        lines += ["    grid: !Cartesian {}"]
    elif grid == "nonuniform":
        info["nodes"] = []
        txts = []
        for i, v in enumerate(S):
            lo, hi = info["domain"][v]
            k = int(rng.integers(3, 6))
            u = np.sort(rng.uniform(0.05, 0.95, k - 2)).round(4)
            pts = np.concatenate([[lo], lo + (hi - lo) * u, [hi]])
            info["nodes"].append(pts.tolist())
            txts.append("        - [" + ", ".join(f"{v}_ss + {num(p - spec.s0[i])}" for p in pts) + "]")
            info["nodes"][-1] = [spec.s0[i] + float(num(p - spec.s0[i])) for p in pts]
        lines += ["    grid: !NonUniformCartesian"] + txts
    elif grid == "smolyak":
        info["mu"] = 2
        lines += ["    grid: !Smolyak", "        mu: 2"]
    return "\n".join(lines) + "\n", info


# --------------------------------------------------------------------- equation reader
FUN = dict(exp=np.exp, log=np.log, sin=np.sin, cos=np.cos)
_tim = re.compile(r"([^\W\d]\w*)\s*(?:\[\s*t\s*([+-]\s*\d+)?\s*\]|\(\s*([+-]?\s*\d+)\s*\))")


class Reader:
    """Evaluates strings such as  'y[t+1] - k(-1)^alpha*x'  given values of dated variables."""

    def __init__(self, variables, definitions=(), params=()):
        self.variables = list(variables)
        self.defs = {}
        for lhs, rhs in definitions:
            nm = re.match(r"\s*([^\W\d]\w*)", lhs).group(1)
            self.defs[nm] = rhs
        self.params = list(params)

    def norm(self, expr):
        """-> python source in which a dated variable v_{t+k} is the call V_("v", k)."""
        vars_ = set(self.variables) | set(self.defs)
        out, pos = [], 0
        for m in _tim.finditer(expr):
            nm = m.group(1)
            if nm not in vars_:
                continue
            k = (m.group(2) or m.group(3) or "0").replace(" ", "")
            out.append(self._undated(expr[pos:m.start()], vars_))
            out.append(f'V_("{nm}",{int(k)})')
            pos = m.end()
        out.append(self._undated(expr[pos:], vars_))
        return "".join(out).replace("^", "**")

    def _undated(self, s, vars_):
        return re.sub(r"[^\W\d]\w*", lambda m: f'V_("{m.group(0)}",0)' if m.group(0) in vars_ else m.group(0), s)

    def eval(self, expr, values, params, shift=0):
        """values[(name, k)] -> float."""
        def V_(nm, k):
            k = k + shift
            if (nm, k) in values:
                return values[(nm, k)]
            if nm in self.defs:
                return self.eval(self.defs[nm], values, params, shift=k)
            raise KeyError((nm, k))
        env = dict(FUN)
        env["inf"] = np.inf
        env.update(params)
        env["V_"] = V_
        with np.errstate(all="ignore"):
            return eval(self.norm(expr).strip(), {"__builtins__": {}}, env)


def read_yaml(path_or_txt, is_text=False):
    """Plain reading of a model file: symbols, definitions, equations, calibration (unevaluated)."""
    import yaml

    class L(yaml.SafeLoader):
        pass

    def any_(loader, suffix, node):
        if isinstance(node, yaml.MappingNode):
            return ("!" + suffix, loader.construct_mapping(node, deep=True))
        if isinstance(node, yaml.SequenceNode):
            return ("!" + suffix, loader.construct_sequence(node, deep=True))
        return ("!" + suffix, loader.construct_scalar(node))
    L.add_multi_constructor("!", any_)
    txt = path_or_txt if is_text else open(path_or_txt, encoding="utf-8").read()
    d = yaml.load(txt, Loader=L)
    out = dict(symbols=d["symbols"], calibration=d.get("calibration", {}) or {}, raw=d)
    defs = d.get("definitions", {})
    if isinstance(defs, str):
        defs = [tuple(l.split("=", 1)) for l in defs.strip().splitlines() if l.strip()]
    else:
        defs = [(k, str(v)) for k, v in (defs or {}).items()]
    out["definitions"] = defs
    eqs = {}
    for g, v in d["equations"].items():
        eqs[g] = [l.strip() for l in v.strip().splitlines() if l.strip()] if isinstance(v, str) else [str(e) for e in v]
    out["equations"] = eqs
    return out


def auxiliaries(rng, spec, k=None):
    """Random definitions over states, controls and shocks of date t (the later use the earlier)."""
    k = int(rng.integers(0, 3)) if k is None else k
    names = ["zaux", "aaux", "maux"][:k]
    out = []
    S, X, M = spec.states, spec.controls, spec.exo
    for i, nm in enumerate(names):
        a, b, c = S[int(rng.integers(len(S)))], X[int(rng.integers(len(X)))], M[int(rng.integers(len(M)))]
        e = f"{a}[t]*{num(np.round(rng.normal(), 3))} + sin({b}[t]) - {c}[t]*{a}_ss"
        if i > 0:
            e += f" + {names[i-1]}[t]*0.5"
        out.append((nm, e))
    return out


def eval_aux(defs, spec, M, S, X, params):
    """Values (n x len(defs)) of the definitions, by the independent reader."""
    if not defs:
        return np.zeros((len(S), 0))
    R = Reader(spec.states + spec.controls + spec.exo + [k for k, _ in defs], [(k + "[t]", v) for k, v in defs])
    out = np.empty((len(S), len(defs)))
    for n in range(len(S)):
        v = {}
        for names, row in ((spec.exo, M[n]), (spec.states, S[n]), (spec.controls, X[n])):
            v.update({(k, 0): float(r) for k, r in zip(names, row)})
        out[n] = [R.eval(f"{k}[t]", v, params) for k, _ in defs]
    return out


def params_of(model):
    return {k: float(model.calibration[k]) for k in model.symbols["parameters"]}


def lin_next(spec, m, s, x, M):
    """Transition of a linear spec (batched)."""
    return (spec.s0 + (s - spec.s0) @ spec.A.T + (x - spec.x0) @ spec.B.T + (m - spec.m0) @ spec.C.T
            + (M - spec.m0) @ spec.D.T)


def lin_residual(spec, m, s, x, M, S, X):
    return ((x - spec.x0) - (s - spec.s0) @ spec.F.T - (m - spec.m0) @ spec.G.T - (X - spec.x0) @ spec.P.T
            - (S - spec.s0) @ spec.Q.T - (M - spec.m0) @ spec.R.T)


def exo_iid(rng, nm, scale=.05):
    A = rng.normal(size=(nm, nm))
    S = np.round(scale ** 2 * (A @ A.T + .3 * np.eye(nm)), 10)
    return "exogenous: !Normal\n    Sigma: " + str([[float(num(v)) for v in r] for r in S]), S


def exo_unormal(rng, scale=.05):
    sg = float(np.round(rng.uniform(.5, 2) * scale, 6))
    return f"exogenous: !UNormal\n    sigma: {num(sg)}", sg


def exo_var(rng, nm, scale=.05):
    A = rng.normal(size=(nm, nm))
    S = np.round(scale ** 2 * (A @ A.T + .3 * np.eye(nm)), 10)
    rho = float(np.round(rng.uniform(.1, .9), 4))
    return f"exogenous: !VAR1\n    rho: {num(rho)}\n    Sigma: " + str([[float(num(v)) for v in r] for r in S]), rho, S


def exo_markov(rng, nm, n=None, scale=.1):
    n = int(rng.integers(2, 4)) if n is None else n
    V = np.round(rng.normal(size=(n, nm)) * scale, 6)
    P = np.round(rng.dirichlet(np.ones(n), n), 6)
    P[:, -1] = 1 - P[:, :-1].sum(axis=1)
    P = np.round(P, 12)
    fmt = lambda A: "[" + ", ".join("[" + ", ".join(num(v) for v in r) + "]" for r in A) + "]"
    return f"exogenous: !MarkovChain\n    values: {fmt(V)}\n    transitions: {fmt(P)}", V, P
