"""C29 nothing is modified, results do not depend on history, deterministic computations repeat."""
import os
import re
import warnings
import numpy as np
from vm.core import Scenario, snapshot
from vm import models
from vm.props import c20

RULE = ("random sequences of algorithm calls (residuals, steady state, perturbation, time iteration, improved time iteration, value iteration, policy evaluation, "
        "perfect foresight, simulation, responses, tabulation, ergodic distribution, discretization, egm, printing) and calibration changes on one model; "
        "each result is compared with the one obtained from a fresh model without history and with an immediate repetition; content fingerprints of the model, "
        "decision rules and every argument before and after each call; non-trivial: the operation follows at least one other on the same model")
REQUIRED = {"history": 60, "repeat": 60, "model-unchanged": 60, "rule-unchanged": 60, "argument-unchanged": 40, "result-unchanged": 30, "mutate-result": 20}


def node(n):
    """content of the yaml nodes of a model"""
    import yaml
    if isinstance(n, yaml.MappingNode):
        return ("map", n.tag, [(node(k), node(v)) for k, v in n.value])
    if isinstance(n, yaml.SequenceNode):
        return ("seq", n.tag, [node(v) for v in n.value])
    if isinstance(n, yaml.ScalarNode):
        return (n.tag, repr(n.value))
    return repr(n)


def fp_model(model):
    c = model.calibration
    out = [node(model.data), {k: float(v) for k, v in c.flat.items()}, {k: np.array(c[k]) for k in model.symbols},
           {k: list(v) for k, v in model.symbols.items()}, {k: list(v) for k, v in model.equations.items()}, dict(model.definitions),
           np.array(model.domain.min), np.array(model.domain.max), list(model.domain.states), np.array(model.endo_grid.nodes), str(model.options and node(model.options)),
           sorted(model.functions.keys())]
    return [snapshot(o) for o in out] + [repr(model.exogenous.__class__), snapshot({k: v for k, v in vars(model.exogenous).items() if not k.startswith("_")})]


def probes(model):
    D = model.domain
    u = np.random.default_rng(3).uniform(.02, .98, (7, len(D.min)))
    return np.array(D.min) + u * (np.array(D.max) - np.array(D.min))


def fp_rule(model, dr):
    """values of a decision rule at fixed points"""
    s = probes(model)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            n = max(1, dr.exo_grid.n_nodes)
            return np.array([np.asarray(dr(i, s)) for i in range(n)])
        except Exception:
            m = np.asarray(model.calibration["exogenous"])
            return np.asarray(dr(m, s))


# ----------------------------------------------------------------- operations
class Env:
    """what an operation uses; arguments given to the library are watched"""

    def __init__(self, model, dr):
        self.model, self.dr = model, dr
        self.args = []
        self.kept = []

    def give(self, a):
        self.args.append((a, snapshot(a)))
        return a


def op_residuals(e, r):
    from dolo.algos.steady_state import residuals
    return {k: np.array(v, dtype=float) for k, v in residuals(e.model).items()}


def op_steady(e, r):
    from dolo.algos.steady_state import find_steady_state
    c = find_steady_state(e.model)
    return {k: np.array(c[k]) for k in ("states", "controls")}


def op_perturb(e, r):
    import dolo
    res = dolo.perturb(e.model, verbose=False)
    return dict(x=fp_pert(e.model, res.dr), e=np.sort(np.abs(np.asarray(res.generalized_eigenvalues))), flags=np.array([res.stable, res.determined, res.unique], dtype=float))


def fp_pert(model, dr):
    c = model.calibration
    try:
        return np.asarray(dr(probes(model)))
    except Exception:
        return np.asarray(dr(np.asarray(c["exogenous"]), probes(model)))


def op_ti(e, r):
    import dolo
    kw = {}
    k = int(r.integers(4))
    if k == 1:
        kw["dr0"] = e.dr
    if k == 2:
        kw["interp_method"] = "linear"
    if k == 3:
        kw["ignore_constraints"] = True
    res = dolo.time_iteration(e.model, verbose=False, maxit=6, **kw)
    e.kept.append(res.dr)
    return dict(dr=fp_rule(e.model, res.dr), err=np.array(res.x_converged), n=np.array(res.iterations))


def op_iti(e, r):
    import dolo
    kw = {}
    k = int(r.integers(3))
    if k == 1:
        kw["dr0"] = e.dr
    if k == 2:
        kw["invmethod"] = "gmres"
    res = dolo.improved_time_iteration(e.model, verbose=False, maxit=4, **kw)
    e.kept.append(res.dr)
    return dict(dr=fp_rule(e.model, res.dr), n=np.array(res.N))


def op_vi(e, r):
    import dolo
    res = dolo.value_iteration(e.model, maxit=3, maxit_howard=3)
    e.kept.append(res.dr)
    return dict(dr=fp_rule(e.model, res.dr), v=fp_rule(e.model, res.drv))


def op_ep(e, r):
    import dolo
    sol = dolo.evaluate_policy(e.model, e.dr, verbose=False, maxit=8)
    return dict(v=fp_rule(e.model, sol))


def op_pf(e, r):
    import dolo
    nm = len(e.model.symbols["exogenous"])
    T = int(r.integers(6, 12))
    k = int(r.integers(3))
    kw = dict(T=T)
    if k == 0:
        kw["exogenous"] = e.give(np.round(r.normal(size=(4, nm)) * .02, 4))
    elif k == 1:
        kw["exogenous"] = e.give({e.model.symbols["exogenous"][0]: [0.01, 0.02, 0.0]})
    else:
        kw["s0"] = e.give(np.asarray(e.model.calibration["states"]) * (1 + .05 * r.uniform(-1, 1)))
    constant = "eta" in e.model.symbols["parameters"]           # bounds which are not constant are not supported
    if r.random() < .4 and constant:
        kw["solver"] = "lmmcp"
    elif r.random() < .3 or not constant:
        kw["ignore_constraints"] = True
    try:
        df = dolo.deterministic_solve(e.model, verbose=False, **kw)
    except Exception as ex:
        if "onvergence" not in str(ex):
            raise
        return dict(failed=np.ones(1))              # said so: it has to be the same each time
    if r.random() < .5:
        try:
            df2 = dolo.deterministic_solve(e.model, verbose=False, initial_guess=e.give(df.copy()), **kw)
        except Exception as ex:
            if "onvergence" not in str(ex):
                raise
            return dict(sol=df.to_numpy())
        return dict(sol=df.to_numpy(), again=df2.to_numpy())
    return dict(sol=df.to_numpy())


def op_sim(e, r):
    import dolo
    kw = dict(N=3, T=8, seed=int(r.integers(5)))
    k = int(r.integers(4))
    if k == 1:
        kw["s0"] = e.give(np.asarray(e.model.calibration["states"]) * 1.02)
    if k == 2:
        nm = len(e.model.symbols["exogenous"])
        from dolo.numeric.processes import IIDProcess
        if isinstance(e.model.exogenous, IIDProcess):        # rules on a Markov chain are only known at its nodes
            kw["driving_process"] = e.give(np.round(r.normal(size=(8, 3, nm)) * .02, 4))
    if k == 3:
        kw["stochastic"] = False
    sim = dolo.simulate(e.model, e.dr, **kw)
    return dict(sim=np.asarray(sim.values, dtype=float))


def op_tab(e, r):
    import dolo
    st = e.model.symbols["states"]
    kw = dict(n_steps=9)
    if r.random() < .5:
        kw["s0"] = e.give(np.asarray(e.model.calibration["states"]) * 1.01)
    t = dolo.tabulate(e.model, e.dr, st[int(r.integers(len(st)))], **kw)
    return dict(t=np.asarray(t.values, dtype=float))


def op_erg(e, r):
    import dolo
    P, mu = dolo.ergodic_distribution(e.model, e.dr)
    return dict(P=np.asarray(P.values if hasattr(P, "values") else P), mu=np.asarray(mu.values if hasattr(mu, "values") else mu))


def op_irf(e, r):
    import dolo
    from dolo.numeric.processes import MarkovChain
    if isinstance(e.model.exogenous, MarkovChain):
        return op_disc(e, r)
    i = dolo.response(e.model, e.dr, e.model.symbols["exogenous"][0], T=8)
    return dict(i=np.asarray(i.values, dtype=float))


def op_disc(e, r):
    grid, dp = e.model.discretize()
    out = dict(endo=np.array(grid["endo"].nodes))
    n = max(dp.n_nodes, 1)
    out["nodes"] = np.array([np.asarray(dp.node(i)).ravel() for i in range(n)])
    out["inodes"] = np.array([np.asarray(dp.inode(i, j)).ravel() for i in range(n) for j in range(dp.n_inodes(i))])
    out["w"] = np.array([dp.iweight(i, j) for i in range(n) for j in range(dp.n_inodes(i))])
    return out


def op_print(e, r):
    txt = str(e.model) + repr(e.model)
    try:
        txt += e.model._repr_html_()
    except ModuleNotFoundError:
        pass
    return dict(s=np.frombuffer(re.sub(r"0x[0-9a-f]+|m_\d+_\d+\.yaml", "", txt).encode(), dtype=np.uint8).astype(float))


def op_fun(e, r):
    out = {}
    c = e.model.calibration
    f, g = e.model.functions["arbitrage"], e.model.functions["transition"]
    m, s, x, p = [np.asarray(c[k]) for k in ("exogenous", "states", "controls", "parameters")]
    S, X = e.give(np.tile(s, (3, 1)) * r.uniform(.9, 1.1, (3, len(s)))), e.give(np.tile(x, (3, 1)))
    for q, v in enumerate(f(m, S, X, m, S, X, p)):
        out[f"f{q}"] = v
    M = e.give(np.tile(m, (3, 1)))
    for q, v in enumerate(g(M, S, X, M, p, diff=True)):
        out[f"g{q}"] = v
    return out


def op_egm(e, r):
    import dolo
    from dolo.algos.egm import egm
    a = e.give(np.linspace(.02, 3.5, int(r.integers(15, 30))))
    kw = dict(dr0=e.dr) if r.random() < .5 else {}
    res = egm(e.model, a_grid=a, maxit=6, **kw)
    e.kept.append(res.dr)
    return dict(dr=fp_rule(e.model, res.dr))


CAPITAL = dict(residuals=op_residuals, steady=op_steady, perturb=op_perturb, ti=op_ti, iti=op_iti, vi=op_vi, ep=op_ep, pf=op_pf, sim=op_sim, tab=op_tab,
               erg=op_erg, irf=op_irf, disc=op_disc, print=op_print, fun=op_fun)


def source(ctx, kind):
    """(import function, changes of calibration, operations)"""
    if kind in ("iid", "markov", "var"):
        _, Y, d = c20.make(ctx, kind, n=int(ctx.rng.integers(8, 13)))
        txt = ctx.last_text
        ops = {k: v for k, v in CAPITAL.items() if not (kind in ("markov", "var") and k in ("perturb", "irf")) and not (k == "erg" and kind == "var")}
        return (lambda: models.load(txt)), [dict(gam=d["gam"], delta=d["delta"]), dict(gam=np.round(d["gam"] + .6, 4).item(), delta=np.round(d["delta"] * 1.1, 4).item())], ops
    name = {"rbc": "rbc_iid.yaml", "cs": "consumption_savings_iid.yaml"}[kind]
    fn = os.path.join(models.REPO, "examples", "models", name)
    txt = open(fn, encoding="utf-8").read()
    if kind == "rbc":
        txt = txt.replace("orders: [5, 50]", "orders: [4, 9]")
        ops = {k: CAPITAL[k] for k in ("residuals", "steady", "perturb", "ti", "iti", "sim", "tab", "irf", "disc", "print", "fun", "pf")}
        return (lambda: models.load(txt)), [dict(eta=1, delta=0.025), dict(eta=1.3, delta=0.03)], ops
    txt = txt.replace("orders: [100]", "orders: [25]")
    ops = {k: CAPITAL[k] for k in ("residuals", "ti", "iti", "sim", "tab", "disc", "print", "fun")}
    ops["egm"] = op_egm
    return (lambda: models.load(txt)), [dict(γ=4.0), dict(γ=3.0)], ops


def make_rule(model):
    import dolo
    return dolo.time_iteration(model, verbose=False, maxit=5).dr


def equal(ctx, monitor, got, want, tol, **detail):
    if not ctx.ok(monitor, set(got) == set(want), got=sorted(got), want=sorted(want), **detail):
        return
    for k in want:
        g, w = np.asarray(got[k], dtype=complex if np.iscomplexobj(want[k]) else float), np.asarray(want[k], dtype=complex if np.iscomplexobj(want[k]) else float)
        ctx.close(monitor, g, w, rtol=tol, atol=tol, part=k, **detail)


def runop(ctx, name, fn, env, argseed):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with ctx.guard("operation", op=name, argseed=argseed):
            return fn(env, np.random.default_rng(argseed))


def sequences(ctx):
    rng = ctx.rng
    kind = ("iid", "markov", "rbc", "cs", "var")[ctx.rep % 5]
    orig = models.load
    models.load = lambda t, **kw: (setattr(ctx, "last_text", t), orig(t, **kw))[1]
    try:
        imp, cals, ops = source(ctx, kind)
    finally:
        models.load = orig
    names = list(ops)
    # the sequence: operations with their arguments and changes of calibration
    plan, cal = [], 0
    todo = [names[i] for i in rng.permutation(len(names))]
    for q in range(14 if not ctx.thorough else 30):
        if rng.random() < .2:
            cal = 1 - cal
        nm = todo.pop() if todo else names[int(rng.integers(len(names)))]
        plan.append((nm, int(rng.integers(3)), cal))
    refs, rules = {}, {}

    def fresh(cal):
        with ctx.guard("import"):
            m = imp()
        m.set_calibration(**cals[cal])
        return m

    def ref(nm, a, cal):
        if (nm, a, cal) not in refs:
            m = fresh(cal)
            dr = make_rule(m)
            e = Env(m, dr)
            refs[nm, a, cal] = runop(ctx, nm, ops[nm], e, a)
            rules.setdefault(cal, fp_rule(m, dr))
        return refs[nm, a, cal]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        model = imp()
        model.set_calibration(**cals[0])
        cur = 0
        dr = make_rule(model)
        done, kept = [], []
        for q, (nm, a, cal) in enumerate(plan):
            want = ref(nm, a, cal)
            if cal != cur:
                model.set_calibration(**cals[cal])
                cur = cal
                with ctx.guard("operation", op="rule"):
                    dr = make_rule(model)
                ctx.close("history", fp_rule(model, dr), rules[cal], rtol=1e-12, atol=1e-12, op="time_iteration", after=done[-6:], kind=kind)
                kept = []
            fm, fd = fp_model(model), fp_rule(model, dr)
            env = Env(model, dr)
            got = runop(ctx, nm, ops[nm], env, a)
            ctx.case(kind, nm, a, cal, done[-2:], nontrivial=q > 0)
            equal(ctx, "history", got, want, 1e-12, op=nm, argseed=a, after=done[-6:], kind=kind)
            g2 = fp_model(model)
            bad = [i for i, (u, v) in enumerate(zip(fm, g2)) if u != v]
            ctx.ok("model-unchanged", not bad, op=nm, argseed=a, parts=bad, kind=kind, was=str(fm[bad[0]])[:200] if bad else "", now=str(g2[bad[0]])[:200] if bad else "")
            ctx.close("rule-unchanged", fp_rule(model, dr), fd, rtol=0, atol=0, op=nm, argseed=a, kind=kind)
            for arg, fp in env.args:
                ctx.ok("argument-unchanged", snapshot(arg) == fp, op=nm, argseed=a, kind=kind)
            # rules returned before still give the same values
            for n0, d0, v0 in kept:
                ctx.close("result-unchanged", fp_rule(model, d0), v0, rtol=0, atol=0, op=nm, result_of=n0, kind=kind)
            kept = (kept + [(nm, d0, fp_rule(model, d0)) for d0 in env.kept])[-4:]
            # once more
            env2 = Env(model, dr)
            again = runop(ctx, nm, ops[nm], env2, a)
            equal(ctx, "repeat", again, got, 0.0, op=nm, argseed=a, kind=kind)
            # what the caller does with a result has no effect either
            for v in again.values():
                if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f":
                    v[...] = -777.0
            if rng.random() < .4:
                third = runop(ctx, nm, ops[nm], Env(model, dr), a)
                equal(ctx, "mutate-result", third, got, 0.0, op=nm, argseed=a, kind=kind)
            done.append(nm)
    ctx.sample(kind=kind, sequence=[p[0] for p in plan])


SCENARIOS = [Scenario("sequences", sequences, quick=8, thorough=30, timeout=400)]
