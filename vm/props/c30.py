"""C30 memory safety of the compiled kernels: bounds-checked build, contents of fresh memory, canaries around arrays."""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import traceback
import warnings
import numpy as np
from vm.core import Scenario, Ctx, Abort, Skip, seed_everything

RULE = ("the workloads of the other monitors executed on kernels compiled with array bounds checking (numba), every IndexError raised by a compiled kernel "
        "is observed at the point where it is raised even if the code handles it; hostile points (bounds, outside, tiny and huge values, empty batches) given "
        "directly to each kernel, with arrays surrounded by canaries; the same workloads in processes whose fresh memory has different contents: every number "
        "the monitors see must be the same; non-trivial: a compiled kernel of dolo was executed")
REQUIRED = {"in-bounds": 60, "canary": 40, "fresh-memory": 4, "same-numbers": 200}
ASSUMPTIONS = ["numba's bounds checking (NUMBA_BOUNDSCHECK=1) instruments every array access of the jitted kernels, including those of the interpolation package",
               "glibc's MALLOC_PERTURB_ fills fresh memory; blocks below 1 kB which numpy recycles keep earlier contents"]

# (property, scenario, repetitions): workloads that go through compiled kernels
WORK = [("C02", "random", 2), ("C03", "helpers", 2), ("C05", None, 6), ("C06", "taylor", 2), ("C07", "normal_nd", 2), ("C08", "univariate", 1), ("C10", "markov", 4),
        ("C10", "distributions", 1), ("C11", "linear", 4), ("C17", "linear", 3), ("C17", "bounded", 2), ("C18", "linear", 3), ("C18", "bounded", 3),
        ("C18", "radius", 2), ("C19", "solve", 3), ("C20", "policies", 2), ("C22", "arbitrary", 6), ("C22", "solved", 2), ("C23", "ncp", 2), ("C23", "smooth", 2),
        ("C25", None, 3)]
# fast ones, compared number by number
SAME = [("C03", "helpers"), ("C05", None), ("C06", "taylor"), ("C10", "markov"), ("C18", "radius"), ("C22", "arbitrary"), ("C23", "smooth"), ("C25", None), ("C19", "solve"),
        ("C11", "linear"), ("C17", "linear"), ("C18", "linear")]


def scenarios(prop, name):
    mod = importlib.import_module(f"vm.props.{prop.lower()}")
    return [s for s in mod.SCENARIOS if name is None or s.name == name]


OOB = []


def watch():
    """Collects every out-of-bounds error raised by a compiled kernel, handled or not."""
    mon = sys.monitoring
    if getattr(watch, "on", False):
        return
    watch.on = True

    def raised(code, offset, exc):
        if isinstance(exc, IndexError) and str(exc) == "index is out of bounds":
            if not OOB or OOB[-1][0] is not exc:
                f = sys._getframe(1)
                st = []
                while f is not None and len(st) < 6:
                    st.append(f"{f.f_code.co_filename}:{f.f_lineno} {f.f_code.co_name}")
                    f = f.f_back
                OOB.append((exc, st))

    mon.use_tool_id(mon.DEBUGGER_ID, "vm-oob")
    mon.register_callback(mon.DEBUGGER_ID, mon.events.RAISE, raised)
    mon.set_events(mon.DEBUGGER_ID, mon.events.RAISE)


def drained(ctx, what, **info):
    n = len(OOB)
    ctx.ok("in-bounds", n == 0, what=what, at=OOB[0][1] if n else None, **info)
    OOB.clear()
    return n == 0


class Sub(Ctx):
    """The workload of another monitor: its own verdicts are ignored, the numbers it sees are recorded."""

    def __init__(self, *a):
        super().__init__(*a)
        self.log = []

    def close(self, monitor, got, want, rtol=1e-8, atol=1e-10, **detail):
        try:
            g = np.ascontiguousarray(np.asarray(got, dtype=float) + 0.0)
            self.log.append((monitor, hashlib.md5(g.tobytes()).hexdigest()[:12]))
        except Exception:
            self.log.append((monitor, "?"))
        return super().close(monitor, got, want, rtol=rtol, atol=atol, **detail)

    def ok(self, monitor, cond, **detail):
        self.log.append((monitor, bool(cond)))
        return super().ok(monitor, cond, **detail)


def drive(prop, sc, rep, seed, tier):
    sub = Sub(prop, sc.name, rep, seed, tier)
    seed_everything(sub.subseed)
    out = sys.stdout
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sc.fn(sub)
    except (Abort, Skip):
        pass
    except Exception as e:
        sub.log.append(("raised", repr(e)[:80]))
    finally:
        sys.stdout = out
    return sub


def jobs_of(tier):
    out = []
    for prop, name, n in WORK:
        ss = scenarios(prop, name)
        for s in ss:
            for r in range(n if tier == "quick" else 5 * n):
                out.append((prop, s.name, r))
    return out


PARTS = 16


def checked(ctx):
    import numba
    if not numba.config.BOUNDSCHECK:
        raise Skip("bounds checking is off")
    watch()
    n = PARTS if not ctx.thorough else 4 * PARTS
    for prop, name, r in jobs_of(ctx.tier)[ctx.rep % n::n]:
        sc = scenarios(prop, name)[0]
        sub = drive(prop, sc, r, ctx.seed, ctx.tier)
        ctx.case(prop, name, r, nontrivial=bool(sub.log))
        drained(ctx, "workload", property=prop, scenario=name, repetition=r)
        ctx.count("monitored_results", len(sub.log))
    ctx.sample(last=[prop, name, r], results=len(sub.log))


# ------------------------------------------------------------------------------ hostile inputs
class Ring:
    """An array in the middle of a larger buffer filled with a pattern."""
    PAT = 1.2345678901234567e+77

    def __init__(self, a, pad=64):
        a = np.asarray(a, dtype=float)
        self.buf = np.full(a.size + 2 * pad, self.PAT)
        self.pad = pad
        self.a = self.buf[pad:pad + a.size].reshape(a.shape)
        self.a[...] = a

    def intact(self):
        return (self.buf[:self.pad] == self.PAT).all() and (self.buf[self.buf.size - self.pad:] == self.PAT).all()


def hostile_points(rng, lo, hi, N):
    d = len(lo)
    x = lo + (hi - lo) * rng.random((N, d))
    for i in range(N):
        for k in range(d):
            c = int(rng.integers(12))
            w = hi[k] - lo[k]
            if c < 9:
                x[i, k] = [lo[k], hi[k], lo[k] - 1e-13 * w, hi[k] + 1e-13 * w, lo[k] - 3 * w, hi[k] + 3 * w, np.nextafter(hi[k], -9e99),
                           np.nextafter(lo[k], 9e99), lo[k] + w * int(rng.integers(8)) / 7][c]
    return x


def kernels(ctx):
    from dolo.algos import ergodic, invert, fb
    from dolo.numeric import processes
    watch()
    rng = ctx.rng
    for it in range(6):
        # transition of mass
        d = 1 + (it + ctx.rep) % 3
        n = tuple(int(v) for v in rng.integers(2, 6, d))
        N = int([0, 1, 7, 40][int(rng.integers(4))])
        A = Ring(np.zeros((N,) + n))
        x = hostile_points(rng, np.zeros(d), np.ones(d), N)
        if it % 3 == 2:
            x = np.where(rng.random((N, d)) < .2, rng.choice([np.nan, np.inf, -np.inf, 1e300, -1e300], (N, d)), x)
        x = Ring(x)
        ctx.case("trembling", n, N, x.a, nontrivial=N > 0)
        fits = True
        try:
            ergodic.trembling_hand(A.a, x.a, 0.5)
        except IndexError:
            pass
        except Exception as e:
            fits = "Typing" in type(e).__name__ or "Not" in type(e).__name__
            ctx.ok("accepted", fits or d > 2, error=repr(e)[:300], d=d)
        drained(ctx, "trembling_hand", n=n, x=x.a)
        ctx.ok("canary", A.intact() and x.intact(), kernel="trembling_hand", n=n, x=x.a)
        # paths of markov chains
        k = int(rng.integers(1, 6))
        P = rng.dirichlet(np.ones(k) * .3, k)
        if it % 2:
            P = np.round(P, 6)
            P[:, -1] += 1 - P.sum(axis=1)
            P = P * (1 - 1e-12)
        Pr = Ring(P)
        try:
            V = rng.normal(size=(k, 2))
            mc = processes.MarkovChain(Pr.a, V)
            S = mc.simulate(int(rng.integers(1, 30)), int(rng.integers(1, 300)), i0=int(rng.integers(k)))
            S = np.asarray(S).reshape(-1, 2)
            ctx.ok("states", (np.abs(S[:, None] - V[None]).max(axis=2).min(axis=1) == 0).all(), shape=np.shape(S))
        except IndexError:
            pass
        drained(ctx, "markov simulation", P=P)
        ctx.ok("canary", Pr.intact(), kernel="markov simulation")
        # inversions in place
        N, q = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        for name in ("invert_gu", "solve_gu"):
            M = rng.normal(size=(N, q, q)) + 3 * np.eye(q)
            if name == "invert_gu":
                a, o = Ring(M), Ring(np.zeros((N, q, q)))
            else:
                a, o = Ring(M), Ring(rng.normal(size=(N, q)))
            f = getattr(invert, name, None)
            if f is None:
                continue
            try:
                f(a.a, o.a)
            except IndexError:
                pass
            except Exception:
                ctx.count("not_called:" + name)
            drained(ctx, name, N=N, q=q)
            ctx.ok("canary", a.intact() and o.intact(), kernel=name)


def rules(ctx):
    """Interpolated rules at hostile points."""
    from dolo.numeric.decision_rule import DecisionRule
    from dolo.numeric.grids import EmptyGrid, UniformCartesianGrid, NonUniformCartesianGrid, UnstructuredGrid
    watch()
    rng = ctx.rng
    for it in range(10):
        d = 1 + it % 3
        lo, hi = -rng.random(d) * 2, rng.random(d) * 3 + .1
        n = [int(v) for v in rng.integers(2, 7, d)]
        method = ["linear", "cubic"][it % 2]
        exo = [EmptyGrid(), UnstructuredGrid(rng.normal(size=(3, 2))), UniformCartesianGrid([-1.], [1.], [3])][int(rng.integers(3))]
        uneven = it % 4 == 0 and method == "linear"
        if uneven:
            ax = [np.concatenate([[a], np.sort(a + (b - a) * rng.uniform(.1, .9, k - 2)), [b]]) for a, b, k in zip(lo, hi, n)]
            endo = NonUniformCartesianGrid(ax)
        else:
            if method == "cubic":
                n = [max(4, v) for v in n]
            endo = UniformCartesianGrid(lo, hi, n)
        ne = max(1, exo.n_nodes) if not isinstance(exo, EmptyGrid) else 1
        vals = rng.normal(size=(ne, endo.n_nodes, 2))
        try:
            dr = DecisionRule(exo, endo, interp_method=method, values=vals)
        except NotImplementedError:
            continue
        except Exception as e:
            ctx.count("unsupported")
            OOB.clear()
            continue
        N = int([1, 5, 50][int(rng.integers(3))])
        x = Ring(hostile_points(rng, lo, hi, N))
        ctx.case(type(exo).__name__, method, uneven, n, x.a)
        m0 = np.zeros(exo.nodes.shape[1] if not isinstance(exo, EmptyGrid) else 1)
        y = Ring(np.where(rng.random((N, d)) < .3, rng.choice([np.nan, np.inf, -np.inf, 1e300, -1e300, 1e19], (N, d)), x.a))
        wild = (y.a != x.a).any(axis=1)
        for k, call in enumerate((lambda z: dr.eval_is(0, z), lambda z: dr.eval_ijs(0, 0, z), lambda z: dr.eval_ms(m0, z), lambda z: dr.eval_s(z), lambda z: dr(z))):
            try:
                v = np.asarray(call(x.a))
                w = np.asarray(call(y.a))
            except Exception:
                continue
            ctx.ok("finite", np.isfinite(v).all(), method=method, x=x.a, exo=type(exo).__name__, call=k)
            if v.ndim == 2 and w.shape == v.shape:
                ctx.close("rows-alone", w[~wild], v[~wild], rtol=1e-9, atol=1e-9, method=method, call=k)
        drained(ctx, "interpolation", method=method, exo=type(exo).__name__, n=n, x=x.a, uneven=uneven)
        ctx.ok("canary", x.intact() and y.intact(), kernel="interpolation")


# ------------------------------------------------------------------------------ contents of fresh memory
def fresh(ctx):
    mine = SAME[ctx.rep % len(SAME)]
    reps = 1 if not ctx.thorough else 4
    first = (ctx.rep // len(SAME)) * reps
    spec = json.dumps(dict(prop=mine[0], name=mine[1], reps=list(range(first, first + reps)), seed=ctx.seed, tier=ctx.tier))

    def start(byte):
        env = dict(os.environ, MALLOC_PERTURB_=str(byte), NUMBA_CACHE_DIR=os.path.join(os.environ["VM_SCRATCH"], f"nb{ctx.rep}_{byte}"))
        env.pop("NUMBA_BOUNDSCHECK", None)
        env["PYTHONPATH"] = os.environ["VM_HOME"]
        return subprocess.Popen([sys.executable, "-W", "ignore", "-c", "from vm.props.c30 import child; child()", spec], env=env, cwd=os.environ["VM_SCRATCH"],
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    def finish(p):
        try:
            o, e = p.communicate(timeout=500)
        except subprocess.TimeoutExpired:
            raise Skip("child: too slow")
        lines = [l for l in o.splitlines() if l.startswith("LOG ")]
        if p.returncode < 0:
            ctx.violation("crash", signal=-p.returncode, workload=mine)
            raise Abort()
        if not lines:
            raise Skip("child: " + e[-300:])
        return json.loads(lines[-1][4:])

    a, b = start(0x55), start(0xAB)
    try:
        la, lb = finish(a), finish(b)
        ctx.events["fresh-memory"] = ctx.events.get("fresh-memory", 0) + 1
        ctx.case(mine, first, nontrivial=len(la) > 0)
        bad = [i for i in range(max(len(la), len(lb))) if i >= len(la) or i >= len(lb) or la[i] != lb[i]]
        if bad:
            again = finish(start(0x55))
            if again != la:
                ctx.count("not_reproducible")
                return
        ctx.events["same-numbers"] = ctx.events.get("same-numbers", 0) + len(la)
        if bad:
            ctx.violation("same-numbers", workload=mine, monitors=sorted({(la + [["missing"]])[min(i, len(la))][0] for i in bad})[:8], n=len(bad), of=len(la))
        ctx.sample(workload=mine, numbers=len(la))
    finally:
        for p in (a, b):
            if p.poll() is None:
                p.kill()


def child():
    spec = json.loads(sys.argv[-1])
    sys.path.insert(0, os.environ["VM_REPO"])
    import dolo
    from vm import core
    core.install_numba_seeder()
    log = []
    real = sys.stdout
    sys.stdout = open(os.devnull, "w")
    for s in scenarios(spec["prop"], spec["name"]):
        for r in spec["reps"]:
            log += drive(spec["prop"], s, r, spec["seed"], spec["tier"]).log
    sys.stdout = real
    print("LOG " + json.dumps(log))
    sys.stdout.flush()
    os._exit(0)


SCENARIOS = [Scenario("fresh", fresh, quick=len(SAME), thorough=3 * len(SAME), timeout=600), Scenario("checked", checked, quick=PARTS, thorough=4 * PARTS, timeout=500),
             Scenario("kernels", kernels, quick=4, thorough=60), Scenario("rules", rules, quick=4, thorough=60)]
