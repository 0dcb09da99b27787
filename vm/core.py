"""Harness shared by all monitors.

A property module (vm/props/cXX.py) declares

    SCENARIOS = [Scenario(name, function, quick=<reps>, thorough=<reps>)]
    REQUIRED  = {monitor: minimum number of observed events on the unchanged tree}
    RULE      = text for the evidence file

Each (scenario, rep) is one job: it gets a Ctx with its own deterministic random
stream, drives the real code and reports what its monitors observed.  Jobs run
in forked workers, after the code under test was imported once in the parent.
"""
import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np


class JobTimeout(BaseException):
    pass


class Skip(Exception):
    """The workload could not be set up: no verdict from this job."""


class Abort(Exception):
    """Stop the job: a violation that makes the rest meaningless was recorded."""


class Scenario:
    def __init__(self, name, fn, quick=1, thorough=None, timeout=240):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 6
        self.timeout = timeout


def jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    if isinstance(o, float):
        return o if np.isfinite(o) else repr(o)
    if isinstance(o, complex):
        return repr(o)
    if isinstance(o, np.generic):
        return jsonable(o.item(), depth)
    if isinstance(o, np.ndarray):
        if o.size > 60:
            return {"array_shape": list(o.shape), "head": jsonable(o.ravel()[:12].tolist(), depth + 1)}
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(e, depth + 1) for e in list(o)[:80]]
    return repr(o)[:300]


class Ctx:
    MAX_VIOLATIONS = 12

    def __init__(self, prop, scenario, rep, seed, tier):
        self.prop, self.scenario, self.rep, self.seed, self.tier = prop, scenario, rep, seed, tier
        h = hashlib.sha256(f"{seed}|{prop}|{scenario}|{rep}".encode()).digest()
        self.subseed = int.from_bytes(h[:4], "little") & 0x7FFFFFFF
        self.rng = np.random.default_rng(int.from_bytes(h[:8], "little"))
        self.events = {}
        self.cases = 0
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.counters = {}
        self.inconclusive = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ----- what was observed
    def case(self, *sig, nontrivial=True):
        self.cases += 1
        if nontrivial:
            self.sigs.add(hashlib.md5(repr([jsonable(s) for s in sig]).encode()).hexdigest()[:16])

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(dict(scenario=self.scenario, rep=self.rep, **kw)))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    # ----- verdicts
    def violation(self, monitor, **detail):
        self.nviol += 1
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append(
                dict(property=self.prop, monitor=monitor, scenario=self.scenario, rep=self.rep,
                     seed=self.seed, tier=self.tier, detail=jsonable(detail)))

    def ok(self, monitor, cond, **detail):
        self.events[monitor] = self.events.get(monitor, 0) + 1
        if not bool(cond):
            self.violation(monitor, **detail)
            return False
        return True

    def close(self, monitor, got, want, rtol=1e-8, atol=1e-10, **detail):
        """monitor: `got` equals `want` (same shape, NaN only where NaN)."""
        self.events[monitor] = self.events.get(monitor, 0) + 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object or w.dtype == object:
                g = g.astype(float)
                w = w.astype(float)
        except Exception as e:
            self.violation(monitor, error=repr(e), got=repr(got)[:300], want=repr(want)[:300], **detail)
            return False
        if g.shape != w.shape:
            self.violation(monitor, why="shape", got_shape=g.shape, want_shape=w.shape, got=g, want=w, **detail)
            return False
        if g.size == 0:
            return True
        same = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not same.all():
            idx = tuple(int(i[0]) for i in np.nonzero(~np.atleast_1d(same)))
            gg, ww = np.atleast_1d(g), np.atleast_1d(w)
            self.violation(monitor, why="value", first_at=idx, got_there=gg[idx], want_there=ww[idx],
                           n_bad=int((~same).sum()), got=g, want=w, **detail)
            return False
        return True

    @contextlib.contextmanager
    def guard(self, monitor, **detail):
        """The enclosed calls must not raise (they are given valid input)."""
        self.events[monitor] = self.events.get(monitor, 0) + 1
        try:
            yield
        except (JobTimeout, Skip, Abort):
            raise
        except MemoryError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.violation(monitor + ":raised", error=f"{type(e).__name__}: {e}"[:400],
                           at=[f"{f.filename}:{f.lineno} {f.name}" for f in tb[-4:]], **detail)
            raise Abort()

    @contextlib.contextmanager
    def attempt(self, monitor, **detail):
        """Like guard, but the job goes on after the violation."""
        try:
            with self.guard(monitor, **detail):
                yield
        except Abort:
            pass

    def raises(self, monitor, fn, exc=Exception, **detail):
        """monitor: fn() is rejected with an exception."""
        self.events[monitor] = self.events.get(monitor, 0) + 1
        try:
            fn()
        except exc:
            return True
        self.violation(monitor, why="accepted", **detail)
        return False


_seed_numba = None


def seed_everything(subseed):
    """numpy's legacy generator and numba's own one (used by jitted simulators)."""
    global _seed_numba
    np.random.seed(subseed)
    if _seed_numba is not None:
        _seed_numba(subseed)


def sound_dispatch():
    """numba 0.60 identifies a tuple argument by a fingerprint whose first 40 bytes are lost (left uninitialised) as soon as
    it is longer than 40 bytes: a call with a large tuple can then be sent to the code compiled for another type (for example,
    an interpolation on an even grid of four dimensions after one on an uneven grid of three), which raises a TypeError or
    crashes.  This is a defect of numba, not of the code under test: calls with such arguments look their types up in full."""
    import inspect
    from numba._dispatcher import compute_fingerprint
    from numba.core import dispatcher as D

    if "__call__" in vars(D.Dispatcher):
        return
    raw = D.Dispatcher.__call__
    shape = {}

    def long(args):
        for a in args:
            if type(a) is tuple:
                try:
                    if len(compute_fingerprint(a)) > 38:
                        return True
                except NotImplementedError:
                    pass
        return False

    def __call__(self, *args, **kw):
        p = shape.get(self)
        if p is None:
            ps = list(inspect.signature(self.py_func).parameters.values())
            p = shape[self] = next((i for i, q in enumerate(ps) if q.kind == q.VAR_POSITIONAL), -1)
        packed = args if p < 0 else args[:p] + (args[p:],)
        if kw or not long(packed):
            return raw(self, *args, **kw)
        return self._compile_for_args(*packed)(*packed)

    D.Dispatcher.__call__ = __call__


def install_numba_seeder():
    global _seed_numba
    from numba import njit

    sound_dispatch()

    @njit
    def sn(s):
        np.random.seed(s)

    sn(1)
    _seed_numba = sn


def snapshot(obj):
    """Deep content fingerprint used by the 'arguments are not modified' monitors."""
    def rec(o, d=0):
        if d > 7:
            return "..."
        if isinstance(o, np.ndarray):
            return ("nd", o.shape, str(o.dtype), o.tobytes() if o.dtype != object else repr(o))
        if isinstance(o, dict):
            return ("dict", [(repr(k), rec(v, d + 1)) for k, v in o.items()])
        if isinstance(o, (list, tuple)):
            return (type(o).__name__, [rec(e, d + 1) for e in o])
        if isinstance(o, (int, float, complex, str, bool, type(None), np.generic)):
            return (type(o).__name__, repr(o))
        if callable(o) and not hasattr(o, "__dict__"):
            return "fn"
        try:
            dd = vars(o)
        except TypeError:
            return repr(type(o))
        return (type(o).__name__, [(k, rec(v, d + 1)) for k, v in sorted(dd.items()) if not callable(v)])
    return rec(obj)


# --------------------------------------------------------------------------- workers
_STATE = {}


# share of the time limit of a job that must be spent computing before it counts as never ending
HANG = 0.6


def job_limit(sc, tier):
    return sc.timeout if tier == "quick" else 2 * sc.timeout


def _alarm(signum, frame):
    raise JobTimeout()


def cpu_of(pid):
    """Computing time of a worker, in seconds."""
    try:
        with open(f"/proc/{pid}/stat") as f:
            a = f.read().rpartition(")")[2].split()
        return (int(a[11]) + int(a[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def run_job(job):
    prop, sc_name, rep, seed, tier = job
    sc = _STATE["scenarios"][sc_name]
    ctx = Ctx(prop, sc_name, rep, seed, tier)
    t0, c0 = time.time(), time.process_time()
    seed_everything(ctx.subseed)
    status = "done"
    warnings.simplefilter("ignore")
    old = signal.signal(signal.SIGALRM, _alarm)
    limit = job_limit(sc, tier)
    signal.setitimer(signal.ITIMER_REAL, limit)
    devnull = open(os.devnull, "w")
    saved = sys.stdout
    sys.stdout = devnull
    try:
        sc.fn(ctx)
    except Abort:
        pass
    except Skip as e:
        ctx.inconclusive.append(f"skip: {e}")
    except JobTimeout as e:
        cpu = time.process_time() - c0
        if cpu > HANG * limit:
            # jobs need a small fraction of their limit: it computed all that time without getting to the end
            tb = traceback.extract_tb(e.__traceback__)
            ctx.violation("does-not-finish", cpu_s=round(cpu), limit_s=limit, at=[f"{f.filename}:{f.lineno} {f.name}" for f in tb[-5:]])
        else:
            ctx.inconclusive.append(f"timeout after {time.time()-t0:.0f}s ({cpu:.0f}s of computation)")
    except MemoryError:
        ctx.inconclusive.append("memory")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        repo = os.environ.get("VM_REPO", "/repo") + "/"
        in_repo = any(f.filename.startswith(repo) for f in tb)
        # Either the code under test raised on a valid input, or what it returned
        # has not the documented form and the monitor tripped over it.
        ctx.violation("uncaught:" + ("code-raised" if in_repo else "malformed-result"),
                      error=f"{type(e).__name__}: {e}"[:400],
                      at=[f"{f.filename}:{f.lineno} {f.name}" for f in tb[-5:]])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout = saved
        devnull.close()
    return dict(job=job, status=status, wall=time.time() - t0, events=ctx.events, cases=ctx.cases,
                lines=new_lines(), sigs=ctx.sigs, samples=ctx.samples, violations=ctx.violations, nviol=ctx.nviol,
                counters=ctx.counters, inconclusive=ctx.inconclusive)


# --------------------------------------------------------------------------- lines executed
_LINES = set()


def watch_lines(repo):
    """Records which lines of the code under test are executed (each reported once per process: nearly free)."""
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    root = os.path.realpath(os.path.join(repo, "dolo")) + "/"

    def line(code, no):
        f = code.co_filename
        if f.startswith(root):
            _LINES.add((f[len(root):], no))
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, "vm")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def new_lines():
    l = list(_LINES)
    _LINES.clear()
    return l


# --------------------------------------------------------------------------- pool
def _worker(pipe):
    try:
        while True:
            job = pipe.recv()
            if job is None:
                break
            pipe.send(run_job(job))
    except (EOFError, KeyboardInterrupt, BrokenPipeError):
        pass
    os._exit(0)


FAST = bool(os.environ.get("VM_FAST"))


def run_all(jobs, nproc, deadline):
    """Runs jobs in forked workers. Returns the results, the jobs during which a worker was killed by a signal
    other than SIGKILL/SIGTERM (out of memory, stop): a crash of the interpreter, and the jobs which had to be
    stopped from outside because they never came back to the interpreter."""
    import multiprocessing as mp
    from multiprocessing.connection import wait

    cx = mp.get_context("fork")
    todo = list(reversed(jobs))
    results, crashed, hung, workers = [], [], [], {}

    def start():
        a, b = cx.Pipe()
        p = cx.Process(target=_worker, args=(b,), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None, 0.0, 0.0]
        give(a)

    def give(a):
        if todo:
            j = todo.pop()
            workers[a][1:] = [j, time.time(), cpu_of(workers[a][0].pid)]
            a.send(j)
        else:
            try:
                a.send(None)
            except OSError:
                pass
            workers.pop(a)[0].join(5)

    for _ in range(min(nproc, len(jobs))):
        start()
    while workers:
        left = deadline - time.time()
        if left <= 0:
            break
        for a in wait(list(workers), timeout=min(left, 5)):
            p, j = workers[a][:2]
            try:
                r = a.recv()
            except (EOFError, OSError):
                p.join(10)
                del workers[a]
                sig = -(p.exitcode or 0)
                if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                    crashed.append((j, signal.Signals(sig).name))
                if todo:
                    start()
                continue
            results.append(r)
            if any(v["monitor"] == "does-not-finish" for v in r["violations"]):
                todo.clear()            # each such job costs its whole limit: one is enough for the verdict
            if FAST and r["violations"]:
                todo.clear()            # development only: the first violation settles the verdict
            give(a)
        for a, (p, j, t0, c0) in list(workers.items()):
            limit = job_limit(_STATE["scenarios"][j[1]], j[4])
            if time.time() - t0 > limit + 20:
                cpu = cpu_of(p.pid) - c0
                p.kill()
                p.join(10)
                del workers[a]
                hung.append((j, round(cpu), limit))
                if cpu > HANG * limit:
                    todo.clear()
                if todo:
                    start()
    for a, w in workers.items():
        w[0].kill()
    return results, crashed, hung
