"""C28 caching: a cached function is the function."""
import collections
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
import numpy as np
from vm.core import Scenario
from vm import models

RULE = ("random sequences of calls, positional and by keyword, drawn from pools of arguments that are easy to confuse (same hash, same elements "
        "with other types, shapes or nesting), several functions sharing a name or a directory, new processes with another hash seed, truncated "
        "cache files; the undecorated function is the oracle; everything happens in a scratch directory; non-trivial: at least two different arguments")
REQUIRED = {"memory": 300, "disk": 300, "dictionary": 60, "computed-once": 30, "new-process": 4, "interrupted": 10}


def describe(*args, **kw):
    """a pure function that tells apart whatever its arguments differ in"""
    def d(o):
        if isinstance(o, np.ndarray):
            return ("array", o.shape, str(o.dtype), o.ravel().tolist())
        if isinstance(o, dict):
            return ("dict", [(d(k), d(v)) for k, v in o.items()])
        if isinstance(o, (list, tuple)):
            return (type(o).__name__, [d(e) for e in o])
        if isinstance(o, (set, frozenset)):
            return (type(o).__name__, sorted(map(repr, o)))
        if hasattr(o, "values_"):
            return ("obj", o.values_)
        return (type(o).__name__, repr(o))
    return (d(args), sorted((k, d(v)) for k, v in kw.items()))


class Point:
    def __init__(self, v):
        self.values_ = v

    def __eq__(self, o):
        return isinstance(o, Point) and o.values_ == self.values_

    def __hash__(self):
        return hash(self.values_)


def pool(rng):
    k = int(rng.integers(1, 5))
    v = float(np.round(rng.normal(), 3)) or .5
    A = rng.integers(-3, 4, (2, 3))
    P = [-1, -2, -1.0, -2.0, 0, 0.0, 1, True, 1.0, False, 2**61 - 1, k, float(k), np.float64(k), np.int64(k), np.float32(v), v, str(k), None, "",
         A, A.T, A.ravel(), A.astype(float), A.reshape(3, 2), A.tolist(), A.ravel().tolist(), tuple(A.ravel().tolist()), A.reshape(1, 2, 3), np.asfortranarray(A),
         np.array(k), np.array([k]), [k], (k,), {k}, frozenset([k]), [], (), np.zeros((0, 2)), np.zeros(0), [[k]], [(k,)], ([k],), ((k,),),
         {"a": k}, {"a": float(k)}, {"a": [k]}, {"b": k}, (("a", k),), [["a", k]], {"a": np.array([k])}, {},
         np.array([-1.0]), np.array([-2.0]), (-1,), (-2,), "ab", b"ab", ("ab",), ["a", "b"], ("a", "b"), 1j * k, Point(k), Point(-k), (Point(1), 2), np.array([True, False]), np.array([1, 0]),
         np.array([1., np.nan]), range(k), slice(0, k)]
    return P


def calls(rng, P, n):
    out = []
    for _ in range(n):
        na, nk = int(rng.integers(0, 3)), int(rng.integers(0, 2))
        a = tuple(P[int(rng.integers(len(P)))] for _ in range(na))
        kw = {["a", "b", "order"][int(rng.integers(3))]: P[int(rng.integers(len(P)))] for _ in range(nk)}
        out.append((a, kw))
    # exact repetitions and permutations
    for _ in range(n // 2):
        a, kw = out[int(rng.integers(len(out)))]
        out.append((a, kw))
        out.append((a[::-1], kw))
        out.append((a + tuple(kw.values()), {}))
    for p, q in ((-1, -2), (-1.0, -2.0), (0, 2**61 - 1), (1, True)):
        out += [((p,), {}), ((q,), {}), ((), {"a": p}), ((), {"a": q})]
    return [out[i] for i in rng.permutation(len(out))]


class scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(dir=os.environ.get("VM_SCRATCH", tempfile.gettempdir()))
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def memory(ctx):
    from dolo.misc.caching import memoized
    rng = ctx.rng
    n = [0]

    def f(*a, **k):
        n[0] += 1
        return describe(*a, **k)
    m = memoized(f)
    seq = calls(rng, pool(rng), 120)
    for a, kw in seq:
        ctx.case("memory", describe(*a, **kw))
        with ctx.attempt("memory-call", args=repr((a, kw))[:200]):
            got = m(*a, **kw)
            ctx.ok("memory", got == describe(*a, **kw) or repr(got) == repr(describe(*a, **kw)), got=repr(got)[:200], want=repr(describe(*a, **kw))[:200])
    # computed once for the usual arguments
    for a in ((1, 2), (np.arange(6.).reshape(2, 3), 2.5), ("x", (1, 2)), (rng.normal(size=4), "abc")):
        m(*a)
        c = n[0]
        ctx.ok("computed-once", repr(m(*a)) == repr(describe(*a)) and n[0] == c, args=repr(a))
        m(*a, b=1)
        c = n[0]
        m(*a, b=1)
        ctx.ok("computed-once", n[0] == c, args=repr(a))

    # methods
    class K:
        def __init__(self, v):
            self.v = v

        @memoized
        def scaled(self, x):
            return self.v * x
    u, w = K(2), K(3)
    for x in (1, 2, 1.5, 2, 1):
        ctx.ok("memory", u.scaled(x) == 2 * x and w.scaled(x) == 3 * x, what="methods")

    # exceptions go through, also on repetition
    @memoized
    def bad(x):
        raise KeyError(x)
    for _ in range(2):
        ctx.raises("exception", lambda: bad(3), KeyError)


def disk(ctx):
    from dolo.misc.caching import cachedondisk, clear_cache, DiskDictionary
    rng = ctx.rng
    with scratch() as d:
        n = [0]

        def f(*a, **k):
            n[0] += 1
            return describe(*a, **k)
        with ctx.guard("disk-call"):
            c = cachedondisk(f)
        seq = calls(rng, pool(rng), 120)
        for a, kw in seq:
            ctx.case("disk", describe(*a, **kw))
            with ctx.attempt("disk-call", args=repr((a, kw))[:200]):
                got = c(*a, **kw)
                ctx.ok("disk", repr(got) == repr(describe(*a, **kw)), got=repr(got)[:200], want=repr(describe(*a, **kw))[:200])
        for a in ((1, 2), (np.arange(6.).reshape(2, 3), 2.5), (rng.normal(size=4), 3), (2, [1.5, 2])):
            c(*a)
            k = n[0]
            ctx.ok("computed-once", repr(c(*a)) == repr(describe(*a)) and n[0] == k, args=repr(a))
        # another function of the same name
        def other():
            def f(*a, **k):
                return ("other", describe(*a, **k))
            return f
        c2 = cachedondisk(other())
        for a, kw in seq[:15]:
            with ctx.attempt("disk-call"):
                ctx.ok("disk", repr(c2(*a, **kw)) == repr(("other", describe(*a, **kw))), what="functions with the same name", args=repr(a)[:100])
        ctx.ok("location", not [x for x in os.listdir(d) if x != ".cache"], files=os.listdir(d))
        # numerical values come back exactly
        @cachedondisk
        def arr(A, k):
            return A @ A.T * k
        for _ in range(3):
            A = rng.normal(size=(3, 2))
            for _ in range(2):
                ctx.close("disk", arr(A, 2), A @ A.T * 2, rtol=0, atol=0)
        # values without pickle, values None, exceptions
        @cachedondisk
        def fn(k):
            return (lambda x: x + k) if k else None
        for _ in range(2):
            for k in (0, 3):
                with ctx.attempt("disk-call", what="value which cannot be pickled"):
                    v = fn(k)
                    ctx.ok("disk", (v is None) if k == 0 else v(1) == 4)

        @cachedondisk
        def bad(x):
            raise KeyError(x)
        for _ in range(2):
            ctx.raises("exception", lambda: bad(3), KeyError)
        # interruption: any prefix of a file may be left
        for a in ((5, 6), (A, 1)):
            before = set(os.listdir(".cache"))
            c(*a, order=7)
            new = [x for x in os.listdir(".cache") if x not in before]
            ctx.ok("one-file", len(new) == 1 and new[0].startswith("f."), new=new)
            if not new:
                continue
            full = open(os.path.join(".cache", new[0]), "rb").read()
            for cut in sorted(set([0, 1, 2, len(full) // 2, len(full) - 1] + [int(q) for q in rng.integers(0, len(full), 4)])):
                with open(os.path.join(".cache", new[0]), "wb") as g:
                    g.write(full[:cut])
                with ctx.attempt("interrupted-call", cut=cut, of=len(full)):
                    ctx.ok("interrupted", repr(c(*a, order=7)) == repr(describe(*a, order=7)), cut=cut)
                    k = n[0]
                    ctx.ok("interrupted", repr(c(*a, order=7)) == repr(describe(*a, order=7)) and n[0] == k, cut=cut, what="not repaired")
        # clearing
        @cachedondisk
        def g(x):
            n[0] += 1
            return x * 2

        @cachedondisk
        def g2(x):
            n[0] += 1
            return x * 3
        g(4), g2(4)
        clear_cache("g")
        k = n[0]
        ctx.ok("clear", g2(4) == 12 and n[0] == k, what="other functions keep their cache")
        ctx.ok("clear", g(4) == 8 and n[0] == k + 1, what="cleared function computed again")
        clear_cache()
        k = n[0]
        ctx.ok("clear", g2(4) == 12 and g(4) == 8 and n[0] == k + 2, what="all cleared")

        # dictionaries on disk
        D = DiskDictionary(os.path.join(d, "store"), "q")
        E = DiskDictionary(os.path.join(d, "store"), "r")
        ref, refE = {}, {}
        keys = [a + tuple(kw.values()) for a, kw in calls(rng, pool(rng), 40)]
        for key in keys:
            try:
                hash(repr(key))
            except Exception:
                continue
            val = ("v", describe(*key), float(rng.normal()))
            with ctx.attempt("dictionary-call", key=repr(key)[:150]):
                want = ref.get(repr(describe(*key)))
                ctx.ok("dictionary", repr(D.get(key)) == repr(want), key=repr(key)[:150], got=repr(D.get(key))[:100], want=repr(want)[:100])
                if rng.random() < .7:
                    D[key] = val
                    ref[repr(describe(*key))] = val
                    ctx.ok("dictionary", repr(D.get(key)) == repr(val), key=repr(key)[:150])
                if rng.random() < .2:
                    E[key] = 1
                    refE[repr(describe(*key))] = 1
                ctx.ok("dictionary", E.get(key) == refE.get(repr(describe(*key))), what="two dictionaries in one directory", key=repr(key)[:150])
        DD = DiskDictionary(os.path.join(d, "store"), "q")
        for key in keys[:20]:
            ctx.ok("dictionary", repr(DD.get(key)) == repr(ref.get(repr(describe(*key)))), what="reopened")


PROG = """
import sys, importlib.util, json
import numpy as np
spec = importlib.util.spec_from_file_location("caching_ut", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
n = 0
@m.cachedondisk
def fun(a, b, c=0):
    global n
    n += 1
    return [float(np.sum(a)), repr(b), repr(c)]
D = m.DiskDictionary(".cache", "dict")
seed = int(sys.argv[2])
rng = np.random.default_rng(seed)
out = []
args = [(rng.normal(size=(2, 2)), 1), (3, 4.5), (int(rng.integers(99)), [1, 2.5]), (2, (1, 2)), (rng.integers(0, 9, 4), -1), (rng.integers(0, 9, 4), -2)]
for a, b in args:
    out.append(fun(a, b))
    out.append(fun(a, b, c=2))
for k in range(4):
    v = D.get((k, 1.5))
    if v is None:
        D[(k, 1.5)] = [k, seed]
    out.append(D.get((k, 1.5)))
print(json.dumps([n, out]))
"""


def processes(ctx):
    import json
    import dolo.misc.caching as C
    with scratch() as d:
        with open("prog.py", "w") as f:
            f.write(PROG)
        res = []
        for k in range(3):
            env = dict(os.environ, PYTHONHASHSEED=str(int(ctx.rng.integers(1, 1000)) if k else 1))
            out = subprocess.run([sys.executable, "-W", "ignore", "prog.py", C.__file__, str(ctx.subseed)], capture_output=True, text=True, env=env, timeout=120)
            if not ctx.ok("new-process", out.returncode == 0, err=out.stderr[-400:]):
                return
            res.append(json.loads(out.stdout))
        ctx.case("process", ctx.subseed)
        for r in res[1:]:
            ctx.ok("new-process", r[1] == res[0][1], first=res[0][1], later=r[1])
            ctx.ok("new-process", r[0] == 0, evaluations=r[0], what="computed again in a new process")
        ctx.ok("new-process", res[0][0] == 12, evaluations=res[0][0])


def concurrent(ctx):
    """processes filling one directory at the same time see complete values only"""
    import dolo.misc.caching as C
    prog = PROG.replace("for a, b in args:", "for a, b in args * 15:").replace("n += 1\n", "n += 1\n    if n % 3 == 0: import time; time.sleep(.001)\n")
    import json
    with scratch() as d:
        with open("prog.py", "w") as f:
            f.write(prog)
        ps = [subprocess.Popen([sys.executable, "-W", "ignore", "prog.py", C.__file__, str(ctx.subseed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for _ in range(4)]
        outs = [p.communicate(timeout=120) + (p.returncode,) for p in ps]
        ok = ctx.ok("concurrent", all(o[2] == 0 for o in outs), err=[o[1][-300:] for o in outs])
        if ok:
            got = [json.loads(o[0])[1] for o in outs]
            ctx.ok("concurrent", all(g[:-4] == got[0][:-4] for g in got))
    ctx.case("concurrent", ctx.subseed)


SCENARIOS = [Scenario("memory", memory, quick=4, thorough=60), Scenario("disk", disk, quick=4, thorough=60),
             Scenario("processes", processes, quick=2, thorough=12), Scenario("concurrent", concurrent, quick=1, thorough=6)]
