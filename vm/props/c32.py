"""C32 multiple dispatch picks the most specific applicable method."""
import itertools
import numpy as np
from vm.core import Scenario

RULE = ("random class hierarchies (single, multiple and diamond inheritance) and random sets of methods over one to three annotated arguments, "
        "registered in random orders, replaced, removed and called in between; the chosen method is compared with the minimal elements of the "
        "applicable ones; non-trivial: at least two applicable methods")
REQUIRED = {"most-specific": 300, "no-method": 60, "order-of-registration": 60, "replaced": 40, "overload": 60}


def hierarchy(rng):
    cl = [type("K0", (), {})]
    for i in range(1, int(rng.integers(4, 10))):
        for _ in range(6):
            k = int(rng.choice([0, 1, 1, 2, 2]))
            bases = tuple(cl[j] for j in sorted(rng.choice(len(cl), min(k, len(cl)), replace=False), reverse=True))
            try:
                cl.append(type(f"K{i}", bases, {}))
                break
            except TypeError:     # no consistent resolution order: another draw
                pass
    return cl


def minimal(keys, types):
    app = [k for k in keys if all(issubclass(t, c) for t, c in zip(types, k))]
    below = lambda a, b: a != b and all(issubclass(x, y) for x, y in zip(a, b))
    return app, [k for k in app if not any(below(q, k) for q in app)]


def function(key, tag, style, rng):
    """A function of len(key) arguments annotated with these classes (object: sometimes left out)."""
    names = ["a", "b", "c"][:len(key)]
    ns = {}
    ann = []
    seen = False
    for n, c in zip(names, key):
        ns["T" + n] = c
        ann.append(n if c is object and not seen and False else f"{n}: T{n}")
    src = f"def f({', '.join(ann)}, *, extra=None):\n    return TAG, ({', '.join(names)},), extra\n"
    ns["TAG"] = tag
    exec(src, ns)
    return ns["f"]


def build(order, key_tags, rng, plain):
    """plain: decorator syntax (several functions of one name); otherwise .register."""
    from dolo.misc.multimethod import multimethod
    ns = {"multimethod": multimethod}
    mm = None
    for key in order:
        fun = function(key, key_tags[key], None, rng)
        if mm is None:
            mm = multimethod(fun)
        elif plain:
            # what the decorator does in the body of a module: the name already stands for the dispatcher
            env = {"f": mm, "g": fun, "multimethod": multimethod}
            exec("f = multimethod(g)", env)
            assert env["f"] is mm
        elif rng.random() < .5:
            mm.register(fun)
        else:
            mm.register(*key)(fun)
    return mm


def verdict(ctx, mm, keys, tags, types, objs, **info):
    from dolo.misc.multimethod import DispatchError
    app, mins = minimal(keys, types)
    try:
        got = mm(*objs, extra=7)
    except DispatchError:
        got = None
    if not app:
        ctx.ok("no-method", got is None, got=got, **info)
        return None
    if len(mins) == 1:
        ctx.case("dispatch", [k.__name__ for k in types], [[c.__name__ for c in k] for k in keys], nontrivial=len(app) > 1)
        ctx.ok("most-specific", got is not None and got[0] == tags[mins[0]], got=got, want=tags[mins[0]],
               types=[t.__name__ for t in types], methods=[[c.__name__ for c in k] for k in keys], **info)
    else:
        ctx.ok("ambiguous:among-the-best", got is None or got[0] in [tags[m] for m in mins], got=got, types=[t.__name__ for t in types], **info)
    if got is not None:
        ctx.ok("arguments", all(a is b for a, b in zip(got[1], objs)) and got[2] == 7)
    return "error" if got is None else got[0]


def dispatch(ctx):
    rng = ctx.rng
    for it in range(6):
        cl = hierarchy(rng)
        ar = int(rng.integers(1, 4))
        pool = cl + [object]
        nk = int(rng.integers(2, 9))
        keys = list({tuple(pool[int(j)] for j in rng.integers(len(pool), size=ar)) for _ in range(nk)})
        keys.sort(key=str)
        tags = {k: f"m{i}" for i, k in enumerate(keys)}
        info = dict(arity=ar)
        orders = [[keys[i] for i in rng.permutation(len(keys))] for _ in range(3)]
        with ctx.guard("register"):
            mms = [build(o, tags, rng, plain=bool(i % 2 == 0)) for i, o in enumerate(orders)]
        calls = [tuple(cl[int(j)] for j in rng.integers(len(cl), size=ar)) for _ in range(14)]
        for types in calls:
            objs = [t() for t in types]
            out = [verdict(ctx, mm, keys, tags, types, objs, **info) for mm in mms]
            ctx.ok("order-of-registration", len(set(out)) == 1, got=out, types=[t.__name__ for t in types], keys=[[c.__name__ for c in k] for k in keys])
            again = verdict(ctx, mms[0], keys, tags, types, [t() for t in types], cached=True, **info)
            ctx.ok("repeat", again == out[0], got=again, want=out[0])
        # --- calls between registrations: nothing found earlier may hide a later method
        with ctx.guard("register"):
            mm = build(orders[0][:1], tags, rng, plain=False)
        for n in range(2, len(keys) + 1):
            have = orders[0][:n - 1]
            for types in calls[:5]:
                verdict(ctx, mm, have, tags, types, [t() for t in types], step=n, **info)
            with ctx.guard("register"):
                mm.register(*orders[0][n - 1])(function(orders[0][n - 1], tags[orders[0][n - 1]], None, rng))
        for types in calls:
            verdict(ctx, mm, keys, tags, types, [t() for t in types], step="all", **info)
        # --- the last definition for some types replaces the earlier one, and can be removed
        k = keys[int(rng.integers(len(keys)))]
        tags2 = dict(tags)
        tags2[k] = "new"
        with ctx.guard("register"):
            mm.register(*k)(function(k, "new", None, rng))
        for types in calls[:8] + ([k] if object not in k else []):
            verdict(ctx, mm, keys, tags2, types, [t() for t in types], step="replaced", **info)
            ctx.count("replaced")
        ctx.ok("replaced", len([q for q in mm if tuple(q) == k]) == 1)
        if len(keys) > 1:
            from dolo.misc.multimethod import signature
            with ctx.guard("remove"):
                del mm[signature(k)]
            rest = [q for q in keys if q != k]
            for types in calls:
                verdict(ctx, mm, rest, tags2, types, [t() for t in types], step="removed", **info)


def overloaded(ctx):
    """`overload`: the last registered function whose predicates all accept the arguments."""
    from dolo.misc.multimethod import overload, isa, DispatchError
    rng = ctx.rng
    for it in range(8):
        n = int(rng.integers(1, 6))
        rules = []
        ov = None
        for i in range(n):
            lo, hi = np.sort(rng.integers(-5, 6, 2))
            parity = [None, 0, 1][int(rng.integers(3))]
            tp = [int, float][int(rng.integers(2))]
            ns = dict(pa=lambda v, lo=lo, hi=hi: lo <= v <= hi, pb=isa(tp), pc=(lambda v, q=parity: q is None or v % 2 == q), TAG=i)
            exec("def f(a: pa, b: pb, c: pc = 0):\n    return TAG, a, b, c", ns)
            # one function per list of parameters is kept: give each its own names of further parameters
            exec(f"def f(a: pa, b: pb, c: pc = 0, k{i}=None):\n    return TAG, a, b, c", ns)
            rules.append((lo, hi, tp, parity))
            with ctx.guard("overload"):
                if ov is None:
                    ov = overload(ns["f"])
                else:
                    ov.register(ns["f"])
        for _ in range(12):
            a, c = int(rng.integers(-7, 8)), int(rng.integers(4))
            b = [3, 2.5][int(rng.integers(2))]
            want = [i for i, (lo, hi, tp, q) in enumerate(rules) if lo <= a <= hi and isinstance(b, tp) and (q is None or c % 2 == q)]
            try:
                got = ov(a, b, c=c)
            except DispatchError:
                got = None
            ctx.case("overload", rules, a, b, c, nontrivial=len(want) > 1)
            ctx.ok("overload", got == ((want[-1], a, b, c) if want else None), got=got, want=want)


def meta(ctx):
    """Methods of a class, bound; classes made with the metaclass; dispatch of the library's own functions."""
    from dolo.misc.multimethod import multimethod, multimeta
    rng = ctx.rng
    for it in range(4):
        cl = hierarchy(rng)
        pool = cl + [object]
        keys = list({pool[int(j)] for j in rng.integers(len(pool), size=4)})
        keys.sort(key=str)
        ns = dict(multimethod=multimethod, multimeta=multimeta, **{f"T{i}": k for i, k in enumerate(keys)})
        body = "\n".join(f"    def f(self, a: T{i}, q=1):\n        return {i}, self, a, q" for i in range(len(keys)))
        deco = "\n".join(f"    @multimethod\n    def f(self, a: T{i}, q=1):\n        return {i}, self, a, q" for i in range(len(keys)))
        with ctx.guard("class"):
            exec(f"class A(metaclass=multimeta):\n{body}\nclass B:\n{deco}\n", ns)
        for name in "AB":
            o = ns[name]()
            for c in cl:
                a = c()
                app, mins = minimal([(k,) for k in keys], (c,))
                try:
                    got = o.f(a, q=5)
                except TypeError:
                    got = None
                if not app:
                    ctx.ok("no-method", got is None, got=str(got))
                elif len(mins) == 1:
                    ctx.case("method", name, c.__name__, [k.__name__ for k in keys], nontrivial=len(app) > 1)
                    ctx.ok("most-specific", got is not None and got[0] == keys.index(mins[0][0]) and got[1] is o and got[2] is a and got[3] == 5,
                           got=str(got), want=mins[0][0].__name__)


SCENARIOS = [Scenario("dispatch", dispatch, 16, 200, 120), Scenario("overloaded", overloaded, 4, 40, 60), Scenario("meta", meta, 6, 60, 60)]
