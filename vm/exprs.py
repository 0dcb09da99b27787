"""Random expressions: text in dolo's language together with their value, computed from the tree
(never from the text)."""
import numpy as np
from vm.models import num

PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "^": 4}
FUNS = {"exp": np.exp, "log": np.log, "sin": np.sin, "cos": np.cos}


def _pow(x, y):
    v = x ** y
    return float("nan") if isinstance(v, complex) and not isinstance(x, complex) and not isinstance(y, complex) else v


class E:
    """op: 'c' constant, 'v' leaf, 'neg', function name or binary operator"""

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def val(self, env):
        o = self.op
        if o == "c":
            return self.a[0]
        if o == "v":
            return env[self.a[0]]
        if o == "neg":
            return -self.a[0].val(env)
        if o in FUNS:
            return FUNS[o](self.a[0].val(env))
        x, y = self.a[0].val(env), self.a[1].val(env)
        with np.errstate(all="ignore"):
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "^": lambda: _pow(x, y)}[o]()

    def text(self, leaf, rng, top=True):
        """leaf(key) -> text of a leaf"""
        o = self.op
        sp = (lambda: " " * int(rng.integers(0, 2)))
        if o == "c":
            return num(self.a[0])
        if o == "v":
            return leaf(self.a[0])
        if o == "neg":
            s = "-" + self.a[0].atom(leaf, rng)
            return s if top and rng.random() < .5 else "(" + s + ")"
        if o in FUNS:
            return f"{o}({sp()}{self.a[0].text(leaf, rng)}{sp()})"
        p = PREC[o]
        l, r = self.a
        ls = l.text(leaf, rng, top=False)
        rs = r.text(leaf, rng, top=False)
        lp, rp = PREC.get(l.op, 9), PREC.get(r.op, 9)
        if lp < p or (o == "^" and lp != 9) or rng.random() < .1:
            ls = "(" + ls + ")"
        # standard left associativity of - and /; a + (b - c) needs no parenthesis in value but is kept exact
        if rp <= p or rng.random() < .1:
            rs = "(" + rs + ")"
        return ls + sp() + o + sp() + rs

    def atom(self, leaf, rng):
        s = self.text(leaf, rng, top=False)
        return s if self.op in FUNS or self.op in "cv" else "(" + s + ")"

    def leaves(self):
        if self.op == "v":
            return {self.a[0]}
        return set().union(*[e.leaves() for e in self.a if isinstance(e, E)]) if self.op != "c" else set()


def gen(rng, keys, depth=3, positive=False):
    """a tree which is finite and smooth for leaves anywhere in a neighbourhood of positive numbers;
    leaves are assumed to be positive, functions get safe arguments"""
    r = rng.random()
    if depth <= 0 or r < .12:
        if not keys or rng.random() < .25:
            return E("c", float(np.round(rng.uniform(.2, 3), int(rng.integers(0, 4)))) or 1.0)
        return E("v", keys[int(rng.integers(len(keys)))])
    d = depth - 1
    k = int(rng.integers(10))
    if k <= 2:
        return E("+", gen(rng, keys, d), gen(rng, keys, d))
    if k <= 4:
        return E("-", gen(rng, keys, d), gen(rng, keys, d))
    if k <= 6:
        return E("*", gen(rng, keys, d), gen(rng, keys, d))
    if k == 7:
        # divisor and power base bounded away from zero
        return E("/", gen(rng, keys, d), pos(rng, keys, d))
    if k == 8:
        e = E("c", float(rng.choice([2., 3., .5, .3, 1.5]))) if rng.random() < .7 or not keys else E("v", keys[int(rng.integers(len(keys)))])
        return E("^", pos(rng, keys, d - 1), e)
    f = ["exp", "log", "sin", "cos"][int(rng.integers(4))]
    if f == "exp":
        return E("exp", E("neg", pos(rng, keys, d - 1)) if rng.random() < .5 else E("sin", gen(rng, keys, d - 1)))
    if f == "log":
        return E("log", pos(rng, keys, d))
    if rng.random() < .15:
        return E("neg", gen(rng, keys, d))
    return E(f, gen(rng, keys, d))


def pos(rng, keys, depth):
    """a tree with values above .1 or so for positive leaves"""
    k = int(rng.integers(4))
    if k == 0 or depth <= 0:
        return E("+", E("c", float(np.round(rng.uniform(.5, 2), 3))), E("v", keys[int(rng.integers(len(keys)))]) if keys else E("c", 1.0))
    if k == 1:
        return E("+", E("c", float(np.round(rng.uniform(.3, 1), 2))), E("^", E("sin", gen(rng, keys, depth - 1)), E("c", 2.0)))
    if k == 2:
        return E("exp", E("sin", gen(rng, keys, depth - 1)))
    return E("*", pos(rng, keys, depth - 1), pos(rng, keys, depth - 1))
