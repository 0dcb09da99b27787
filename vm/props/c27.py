"""C27 filters: Hodrick-Prescott trend and cycle, band-pass filter."""
import warnings
import numpy as np
from vm.core import Scenario, snapshot

RULE = ("random walks, trends, cycles, constants and integers of 4..400 observations, one or several series, smoothing parameters from 0 to 1e7; "
        "first-order conditions and optimality of the penalised least squares are recomputed; band-pass against the frequency response and a "
        "direct convolution; non-trivial: non constant series")
REQUIRED = {"first-order-conditions": 60, "minimum": 60, "several-series": 15, "bandpass": 30}


def series(rng, n):
    k = int(rng.integers(5))
    t = np.arange(n)
    if k == 0:
        return rng.normal(size=n).cumsum()
    if k == 1:
        return rng.normal() * t + rng.normal() + np.sin(t * rng.uniform(.1, 2)) * rng.uniform(0, 3)
    if k == 2:
        return rng.integers(-50, 50, n)
    if k == 3:
        return np.full(n, rng.normal() * 10)
    return np.exp(.02 * t) * (1 + .05 * rng.normal(size=n)) * 100


def objective(Y, T, lam):
    return ((Y - T) ** 2).sum() + lam * (np.diff(T, 2) ** 2).sum()


def hp(ctx):
    from dolo.numeric.filters import hp_filter
    rng = ctx.rng

    def call(*a, **k):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with ctx.guard("hp"):
                return hp_filter(*a, **k)
    for it in range(10):
        n = int(rng.choice([4, 5, 6, 7, 10, 33, 120, 400]))
        Y = series(rng, n)
        lam = float(rng.choice([0, 6.25, 100, 1600, 14400, 129600, 1e7])) if rng.random() < .8 else int(rng.integers(1, 5000))
        keep = snapshot(Y)
        default = rng.random() < .3
        if default:
            lam = 1600
        arg = Y.tolist() if rng.random() < .3 else Y
        T, C = call(arg) if default else (call(arg, lam) if rng.random() < .5 else call(arg, lam=lam))
        ctx.case("hp", n, lam, Y, nontrivial=np.ptp(Y) > 0)
        ctx.ok("arguments-unchanged", snapshot(Y) == keep)
        if not ctx.ok("form", np.shape(T) == (n,) and np.shape(C) == (n,), got=[np.shape(T), np.shape(C)]):
            continue
        sc = 1 + np.abs(Y).max()
        ctx.close("adds-up", T + C, Y, rtol=0, atol=1e-9 * sc)
        foc = T - Y + lam * np.convolve(np.diff(T, 2), [1, -2, 1])
        ctx.ok("first-order-conditions", np.abs(foc).max() <= 1e-8 * sc * (1 + lam) * 1e-1 + 1e-8 * sc, got=np.abs(foc).max(), lam=lam, n=n)
        D = np.diff(np.eye(n), 2, axis=0)
        want = np.linalg.solve(np.eye(n) + lam * D.T @ D, Y)
        ctx.close("solution", T, want, rtol=0, atol=1e-7 * sc * (1 + 1e-9 * lam * n ** 2), lam=lam, n=n)
        base = objective(Y, T, lam)
        for _ in range(4):
            d = rng.normal(size=n) * 10.0 ** rng.integers(-3, 1)
            for dd in (d, -d):
                ctx.ok("minimum", objective(Y, T + dd, lam) >= base - 1e-9 * (1 + abs(base)) * (1 + 1e-6 * lam), lam=lam, n=n)
        # a linear trend has no cycle
        L = rng.normal() * np.arange(n) + rng.normal()
        ctx.close("linear-trend", call(L, lam)[0], L, rtol=0, atol=1e-6 * (1 + np.abs(L).max()) * (1 + 1e-8 * lam * n ** 2))
        ctx.sample(n=n, lam=lam, foc=float(np.abs(foc).max()))
    for it in range(3):
        k, n = int(rng.integers(1, 5)), int(rng.integers(5, 40))
        Z = np.array([series(rng, n) for _ in range(k)])
        lam = float(rng.choice([5., 400., 14400.]))
        keep = snapshot(Z)
        T, C = call(Z, lam)
        ctx.case("hp2", k, n, lam)
        ctx.ok("arguments-unchanged", snapshot(Z) == keep)
        for r in range(k):
            t, c = call(Z[r], lam)
            if ctx.ok("form", np.shape(T) == Z.shape and np.shape(C) == Z.shape, got=np.shape(T)):
                ctx.close("several-series", T[r], t, rtol=1e-10, atol=1e-10, lam=lam)
                ctx.close("several-series", C[r], c, rtol=1e-10, atol=1e-9, lam=lam)
    ctx.raises("rejected", lambda: hp_filter(rng.normal(size=(2, 6, 3))))


def bandpass(ctx):
    from dolo.numeric.filters import bandpass_filter
    rng = ctx.rng
    for it in range(8):
        k = int(rng.integers(1, 16))
        n = 2 * k + int(rng.integers(1, 120))
        lo, hi = sorted(rng.uniform(2, 60, 2))
        if hi - lo < .5:
            continue
        Y = series(rng, n)
        keep = snapshot(Y)
        arg = Y.tolist() if rng.random() < .3 else Y
        with ctx.guard("bandpass-call"):
            out = bandpass_filter(arg, k, lo, hi)
        ctx.case("bp", k, n, lo, hi, Y)
        ctx.ok("arguments-unchanged", snapshot(Y) == keep)
        a, b = 2 * np.pi / hi, 2 * np.pi / lo
        w = [(b - a) / np.pi] + [(np.sin(b * j) - np.sin(a * j)) / (np.pi * j) for j in range(1, k + 1)]
        w = np.array(w[:0:-1] + w)
        w = w - w.sum() / (2 * k + 1)
        want = np.array([(w * Y[i:i + 2 * k + 1]).sum() for i in range(n - 2 * k)])
        sc = 1 + np.abs(Y).max()
        ctx.close("bandpass", out, want, rtol=0, atol=1e-9 * sc, k=k, n=n)
        t = np.arange(n)
        with ctx.guard("bandpass-call"):
            ctx.close("bandpass-trend", bandpass_filter(3.0 + .5 * t, k, lo, hi), np.zeros(n - 2 * k), rtol=0, atol=1e-8 * n)
            ctx.close("bandpass-linear", bandpass_filter(2.5 * Y + t, k, lo, hi), 2.5 * out, rtol=0, atol=1e-8 * (sc + n))
    # long filter: cycles of the band go through, others do not
    k, n = 150, 600
    t = np.arange(n)
    lo, hi = 6.0, 32.0
    per = float(rng.uniform(9, 20))
    ph = rng.uniform(0, 6)
    with ctx.guard("bandpass-call"):
        ctx.close("frequency", bandpass_filter(np.cos(2 * np.pi * t / per + ph), k, lo, hi), np.cos(2 * np.pi * t[k:-k] / per + ph), rtol=0, atol=.06, period=per)
        slow = float(rng.uniform(60, 200))
        ctx.close("frequency", bandpass_filter(np.cos(2 * np.pi * t / slow + ph), k, lo, hi), np.zeros(n - 2 * k), rtol=0, atol=.06, period=slow)
        fast = float(rng.uniform(2.2, 4.5))
        ctx.close("frequency", bandpass_filter(np.cos(2 * np.pi * t / fast + ph), k, lo, hi), np.zeros(n - 2 * k), rtol=0, atol=.06, period=fast)


SCENARIOS = [Scenario("hp", hp, quick=8, thorough=80), Scenario("bandpass", bandpass, quick=8, thorough=80)]
