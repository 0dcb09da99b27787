"""C26 matrix equations: generalised Schur decompositions, Sylvester and second-order equations."""
import warnings
import numpy as np
from scipy import linalg as sl
from vm.core import Scenario, snapshot

RULE = ("random matrix pencils of 1..12 rows (real and complex eigenvalues, singular matrices, defective blocks), cutoffs inside, above and below "
        "the spectrum; Sylvester equations of multilinear unknowns; second-order equations built from a stable and an unstable solvent; "
        "residuals are recomputed; non-trivial: more than one row")
REQUIRED = {"reconstruct": 60, "ordered": 60, "sylvester": 40, "second-order": 20, "stable": 20}


def blocks(rng, mods):
    """real block diagonal matrix with the given moduli; pairs are complex"""
    n = len(mods)
    D = np.zeros((n, n))
    k = 0
    while k < n:
        if k + 1 < n and rng.random() < .5:
            th = rng.uniform(.2, 3)
            r = mods[k]
            D[k:k + 2, k:k + 2] = r * np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
            k += 2
        else:
            D[k, k] = mods[k] * rng.choice([-1, 1])
            if k + 1 < n and rng.random() < .2:
                D[k, k + 1] = .3
            k += 1
    return D


def well(rng, n):
    while True:
        M = rng.normal(size=(n, n))
        if np.linalg.cond(M) < 50:
            return M


def qz(ctx):
    from dolo.numeric.extern.qz import qzordered
    rng = ctx.rng
    for it in range(10):
        n = int(rng.integers(1, 13))
        style = it % 3
        if style == 0:
            A, B = rng.normal(size=(n, n)), rng.normal(size=(n, n))
        else:
            # A = V D W, B = V W with chosen eigenvalues (A against B)
            mods = np.sort(rng.choice([0.0, .2, .5, .8, 1.3, 2.0, 5.0], n))
            V, W = well(rng, n), well(rng, n)
            A, B = V @ blocks(rng, mods) @ W, V @ W
            if style == 2:
                # infinite eigenvalues
                B = V @ np.diag(rng.choice([0.0, 1.0], n, p=[.2, .8])) @ W
                A = V @ np.diag(rng.choice([.3, .6, 1.7, 3.0], n) * rng.choice([-1, 1], n)) @ W
        with np.errstate(all="ignore"):
            ab = sl.eig(A, B, right=False, homogeneous_eigvals=True)
            mod = np.sort(np.abs(ab[0]) / np.abs(ab[1]))
        # a cutoff away from the eigenvalues; where the function draws the line inside a margin is not judged
        cands = [1.0, .9, 1.1, .4, .65, 3.0, 20.0, 1e-3, 100.0]
        cands = [c for c in cands if not ((mod > c * .97) & (mod < c * 1.03)).any()]
        crit = float(rng.choice(cands)) if cands else 1e9
        A0, B0 = A.copy(), B.copy()
        default = crit == 1.0 and rng.random() < .5
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            with ctx.guard("qz"):
                S, T, Q, Z, ev = qzordered(A, B) if default else qzordered(A, B, crit)
        ctx.case("qz", n, style, crit, A, nontrivial=n > 1)
        ctx.ok("arguments-unchanged", (A == A0).all() and (B == B0).all())
        sc = 1 + np.abs(A).max() + np.abs(B).max()
        ctx.close("reconstruct", Q @ S @ Z.T, A, rtol=0, atol=1e-9 * sc)
        ctx.close("reconstruct", Q @ T @ Z.T, B, rtol=0, atol=1e-9 * sc)
        ctx.close("orthogonal", Q @ Q.T, np.eye(n), rtol=0, atol=1e-10)
        ctx.close("orthogonal", Z @ Z.T, np.eye(n), rtol=0, atol=1e-10)
        ctx.ok("triangular", np.abs(np.tril(T, -1)).max(initial=0) < 1e-10 * sc and np.abs(np.tril(S, -2)).max(initial=0) < 1e-10 * sc)
        k = int((mod > crit).sum())
        # the top-left blocks carry exactly the big eigenvalues
        if 0 < k < n:
            ctx.ok("split", abs(S[k, k - 1]) < 1e-8 * sc, got=S[k, k - 1], k=k)
        with np.errstate(all="ignore"):
            def m_(a, b):
                al, be = sl.eig(S[a:b, a:b], T[a:b, a:b], right=False, homogeneous_eigvals=True)
                return np.abs(al) / np.abs(be)
            top = m_(0, k) if k else np.array([])
            low = m_(k, n) if k < n else np.array([])
        ctx.ok("ordered", (top > crit).all() and (low < crit).all(), top=top, low=low, crit=crit, style=style)
        cap = lambda v: np.minimum(np.sort(np.abs(v)), 1e6)
        ctx.ok("eigenvalues", len(ev) == n and (np.asarray(ev)[:k] > crit).all() and (np.asarray(ev)[k:] < crit).all(), got=ev, k=k, crit=crit)
        if style != 1 or True:
            # ill-conditioned (defective) eigenvalues are compared loosely
            ctx.ok("eigenvalues", np.allclose(cap(ev), cap(mod), rtol=1e-3, atol=1e-3), got=cap(ev), want=cap(mod))
        ctx.sample(n=n, crit=crit, above=k, moduli=cap(mod))


def sylvester(ctx):
    from dolo.numeric.matrix_equations import solve_sylvester, solve_sylvester_vectorized
    rng = ctx.rng
    for it in range(8):
        nc, nv, nd = int(rng.integers(1, 5)), int(rng.integers(1, 4)), 1 + it % 3
        if nd == 3:
            nv = min(nv, 2)
        A = well(rng, nc) + 2 * np.eye(nc)
        B = rng.normal(size=(nc, nc))
        C = rng.normal(size=(nv, nv)) * .6
        D = rng.normal(size=(nc,) + (nv,) * nd)
        # solvable and well conditioned
        K = C
        for _ in range(nd - 1):
            K = np.kron(K, C)
        big = np.kron(np.eye(K.shape[0]), A) + np.kron(K.T, B)
        if np.linalg.cond(big) > 1e6:
            continue
        keep = snapshot([A, B, C, D])
        with ctx.guard("sylvester"):
            X = solve_sylvester(A, B, C, D)
        ctx.case("syl", nc, nv, nd, A, nontrivial=nc * nv > 1)
        ctx.ok("arguments-unchanged", snapshot([A, B, C, D]) == keep)
        if not ctx.ok("form", np.shape(X) == D.shape, got=np.shape(X), want=D.shape):
            continue
        XC = X
        for ax in range(1, nd + 1):
            XC = np.moveaxis(np.tensordot(XC, C, axes=([ax], [0])), -1, ax)
        R = np.tensordot(A, X, 1) + np.tensordot(B, XC, 1) + D
        ctx.ok("sylvester", np.abs(R).max() < 1e-8 * (1 + np.abs(X).max()), got=np.abs(R).max(), order=nd)
        # sums of terms A X B + K = 0
        m, q = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        terms = [(rng.normal(size=(m, m)), rng.normal(size=(q, q))) for _ in range(int(rng.integers(1, 4)))]
        Kc = rng.normal(size=(m, q))
        L = sum(np.kron(b.T, a) for a, b in terms)
        if np.linalg.cond(L) < 1e6:
            with ctx.guard("sylvester"):
                X = solve_sylvester_vectorized(*terms, Kc)
            R = sum(a @ X @ b for a, b in terms) + Kc
            ctx.ok("sylvester", np.shape(X) == (m, q) and np.abs(R).max() < 1e-8 * (1 + np.abs(X).max()), got=np.abs(R).max(), terms=len(terms))


def second(ctx):
    from dolo.numeric.matrix_equations import second_order_solver
    rng = ctx.rng
    for it in range(6):
        n = int(rng.integers(1, 6))
        # F (X - U)(X - P) with P stable and U unstable: F X^2 - F(U + P) X ... is not exact for matrices: take
        # F X^2 + G X + H with G = -F (U + P), H = F U P, whose solvent P is exact
        P = (lambda V: V @ blocks(rng, rng.uniform(.05, .9, n)) @ np.linalg.inv(V))(well(rng, n))
        U = (lambda V: V @ blocks(rng, rng.uniform(1.15, 3, n)) @ np.linalg.inv(V))(well(rng, n))
        F = well(rng, n)
        G, H = -F @ (U + P), F @ U @ P
        if np.abs(P).max() > 50 or np.abs(U).max() > 50:
            continue
        keep = snapshot([F, G, H])
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            with ctx.guard("second-order-solver"):
                ev, X = second_order_solver(F, G, H)
        ctx.case("second", n, P, nontrivial=n > 1)
        ctx.ok("arguments-unchanged", snapshot([F, G, H]) == keep)
        X = np.asarray(X)
        if not ctx.ok("form", X.shape == (n, n), got=X.shape):
            continue
        R = F @ X @ X + G @ X + H
        sc = 1 + np.abs(F).max() + np.abs(G).max() + np.abs(H).max()
        ctx.ok("second-order", np.abs(R).max() < 1e-6 * sc, got=np.abs(R).max(), n=n)
        ctx.ok("stable", np.abs(np.linalg.eigvals(X)).max() < 1, got=np.abs(np.linalg.eigvals(X)), n=n)
        ctx.close("second-order", X, P, rtol=0, atol=1e-5 * sc)


SCENARIOS = [Scenario("qz", qz, quick=10, thorough=120), Scenario("sylvester", sylvester, quick=8, thorough=80), Scenario("second", second, quick=8, thorough=80)]
