"""C25 batched linear algebra: each element of a stack gets what the plain operation gives it."""
import numpy as np
from vm.core import Scenario, snapshot

RULE = ("random stacks (batch sizes 0 to several hundreds, dimensions 1 to 6, contiguous / transposed / sliced memory layouts, matrices "
        "that require pivoting, badly scaled rows) through every batched helper, against numpy applied element by element; "
        "non-trivial: at least two elements of dimension at least two")
REQUIRED = {"serial-multiplication": 30, "serial-solve": 60, "invert_gu": 20, "solve_gu": 20, "solve_tensor": 20,
            "block-solve": 10, "tensor-contraction": 60, "inputs-unchanged": 100, "sparse-tensor": 20, "in-place-only": 20}


def well(rng, N, n, kind):
    """Stack of N well conditioned matrices which need (kind>0) line swaps."""
    Q = np.empty((N, n, n))
    for i in range(N):
        q1, _ = np.linalg.qr(rng.normal(size=(n, n)))
        q2, _ = np.linalg.qr(rng.normal(size=(n, n)))
        Q[i] = q1 @ np.diag(rng.uniform(.3, 3, n) * rng.choice([-1, 1], n)) @ q2
        if kind == 1:      # permuted triangular: zero pivots without line swaps
            Q[i] = (np.triu(rng.normal(size=(n, n)) * .3, 1) + np.diag(rng.uniform(.5, 2, n)))[rng.permutation(n)]
        elif kind == 2:    # rows of different scales
            Q[i] *= 10.0 ** rng.integers(-3, 4, (n, 1))
        elif kind == 3 and n > 1:
            Q[i] = np.diag(rng.uniform(.5, 2, n))[rng.permutation(n)]
    return Q


def layout(rng, A):
    """The same values with another memory layout."""
    k = int(rng.integers(3))
    if k == 1:
        return np.asfortranarray(A)
    if k == 2:
        B = np.zeros(tuple(2 * s for s in A.shape))
        v = B[tuple(slice(None, None, 2) for _ in A.shape)]
        v[...] = A
        return v
    return A.copy()


SIZES = [1, 2, 3, 7, 40, 300]


def ref_solve(A, b):
    return np.stack([np.linalg.solve(a, v) for a, v in zip(A, b)]) if len(A) else np.zeros_like(b)


def serial(ctx):
    from dolo.numeric import serial_operations as so
    from dolo.numeric.optimize import newton as nw
    from dolo.algos import invert as iv
    rng = ctx.rng
    for it in range(10):
        N = int(rng.choice(SIZES))
        a, b, c = (int(v) for v in rng.integers(1, 6, 3))
        A, B = layout(rng, rng.normal(size=(N, a, b))), layout(rng, rng.normal(size=(N, b, c)))
        keep = snapshot([A, B])
        ctx.case("mul", N, a, b, c, A[0], nontrivial=N > 1 and b > 1)
        with ctx.attempt("serial-multiplication", shapes=[A.shape, B.shape]):
            ctx.close("serial-multiplication", so.serial_multiplication(A, B), np.stack([x @ y for x, y in zip(A, B)]),
                      atol=1e-12, shapes=[A.shape, B.shape])
        with ctx.attempt("serial-multiplication", shapes="matrices"):
            M, K = A[0].copy(), B[0].copy()
            ctx.close("serial-multiplication", so.serial_multiplication(M, K), M @ K, atol=1e-12, shapes=[M.shape, K.shape])
        if b != c + 1:
            bad = np.zeros((N, c + 1, 2))
            ctx.raises("mismatch-refused", lambda: so.serial_multiplication(np.zeros((N, a, b)), bad), shapes=[a, b, c + 1])
        n = int(rng.integers(1, 7))
        kind = it % 4
        A, V = well(rng, N, n, kind), rng.normal(size=(N, n))
        if kind == 2:
            V = np.einsum("nij,nj->ni", A, V)
        want = ref_solve(A, V)
        if it % 2:
            A, V = layout(rng, A), layout(rng, V)
        keep2 = snapshot([A, V])
        for nm, fn in (("serial_operations", so.serial_solve), ("newton", nw.serial_solve)):
            for diag in (True, False):
                with ctx.attempt("serial-solve", which=nm, diagnose=diag, n=n, N=N):
                    ctx.close("serial-solve", fn(A, V, diagnose=diag), want, rtol=1e-7, atol=1e-9, which=nm, diagnose=diag, n=n, N=N, kind=kind)
        with ctx.attempt("serial-solve", which="invert", n=n, N=N):
            ctx.close("serial-solve", iv.serial_solve(A, V), want, rtol=1e-7, atol=1e-9, which="invert", n=n, N=N, kind=kind)
        ctx.ok("inputs-unchanged", snapshot([A, V]) == keep2, n=n, N=N)
        ctx.count("systems", 5 * N)
        # integers as right hand sides
        Vi = rng.integers(-4, 5, (N, n))
        wi = ref_solve(A, Vi.astype(float))
        for nm, fn in (("serial_operations", so.serial_solve), ("newton", nw.serial_solve)):
            for diag in (True, False):
                with ctx.attempt("serial-solve", which=nm, diagnose=diag, n=n, N=N, integers=True):
                    ctx.close("serial-solve", fn(A, Vi, diagnose=diag), wi, rtol=1e-7, atol=1e-8, which=nm, diagnose=diag, n=n, N=N, integers=True)
        # the singular element is the one reported
        if N > 1:
            A2 = well(rng, N, n, 0)
            i = int(rng.integers(N))
            A2[i] = 0
            V2 = rng.normal(size=(N, n))
            for nm, fn in (("serial_operations", so.serial_solve), ("newton", nw.serial_solve)):
                try:
                    fn(A2, V2)
                    ctx.ok("singular-reported", False, which=nm, why="accepted")
                except Exception as e:
                    ctx.ok("singular-reported", getattr(e, "i", None) == i and np.array_equal(e.x, V2[i]) and np.array_equal(e.J, A2[i]),
                           which=nm, got=repr(e), want=i)
        del keep
    ctx.sample(N=N, n=n)


def inplace(ctx):
    from dolo.algos import invert as iv
    rng = ctx.rng
    for it in range(8):
        N = int(rng.choice(SIZES))
        n = int(rng.integers(1, 7))
        kind = it % 4
        A0 = well(rng, N, n, kind)
        inv = np.stack([np.linalg.inv(a) for a in A0])
        sc = np.abs(inv).max()
        info = dict(n=n, N=N, kind=kind)
        ctx.case("inv", A0[0], N, nontrivial=N > 1 and n > 1)
        A = A0.copy()
        with ctx.attempt("invert_gu", **info):
            ctx.close("invert_gu", iv.invert_gu(A), inv, rtol=1e-7, atol=1e-9 * sc, **info)
        V0 = rng.normal(size=(N, n))
        if kind == 2:
            V0 = np.einsum("nij,nj->ni", A0, V0)
        A, V = A0.copy(), V0.copy()
        with ctx.attempt("solve_gu", **info):
            # (n,n)->(n): the right hand side is the output argument, overwritten by the solution
            got = iv.solve_gu(A, V)
            ctx.close("solve_gu", got, ref_solve(A0, V0), rtol=1e-7, atol=1e-9 * (1 + sc), **info)
            ctx.ok("in-place-only", got is V, why="the output argument is the one returned", **info)
        # two batch dimensions
        if N > 1:
            A, V = np.stack([A0, A0[::-1]]), np.stack([V0, V0[::-1]])
            with ctx.attempt("solve_gu", **info):
                got = iv.solve_gu(A, V)
                ctx.close("solve_gu", got[1], ref_solve(A0, V0)[::-1], rtol=1e-7, atol=1e-9 * (1 + sc), batch="2d", **info)
        # matrices of right hand sides of any width
        p = int(rng.integers(1, 8))
        M0 = rng.normal(size=(N, n, p))
        if kind == 2:
            M0 = np.einsum("nij,njp->nip", A0, M0)
        buf = np.full(M0.size + 64, 7.25)
        M = buf[32:32 + M0.size].reshape(M0.shape)
        M[...] = M0
        A = A0.copy()
        with ctx.attempt("solve_tensor", p=p, **info):
            iv.solve_tensor(A, M)
            want = np.stack([np.linalg.solve(a, m) for a, m in zip(A0, M0)])
            ctx.close("solve_tensor", M, want, rtol=1e-7, atol=1e-9 * (1 + sc), p=p, **info)
            ctx.ok("in-place-only", (buf[:32] == 7.25).all() and (buf[-32:] == 7.25).all(), why="memory around the block", p=p, **info)
        q = int(rng.integers(1, 4))
        T0 = rng.normal(size=(N, n, p, q))
        if kind == 2:
            T0 = np.einsum("nij,njpq->nipq", A0, T0)
        A, T = A0.copy(), T0.copy()
        with ctx.attempt("solve_tensor", p=p, q=q, **info):
            iv.solve_tensor_old(A, T)
            want = np.stack([np.linalg.solve(a, m.reshape(n, -1)).reshape(n, p, q) for a, m in zip(A0, T0)])
            ctx.close("solve_tensor", T, want, rtol=1e-7, atol=1e-9 * (1 + sc), p=p, q=q, **info)
        # block systems of improved time iteration
        m = int(rng.integers(1, 4))
        D = np.stack([well(rng, min(N, 20), n, kind % 2) for _ in range(m)])
        J = rng.normal(size=(m, min(N, 20), n, m, n))
        keep = snapshot([D, J])
        want = np.empty_like(J)
        for i in range(m):
            for k in range(J.shape[1]):
                want[i, k] = np.linalg.solve(D[i, k], J[i, k].reshape(n, -1)).reshape(n, m, n)
        with ctx.attempt("block-solve", m=m, **info):
            ctx.close("block-solve", iv.mult_AB(D, J), want, rtol=1e-7, atol=1e-8, m=m, **info)
            ctx.ok("inputs-unchanged", snapshot([D, J]) == keep, which="mult_AB")
        ctx.count("systems", 5 * N)
        # singular matrices do not crash nor write outside
    ctx.sample(N=N, n=n, p=p)


def tensors(ctx):
    from dolo.numeric.tensor import sdot, mdot, multitake, multidot_old
    rng = ctx.rng
    for it in range(12):
        d = int(rng.integers(1, 4))             # dimensions contracted
        lead = [int(v) for v in rng.integers(1, 4, int(rng.integers(0, 3)))]
        con = [int(v) for v in rng.integers(1, 5, d)]
        T = layout(rng, rng.normal(size=lead + con))
        mats, outs = [], []
        for k in con:
            o = [int(v) for v in rng.integers(1, 4, int(rng.integers(0, 3)))]
            mats.append(layout(rng, rng.normal(size=[k] + o)))
            outs += o
        keep = snapshot([T, mats])
        want = np.zeros(lead + outs)
        for idx in np.ndindex(*con):
            w = T[(Ellipsis,) + idx]
            for i, M in zip(idx, mats):
                w = np.multiply.outer(w, M[i])
            want = want + w
        info = dict(T=T.shape, mats=[m.shape for m in mats])
        ctx.case("mdot", T, nontrivial=d > 1)
        with ctx.attempt("tensor-contraction", op="mdot", **info):
            ctx.close("tensor-contraction", mdot(T, *mats), want, rtol=1e-9, atol=1e-10, op="mdot", **info)
        if d <= T.ndim and all(M.ndim >= 1 for M in mats):
            with ctx.attempt("tensor-contraction", op="multidot", **info):
                ctx.close("tensor-contraction", multidot_old(T, mats), want, rtol=1e-9, atol=1e-10, op="multidot", **info)
        U = layout(rng, rng.normal(size=lead + [con[0]]))
        want = np.zeros(lead + list(mats[0].shape[1:]))
        for j in range(con[0]):
            want = want + np.multiply.outer(U[..., j], mats[0][j])
        with ctx.attempt("tensor-contraction", op="sdot"):
            ctx.close("tensor-contraction", sdot(U, mats[0]), want, rtol=1e-9, atol=1e-10, op="sdot", U=U.shape, V=mats[0].shape)
        if T.ndim > 1:
            axes = [int(a) for a in rng.permutation(T.ndim)[:2]]
            inds = [[int(v) for v in rng.integers(0, T.shape[a], int(rng.integers(1, 4)))] for a in axes]
            want = T
            for a, ii in zip(axes, inds):
                want = np.stack([np.take(want, i, a) for i in ii], axis=a)
            with ctx.attempt("tensor-contraction", op="multitake"):
                ctx.close("tensor-contraction", multitake(T, inds, axes), want, op="multitake", axes=axes, inds=inds)
        ctx.ok("inputs-unchanged", snapshot([T, mats]) == keep, which="tensor")


def sparse(ctx):
    from dolo.algos.bruteforce_lib import SparseTensor, dres_to_sparse, jres_to_sparse
    rng = ctx.rng
    for it in range(5):
        m, N, n = int(rng.integers(1, 4)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
        D = rng.normal(size=(m, N, n, n))
        J = rng.normal(size=(m, N, n, m, n))
        keep = snapshot([D, J])
        WD, WJ = np.zeros((m, N, n, m, N, n)), np.zeros((m, N, n, m, N, n))
        for i in range(m):
            for k in range(N):
                WD[i, k, :, i, k, :] = D[i, k]
                for j in range(m):
                    WJ[i, k, :, j, k, :] = J[i, k, :, j, :]
        big = m * N * n
        ctx.case("sparse", D, J, nontrivial=m > 1 and N > 1)
        for nm, fn, X, W in (("dres", dres_to_sparse, D, WD), ("jres", jres_to_sparse, J, WJ)):
            with ctx.attempt("sparse-tensor", which=nm):
                s = fn(X)
                ctx.close("sparse-tensor", s.as_array(), W.reshape(big, big), which=nm, m=m, N=N, n=n)
        ctx.ok("inputs-unchanged", snapshot([D, J]) == keep, which="sparse")
        # an arbitrary sparse tensor, reshaped
        shape = tuple(int(v) for v in rng.integers(1, 5, 4))
        W = np.where(rng.random(shape) < .4, rng.normal(size=shape), 0.0)
        if not W.any():
            W[0, 0, 0, 0] = 1.5
        idx = np.argwhere(W != 0)
        perm = rng.permutation(len(idx))
        s = SparseTensor(idx[perm], W[W != 0][perm], shape)
        dims = (shape[0] * shape[1], shape[2] * shape[3])
        with ctx.attempt("sparse-tensor", which="reshape"):
            ctx.close("sparse-tensor", s.as_array(dims), W.reshape(dims), which="as_array", shape=shape)
            r = s.reshape((dims[0], shape[2], shape[3]))
            got = np.zeros(r.shape)
            got[tuple(r.indices.T)] = r.values
            ctx.close("sparse-tensor", got, W.reshape(r.shape), which="reshape", shape=shape)


def jacobians(ctx):
    """The linear operator of improved time iteration is the one given by its blocks."""
    import importlib
    it_ = importlib.import_module("dolo.algos.improved_time_iteration")
    if not all(hasattr(it_, k) for k in ("ssmul", "ssmul_inplace", "inplace")):
        return        # internal helpers: nothing to say if they are gone
    rng = ctx.rng
    for _ in range(6):
        N, a, b = int(rng.integers(1, 30)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
        A, B = rng.normal(size=(N, a, b)), rng.normal(size=(N, b))
        want = np.einsum("nab,nb->na", A, B)
        ctx.case("ssmul", A, nontrivial=N > 1)
        with ctx.attempt("serial-multiplication", which="ssmul"):
            ctx.close("serial-multiplication", it_.ssmul(A, B), want, atol=1e-12, which="ssmul")
            O = rng.normal(size=(N, a))
            O0 = O.copy()
            it_.ssmul_inplace(A, B, O)
            ctx.close("serial-multiplication", O, O0 + want, atol=1e-12, which="ssmul_inplace")
        m, im, n = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        Phi, J = rng.normal(size=(m, N, n)), rng.normal(size=(m, im, N, n, n))
        J0 = J.copy()
        with ctx.attempt("in-place-only", which="inplace"):
            it_.inplace(Phi, J)
            ctx.close("in-place-only", J, J0 * Phi[:, None, :, :, None], which="inplace")


SCENARIOS = [Scenario("serial", serial, quick=3, thorough=60), Scenario("inplace", inplace, quick=4, thorough=60),
             Scenario("tensors", tensors, quick=4, thorough=60), Scenario("sparse", sparse, quick=3, thorough=40),
             Scenario("jacobians", jacobians, quick=2, thorough=20)]
