"""C06: a basis is (weighted-)orthonormal, compresses with V^T W, decompresses
with V, and its projection is idempotent and, for POD, optimal."""

import itertools

import numpy as np

import opinf
from mc import pre
from mc.data import gen, spd, layouts

BOUNDS = {
    "configurations": "linear basis and POD x weights {none, diagonal, "
    "matrix} x SVD solver {dense, randomized, method of snapshots, eigh, "
    "callable} x r in {1,..,k} x n in {4,5} x k in {3,6} (tall, wide, "
    "rank deficient) x max_vectors",
    "histories": "fit; fit again on other data; change the dimension down "
    "and up; after each step every query",
    "queries": "unit vectors (a basis of all inputs), 1-D, 2-D, layouts, "
    "index selections",
}


def wmat(weights, n):
    if weights is None:
        return np.eye(n)
    weights = np.asarray(weights)
    return np.diag(weights) if weights.ndim == 1 else weights


def weights_menu(n):
    yield "none", None
    yield "diag", np.abs(gen(n, tag=81)) * 3 + 0.5
    yield "full", spd(n, tag=82)
    if n > 2:
        # coupled entries only in the last block
        W = np.diag(np.abs(gen(n, tag=79)) * 2 + 0.5)
        W[-2:, -2:] = spd(2, tag=78)
        yield "block", W


def linear_algebra(c, basis, V, W):
    """Queries against the matrices V and W."""
    n, r = V.shape
    c.same(tuple(basis.shape), (n, r), "shape")
    c.same(basis.full_state_dimension, n, "n")
    c.same(basis.reduced_state_dimension, r, "r")
    c.close(basis.entries, V, "entries", 1e-12)
    for i in range(n):
        c.same(np.asarray(basis[i]), basis.entries[i], "getitem")
    VtW = V.T @ W
    for X in (np.eye(n), gen(n, 3, tag=83, scale=5.0), gen(n, tag=84),
              gen(n, 1, tag=85), np.zeros(n), gen(n, 4 * n + 5, tag=77)):
        for lname, Y in layouts(X):
            keep = Y.copy()
            c.op("compress")
            q = basis.compress(Y)
            c.close(q, VtW @ X, "compress", 1e-10)
            c.op("project")
            P = basis.project(Y)
            c.close(P, V @ (VtW @ X), "project", 1e-10)
            c.close(basis.project(P), P, "idempotent", 1e-9)
            c.close(basis.compress(P), q, "compress-of-project", 1e-9)
            nrm = np.linalg.norm(X)
            err = np.linalg.norm(X - V @ (VtW @ X))
            c.close(basis.projection_error(Y, relative=False), err,
                    "projection_error", 1e-9)
            if nrm > 0:
                c.close(basis.projection_error(Y), err / nrm,
                        "projection_error-rel", 1e-9)
                c.close(basis.projection_error(Y, relative=True), err / nrm,
                        "projection_error-rel", 1e-9)
            c.same(Y, keep, "query-mutates")
    for q in (np.eye(r), gen(r, 4, tag=86), gen(r, tag=87),
              gen(r, 1, tag=88), gen(r, 4 * r + 5, tag=76)):
        for lname, y in layouts(q):
            c.op("decompress")
            full = V @ q
            c.close(basis.decompress(y), full, "decompress", 1e-10)
            for lo, locs in pre.locs_menu(n):
                c.op("decompress(locs)")
                c.close(basis.decompress(y, locs=locs), full[locs],
                        "decompress-locs", 1e-10, lo)
            c.close(basis.compress(basis.decompress(y)), q,
                    "compress-of-decompress", 1e-9)


def linear_case(c, n, r, wname, weights, name):
    W = wmat(weights, n)
    L = np.linalg.cholesky(W)
    V = np.linalg.solve(L.T, np.linalg.qr(gen(n, r, tag=89))[0])
    for check in (True, False):
        basis = opinf.basis.LinearBasis(
            V.copy(), weights=None if weights is None else weights.copy(),
            check_orthogonality=check, name=name)
        c.check(basis.fit(gen(n, 3, tag=90)) is basis, "fit-self")
        c.state(check)
        linear_algebra(c, basis, V, W)
        c.close(basis.fit_compress(gen(n, 3, tag=90)),
                V.T @ W @ gen(n, 3, tag=90), "fit_compress", 1e-10)
        c.trace("linear", n, r, wname)
    # a basis that is not orthonormal still compresses with V^T W
    B = gen(n, r, tag=91)
    basis = opinf.basis.LinearBasis(B, weights=weights,
                                    check_orthogonality=False)
    X = gen(n, 4, tag=92)
    c.op("non-orthonormal")
    c.close(basis.compress(X), B.T @ W @ X, "compress", 1e-10)
    c.close(basis.decompress(X[:r]), B @ X[:r], "decompress", 1e-10)


def snapshots(n, k, which):
    if which == "rank2":
        return gen(n, 2, tag=93) @ gen(2, k, tag=94)
    return gen(n, k, tag=95 + which, scale=1 + 10.0 * which)


SOLVERS = {
    "dense": dict(svdsolver="dense"),
    "default": dict(),
    "randomized": dict(svdsolver="randomized", random_state=0,
                       n_oversamples=10, n_iter=7),
    "mos": dict(svdsolver="method-of-snapshots"),
    "eigh": dict(svdsolver="eigh"),
    "custom": dict(svdsolver=lambda Q, **kw: np.linalg.svd(
        Q, full_matrices=False)),
}


def pod_state(c, basis, Q, W, r, mv, solver, tolscale=1.0):
    """Oracle in one fitted state: eigenvector relations, no SVD code."""
    n = Q.shape[0]
    V = np.array(basis.entries)
    c.same(V.shape, (n, r), "entries-shape")
    c.close(V.T @ W @ V, np.eye(r), "orthonormal", 1e-7)
    # reference singular values of W^{1/2} Q
    lam = np.linalg.eigvalsh(np.linalg.cholesky(W).T @ Q
                             @ Q.T @ np.linalg.cholesky(W))[::-1]
    lam = np.clip(lam, 0, None)
    sig = np.sqrt(lam)
    m = min(Q.shape)
    sv = np.asarray(basis.svdvals)
    c.check(np.all(np.diff(sv) <= 1e-14), "svdvals-sorted")
    c.close(sv[:r], sig[:r] / sig[0], "svdvals", 1e-6)
    c.check(abs(sv[0] - 1) < 1e-12, "svdvals-normalized")
    c.close(Q @ (Q.T @ (W @ V)), V * lam[:r], "singular-vectors", 1e-6)
    # optimality: the projection error is the energy of the tail
    E = Q - V @ (V.T @ W @ Q)
    err2 = np.sum(E * (W @ E))
    c.close(err2, np.sum(lam[r:]), "optimal", 1e-6)
    c.close(basis.cumulative_energy + basis.residual_energy, 1.0, "energies")
    if solver != "randomized" or mv >= m:
        c.close(basis.cumulative_energy, np.sum(lam[:r]) / np.sum(lam),
                "cumulative", 1e-6)
    # all stored vectors
    c.close(basis.leftvecs[:, :r], V, "leftvecs", 1e-12)
    c.same(basis.max_vectors, basis.leftvecs.shape[1], "max_vectors")
    R = np.asarray(basis.rightvecs)
    c.same(R.shape, (Q.shape[1], basis.max_vectors), "rightvecs-shape")
    c.close(R[:, :r] * sig[:r], Q.T @ W @ V, "rightvecs", 1e-6)
    linear_algebra(c, basis, V, W)
    c.outcome(r, sv)


def pod_case(c, n, k, which, wname, weights, solver, mv):
    W = wmat(weights, n)
    m = 2 if which == "rank2" else min(n, k)
    avail = min(mv or 99, n, k)
    # at most this many vectors are numerically meaningful
    top = min(avail, m)
    for r in range(1, top + 1):
        def make():
            return opinf.basis.PODBasis(
                num_vectors=r, max_vectors=mv,
                weights=None if weights is None else weights.copy(),
                **SOLVERS[solver])
        Q = snapshots(n, k, which)
        keep = Q.copy()
        basis = make()
        c.op("fit")
        c.check(basis.fit(Q) is basis, "fit-self")
        c.same(Q, keep, "fit-mutates")
        pod_state(c, basis, keep, W, r, mv or 99, solver)
        c.state(r, "fit")
        c.trace("fit", r)
        # other dimensions of the same data, down and up
        for r2 in range(1, top + 1):
            c.op("set_dimension")
            basis.set_dimension(num_vectors=r2)
            pod_state(c, basis, keep, W, r2, mv or 99, solver)
            c.state(r, "dim", r2)
        c.trace("fit", r, "set_dimension up/down")
        # another training set, same or other number of snapshots
        for k2 in (k, k + 2):
            basis.set_dimension(num_vectors=min(r, 2))
            Q2 = snapshots(n, k2, 1)
            c.op("fit again")
            z = basis.fit_compress(Q2)
            pod_state(c, basis, Q2, W, min(r, 2), mv or 99, solver)
            c.close(z, basis.entries.T @ W @ Q2, "fit_compress", 1e-9)
            c.state(r, "refit", k2)
            c.trace("fit", r, "refit", k2)
    # three-dimensional training data = trajectories side by side
    if which == 0 and k % 2 == 0:
        Q = snapshots(n, k, 0)
        Q3 = np.array([Q[:, :k // 2], Q[:, k // 2:]])
        c.op("fit 3-D")
        basis = make().fit(Q3)
        pod_state(c, basis, Q, W, top, mv or 99, solver)
        c.trace("fit 3-D")


def from_svd_case(c, n, k, wname, weights, have_right):
    W = wmat(weights, n)
    Q = gen(n, k, tag=97)
    L = np.linalg.cholesky(W)
    U, s, Vt = np.linalg.svd(L.T @ Q, full_matrices=False)
    left = np.linalg.solve(L.T, U)
    m = len(s)
    for r in (None, *range(1, m + 1)):
        c.op("from_svd")
        basis = opinf.basis.PODBasis.from_svd(
            left.copy(), s.copy(), Vt.T.copy() if have_right else None,
            num_vectors=r, weights=weights)
        rr = m if r is None else r
        c.close(basis.svdvals, s / s[0], "svdvals", 1e-12)
        linear_algebra(c, basis, left[:, :rr], W)
        c.close(basis.cumulative_energy,
                np.sum(s[:rr]**2) / np.sum(s**2), "cumulative", 1e-12)
        c.state(r)
        c.trace("from_svd", r)


def functional_case(c, n, k, wname, weights, solver):
    W = wmat(weights, n)
    Q = snapshots(n, k, 0)
    lam = np.clip(np.linalg.eigvalsh(
        np.linalg.cholesky(W).T @ Q @ Q.T @ np.linalg.cholesky(W))[::-1],
        0, None)
    m = min(n, k)
    for r in (None, *range(1, m + 1)):
        for right in (False, True):
            c.op("pod_basis")
            out = opinf.basis.pod_basis(
                Q, num_vectors=r, weights=weights, return_rightvecs=right,
                **SOLVERS[solver])
            c.same(len(out), 3 if right else 2, "arity")
            V, sv = out[:2]
            rr = m if r is None else r
            c.same(V.shape, (n, rr), "shape")
            c.close(V.T @ W @ V, np.eye(rr), "orthonormal", 1e-6)
            c.close(sv[:rr], np.sqrt(lam[:rr] / lam[0]), "svdvals", 1e-6)
            c.close(Q @ (Q.T @ (W @ V)), V * lam[:rr], "vectors", 1e-6)
            if right:
                c.close(out[2] * np.sqrt(lam[:rr]), Q.T @ W @ V,
                        "rightvecs", 1e-6)
            c.state(r, right)
            c.trace("pod_basis", r, right)
    if solver in ("mos", "eigh"):
        # the eigenvalue solver on its own
        c.op("method_of_snapshots")
        V, s, Psit = opinf.basis.method_of_snapshots(
            Q, inner_product_matrix=weights)
        p = len(s)
        c.close(s[:m], np.sqrt(lam[:m]), "mos-svdvals", 1e-6)
        c.close((V * s) @ Psit, Q, "mos-reconstructs", 1e-6)
        # (beyond the rank, eigenvalues at rounding level may be kept)
        c.check(p >= m, "mos-rank", f"{p} < {m}")
        c.close(V[:, :m].T @ W @ V[:, :m], np.eye(m), "mos-orthonormal",
                1e-5)


def cases(tier):
    out = []
    ns = (4, 5) if tier == "quick" else (1, 2, 4, 5, 7)
    for n in (1, *ns) if 1 not in ns else ns:
        for wname, w in weights_menu(n):
            for r in range(1, n + 1):
                out.append((f"linear n={n} r={r} W={wname}", linear_case,
                            (n, r, wname, w, None if r % 2 else "nm")))
    ks = (3, 6) if tier == "quick" else (1, 3, 5, 6, 9)
    for n in ns:
        for k in ks:
            for wname, w in weights_menu(n):
                for solver in SOLVERS:
                    # more snapshots than entries: the Gramian is singular
                    if solver in ("mos", "eigh") and k > n:
                        if tier == "quick":
                            continue
                    for mv in (None, 2, 9):
                        which = (0,) if solver in ("mos", "eigh") else (
                            0, "rank2")
                        for q in which:
                            if q == "rank2" and min(n, k) < 3:
                                continue
                            out.append((
                                f"pod n={n} k={k} data={q} W={wname} "
                                f"{solver} max={mv}", pod_case,
                                (n, k, q, wname, w, solver, mv)))
                    out.append((f"pod_basis n={n} k={k} W={wname} {solver}",
                                functional_case,
                                (n, k, wname, w, solver)))
                for right in (False, True):
                    out.append((f"from_svd n={n} k={k} W={wname} {right}",
                                from_svd_case, (n, k, wname, w, right)))
    return out
