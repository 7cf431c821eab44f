"""C23: error measures equal their definitions."""

import itertools
import math

import numpy as np

import opinf
from mc.data import gen, layouts

P = opinf.post

BOUNDS = {
    "shapes": "n in 1..4, k in 1..5 and one-dimensional data",
    "data": "generic, integer, mixed magnitudes, exactly equal, and the error "
            "supported on every single entry and on every pair of entries",
    "norm orders": "0.5, 1, 1.5, 2, 3, 7, inf",
    "times": "uniform, nonuniform, shifted, scaled",
    "bases": "all coordinate subspaces of R^n and generic orthonormal bases",
    "invalid arguments": "every shape mismatch of the two arrays and the "
                         "times, more than two dimensions, invalid orders",
}
ORDERS = (0.5, 1, 1.5, 2, 3, 7, np.inf)


# Definitions -----------------------------------------------------------------
def vec(x, p):
    x = [abs(float(v)) for v in x]
    if p == np.inf:
        return max(x)
    return math.fsum(v**p for v in x) ** (1 / p)


def fro(Q):
    return math.sqrt(math.fsum(float(v) ** 2 for v in np.ravel(Q)))


def spacetime(Q, t, p):
    Q = np.atleast_2d(Q)
    if p == np.inf:
        return max(abs(float(v)) for v in np.ravel(Q))
    cols = [math.fsum(abs(float(v)) ** p for v in Q[:, j])
            for j in range(Q.shape[1])]
    return math.fsum(
        (float(t[j + 1]) - float(t[j])) * (cols[j] + cols[j + 1]) / 2
        for j in range(len(cols) - 1)) ** (1 / p)


def div(a, b):
    with np.errstate(all="ignore"):
        return np.asarray(a, dtype=float) / np.asarray(b, dtype=float)


TOL = 1e-10


def ref_lp(Q, X, p, normalize):
    Q, X = np.asarray(Q, dtype=float), np.asarray(X, dtype=float)
    if Q.ndim == 1:
        a, b = vec(Q - X, p), vec(Q, p)
        return a, div(a, b)
    a = np.array([vec(Q[:, j] - X[:, j], p) for j in range(Q.shape[1])])
    b = np.array([vec(Q[:, j], p) for j in range(Q.shape[1])])
    return a, div(a, b.max() if normalize else b)


def rel_close(c, got, want, label):
    """Relative to each entry (errors of different size side by side)."""
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    c.check(g.shape == w.shape, label, f"shape {g.shape}, expected {w.shape}")
    with np.errstate(all="ignore"):
        ok = (g == w) | (np.isnan(g) & np.isnan(w)) | (
            np.abs(g - w) <= TOL * np.abs(w))
    c.check(np.all(ok), label, f"got {g}, expected {w}")


def grid(k):
    yield "uniform", np.linspace(0, 1, k) if k > 1 else np.zeros(1)
    yield "nonuniform", np.cumsum(np.arange(1, k + 1) ** 1.5 * 0.3) - 2.0
    yield "fine", 5 + 1e-6 * np.arange(k) ** 2


def datasets(n, k):
    shape = (k,) if n == 0 else (n, k)
    Q = gen(*shape, tag=n, offset=0.3)
    yield "generic", Q, Q + gen(*shape, tag=7) * 0.1
    yield "equal", Q, Q.copy()
    yield "integer", np.round(10 * Q).astype(int) + 1, np.round(
        8 * gen(*shape, tag=3)).astype(int)
    scale = 10.0 ** (np.arange(Q.size).reshape(Q.shape) % 7 - 3)
    yield "scales", Q * scale, Q * scale * (1 + 1e-3 * gen(*shape, tag=5))
    yield "zero", Q, np.zeros(shape)
    if n > 1:
        Z = Q.copy()
        Z[:, 0] = 0
        yield "zerocolumn", Z, Q
    idx = list(np.ndindex(*shape))
    for i in idx:
        E = np.zeros(shape)
        E[i] = -0.7
        yield f"unit{i}", Q, Q + E
    for i, j in itertools.combinations(idx, 2):
        E = np.zeros(shape)
        E[i], E[j] = 3.0, -4.0
        yield f"pair{i}{j}", Q, Q + E


def values_case(c, n, k):
    for name, Q, X in datasets(n, k):
        with c.sub(name.replace(" ", "")):
            q0, x0 = Q.copy(), X.copy()
            plain = name[:4] not in ("unit", "pair")
            for p in ORDERS:
                for norm in (False, True):
                    out = P.lp_error(Q, X, p, norm)
                    c.op("lp_error")
                    c.check(len(out) == 2, "two values")
                    a, b = ref_lp(Q, X, p, norm)
                    rel_close(c, out[0], a, "lp absolute")
                    rel_close(c, out[1], b, "lp relative")
                    if plain:
                        out = P.lp_error(Qtrue=Q, Qapprox=X, p=p,
                                         normalize=norm)
                        rel_close(c, out[1], b, "lp relative")
                for tname, t in grid(k):
                    out = P.Lp_error(Q, X, t, p)
                    c.op("Lp_error")
                    a = spacetime(np.asarray(Q, float) - X, t, p)
                    b = spacetime(Q, t, p)
                    if k > 1 or p == np.inf:
                        rel_close(c, out[0], a, "Lp absolute")
                        rel_close(c, out[1], div(a, b), "Lp relative")
                    c.check(np.ndim(out[0]) == 0 and np.ndim(out[1]) == 0,
                            "Lp shape")
            rel_close(c, P.lp_error(Q, X)[0], ref_lp(Q, X, 2, False)[0],
                      "default order")
            rel_close(c, P.lp_error(Q, X)[1], ref_lp(Q, X, 2, False)[1],
                      "default normalization")
            out = P.Lp_error(Q, X, p=np.inf)
            rel_close(c, out[0], spacetime(
                np.asarray(Q, float) - X, None, np.inf), "Linf")
            if k > 1:
                rel_close(c, P.Lp_error(Q, X, t)[0], spacetime(
                    np.asarray(Q, float) - X, t, 2), "default order")
            if n:
                out = P.frobenius_error(Q, X)
                a, b = fro(np.asarray(Q, float) - X), fro(Q)
                rel_close(c, out[0], a, "frobenius absolute")
                rel_close(c, out[1], div(a, b), "frobenius relative")
                c.op("frobenius")
            if name == "equal":
                outs = [P.lp_error(Q, X, p) for p in ORDERS]
                outs.append(P.Lp_error(Q, X, p=np.inf))
                if k > 1:
                    outs += [P.Lp_error(Q, X, t, p) for p in ORDERS]
                for o in outs:
                    c.check(np.all(o[0] == 0) and np.all(o[1] == 0),
                            "not zero for equal data")
            c.same(Q, q0, "data changed")
            c.same(X, x0, "data changed")
            c.state(n, k, name)
    c.trace(n, k)


def relations_case(c, n, k):
    """Scaling, permutations, layouts, 1-D against 2-D."""
    shape = (k,) if n == 0 else (n, k)
    Q, X = gen(*shape, tag=11), gen(*shape, tag=12)
    t = np.cumsum(np.arange(1, k + 1) ** 1.5 * 0.3)
    funcs = {f"lp{p}{z}": (lambda A, B, p=p, z=z: P.lp_error(A, B, p, z))
             for p in ORDERS for z in (False, True)}
    funcs.update({f"Lp{p}": (lambda A, B, p=p: P.Lp_error(A, B, t, p))
                  for p in ORDERS if k > 1 or p == np.inf})
    if n:
        funcs["fro"] = P.frobenius_error
    for name, f in funcs.items():
        with c.sub(name):
            a, r = f(Q, X)
            for s in (-3.0, 1e-5, 1e6):
                a2, r2 = f(s * Q, s * X)
                rel_close(c, a2, abs(s) * a, "scaling, absolute")
                rel_close(c, r2, r, "scaling, relative")
            c.op("scaling", 3)
            for (_, A), (_, B) in itertools.product(layouts(Q), layouts(X)):
                a2, r2 = f(A, B)
                rel_close(c, a2, a, "layout")
                rel_close(c, r2, r, "layout")
                c.op("layout")
            if n > 1:
                for perm in itertools.permutations(range(n)):
                    a2, r2 = f(Q[list(perm)], X[list(perm)])
                    rel_close(c, a2, a, "order of the states")
                    c.op("permutation")
            c.state(name, n, k)
    if n == 0:
        for p in ORDERS:
            if k > 1 or p == np.inf:
                one = P.Lp_error(Q, X, t, p)
                two = P.Lp_error(Q[None], X[None], t, p)
                rel_close(c, one[0], two[0], "1-D and 2-D")
                rel_close(c, one[1], two[1], "1-D and 2-D")
            one = P.lp_error(Q, X, p)
            two = P.lp_error(Q[:, None], X[:, None], p)
            rel_close(c, one[0], two[0][0], "1-D and 2-D")
            rel_close(c, one[1], two[1][0], "1-D and 2-D")
            c.op("1-D", 2)
    c.trace(n, k)


def projection_case(c, n):
    I = np.eye(n)
    bases = [(f"coord{s}", I[:, list(s)]) for r in range(1, n + 1)
             for s in itertools.combinations(range(n), r)]
    for r in range(1, n + 1):
        bases.append((f"generic{r}", np.linalg.qr(gen(n, n, tag=r))[0][:, :r]))
    for name, V in bases:
        with c.sub(name.replace(" ", "")):
            for k in (0, 1, 3):
                shape = (n, k) if k else (n,)
                qs = [gen(*shape, tag=4)]
                for i in np.ndindex(*shape):
                    E = np.zeros(shape)
                    E[i] = 2.5
                    qs.append(E)
                for Q in qs:
                    q0 = Q.copy()
                    a, r = P.projection_error(Q, V)
                    c.op("projection_error")
                    W = Q if k else Q[:, None]
                    proj = np.zeros_like(W)
                    for j in range(V.shape[1]):
                        proj += np.outer(V[:, j], V[:, j] @ W)
                    want = fro(W - proj)
                    c.close(a, want, "absolute", 1e-12)
                    c.close(r, want / fro(W), "relative", 1e-12)
                    c.same(Q, q0, "data changed")
                # the basis class agrees
                basis = opinf.basis.LinearBasis(V)
                if k:
                    c.close(basis.projection_error(qs[0], relative=True),
                            P.projection_error(qs[0], V)[1],
                            "basis.projection_error", 1e-10)
                    c.close(basis.projection_error(qs[0], relative=False),
                            P.projection_error(qs[0], V)[0],
                            "basis.projection_error", 1e-10)
                c.state(n, name, k)
    c.trace(n)


def invalid_case(c):
    shapes = [(3,), (4,), (3, 4), (4, 3), (1, 4), (3, 1), (1,), (3, 4, 2),
              (3, 4, 1), ()]
    t = {k: np.linspace(0, 1, k) for k in (1, 2, 3, 4, 5)}
    for s1, s2 in itertools.product(shapes, repeat=2):
        A, B = np.ones(s1), np.ones(s2)
        bad = s1 != s2
        with c.sub(f"{s1}{s2}".replace(" ", "")):
            if bad or len(s1) not in (1, 2):
                c.raises(ValueError, lambda: P.lp_error(A, B), "lp_error")
            if bad or len(s1) != 2:
                c.raises(ValueError, lambda: P.frobenius_error(A, B),
                         "frobenius_error")
            for p in (2, np.inf):
                if bad or len(s1) > 2:
                    c.raises(ValueError, lambda: P.Lp_error(
                        A, B, t[s1[-1] if s1 else 1], p), "Lp_error")
            c.state(s1, s2)
    for s in ((4,), (3, 4)):
        A, B = np.ones(s), np.zeros(s)
        for k in (1, 2, 3, 5):
            c.raises(ValueError, lambda: P.Lp_error(A, B, t[k]),
                     "times not aligned")
        c.raises(ValueError, lambda: P.Lp_error(A, B), "no times")
        c.raises(ValueError, lambda: P.Lp_error(A, B, None, 1), "no times")
        c.raises(ValueError, lambda: P.Lp_error(A, B, np.ones((4, 1))),
                 "2-D times")
        c.raises(ValueError, lambda: P.Lp_error(A, B, np.ones((1, 4))),
                 "2-D times")
        for p in (0, -1, -2.5, -np.inf, [2], (1, 2), np.array([2])):
            c.raises(ValueError, lambda: P.lp_error(A, B, p), f"order {p}")
            c.raises(ValueError, lambda: P.Lp_error(A, B, t[4], p),
                     f"order {p}")
    c.trace("invalid")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for n in range(0, 6 if deep else 5):
        for k in range(1, 8 if deep else 6):
            if not deep and n * k > 12:
                continue
            out.append((f"values/{n}/{k}", values_case, (n, k)))
            out.append((f"relations/{n}/{k}", relations_case, (n, k)))
    for n in range(1, 7 if deep else 6):
        out.append((f"projection/{n}", projection_case, (n,)))
    out.append(("invalid", invalid_case, ()))
    return out
