"""C34: problems of any size: copies and embeddings change nothing."""

import os
import warnings

import numpy as np
import scipy.interpolate as interp
import scipy.linalg as la
import scipy.sparse as sparse

import opinf
from checks.c31 import differ
from checks.c33 import plain
from mc import ops
from mc.data import gen, spd
from mc.objs import Raised

B = opinf.basis
D = opinf.ddt
L = opinf.lstsq
M = opinf.models
O = opinf.operators
P = opinf.pre
R = opinf.roms
T = opinf.utils

BOUNDS = {
    "sizes": "every N from 1 to a bound of the experiment (quick 8 - 60, "
    "thorough 3 times as many), and single larger ones (up to 20000 rows)",
    "operations": "transformers, bases, derivative estimators, operators, "
    "solvers, models, parametric models, reduced-order models, "
    "regularization selection, lifting maps, error measures; with save/load "
    "and copies",
    "oracle": "the same problem with N = 1",
}

EXPERIMENTS = []
CHUNK = 24
CURRENT = [None]


def size(name, upto, more=(), tol=1e-10):
    """run(N) -> {name: value}, the same for every N."""
    def add(run):
        EXPERIMENTS.append((name, run, upto, tuple(more), tol))
        return run
    return add


def size_case(c, run, Ns, tol):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(11)
        CURRENT[0] = c.path
        base = {k: plain(v) for k, v in run(1).items()}
        for nm, v in base.items():
            if isinstance(v, Raised):
                c.fail("harness", f"{nm}: {v!r}")
        for N in Ns:
            with c.sub(f"N={N}"):
                np.random.seed(11)
                out = {k: plain(v) for k, v in run(N).items()}
                c.op(f"N={N}")
                c.check(set(out) == set(base), "results", f"{set(out)}")
                for nm in base:
                    msg = differ(base[nm], out[nm], tol)
                    c.check(msg is None, nm.replace(" ", "-"), f"{msg}")
                    c.state(N, nm)
    c.trace(f"{len(base)} results")


def rows(A, N):
    """The first of N equal blocks of rows; Raised if they differ."""
    A = np.asarray(A)
    if A.shape[0] % N:
        return Raised(ValueError(f"{A.shape[0]} rows in {N} blocks"))
    X = A.reshape((N, A.shape[0] // N) + A.shape[1:])
    return same_parts(X)


def columns(A, N):
    A = np.asarray(A)
    if A.shape[-1] % N:
        return Raised(ValueError(f"{A.shape[-1]} columns in {N} blocks"))
    return same_parts(np.split(A, N, axis=-1))


def same_parts(X):
    scale = np.max(np.abs(X[0])) if X[0].size else 1.0
    for i, x in enumerate(X):
        if not np.allclose(x, X[0], rtol=0, atol=1e-8 * scale,
                           equal_nan=True):
            return Raised(ValueError(f"part {i} differs from part 0"))
    return X[0]


def turned(A, N):
    """N different variables: the rows of the i-th are turned by i."""
    return np.vstack([np.roll(A, i, axis=0) for i in range(N)])


def unturned(A, N):
    A = np.asarray(A)
    if A.shape[0] % N:
        return Raised(ValueError(f"{A.shape[0]} rows in {N} blocks"))
    return same_parts([np.roll(x, -i, axis=0)
                       for i, x in enumerate(np.split(A, N))])


def tile(A, N):
    return np.tile(A, (N,) + (1,) * (A.ndim - 1))


def reload(obj, cl=None, *args):
    f = CURRENT[0]("size.h5")
    if os.path.exists(f):
        os.remove(f)
    obj.save(f)
    return (cl or obj.__class__).load(f, *args)


# Transformers ----------------------------------------------------------------
SCALINGS = (None, "standard", "minmax", "minmaxsym", "maxabs", "maxabssym",
            "maxnorm", "maxnormsym")


def register_transformers(tier):
    Q = gen(4, 6, tag=31) * np.array([[1.0], [3.0], [0.5], [2.0]]) + 0.75
    X, Z = gen(4, 5, tag=32), gen(4, 5, tag=33)

    def outputs(tr, N, f=1.0, Y=None):
        locs = np.array([2, 0]) + 4 * (N - 1)
        W = tile(X, N)
        return {"transform": rows(tr.transform(W), N) * f,
                "ddts": rows(tr.transform_ddts(tile(Z, N)), N) * f,
                "inverse": rows(tr.inverse_transform(
                    tr.transform(W)), N),
                "one": rows(tr.transform(W[:, 1]), N) * f,
                "locs": tr.inverse_transform(tr.transform(W)[locs],
                                             locs=locs)}

    for cen in (False, True):
        for sc in SCALINGS:
            for byrow in (False, True):
                if byrow and sc in (None, "maxnorm", "maxnormsym") or (
                        not cen and sc is None):
                    continue

                def tall(N, cen=cen, sc=sc, byrow=byrow):
                    tr = P.ShiftScaleTransformer(cen, sc, byrow)
                    Y = tr.fit_transform(tile(Q, N))
                    f = np.sqrt(N) if sc and "norm" in sc else 1.0
                    out = {"fit_transform": rows(Y, N) * f}
                    out |= outputs(tr, N, f)
                    out |= {k + " loaded": v for k, v in outputs(
                        reload(tr), N, f).items()}
                    return out

                def long(N, cen=cen, sc=sc, byrow=byrow):
                    tr = P.ShiftScaleTransformer(cen, sc, byrow)
                    Y = tr.fit_transform(np.tile(Q, (1, N)))
                    return {"fit_transform": columns(Y, N),
                            "transform": columns(tr.transform(
                                np.tile(X, (1, N))), N),
                            "ddts": columns(tr.transform_ddts(
                                np.tile(Z, (1, N))), N),
                            "inverse": columns(tr.inverse_transform(
                                np.tile(X, (1, N))), N)}

                size(f"pre/tall/{cen}/{sc}/{byrow}", 40, (1000, 5000))(tall)
                size(f"pre/long/{cen}/{sc}/{byrow}", 40, (1000, 5000))(long)

                def variables(N, cen=cen, sc=sc, byrow=byrow):
                    tr = P.TransformerMulti([P.ShiftScaleTransformer(
                        cen, sc, byrow) for _ in range(N)], [4] * N)
                    Y = tr.fit_transform(tile(Q, N))
                    W = tile(X, N)
                    out = {"fit_transform": rows(Y, N),
                           "transform": rows(tr.transform(W), N),
                           "ddts": rows(tr.transform_ddts(tile(Z, N)), N),
                           "inverse": rows(tr.inverse_transform(W), N),
                           "locs": rows(tr.inverse_transform(
                               tile(X[[2, 0]], N), locs=np.array([2, 0])),
                               N)}
                    V = W + np.repeat(np.arange(N), 4)[:, None]
                    parts = [tr.get_var(i, V) - i for i in range(N)]
                    out["parts"] = same_parts(parts)
                    out["named"] = same_parts([
                        tr.get_var(nm, V) - i for i, nm in enumerate(
                            tr.variable_names)])
                    out["split"] = same_parts([
                        x - i for i, x in enumerate(tr.split(V))])
                    out["loaded"] = rows(P.TransformerMulti.load(
                        save(tr), [P.ShiftScaleTransformer] * N).transform(
                            W), N)
                    tr = P.TransformerMulti([P.ShiftScaleTransformer(
                        cen, sc, byrow) for _ in range(N)])
                    out["turned fit"] = unturned(
                        tr.fit_transform(turned(Q, N)), N)
                    W = turned(X, N)
                    for nm, x in (("", tr), (" loaded",
                                             P.TransformerMulti.load(
                            save(tr), [P.ShiftScaleTransformer] * N))):
                        out["turned transform" + nm] = unturned(
                            x.transform(W), N)
                        out["turned inverse" + nm] = unturned(
                            x.inverse_transform(W), N)
                    return out

                size(f"pre/variables/{cen}/{sc}/{byrow}", 14, (64, 130))(
                    variables)

    def steps(N):
        # 4 * 2^-(N - 1) * 2^(N - 1): the last stages undo the first
        trs = [P.ScaleTransformer(0.5) for _ in range(N - 1)] + [
            P.ShiftScaleTransformer(True, "minmax")] + [
            P.ShiftTransformer(np.full(4, 2.0 ** -i)) for i in range(N - 1)]
        tr = P.TransformerPipeline(trs)
        Y = tr.fit_transform(Q)
        back = np.sum(2.0 ** -np.arange(N - 1))
        out = {"fit_transform": Y + back, "transform": tr.transform(
            X) + back, "ddts": tr.transform_ddts(Z),
            "inverse": tr.inverse_transform(X - back),
            "locs": tr.inverse_transform(X[[2, 0]] - back,
                                         locs=np.array([2, 0]))}
        return out

    size("pre/steps", 30)(steps)

    def fixed(N):
        ref = gen(4, tag=34)
        one, two = P.ShiftTransformer(tile(ref, N)), P.ScaleTransformer(
            tile(np.array([2.0, 0.5, 3.0, 1.5]), N))
        out = {}
        for i, tr in enumerate((one, two)):
            tr.fit(tile(Q, N))
            for k, v in outputs(tr, N).items():
                out[f"{k} {i}"] = v
            for k, v in outputs(reload(tr), N).items():
                out[f"{k} {i} loaded"] = v
        return out

    size("pre/fixed", 60, (1000, 5000))(fixed)


def save(obj):
    f = CURRENT[0]("size.h5")
    if os.path.exists(f):
        os.remove(f)
    obj.save(f)
    return f


# Bases -----------------------------------------------------------------------
def register_bases(tier):
    n, k, r = 4, 6, 3
    Q = gen(n, k, tag=41) * 0.4 ** np.arange(n)[:, None]
    X = gen(n, 5, tag=43)
    W = 0.5 + np.arange(1, n + 1) / 3
    crits = {"num": dict(num_vectors=r), "threshold": dict(
        svdval_threshold=0.1), "cumulative": dict(cumulative_energy=0.98),
        "residual": dict(residual_energy=0.02),
        "projection": dict(projection_error=0.15)}

    def results(b, N, f=1.0):
        Y = tile(X, N)
        V = np.asarray(b.entries)
        flip = np.sign(V[:1])
        c = b.compress(Y)
        return {"project": rows(b.project(Y), N),
                "vectors": rows(V * flip, N) * f,
                "compress": c * flip.T / f,
                "decompress": rows(b.decompress(flip.T * gen(
                    V.shape[1], 3, tag=44)), N) * f,
                "error": 1 + b.projection_error(Y), "r": V.shape[1]}

    for solver in ("dense", "method-of-snapshots"):
        for nm, crit in crits.items():
            def tall(N, solver=solver, crit=crit):
                b = B.PODBasis(svdsolver=solver, **crit)
                b.fit(tile(Q, N))
                out = results(b, N, np.sqrt(N))
                out["svdvals"] = b.svdvals[:n]
                out["right"] = np.abs(b.rightvecs[:, :r])
                b.set_dimension(num_vectors=2)
                out["two"] = rows(b.project(tile(X, N)), N)
                return out

            def long(N, solver=solver, crit=crit):
                b = B.PODBasis(svdsolver=solver, **crit)
                b.fit(np.tile(Q, (1, N)))
                out = results(b, 1)
                out["svdvals"] = b.svdvals[:n]
                out["energy"] = [b.cumulative_energy, b.residual_energy]
                return out

            size(f"basis/tall/{solver}/{nm}", 40, (300,), tol=1e-7)(tall)
            size(f"basis/long/{solver}/{nm}", 40, (300,), tol=1e-7)(long)

        for kind in ("vector", "matrix"):
            def weighted(N, solver=solver, kind=kind):
                w = tile(W, N)
                b = B.PODBasis(num_vectors=r, svdsolver=solver,
                               weights=np.diag(w) if kind == "matrix" else w)
                b.fit(tile(Q, N))
                return results(b, N, np.sqrt(N)) | {"svdvals": b.svdvals[:n]}

            size(f"basis/weights/{solver}/{kind}", 20, (
                40, 200) if kind == "vector" else (26,), tol=1e-7)(weighted)

    def randomized(N):
        b = B.PODBasis(num_vectors=r, max_vectors=4, svdsolver="randomized",
                       random_state=0, n_oversamples=10)
        b.fit(tile(Q, N))
        return results(b, N, np.sqrt(N))

    size("basis/randomized", 30, (300,), tol=1e-6)(randomized)

    def linear(N):
        V = np.linalg.qr(gen(n, r, tag=45))[0]
        b = B.LinearBasis(tile(V, N) / np.sqrt(N))
        w = B.LinearBasis(tile(V / np.sqrt(W)[:, None], N) / np.sqrt(N),
                          weights=tile(W, N))
        out = results(b, N, np.sqrt(N))
        for x, nm in ((w, "weighted"), (reload(b), "loaded")):
            out |= {f"{key} {nm}": v for key, v in results(
                x, N, np.sqrt(N)).items()}
        return out

    size("basis/linear", 60, (1000, 5000))(linear)

    def variables(N):
        b = B.BasisMulti([B.PODBasis(num_vectors=r) for _ in range(N)],
                         [n] * N)
        b.fit(tile(Q, N))
        out = {}
        for nm, x in (("", b), ("loaded", B.BasisMulti.load(
                save(b), [B.PODBasis] * N))):
            Y = tile(X, N)
            c = x.compress(Y)
            out[f"compress {nm}"] = rows(c, N)
            out[f"project {nm}"] = rows(x.project(Y), N)
            out[f"decompress {nm}"] = rows(x.decompress(c), N)
            V = Y + np.repeat(np.arange(N), n)[:, None]
            C = c + np.repeat(np.arange(N), r)[:, None]
            for lab, get in (("get", lambda i, A: x.get_var(i, A)),
                             ("name", lambda i, A: x.get_var(
                                 x.variable_names[i], A)),
                             ("split", lambda i, A: x.split(A)[i])):
                out[f"{lab} {nm}"] = same_parts([
                    get(i, V) - i for i in range(N)])
                out[f"{lab} reduced {nm}"] = same_parts([
                    get(i, C) - i for i in range(N)])
        d = B.BasisMulti([B.PODBasis(num_vectors=r) for _ in range(N)])
        d.fit(turned(Q, N))
        for nm, x in (("", d), ("loaded", B.BasisMulti.load(
                save(d), [B.PODBasis] * N))):
            Y = turned(X, N)
            out[f"turned {nm}"] = unturned(x.project(Y), N)
            out[f"turned decompress {nm}"] = unturned(
                x.decompress(d.compress(Y)), N)
        return out

    size("basis/variables", 14, (64, 130))(variables)

    def large(N):
        # every reduced dimension, against the tail of the singular values
        A = gen(N + 4, N + 6, tag=46)
        s = la.svdvals(A)
        b = B.PODBasis(num_vectors=N)
        b.fit(A)
        V = b.entries
        out = {"orthonormal": 1 + la.norm(V.T @ V - np.eye(N)) / N,
               "error": 1 + b.projection_error(A, relative=False)
               - np.sqrt(np.sum(s[N:] ** 2)),
               "svdvals": 1 + la.norm(b.svdvals * s[0] - s) / s[0] if (
                   b.svdvals[0] == 1) else 1 + la.norm(b.svdvals - s)}
        e = np.sum(s[:N] ** 2) / np.sum(s ** 2)
        b.set_dimension(cumulative_energy=e * (1 - 1e-9))
        out["r"] = b.reduced_state_dimension - N
        return out

    size("basis/large", 60, (150,), tol=1e-8)(large)


# Time derivatives ------------------------------------------------------------
def register_ddt(tier):
    dt = 0.125
    poly = gen(3, 4, tag=51)

    def at(t):
        return sum(poly[:, [j]] * t[None] ** j for j in range(4))

    def wild(k):
        return np.cos(np.outer([1.0, 2.5, 0.3], np.arange(k)) ** 1.5)

    def windows(z, run, k, scheme):
        """The largest difference from the results for windows of the data."""
        edge = 3 if scheme[:3] == "ord" else 0
        worst = 0.0
        for a in [*range(0, k - 19, 10), k - 19]:
            w = run(a, a + 19)
            i, j = edge * (a > 0), w.shape[1] - edge * (a + 19 < k)
            d = z[:, a + i:a + j] - w[:, i:j]
            worst = max(worst, np.max(np.abs(d)) if d.shape[1] == j - i
                        else np.inf)
        return worst

    schemes = [a + str(p) for a in ("fwd", "bwd") for p in range(1, 7)] + [
        "ctr2", "ctr4", "ctr6", "ord2", "ord4", "ord6"]
    for scheme in schemes:
        def longer(N, scheme=scheme):
            # the inner values do not depend on what follows
            k = 19 + N
            t = np.arange(k) * dt
            Q, U = wild(k), wild(k)[:2]
            est = D.UniformFiniteDifferencer(t, scheme)
            q, z, u = est.estimate(Q, U)
            full = getattr(D, scheme)(Q, dt, U)
            return {"states": q[:, :10], "ddts": z[:, :10],
                    "inputs": u[:, :10], "lost": k - q.shape[1],
                    "states f": full[0][:, :10], "ddts f": full[1][:, :10],
                    "windows": 1 + windows(
                        z, lambda a, b: getattr(D, scheme)(
                            Q[:, a:b], dt)[1], k, scheme),
                    "window states": 1 + windows(
                        q, lambda a, b: getattr(D, scheme)(
                            Q[:, a:b], dt)[0], k, scheme)}

        def taller(N, scheme=scheme):
            Q = wild(20)
            q, z = getattr(D, scheme)(tile(Q, N), dt)
            return {"states": rows(q, N), "ddts": rows(z, N)}

        size(f"ddt/longer/{scheme}", 60, (1000, 5000))(longer)
        size(f"ddt/taller/{scheme}", 40, (2000,))(taller)

    for order in (2, 4, 6):
        def ends(N, order=order):
            k = 19 + N
            Q = wild(k)
            z = D.ddt_uniform(Q, dt, order)
            w = D.ddt_uniform(Q[:, ::-1], dt, order)
            return {"start": z[:, :10], "end": -w[:, ::-1][:, :10] + 0,
                    "all": 1 + la.norm(z[:, 4:-4] - D.ddt_uniform(
                        Q, dt, order)[:, 4:-4])}

        size(f"ddt/ends/{order}", 60, (1000,))(ends)

    def nonuniform(N):
        t = np.cumsum(0.05 + 0.1 * np.cos(np.arange(19 + N)) ** 2)
        Q = wild(19 + N)
        return {"start": D.ddt_nonuniform(Q, t)[:, :12],
                "tall": rows(D.ddt_nonuniform(tile(Q, N), t), N)[:, :12],
                "class": D.NonuniformFiniteDifferencer(t).estimate(
                    Q)[1][:, :12],
                "windows": 1 + windows(
                    D.ddt_nonuniform(Q, t), lambda a, b: D.ddt_nonuniform(
                        Q[:, a:b], t[a:b]), 19 + N, "ord2")}

    size("ddt/nonuniform", 60, (1000, 5000))(nonuniform)

    for nm in ("cubic", "akima", "pchip"):
        def interpolated(N, nm=nm):
            t = np.cumsum(0.05 + 0.1 * np.cos(np.arange(19 + N)) ** 2)
            # cubic: a polynomial; the others are local
            Q = at(t) if nm == "cubic" else wild(19 + N)
            q, z = D.InterpDerivativeEstimator(t, nm).estimate(
                tile(Q, N))
            new = np.linspace(t[0], t[12], 9)
            x, y = D.InterpDerivativeEstimator(
                t, nm, new_time_domain=new).estimate(tile(Q, N))
            exact = rows(z, N)
            if nm == "cubic":
                true = sum(j * poly[:, [j]] * t[None] ** (j - 1)
                           for j in range(1, 4))
            else:   # four points on either side decide
                true = np.array(exact)
                for a in range(0, t.size - 18, 4):
                    i = 0 if a == 0 else 4
                    j = 19 if a + 19 == t.size else 15
                    true[:, a + i:a + j] = D.InterpDerivativeEstimator(
                        t[a:a + 19], nm).estimate(
                            Q[:, a:a + 19])[1][:, i:j]
            return {"states": rows(q, N)[:, :14], "ddts": rows(z, N)[:, :14],
                    "new": rows(x, N), "new ddts": rows(y, N),
                    "all": 1 + la.norm(exact - true) / la.norm(true)}

        size(f"ddt/interp/{nm}", 40, (200,), tol=1e-7)(interpolated)


# Operators -------------------------------------------------------------------
def embed(name, E, r, m, R_, m_):
    """Entries of the operator with more states and inputs that do not
    matter."""
    if name in ops.DEGREE:
        small = ops.multi_indices(r, ops.DEGREE[name])
        large = ops.multi_indices(R_, ops.DEGREE[name])
    elif name == "InputOperator":
        small, large = range(m), range(m_)
    else:
        small = [(i, j) for i in range(m) for j in range(r)]
        large = [(i, j) for i in range(m_) for j in range(R_)]
    where = {idx: j for j, idx in enumerate(large)}
    F = np.zeros((R_, len(where)))
    cols = [where[idx] for idx in small]
    F[:r, cols] = E
    return F, cols


def register_operators(tier):
    for name in ops.NONPAR:
        r, m = 2, 2
        E = ops.entries2d(ops.entries_of(name, r, m, 3))
        top = {"QuarticOperator": 8, "CubicOperator": 12,
               "QuadraticOperator": 30}.get(name, 40)

        def larger(N, name=name, E=E):
            R_, m_ = r + N - 1, m + N - 1
            F, cols = embed(name, E, r, m, R_, m_)
            op = ops.cls(name)(F[:, 0] if name == "ConstantOperator" else F)
            Q, U = gen(r, 5, tag=5), gen(m, 5, tag=6)
            Q_ = np.vstack((Q, gen(N - 1, 5, tag=7)))
            U_ = np.vstack((U, gen(N - 1, 5, tag=8)))
            V = np.eye(R_)[:, :r]
            out = {}
            for nm, x in (("", op), ("loaded", reload(op)),
                          ("copy", op.copy())):
                J = [np.broadcast_to(plain(x.jacobian(q, u)), (R_, R_))
                     for q, u in zip(Q_.T, U_.T)]
                out |= {
                    f"apply {nm}": x.apply(Q_, U_)[:r],
                    f"one {nm}": np.ravel(x.apply(Q_[:, 1], U_[:, 1]))[:r],
                    f"zero {nm}": 1 + la.norm(plain(
                        x.apply(Q_, U_))[r:]),
                    f"jacobian {nm}": [A[:r, :r] for A in J],
                    f"jacobian zero {nm}": 1 + sum(
                        la.norm(A[r:]) + la.norm(A[:, r:]) for A in J),
                    f"galerkin {nm}": ops.entries2d(x.galerkin(
                        V).entries)[:, [c for c in range(len(cols))]
                                    if name != "InputOperator" and (
                                        name != "StateInputOperator")
                                    else slice(0, r * m if name[0] == "S"
                                               else m)],
                    f"data {nm}": op.datablock(Q_, U_)[cols]}
            if ops.DEGREE.get(name, 0) > 1:
                full = op.expand_entries(op.entries)
                out["compress"] = op.compress_entries(full)[:r, cols]
                back = ops.cls(name)(full)
                out["full"] = back.apply(Q_, U_)[:r]
            return out

        def batch(N, name=name, E=E):
            op = ops.cls(name)(E[:, 0] if name == "ConstantOperator" else E)
            Q, U = gen(r, 5, tag=5), gen(m, 5, tag=6)
            return {"apply": columns(op.apply(
                np.tile(Q, (1, N)), np.tile(U, (1, N))), N),
                "data": columns(op.datablock(
                    np.tile(Q, (1, N)), np.tile(U, (1, N))), N)}

        size(f"operators/larger/{name}", top, (
            60,) if ops.DEGREE.get(name, 0) < 3 else ())(larger)
        size(f"operators/batch/{name}", 60, (1000, 5000))(batch)

    # Products of large states (one row of entries, checked by formula).
    for name, top, more in (
            ("Quadratic", 40, (126, 127, 128, 129, 180, 181, 182, 254, 255,
                               256, 257)),
            ("Cubic", 20, (39, 40, 57, 58) if tier == "quick" else
             (39, 40, 57, 58, 127, 128, 129)),
            ("Quartic", 10, (16, 27, 28, 32) if tier == "quick" else
             (16, 27, 28, 32, 40))):
        p = {"Quadratic": 2, "Cubic": 3, "Quartic": 4}[name]

        def products(N, name=name, p=p):
            cl = getattr(O, f"{name}Operator")
            q = 1 + gen(N, tag=9) / 5
            w = 1 + gen(N, tag=10) / 5
            out = {"apply": 1.0, "jacobian": 1.0}
            prod = cl.ckron(q)
            if hasattr(cl, "ckron_indices"):
                out["indices"] = 1 + la.norm(
                    np.prod(q[cl.ckron_indices(N)], axis=1) - prod)
            if N ** p <= 70000:     # (w'q)^p in each entry
                full = w
                for _ in range(p - 1):
                    full = np.kron(full, w)
                op = cl(np.tile(full, (N, 1)))
                out["apply"] = 1 + la.norm(op.apply(q) / (w @ q) ** p - 1)
                J = p * (w @ q) ** (p - 1) * w
                out["jacobian"] = 1 + la.norm(op.jacobian(q) - J) / la.norm(J)
            return out

        size(f"operators/products/{name}", top, more)(products)

    for k in "cAHGBN":
        base = {"c": "Constant", "A": "Linear", "H": "Quadratic",
                "G": "Cubic", "B": "Input", "N": "StateInput"}[k]
        r, m = 2, 2
        d = ops.columns(base + "Operator", r, m)
        Es = [gen(r, d, tag=20 + i) for i in range(4)]
        Q, U = gen(r, 4, tag=5), gen(m, 4, tag=6)

        def shaped(E, k=k):
            return E[:, 0] if k == "c" else E

        def affine(N, base=base, Es=Es, d=d):
            # term j: sum of N terms that are alike
            fs, ent = [], []
            for j in range(2):
                for i in range(N):
                    w = 2 * (i + 1) / (N * (N + 1))
                    fs.append(lambda mu, j=j: (1.0, mu)[j])
                    ent.append(shaped(Es[j] * w))
            cl = getattr(O, f"Affine{base}Operator")
            op = cl(fs, entries=ent)
            out = {}
            V = np.linalg.qr(gen(r, 1, tag=7))[0]
            for nm, x in (("", op), ("copy", op.copy()), ("loaded", cl.load(
                    save(op), fs)), ("block", cl(
                        fs, entries=np.hstack([
                            ops.entries2d(e) for e in ent]),
                        fromblock=True))):
                out[f"evaluate {nm}"] = [
                    x.evaluate(mu).entries for mu in (0.5, -2.0)]
                out[f"apply {nm}"] = x.apply(0.75, Q, U)
                out[f"galerkin {nm}"] = x.galerkin(V).evaluate(0.5).entries
            data = op.datablock([0.5, 2.0], [Q, Q], [U, U])
            out["data"] = [rows(x, N) for x in np.split(data, 2)]
            return out

        size(f"affine/{k}", 14, (40, 101))(affine)

        def interpolated(N, base=base, Es=Es):
            mus = np.linspace(-1, 1.5, 3 + N) ** 3 / 3
            ent = [shaped(sum(E * mu ** j for j, E in enumerate(Es)))
                   for mu in mus]
            cl = getattr(O, f"Interp{base}Operator")
            op = cl(mus, ent)
            V = np.linalg.qr(gen(r, 1, tag=7))[0]
            out = {}
            order = np.argsort(np.cos(np.arange(3 + N)))
            for nm, x in (("", op), ("copy", op.copy()),
                          ("loaded", reload(op)), ("block", cl(
                              mus, np.hstack([ops.entries2d(e) for e in ent]),
                              fromblock=True)),
                    ("order", cl(mus[order], [ent[i] for i in order]))):
                out[f"evaluate {nm}"] = [
                    x.evaluate(mu).entries for mu in (-0.2, 0.0, 0.9)]
                out[f"apply {nm}"] = x.apply(0.75, Q, U)
                out[f"galerkin {nm}"] = x.galerkin(V).evaluate(0.5).entries
            return out

        size(f"interp/{k}", 20, (60, 101), tol=1e-8)(interpolated)


# Regressions -----------------------------------------------------------------
def register_solvers(tier):
    k, d, r = 10, 3, 2
    Dm, Z = gen(k, d, tag=1), gen(r, k, tag=2)
    X = gen(r, d, tag=3)
    lam, G = 0.75, gen(d, d, tag=4) + 2 * np.eye(d)
    diag = np.array([0.5, 1.0, 2.0])

    def makers(N, f, copies=1, blocks=1):
        """Solvers with regularizers times f."""
        def big(A):
            return np.kron(np.eye(blocks), A)
        return {
            "plain": lambda: L.PlainSolver(),
            "L2": lambda: L.L2Solver(lam * f),
            "L2D": lambda: L.L2DecoupledSolver(
                np.tile(f * np.array([0.5, 2.0]), copies)),
            "Tik": lambda: L.TikhonovSolver(f * np.tile(diag, blocks)),
            "Tik2": lambda: L.TikhonovSolver(big(f * G)),
            "normal": lambda: L.TikhonovSolver(big(f * G), method="normal"),
            "TikD": lambda: L.TikhonovDecoupledSolver(
                [f * np.tile(diag, blocks), big(f * G)] * copies),
            "TSVD": lambda: L.TruncatedSVDSolver((d - 1) * blocks),
            "total": lambda: L.TotalLeastSquaresSolver(),
        }

    for solver in makers(1, 1.0):
        reg = solver not in ("plain", "TSVD", "total")

        def data(N, solver=solver, reg=reg):
            s = makers(N, np.sqrt(N))[solver]()
            s.fit(np.tile(Dm, (N, 1)), np.tile(Z, (1, N)))
            out = {}
            for nm, x in (("", s), ("loaded", reload(s)),
                          ("copy", s.copy())):
                out[f"solve {nm}"] = x.solve()
                if solver == "total":
                    continue
                out[f"residual {nm}"] = x.residual(X) / N
                out[f"cond {nm}"] = x.cond()
                if reg:
                    out[f"regresidual {nm}"] = x.regresidual(X) / N
                    out[f"regcond {nm}"] = x.regcond()
                    # sigma does not change, precisions grow with the data
                    mean, prec = x.posterior()
                    out[f"mean {nm}"] = mean
                    out[f"precisions {nm}"] = [p / N for p in prec]
            return out

        size(f"lstsq/data/{solver}", 40, (500,), tol=1e-8)(data)
        if solver == "total":
            continue

        def many(N, solver=solver, reg=reg):
            s = makers(N, 1.0, copies=N)[solver]().fit(Dm, tile(Z, N))
            out = {}
            for nm, x in (("", s), ("loaded", reload(s)),
                          ("copy", s.copy())):
                out[f"solve {nm}"] = rows(x.solve(), N)
                out[f"residual {nm}"] = rows(x.residual(tile(X, N)), N)
                if reg:
                    out[f"regresidual {nm}"] = rows(
                        x.regresidual(tile(X, N)), N)
                    mean, prec = x.posterior()
                    out[f"mean {nm}"] = rows(mean, N)
                    out[f"precisions {nm}"] = rows(np.array(list(prec)), N)
                    if solver in ("L2D", "TikD"):
                        out[f"regcond {nm}"] = rows(x.regcond(), N)
            return out

        size(f"lstsq/many/{solver}", 30, (
            300,) if solver in ("plain", "L2", "Tik") else (),
            tol=1e-8)(many)

        def unknowns(N, solver=solver, reg=reg):
            # N regressions side by side
            s = makers(N, 1.0, blocks=N)[solver]()
            s.fit(np.kron(np.eye(N), Dm), np.tile(Z, (1, N)))
            out = {}
            for nm, x in (("", s), ("loaded", reload(s))):
                out[f"solve {nm}"] = columns(x.solve(), N)
                out[f"residual {nm}"] = x.residual(np.tile(X, (1, N))) / N
                out[f"cond {nm}"] = x.cond()
                if reg:
                    out[f"regresidual {nm}"] = x.regresidual(
                        np.tile(X, (1, N))) / N
                    out[f"regcond {nm}"] = x.regcond()
                    mean, prec = x.posterior()
                    out[f"mean {nm}"] = columns(mean, N)
                    out[f"precisions {nm}"] = [
                        same_parts([p[i:i + d, i:i + d] for i in range(
                            0, d * N, d)]) for p in prec]
                    out[f"blocks {nm}"] = 1 + sum(la.norm(
                        p * (1 - np.kron(np.eye(N), np.ones((d, d)))))
                        for p in prec)
            return out

        size(f"lstsq/unknowns/{solver}", 20, (40,), tol=1e-8)(unknowns)


# Models ----------------------------------------------------------------------
NAMES = {"c": "Constant", "A": "Linear", "H": "Quadratic", "G": "Cubic",
         "B": "Input", "N": "StateInput"}


def operator_values(model):
    return [np.asarray(ops.entries2d(op.entries)) for op in model.operators]


def register_models(tier):
    for kind in "CD":
        for form in ("A", "cAH", "ABN", "cAHGBN"):
            hasin = bool(set(form) & set("BN"))
            r, m, k = 2, 2, 60
            Q, Z, U = (gen(x, k, tag=71 + i) for i, x in enumerate(
                (r, r, m)))
            cl = M.DiscreteModel if kind == "D" else M.ContinuousModel

            def data(N, form=form, cl=cl, hasin=hasin, kind=kind,
                     Q=Q, Z=Z, U=U):
                model = cl(form, solver=L.L2Solver(0.1 * np.sqrt(N)))
                model.fit(np.tile(Q, (1, N)), np.tile(Z, (1, N)),
                          np.tile(U, (1, N)) if hasin else None)
                out = {"operators": operator_values(model)}
                lo = reload(model)
                out["loaded"] = operator_values(lo)
                lo.refit()
                out["refit"] = operator_values(lo)
                return out

            size(f"models/data/{kind}/{form}", 30, (200,), tol=1e-8)(data)

            def embedded(N, form=form, cl=cl, hasin=hasin, kind=kind):
                R_, m_ = r + N - 1, m + N - 1
                opers = []
                for key in form:
                    nm = NAMES[key] + "Operator"
                    E = 0.2 * ops.entries2d(ops.entries_of(nm, r, m, 3))
                    F = embed(nm, E, r, m, R_, m_)[0]
                    if key == "A":
                        F[r:, r:] = -0.5 * np.eye(N - 1)
                    opers.append(ops.cls(nm)(F[:, 0] if key == "c" else F))
                model = cl(opers)
                q = np.concatenate((gen(r, tag=74), gen(N - 1, tag=75)))
                u = np.concatenate((gen(m, tag=76), gen(N - 1, tag=77)))
                out = {}
                V = np.eye(R_)[:, :r]
                for nm, x in (("", model), ("loaded", reload(model)), (
                        "copy", model.copy())):
                    if kind == "C":
                        fn = (lambda t: u * np.cos(t)) if hasin else None
                        out[f"rhs {nm}"] = x.rhs(0.3, q, fn)[:r]
                        out[f"jac {nm}"] = x.jacobian(0.3, q, fn)[:r, :r]
                        out[f"predict {nm}"] = x.predict(
                            q, np.linspace(0, 0.5, 6), fn, method="RK45",
                            rtol=1e-9, atol=1e-11)[:r]
                        if not hasin or N < 6:
                            out[f"bdf {nm}"] = x.predict(
                                q, np.linspace(0, 0.5, 6), fn, method="BDF",
                                rtol=1e-9, atol=1e-11)[:r]
                        else:
                            out[f"bdf {nm}"] = out[f"predict {nm}"]
                    else:
                        W = np.outer(u, np.cos(np.arange(9)))
                        fn = u if hasin else None
                        out[f"rhs {nm}"] = x.rhs(q, fn)[:r]
                        out[f"jac {nm}"] = x.jacobian(q, fn)[:r, :r]
                        out[f"predict {nm}"] = x.predict(
                            q, 9, W if hasin else None)[:r]
                    small = x.galerkin(V)
                    out[f"galerkin {nm}"] = [
                        np.zeros(0) if key in "BN" else ops.entries2d(
                            op.entries)
                        for key, op in zip(form, small.operators)]
                return out

            size(f"models/embedded/{kind}/{form}",
                 10 if "G" in form else 24, tol=1e-6)(embedded)

        def parts(N, cl=cl):
            # the known operator in N pieces
            A, H = 0.3 * gen(2, 2, tag=81), 0.2 * gen(2, 3, tag=82)
            w = 2 * np.arange(1, N + 1) / (N * (N + 1))
            model = cl([O.LinearOperator(A * x) for x in w] + ["c", "B"] + [
                O.QuadraticOperator(H * x) for x in w])
            Q, Z, U = (gen(x, 30, tag=83 + i) for i, x in enumerate(
                (2, 2, 1)))
            model.fit(Q, Z, U)
            q, u = gen(2, tag=86), gen(1, tag=87)
            out = {}
            for nm, x in (("", model), ("loaded", reload(model)),
                          ("copy", model.copy())):
                out[f"learned {nm}"] = operator_values(x)[N:N + 2]
                args = (0.1, q, lambda t: u) if cl is M.ContinuousModel else (
                    q, u)
                out[f"rhs {nm}"] = x.rhs(*args)
                out[f"jacobian {nm}"] = x.jacobian(*args)
                x.refit()
                out[f"refit {nm}"] = operator_values(x)[N:N + 2]
                out[f"known {nm}"] = [
                    sum(operator_values(x)[:N]),
                    sum(operator_values(x)[N + 2:])]
            return out

        size(f"models/parts/{kind}", 14, (40, 101), tol=1e-8)(parts)

        word = "Discrete" if kind == "D" else "Continuous"

        def affine(N, word=word):
            # N data sets alike at every parameter value
            mdl = getattr(M, f"Parametric{word}Model")([
                O.ConstantOperator(), O.AffineLinearOperator([lambda mu: 1.0, lambda mu: mu]),
                O.AffineInputOperator([lambda mu: 1.0 + mu]),
                O.QuadraticOperator()],
                solver=L.L2Solver(0.1 * np.sqrt(N)))
            mus = [0.0, 1.0, 2.0]
            Qs, Zs, Us = ([gen(x, 9, tag=91 + 10 * i + j) for j in range(3)]
                          for i, x in enumerate((2, 2, 1)))
            mdl.fit(mus * N, Qs * N, Zs * N, Us * N)
            out = {f"operators {x}": operator_values(mdl.evaluate(x))
                   for x in (0.0, 0.75)}
            mdl.refit()
            out["refit"] = operator_values(mdl.evaluate(0.5))
            return out

        size(f"models/affine/{kind}", 20, (101,), tol=1e-8)(affine)

        def interpolated(N, word=word, kind=kind):
            # cubic in the parameter: exact whatever their number
            mus = np.linspace(-1, 1, 3 + N)
            A = [0.2 * gen(2, 2, tag=101 + j) for j in range(4)]
            C = [0.2 * gen(2, tag=111 + j) for j in range(4)]
            Q = gen(2, 12, tag=121)
            Zs = [sum(a * mu ** j for j, a in enumerate(A)) @ Q + sum(
                x * mu ** j for j, x in enumerate(C))[:, None] for mu in mus]
            mdl = getattr(M, f"Interp{word}Model")("cA")
            mdl.fit(mus, [Q] * len(mus), Zs)
            q = gen(2, tag=122)
            out = {}
            for nm, x in (("", mdl), ("loaded", reload(mdl)),
                          ("copy", mdl.copy())):
                for mu in (-0.7, 0.1):
                    out[f"{mu} {nm}"] = operator_values(x.evaluate(mu))
                    out[f"rhs {mu} {nm}"] = x.rhs(
                        *((0.0, mu, q) if kind == "C" else (mu, q)))
            return out

        size(f"models/interp/{kind}", 20, (60, 101), tol=1e-7)(interpolated)

    def horizon(N):
        model = M.DiscreteModel([O.LinearOperator(0.9 * np.linalg.qr(
            gen(2, 2, tag=131))[0]), O.InputOperator(gen(2, 1, tag=132))])
        q, U = gen(2, tag=133), gen(1, 6 + N, tag=1)
        U = np.cos(np.arange(6 + N))[None]
        return {"predict": model.predict(q, 5 + N, U)[:, :6]}

    size("models/horizon/D", 60, (1000, 10000))(horizon)

    def times(N):
        model = M.ContinuousModel([O.LinearOperator(np.array(
            [[-0.5, 1.0], [-1.0, -0.5]]))])
        t = np.linspace(0, 2, 9)
        t = np.unique(np.concatenate((t, np.linspace(0, 2, N + 1))))
        out = model.predict(gen(2, tag=134), t, method="DOP853",
                            rtol=1e-11, atol=1e-12)
        return {"predict": out[:, np.searchsorted(t, np.linspace(0, 2, 9))]}

    size("models/horizon/C", 60, (1000,), tol=1e-8)(times)


# Reduced-order models --------------------------------------------------------
def register_roms(tier):
    t = np.linspace(0, 1.5, 20)
    Qs = [np.array([(1 + 0.3 * j) * np.exp(-t) * np.sin(3 * x + j)
                    + 0.5 * np.exp(-0.5 * t) * np.cos(2 * t + x)
                    for x in (0.25, 0.5, 0.8, 1.0)]) for j in range(2)]
    W = [gen(1, 20, tag=151 + j) for j in range(2)]
    V = np.linalg.qr(gen(4, 2, tag=155))[0]

    for kind in "CD":
        cl = M.DiscreteModel if kind == "D" else M.ContinuousModel
        for hasin in (False, True):
            form = "AB" if hasin else "A"

            def build(N, f, cl=cl, form=form, cls=opinf.ROM, pod=False,
                      multi=False):
                one = (lambda: B.PODBasis(num_vectors=2)) if pod else (
                    lambda: B.LinearBasis(V))
                return cls(cl(form, solver=L.L2Solver(0.05 * f)),
                           basis=B.BasisMulti([one() for _ in range(N)])
                           if multi else one())

            def lhs_of(Q, kind=kind):
                return D.ddt_uniform(Q, t[1] - t[0])

            def trajectories(N, kind=kind, hasin=hasin, build=build):
                rom = build(N, np.sqrt(N), pod=True)
                Us = W * N if hasin else None
                rom.fit(Qs * N, None if kind == "D" else [
                    lhs_of(Q) for Q in Qs] * N, Us)
                V_ = rom.basis.entries
                out = {"operators": [
                    V_ @ operator_values(rom.model)[0] @ V_.T]}
                q = Qs[0][:, 2]
                if kind == "D":
                    out["predict"] = rom.predict(
                        q, 8, W[0][:, :8] if hasin else None)
                else:
                    out["predict"] = rom.predict(
                        q, t[:8], (lambda s: np.array([np.sin(s)]))
                        if hasin else None, method="RK45", rtol=1e-9,
                        atol=1e-11)
                return out

            size(f"roms/trajectories/{kind}/{hasin}", 24, (150,),
                 tol=1e-6)(trajectories)

            def bayesian(N, kind=kind, hasin=hasin, build=build):
                rom = build(N, np.sqrt(N), cls=R.BayesianROM)
                rom.fit(Qs * N, None if kind == "D" else [
                    lhs_of(Q) for Q in Qs] * N, W * N if hasin else None)
                post = rom.posterior
                return {"means": list(post.means),
                        "covs": [x * N for x in post.covs],
                        "trained": operator_values(
                            rom.model)[0].shape}

            size(f"roms/bayesian/{kind}/{hasin}", 24, (150,), tol=1e-6)(
                bayesian)

            def stacked(N, kind=kind, hasin=hasin, cl=cl, form=form):
                # a taller state; one basis and transformer for all of it
                rom = opinf.ROM(
                    cl(form, solver=L.L2Solver(0.05)),
                    transformer=P.ShiftScaleTransformer(True, "minmax"),
                    basis=B.LinearBasis(tile(V, N) / N))
                tall = [tile(Q, N) for Q in Qs]
                rom.transformer.fit(np.hstack(tall))
                Z = None if kind == "D" else [
                    tile(lhs_of(Q), N) for Q in Qs]
                rom.fit(tall, Z, W if hasin else None)
                A = operator_values(rom.model)[0]
                return {"operator": A, "encode": rom.encode(tall[0]),
                        "decode": rows(rom.decode(gen(2, 4, tag=156)), N)
                        if N == 1 else rows(rom.decode(N * gen(
                            2, 4, tag=156)), N) - rows(rom.decode(
                                N * np.zeros((2, 1))), N) + rows(
                                    rom.decode(np.zeros((2, 1))), N)}

            size(f"roms/tall/{kind}/{hasin}", 40, (1000,), tol=1e-7)(stacked)

            def candidates(N, kind=kind, hasin=hasin, build=build):
                # more candidates, all of them worse
                cands = [1e-3, 1e-1, 10.0] + [
                    1e4 * (1 + i) for i in range(N - 1)]
                order = np.argsort(np.cos(np.arange(len(cands)) + 1.0),
                                   kind="stable")
                cands = [cands[i] for i in order]
                rom = build(1, 1.0)
                select(rom, cands, Qs, W if hasin else None, kind)
                return {"regularizer": rom.model.solver.regularizer,
                        "operators": operator_values(rom.model)}

            size(f"roms/candidates/{kind}/{hasin}", 14, (40,), tol=1e-7)(
                candidates)

            def copies(N, kind=kind, hasin=hasin, build=build):
                rom = build(1, 1.0)
                cands = [x * np.sqrt(N) for x in (1e-3, 1e-1, 10.0)]
                select(rom, cands, Qs * N, W * N if hasin else None, kind)
                return {"regularizer": rom.model.solver.regularizer
                        / np.sqrt(N), "operators": operator_values(
                            rom.model)}

            size(f"roms/copies/{kind}/{hasin}", 12, (30,), tol=1e-6)(copies)

            def tests(N, kind=kind, hasin=hasin, build=build):
                # test cases: stable ones except the last
                rom = build(1, 1.0)
                q = 0.9 * Qs[0][:, 0]
                if kind == "D":
                    cases_ = [T.DiscreteRegTest(
                        q * (1 + 0.01 * i), 10, inputs=np.zeros((1, 10))
                        if hasin else None) for i in range(N)]
                else:
                    cases_ = [T.ContinuousRegTest(
                        q * (1 + 0.01 * i), t, input_function=(
                            lambda x: np.zeros(1)) if hasin else None)
                        for i in range(N)]
                select(rom, [1e-3, 1e-1, 10.0], Qs, W if hasin else None,
                       kind, test_cases=cases_)
                return {"regularizer": rom.model.solver.regularizer}

            size(f"roms/tests/{kind}/{hasin}", 12, (40,))(tests)

    def select(rom, cands, Qs_, Us, kind, **kw):
        if kind == "D":
            rom.fit_regselect_discrete(cands, Qs_, inputs=Us,
                                       gridsearch_only=True, **kw)
        else:
            fn = None if Us is None else [
                lambda s: np.array([np.sin(s)])] * len(Qs_)
            rom.fit_regselect_continuous(
                cands, t, Qs_, [D.ddt_uniform(Q, t[1] - t[0]) for Q in Qs_],
                input_functions=fn, gridsearch_only=True, **kw)


# Lifting, errors -------------------------------------------------------------
def register_other(tier):
    Q, Z = np.abs(gen(3, 5, tag=61)) + 0.1, gen(3, 5, tag=62)
    for orders in ((1, 2), (2, 1, -1), (0.5, 3, 1), (1,)):
        def lifted(N, orders=orders):
            lf = opinf.lift.PolynomialLifter(orders)
            parts = lf.lift(tile(Q, N))
            s = len(orders)
            n = 3 * N
            return {"lift": [rows(parts[i * n:(i + 1) * n], N)
                             for i in range(s)],
                    "ddts": [rows(x, N) for x in np.split(lf.lift_ddts(
                        tile(Q, N), tile(Z, N)), s)],
                    "unlift": rows(lf.unlift(parts), N),
                    "wide": columns(lf.lift(np.tile(Q, (1, N))), N)}

        def more(N, orders=orders):
            lf = opinf.lift.PolynomialLifter(tuple(orders) * N)
            A = lf.lift(Q)
            return {"lift": rows(A, N), "ddts": rows(lf.lift_ddts(Q, Z), N),
                    "unlift": lf.unlift(A)}

        size(f"lift/tall/{orders}", 60, (2000,))(lifted)
        size(f"lift/orders/{orders}", 40)(more)

    def quadratic(N):
        lf = opinf.lift.QuadraticLifter()
        A = lf.lift(tile(Q, N))
        return {"lift": [rows(x, N) for x in np.split(A, 2)],
                "ddts": [rows(x, N) for x in np.split(lf.lift_ddts(
                    tile(Q, N), tile(Z, N)), 2)],
                "unlift": rows(lf.unlift(A), N)}

    size("lift/quadratic", 60, (2000,))(quadratic)

    A, X = gen(3, 6, tag=63), gen(3, 6, tag=64)
    t = np.cumsum(0.1 + np.cos(np.arange(6)) ** 2)
    for p in (1, 2, 3, np.inf):
        def errors(N, p=p):
            f = N ** (1 / p) if p < np.inf else 1.0
            a, e = opinf.post.lp_error(tile(A, N), tile(X, N), p)
            b, g = opinf.post.lp_error(tile(A, N), tile(X, N), p,
                                       normalize=True)
            w = opinf.post.lp_error(np.tile(A, (1, N)), np.tile(X, (1, N)),
                                    p)
            x, y = opinf.post.Lp_error(tile(A, N), tile(X, N), t, p)
            # the trajectory and its reflections, one after the other
            T_, P_, Y_ = [t], [A], [X]
            for i in range(1, N):
                T_.append(2 * T_[-1][-1] - T_[-1][-2::-1])
                P_.append(P_[-1][:, -2::-1])
                Y_.append(Y_[-1][:, -2::-1])
                if P_[-1].shape[1] < 6:
                    P_[-1] = (A if i % 2 == 0 else A[:, ::-1])[:, 1:]
                    Y_[-1] = (X if i % 2 == 0 else X[:, ::-1])[:, 1:]
                    step = np.diff(t) if i % 2 == 0 else np.diff(t)[::-1]
                    T_[-1] = T_[-2][-1] + np.cumsum(step)
            u, v = opinf.post.Lp_error(
                np.hstack(P_), np.hstack(Y_), np.concatenate(T_), p)
            return {"absolute": a / f, "relative": e, "b": b / f, "g": g,
                    "wide": [columns(z, N) for z in w],
                    "Lp": [x / f, y], "long": [u / f, v]}

        size(f"post/{p}", 60, (1000,))(errors)

    def frobenius(N):
        V = np.linalg.qr(gen(3, 2, tag=65))[0]
        a, e = opinf.post.frobenius_error(tile(A, N), tile(X, N))
        b, g = opinf.post.frobenius_error(np.tile(A, (1, N)),
                                          np.tile(X, (1, N)))
        x, y = opinf.post.projection_error(
            tile(A, N), tile(V, N) / np.sqrt(N))
        s = np.sqrt(N)
        return {"tall": [a / s, e], "wide": [b / s, g], "proj": [x / s, y]}

    size("post/frobenius", 60, (1000,))(frobenius)


def cases(tier):
    EXPERIMENTS.clear()
    register_transformers(tier)
    register_bases(tier)
    register_ddt(tier)
    register_operators(tier)
    register_solvers(tier)
    register_models(tier)
    register_roms(tier)
    register_other(tier)
    for name, run, upto, more, tol in EXPERIMENTS:
        top = upto * (3 if tier == "thorough" else 1)
        Ns = list(range(2, top + 1)) + [N for N in more if N > top]
        for i in range(0, len(Ns), CHUNK):
            yield f"{name}/{Ns[i]}-", size_case, (run, Ns[i:i + CHUNK], tol)
