"""C12: Galerkin projection of operators and models equals projecting the
evaluation, for orthonormal, non-orthonormal and separate test bases."""

import itertools

import numpy as np
import scipy.sparse as sparse

import opinf
from mc import ops
from mc.data import gen

BOUNDS = {
    "operators": "7 nonparametric types (dense and sparse), 6 affine and 6 "
    "interpolated types; full dimension n<=3 (thorough 4), every reduced "
    "dimension r<=n, m<=2",
    "bases": "orthonormal; coordinate columns; non-orthonormal; orthonormal "
    "with separate test basis; oblique pair; W = V explicitly; unit columns; "
    "test bases giving a negated, diagonal, triangular, symmetric, permuted, "
    "rotated or nearly-identity Gramian",
    "states": "lattice that determines polynomials of the operator's degree",
    "models": "4 nonparametric/parametric + 2 interpolated classes x every "
    "subset of up to 3 operator kinds, calibrated or not",
}


def bases(n, r):
    V = np.linalg.qr(gen(n, r, tag=400))[0]
    W = np.linalg.qr(gen(n, r, tag=401))[0]
    yield "orth", V, None
    yield "orth=W", V, V.copy()
    yield "coords", np.eye(n)[:, ::-1][:, :r], None
    yield "orth,W", V, W
    X, Y = gen(n, r, tag=402), gen(n, r, tag=403)
    yield "nonorth", X + np.eye(n, r), None
    yield "oblique", X + np.eye(n, r), Y + 2 * np.eye(n, r)
    yield "scaled", 3 * V, None
    # W^T V = I although neither basis is orthonormal
    X = X + np.eye(n, r)
    yield "dual", X, X @ np.linalg.inv(X.T @ X)
    yield "unit columns", X / np.linalg.norm(X, axis=0), None
    # Every kind of Gramian W^T V: triangular, symmetric, permuted, rotated,
    # negated, diagonal, and close to (but not within rounding of) the identity
    Z = gen(n, r, tag=406)
    Z -= V @ (V.T @ Z)
    eye = np.eye(r)
    upper = np.triu(np.ones((r, r)), 1)
    grams = {"negated": -eye, "diagonal": np.diag(np.arange(1.0, r + 1) / 2)}
    if r > 1:
        c, s = np.cos(1), np.sin(1)
        rot = np.eye(r)
        rot[:2, :2] = [[c, -s], [s, c]]
        grams |= {"upper": eye + upper / 2, "lower": eye + upper.T,
                  "symmetric": eye + (upper + upper.T) / (2 * r),
                  "permuted": eye[::-1], "rotated": rot,
                  "nearly": eye + 1e-3 * upper,
                  "nearly lower": eye + 1e-3 * upper.T,
                  "last": np.diag([1.0] * (r - 1) + [2.0])}
    for name, G in grams.items():
        yield name, V, V @ G.T + Z


def proj(V, W, x):
    W = V if W is None else W
    return np.linalg.solve(W.T @ V, W.T @ x)


def points(name, r, m):
    p = ops.DEGREE.get(name, 1)
    pts = ops.lattice(r, max(p, 1)) + [gen(r, tag=410)]
    us = [None]
    if name in ops.HAS_INPUT:
        us = [np.eye(m)[j] for j in range(m)] + [gen(m, tag=411)]
    return itertools.product(pts, us)


def dense(x):
    return x.toarray() if sparse.issparse(x) else np.asarray(x)


def compare(c, name, E, new, V, W, r, m, tag):
    c.check(type(new) is ops.cls(name), "type", tag)
    c.same(new.state_dimension, r, "state_dimension", tag)
    if name in ops.HAS_INPUT:
        c.same(new.input_dimension, m, "input_dimension", tag)
    for q, u in points(name, r, m):
        c.op()
        want = proj(V, W, E @ ops.data_vector(name, V @ q, u))
        c.close(new.apply(q, u), want, "projected apply", 1e-9, tag)
        J = proj(V, W, E @ ops.data_gradient(name, V @ q, u) @ V)
        c.close(np.zeros((r, r)) + new.jacobian(q, u), J,
                "projected jacobian", 1e-9, tag)


def operator_case(c, name, n, m):
    raw = ops.entries_of(name, n, m, 70)
    E = ops.entries2d(raw)
    op = ops.cls(name)(raw.copy())
    forms = [("dense", raw)]
    if name in ("LinearOperator", "InputOperator") and (
            E.shape[1] > 1):
        forms += [(f.__name__, f(E)) for f in (
            sparse.csr_array, sparse.csc_array, sparse.csr_matrix,
            sparse.coo_array)]
    for (fname, entries), r in itertools.product(forms, range(1, n + 1)):
        for bname, V, W in bases(n, r):
            with c.sub(f"{fname},{r},{bname}"):
                op = ops.cls(name)(entries.copy())
                V0, W0 = V.copy(), None if W is None else W.copy()
                c.op(f"galerkin {bname}")
                new = op.galerkin(V, W) if W is not None else op.galerkin(V)
                compare(c, name, E, new, V, W, r, m, f"{fname} {bname}")
                c.same(V, V0, "mutated")
                if W is not None:
                    c.same(W, W0, "mutated")
                c.same(dense(op.entries).reshape(E.shape), E, "original")
                c.check(new.entries is not op.entries, "shared")
                c.state(fname, r, bname)
                c.trace(name, fname, n, r, bname)
    # projecting twice
    for r1, r2 in itertools.combinations_with_replacement(
            range(1, n + 1), 2):
        V1 = np.linalg.qr(gen(n, r2, tag=404))[0]
        V2 = np.linalg.qr(gen(r2, r1, tag=405))[0]
        c.op("galerkin twice")
        two = op.galerkin(V1).galerkin(V2)
        one = ops.cls(name)(raw.copy()).galerkin(V1 @ V2)
        c.close(two.entries, one.entries, "composition", 1e-9)
        c.trace(name, "twice", r1, r2)
        c.state("twice", r1, r2)


def parametric_case(c, kind, name, n, m):
    fullname = name + "Operator"
    Es = [ops.entries_of(fullname, n, m, 72 + i) for i in range(3)]
    if kind == "affine":
        theta = (lambda mu: np.array([1.0, mu, mu**2]))
        op = getattr(opinf.operators, f"Affine{name}Operator")(
            theta, 3, [E.copy() for E in Es])
    else:
        mus = [2.0, -1.0, 0.5]
        op = getattr(opinf.operators, f"Interp{name}Operator")(
            mus, [E.copy() for E in Es])
    for r in range(1, n + 1):
        for bname, V, W in bases(n, r):
            with c.sub(f"{r},{bname}"):
                c.op("galerkin")
                new = op.galerkin(V, W)
                c.check(type(new) is type(op), "type")
                for mu in (2.0, -1.0, 0.5, 0.9):
                    E = ops.entries2d(op.evaluate(mu).entries)
                    compare(c, fullname, E, new.evaluate(mu), V, W, r, m,
                            f"{bname} {mu}")
                for E, A in zip(Es, op.entries):
                    c.same(ops.entries2d(A), ops.entries2d(E), "original")
                if kind != "affine":
                    c.same(list(new.training_parameters), mus, "params")
                c.state(r, bname)
                c.trace(kind, name, n, r, bname)


KINDS = {
    "c": "Constant", "A": "Linear", "H": "Quadratic", "G": "Cubic",
    "B": "Input", "N": "StateInput",
}


def build_op(flavor, k, n, m, calibrated, tag):
    name = KINDS[k]
    if flavor == "plain":
        Op = ops.cls(name + "Operator")
        return Op(ops.entries_of(name + "Operator", n, m, tag)
                  if calibrated else None)
    Es = [ops.entries_of(name + "Operator", n, m, tag + i)
          for i in range(3)]
    if flavor == "affine":
        return getattr(opinf.operators, f"Affine{name}Operator")(
            (lambda mu: np.array([1.0, mu, mu**2])), 3,
            Es if calibrated else None)
    if calibrated:
        return getattr(opinf.operators, f"Interp{name}Operator")(
            [2.0, -1.0, 0.5], Es)
    return getattr(opinf.operators, f"Interp{name}Operator")()


def model_case(c, Mname, flavors, subset, n, m):
    Model = getattr(opinf.models, Mname)
    cont = "Continuous" in Mname
    param = not (Mname in ("DiscreteModel", "ContinuousModel"))
    oplist = [build_op(flavors[i % len(flavors)], k, n, m, True, 80 + 5 * i)
              for i, k in enumerate(subset)]
    model = Model(oplist)
    hasin = any(k in "BN" for k in subset)
    before = [np.array(op.entries) for op in oplist]

    def rhs(mdl, mu, q, u):
        args = [q, u] if not cont else [0.3, q, (lambda t: u)]
        if not hasin:
            args.pop()
        if param:
            args.insert(1 if cont else 0, mu)
        return mdl.rhs(*args), mdl.jacobian(*args)

    for r in range(1, n + 1):
        for bname, V, W in bases(n, r):
            with c.sub(f"{r},{bname}"):
                c.op("model.galerkin")
                new = model.galerkin(V, W)
                c.check(type(new) is Model, "type")
                c.same(new.state_dimension, r, "state_dimension")
                if hasin:
                    c.same(new.input_dimension, m, "input_dimension")
                c.same([type(o) for o in new.operators],
                       [type(o) for o in oplist], "operator types")
                for mu in ((2.0, 0.9) if param else (None,)):
                    for q in (gen(r, tag=412), np.ones(r), np.zeros(r)):
                        u = gen(m, tag=413)
                        f, J = rhs(model, mu, V @ q, u)
                        g, K = rhs(new, mu, q, u)
                        c.op("rhs")
                        c.close(g, proj(V, W, f), "projected rhs", 1e-9,
                                bname)
                        c.close(K, proj(V, W, J @ V), "projected jacobian",
                                1e-9, bname)
                for A, B in zip(before, model.operators):
                    c.same(np.array(B.entries), A, "original changed")
                c.state(r, bname)
                c.trace(Mname, subset, r, bname)
    # uncalibrated operators stay uncalibrated and are not shared
    mixed = [build_op(flavors[i % len(flavors)], k, n, m, i == 0, 80)
             for i, k in enumerate(subset)]
    if len(mixed) > 1:
        c.op("galerkin with uncalibrated operators")
        V = np.linalg.qr(gen(n, 2, tag=400))[0]
        model = Model(mixed)
        new = model.galerkin(V)
        c.check(new.operators[0].entries is not None, "calibrated")
        for a, b in zip(new.operators[1:], mixed[1:]):
            c.check(a.entries is None, "uncalibrated")
            c.check(a is not b, "uncalibrated operators shared")
            c.check(type(a) is type(b), "type")
        c.same(new.state_dimension, 2, "state dimension")
        c.same(model.state_dimension, n, "original")


def cases(tier):
    out = []
    quick = tier == "quick"
    for name in ops.NONPAR:
        for n in ((1, 2, 3) if quick else (1, 2, 3, 4)):
            for m in ((1, 2) if name in ops.HAS_INPUT else (1,)):
                out.append((f"{name} n={n} m={m}", operator_case,
                            (name, n, m)))
    for kind in ("affine", "interp"):
        for name in KINDS.values():
            for n in ((2, 3) if quick else (1, 2, 3, 4)):
                out.append((f"{kind} {name} n={n}", parametric_case,
                            (kind, name, n, 2)))
    subsets = [s for L in (1, 2, 3) for s in itertools.combinations(
        KINDS, L)]
    if quick:
        subsets = [s for s in subsets if len(s) < 3 or s in (
            tuple("cAB"), tuple("AHN"), tuple("cHG"))]
    for M, flavors in (
        ("DiscreteModel", ("plain",)), ("ContinuousModel", ("plain",)),
        ("ParametricDiscreteModel", ("affine", "plain")),
        ("ParametricContinuousModel", ("affine", "interp", "plain")),
        ("InterpDiscreteModel", ("interp",)),
        ("InterpContinuousModel", ("interp",)),
    ):
        for s in subsets:
            out.append((f"{M} {''.join(s)}", model_case,
                        (M, flavors, s, 3, 2)))
    return out
