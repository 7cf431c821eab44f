"""C33: different ways of saying the same thing give the same result."""

import itertools
import warnings

import numpy as np
import scipy.interpolate as interp
import scipy.linalg as la
import scipy.sparse as sparse

import opinf
from checks.c31 import differ
from mc import ops, pre
from mc.data import gen, spd
from mc.objs import Raised, attempt

B = opinf.basis
D = opinf.ddt
L = opinf.lstsq
M = opinf.models
O = opinf.operators
P = opinf.pre
R = opinf.roms
T = opinf.utils

BOUNDS = {
    "spellings": "all combinations of the spellings of every option of an "
    "experiment (beyond 96 combinations, thorough 3000: all pairs of "
    "options)",
    "operations": "operators, models, solvers, transformers, bases, "
    "derivative estimators, lifting maps, error measures, reduced-order "
    "models, regularization selection, posteriors",
    "oracle": "the first spelling of every option",
}

EXPERIMENTS = []


def spell(name, tol=1e-11, when=None, **options):
    """run(**spelling) -> {name: result}."""
    def add(run):
        EXPERIMENTS.append((name, run, options, tol, when))
        return run
    return add


def spellings(options, tier):
    names = list(options)
    total = int(np.prod([len(options[n]) for n in names]))
    if total <= (3000 if tier == "thorough" else 96):
        for combo in itertools.product(*options.values()):
            yield dict(zip(names, combo))
        return
    first = {n: options[n][0] for n in names}
    seen = set()
    for n1, n2 in itertools.combinations(names, 2):
        for v1, v2 in itertools.product(options[n1], options[n2]):
            one = dict(first, **{n1: v1, n2: v2})
            key = tuple(map(str, one.values()))
            if key not in seen:
                seen.add(key)
                yield one


def plain(v):
    if isinstance(v, Raised):
        return v
    if isinstance(v, dict):
        return [plain(v[k]) for k in sorted(v)]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return np.asarray(v.toarray() if sparse.issparse(v) else v, dtype=float)


def spelling_case(c, run, options, tol, when):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = None
        for one in spellings(options, c.tier):
            if when is not None and not when(**one):
                continue
            with c.sub(";".join(f"{k}={v}" for k, v in one.items())):
                np.random.seed(11)
                out = {k: plain(v) for k, v in run(**one).items()}
                c.op(str(one))
                if base is None:
                    base = out
                    for nm, v in base.items():
                        if isinstance(v, Raised):
                            c.fail("harness", f"{nm}: {v!r}")
                c.check(set(out) == set(base), "results", f"{set(out)}")
                for nm in base:
                    msg = differ(base[nm], out[nm], tol)
                    c.check(msg is None, nm.replace(" ", "-"), f"{msg}")
                    c.state(str(one), nm)
    c.trace(f"{len(base or {})} results")


# Operators -------------------------------------------------------------------
def entries2d(name, r, m):
    return ops.entries2d(ops.entries_of(name, r, m, 3))


def respelled(name, E, form):
    """The 2-D entries E in another form; None: not possible."""
    r, d = E.shape
    p = ops.DEGREE.get(name)
    if form == "2-D":
        return E.copy()
    if form == "fortran":
        return np.asfortranarray(E)
    if form == "1-D":
        return E.ravel() if d == 1 else None
    if form == "scalar":
        return float(E[0, 0]) if E.shape == (1, 1) else None
    if form == "numpy scalar":
        return E[0, 0] if E.shape == (1, 1) else None
    if form == "row":
        return E.T.copy() if name == "ConstantOperator" else None
    if form in ("full", "tensor", "symmetric"):
        if p is None or p < 2:
            return None
        cl = ops.cls(name)
        F = cl.expand_entries(E)
        if form == "full":
            # not symmetric: only the sums count
            F = np.zeros((r, r**p))
            for j, idx in enumerate(ops.multi_indices(r, p)):
                F[:, int(np.dot(idx, r ** np.arange(p)[::-1]))] = E[:, j]
        return F if form != "tensor" else F.reshape((r,) * (p + 1))
    if form in ("csr", "coo", "csc", "matrix"):
        if name not in ("ConstantOperator", "LinearOperator"):
            return None
        kind = {"csr": sparse.csr_array, "coo": sparse.coo_array,
                "csc": sparse.csc_array, "matrix": sparse.csr_matrix}[form]
        return kind(E)
    raise KeyError(form)


FORMS = ("2-D", "fortran", "1-D", "scalar", "numpy scalar", "row", "full",
         "tensor", "symmetric", "csr", "coo", "csc", "matrix")


def build_operator(name, entries, how):
    if how in ("polynomial", "polynomial set"):
        op = O.PolynomialOperator(ops.DEGREE[name])
        op.set_entries(entries)
        return op
    cl = ops.cls(name)
    if how == "constructor":
        return cl(entries)
    op = cl()
    if how == "set_entries":
        op.set_entries(entries)
    elif how == "attribute":
        op.entries = entries
    elif how == "replaced":
        op.set_entries(2 * entries)
        op.set_entries(entries)
    elif how == "deleted":
        op.set_entries(3 * entries)
        del op.entries
        op.entries = entries
    elif how == "copy":
        op.set_entries(entries)
        op = op.copy()
    elif how == "deprecated" and hasattr(op, "evaluate"):
        op.set_entries(entries)
    return op


def register_operators(tier):
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2)]
    for name in ops.NONPAR:
        for r, m in sizes:
            if name not in ops.HAS_INPUT and m > 1 and r < 3:
                continue
            if name == "InputOperator" and (r, m) == (1, 2):
                continue
            E = entries2d(name, r, m)
            hows = ["constructor", "set_entries", "attribute", "replaced",
                    "deleted", "copy"]
            forms = [f for f in FORMS if respelled(name, E, f) is not None]
            if name in ops.DEGREE:
                hows.append("polynomial")
            kinds = ["single", "columns"] + (["scalar"] if r == 1 else [])

            def run(how, form, state, name=name, E=E, r=r, m=m):
                entries = respelled(name, E, form)
                op = build_operator(name, entries, how)
                Q, U = gen(r, 4, tag=5), gen(m, 4, tag=6)
                if state == "columns":
                    out = np.column_stack([
                        np.ravel(op.apply(q, u)) for q, u in zip(Q.T, U.T)])
                elif state == "scalar":
                    out = np.array([[np.ravel(op.apply(
                        q if how == "polynomial" else q[0],
                        u[0] if m == 1 else u))[0]
                        for q, u in zip(Q.T, U.T)]])
                else:
                    out = op.apply(Q, U)
                res = {"apply": out, "entries": ops.entries2d(
                    op.entries), "dimension": op.state_dimension}
                J = [op.jacobian(q, u) for q, u in zip(Q.T, U.T)]
                res["jacobian"] = [
                    np.broadcast_to(plain(x), (r, r)) for x in J]
                V = np.linalg.qr(gen(r, max(1, r - 1), tag=8))[0]
                if how != "polynomial":
                    res["galerkin"] = ops.entries2d(op.galerkin(V).entries)
                    res["galerkin 2"] = ops.entries2d(
                        op.galerkin(V, V).entries)
                else:
                    small = ops.cls(name)(op.entries).galerkin(V)
                    res["galerkin"] = ops.entries2d(small.entries)
                    res["galerkin 2"] = res["galerkin"]
                res["data"] = op.datablock(Q, U)
                if r == 1 and how != "polynomial":
                    res["data 1"] = op.datablock(Q[0], U)
                else:
                    res["data 1"] = res["data"]
                return res

            def when(how, form, state):
                return how != "polynomial" or form in ("2-D", "fortran")

            spell(f"operators/{name}/{r}/{m}", how=hows, form=forms,
                  state=kinds, when=when, tol=1e-10)(run)


# Parametric operators --------------------------------------------------------
def affine_thetas(form, s):
    fs = [lambda mu: 1.0, lambda mu: np.ravel(mu)[0],
          lambda mu: np.ravel(mu)[0] ** 2][:s]
    if form == "functions":
        return fs, {}
    if form == "tuple":
        return tuple(fs), {}
    if form == "functions, nterms":
        return fs, dict(nterms=s)
    if form == "array-valued":
        return (lambda mu: np.array([f(mu) for f in fs])), dict(nterms=s)
    if form == "list-valued":
        return (lambda mu: [f(mu) for f in fs]), dict(nterms=s)
    if form == "scalar-valued":
        return fs[0], dict(nterms=1)


def register_parametric(tier):
    for k, (r, m), s in itertools.product("cAHGBN", [(2, 2), (1, 1), (2, 1)],
                                          (1, 2, 3)):
        base = {"c": "Constant", "A": "Linear", "H": "Quadratic",
                "G": "Cubic", "B": "Input", "N": "StateInput"}[k]
        d = ops.columns(base + "Operator", r, m)
        Es = [gen(r, d, tag=20 + i) for i in range(3)]

        def forms_of(entries, Es, k=k, d=d):
            if entries == "block":
                return np.hstack(Es), dict(fromblock=True)
            if entries == "array":
                return np.array([E[:, 0] if k == "c" else E
                                 for E in Es]), {}
            return [E[:, 0] if k == "c" else E for E in Es], {}

        thetas = ["functions", "tuple", "functions, nterms", "array-valued",
                  "list-valued"] + (["scalar-valued"] if s == 1 else [])

        def affine(coeffs, entries, how, mu, base=base, Es=Es, s=s, r=r,
                   m=m, forms_of=forms_of):
            cl = getattr(O, f"Affine{base}Operator")
            th, kw = affine_thetas(coeffs, s)
            E, kw2 = forms_of(entries, Es[:s])
            if how == "constructor":
                op = cl(th, entries=E, **kw, **kw2)
            else:
                op = cl(th, **kw)
                op.set_entries(E, **kw2)
                if how == "copy":
                    op = op.copy()
            values = [0.5, 1.5, -0.25]
            form = {"scalar": lambda x: x, "array": lambda x: np.array([x]),
                    "list": lambda x: [x]}[mu]
            Q, U = gen(r, 4, tag=5), gen(m, 4, tag=6)
            return {"evaluate": [ops.entries2d(op.evaluate(form(x)).entries)
                                 for x in values],
                    "apply": [op.apply(form(x), Q, U) for x in values],
                    "data": op.datablock([form(x) for x in values],
                                         [Q] * 3, [U] * 3)}

        spell(f"affine/{k}/{r}/{m}/{s}", coeffs=thetas,
              entries=["list", "array", "block"],
              how=["constructor", "set_entries", "copy"],
              mu=["scalar", "array", "list"])(affine)

        if s > 1:
            continue

        def interpolated(training, entries, how, cl, value, base=base,
                         Es=Es, r=r, m=m, forms_of=forms_of, d=d, k=k):
            prefix = "Interpolated" if how == "deprecated" else "Interp"
            klass = getattr(O, f"{prefix}{base}Operator")
            mus = [0.0, 1.0, 2.0, 3.5]
            Es4 = Es + [gen(r, d, tag=29)]
            mu = {"list": mus, "tuple": tuple(mus), "array": np.array(mus),
                  "column": np.array(mus)[:, None],
                  "lists": [[x] for x in mus]}[training]
            E, kw = forms_of(entries, Es4)
            IC = {"None": None, "CubicSpline": interp.CubicSpline}[cl]
            if how in ("constructor", "deprecated", "copy"):
                op = klass(mu, E, InterpolatorClass=IC, **kw)
                if how == "copy":
                    op = op.copy()
            elif how == "operators":
                op = klass._from_operators(
                    mu, [ops.cls(base + "Operator")(
                        A[:, 0] if k == "c" else A) for A in Es4], IC)
            else:
                op = klass(InterpolatorClass=IC)
                if how == "attribute":
                    op.training_parameters = mu
                else:
                    op.set_training_parameters(mu)
                op.set_entries(E, **kw)
                if how == "interpolator":
                    op.set_interpolator(interp.CubicSpline)
            form = {"scalar": lambda x: x, "array": lambda x: np.array([x]),
                    "list": lambda x: [x]}[value]
            Q, U = gen(r, 4, tag=5), gen(m, 4, tag=6)
            return {"evaluate": [ops.entries2d(op.evaluate(form(x)).entries)
                                 for x in (0.0, 0.5, 2.75)],
                    "apply": [op.apply(form(x), Q, U) for x in (0.5, 3.0)],
                    "parameters": op.training_parameters}

        spell(f"interp/{k}/{r}/{m}",
              training=["list", "tuple", "array", "column", "lists"],
              entries=["list", "array", "block"],
              how=["constructor", "deprecated", "copy", "operators",
                   "set_entries", "attribute", "interpolator"],
              cl=["None", "CubicSpline"],
              value=["scalar", "array", "list"])(interpolated)


# Solvers ---------------------------------------------------------------------
def register_solvers(tier):
    for k, d, r in ((12, 3, 2), (9, 1, 1), (7, 4, 1), (12, 3, 1)):
        Dm, Z = gen(k, d, tag=1), gen(r, k, tag=2)

        def results(s, r=r, d=d):
            out = {"solve": s.solve()}
            X = gen(r, d, tag=3)
            out["residual"] = s.residual(X)
            out["cond"] = s.cond()
            return out

        def unregularized(solver, lhs, Dm=Dm, Z=Z, d=d, r=r, k=k,
                          results=results):
            s = {"plain": lambda: L.PlainSolver(),
                 "gelsd": lambda: L.PlainSolver(lapack_driver="gelsd"),
                 "gelss": lambda: L.PlainSolver(lapack_driver="gelss"),
                 "gelsy": lambda: L.PlainSolver(lapack_driver="gelsy"),
                 "L2": lambda: L.L2Solver(0.0),
                 "L2 int": lambda: L.L2Solver(0),
                 "L2D": lambda: L.L2DecoupledSolver([0.0] * r),
                 "Tik": lambda: L.TikhonovSolver(np.zeros(d)),
                 "Tik2": lambda: L.TikhonovSolver(np.zeros((d, d))),
                 "Tik normal": lambda: L.TikhonovSolver(
                     np.zeros(d), method="normal"),
                 "TikD": lambda: L.TikhonovDecoupledSolver(
                     [np.zeros(d)] * r),
                 "TSVD": lambda: L.TruncatedSVDSolver(d),
                 "TSVD None": lambda: L.TruncatedSVDSolver(None),
                 "TSVD 0": lambda: L.TruncatedSVDSolver(0),
                 }[solver]()
            s.fit(Dm.copy(), Z[0].copy() if lhs == "1-D" else Z.copy())
            out = results(s)
            if lhs == "2-D":
                out["residual 0"] = s.residual(np.zeros((r, d)))
            else:
                out["residual 0"] = s.residual(np.zeros((1, d)))
            return out

        spell(f"lstsq/plain/{k}/{d}/{r}", solver=[
            "plain", "gelsd", "gelss", "gelsy", "L2", "L2 int", "L2D",
            "Tik", "Tik2", "Tik normal", "TikD", "TSVD", "TSVD None",
            "TSVD 0"], lhs=["2-D", "1-D"] if r == 1 else ["2-D"],
            tol=1e-9)(unregularized)

        def one_constant(solver, how, Dm=Dm, Z=Z, d=d, r=r,
                         results=results):
            lam = 0.75
            eye = lam * np.eye(d)
            make, reg = {
                "L2": (L.L2Solver, lam),
                "L2 numpy": (L.L2Solver, np.float64(lam)),
                "L2D": (L.L2DecoupledSolver, np.full(r, lam)),
                "L2D list": (L.L2DecoupledSolver, [lam] * r),
                "Tik": (L.TikhonovSolver, np.full(d, lam)),
                "Tik list": (L.TikhonovSolver, [lam] * d),
                "Tik tuple": (L.TikhonovSolver, (lam,) * d),
                "Tik matrix": (L.TikhonovSolver, eye),
                "Tik rows": (L.TikhonovSolver, eye.tolist()),
                "Tik sparse": (L.TikhonovSolver, sparse.csr_array(eye)),
                "Tik dia": (L.TikhonovSolver, sparse.dia_array(eye)),
                "TikD": (L.TikhonovDecoupledSolver, [np.full(d, lam)] * r),
                "TikD lists": (L.TikhonovDecoupledSolver, [[lam] * d] * r),
                "TikD array": (L.TikhonovDecoupledSolver,
                               np.full((r, d), lam)),
                "TikD matrices": (L.TikhonovDecoupledSolver, [eye] * r),
                "TikD mixed": (L.TikhonovDecoupledSolver, (
                    [eye, np.full(d, lam), sparse.csc_array(eye)] * 2)[:r]),
                "TikD stack": (L.TikhonovDecoupledSolver,
                               np.array([eye] * r)),
            }[solver]
            if how == "constructor":
                s = make(reg).fit(Dm, Z)
            elif how == "before":
                s = make()
                s.regularizer = reg
                s.fit(Dm, Z)
            elif how == "after":
                s = make().fit(Dm, Z)
                s.regularizer = reg
            elif how == "changed":
                s = make(reg).fit(Dm, Z)
                if r > 1 and isinstance(reg, (list, np.ndarray)) and (
                        solver.startswith(("L2D", "TikD"))):
                    s.regularizer = [3 * np.asarray(
                        x.toarray() if sparse.issparse(x) else x)
                        for x in reg]
                s.solve()
                s.regularizer = reg
            elif how == "copy":
                s = make(reg).fit(Dm, Z).copy()
            elif how == "normal":
                s = make(reg, method="normal") if "Tik" in solver else (
                    make(reg, lapack_driver="gesvd"))
                s.fit(Dm, Z)
            elif how.startswith("method"):
                s = make(reg)
                if how == "method after":
                    s.fit(Dm, Z)
                    s.solve()
                if "Tik" in solver:
                    s.method = "normal"
                s.fit(Dm, Z)
            out = results(s)
            X = gen(r, d, tag=3)
            out["regresidual"] = s.regresidual(X)
            rc = np.ravel(s.regcond())
            out["regcond"] = np.broadcast_to(rc, (r,))
            mean, prec = s.posterior()
            out["posterior mean"], out["precisions"] = mean, list(prec)
            return out

        spell(f"lstsq/constant/{k}/{d}/{r}", solver=[
            "L2", "L2 numpy", "L2D", "L2D list", "Tik", "Tik list",
            "Tik tuple", "Tik matrix", "Tik rows", "Tik sparse", "Tik dia",
            "TikD", "TikD lists", "TikD array", "TikD matrices",
            "TikD mixed", "TikD stack"],
            how=["constructor", "before", "after", "changed", "copy",
                 "normal", "method", "method after"],
            when=lambda solver, how, d=d: True,
            tol=1e-9)(one_constant)

        # A matrix with integer entries that is not symmetric.
        Gs = np.triu(1 + np.arange(d * d).reshape((d, d)) % 5)

        def one_matrix(matrix, solver, method, how, Gs=Gs, Dm=Dm, Z=Z, d=d,
                       r=r, results=results):
            G = {"array": lambda: Gs.astype(float),
                 "integers": lambda: Gs.copy(),
                 "list": lambda: Gs.tolist(),
                 "tuple": lambda: tuple(map(tuple, Gs.tolist())),
                 "fortran": lambda: np.asfortranarray(Gs, dtype=float),
                 "csr": lambda: sparse.csr_array(Gs.astype(float)),
                 "csc": lambda: sparse.csc_array(Gs.astype(float)),
                 "coo": lambda: sparse.coo_array(Gs.astype(float)),
                 "lil": lambda: sparse.lil_array(Gs.astype(float)),
                 "spmatrix": lambda: sparse.csc_matrix(Gs.astype(float)),
                 }[matrix]()
            cl, G = {
                "Tik": (L.TikhonovSolver, G),
                "TikD": (L.TikhonovDecoupledSolver, [G] * r),
                "TikD tuple": (L.TikhonovDecoupledSolver, (G,) * r),
                "TikD mixed": (L.TikhonovDecoupledSolver,
                               ([G, Gs.astype(float)] * r)[:r])}[solver]
            if how == "constructor":
                s = cl(G, method=method).fit(Dm, Z)
            elif how == "before":
                s = cl(method=method)
                s.regularizer = G
                s.fit(Dm, Z)
            else:
                s = cl(method=method).fit(Dm, Z)
                s.regularizer = G
            out = results(s)
            X = gen(r, d, tag=3)
            out["regresidual"] = s.regresidual(X)
            out["regcond"] = np.broadcast_to(np.ravel(s.regcond()), (r,))
            mean, prec = s.posterior()
            out["posterior mean"], out["precisions"] = mean, list(prec)
            return out

        spell(f"lstsq/matrix/{k}/{d}/{r}", matrix=[
            "array", "integers", "list", "tuple", "fortran", "csr", "csc",
            "coo", "lil", "spmatrix"],
            solver=["Tik", "TikD", "TikD tuple", "TikD mixed"],
            method=["lstsq", "normal"],
            how=["constructor", "before", "after"], tol=1e-8)(one_matrix)

        def modes(num, how, Dm=Dm, Z=Z, d=d, results=results):
            n = {"d-1": d - 1, "-1": -1}[num]
            if how == "constructor":
                s = L.TruncatedSVDSolver(n).fit(Dm, Z)
            elif how == "before":
                s = L.TruncatedSVDSolver(1)
                s.num_svdmodes = n
                s.fit(Dm, Z)
            elif how == "after":
                s = L.TruncatedSVDSolver(None).fit(Dm, Z)
                s.num_svdmodes = n
            elif how == "after solve":
                s = L.TruncatedSVDSolver(1).fit(Dm, Z)
                s.solve()
                s.num_svdmodes = n
            elif how == "again":
                s = L.TruncatedSVDSolver(n).fit(gen(9, d + 2, tag=4),
                                                gen(1, 9, tag=5))
                s.fit(Dm, Z)
            elif how == "driver":
                s = L.TruncatedSVDSolver(n, lapack_driver="gesvd")
                s.fit(Dm, Z)
            else:
                s = L.TruncatedSVDSolver(n).fit(Dm, Z).copy()
            out = results(s)
            out["modes"] = s.num_svdmodes
            out["condition"] = s.tcond()
            return out

        if d > 2:
            spell(f"lstsq/tsvd/{k}/{d}/{r}", num=["d-1", "-1"], how=[
                "constructor", "before", "after", "after solve", "again",
                "driver", "copy"])(modes)


# Transformers ----------------------------------------------------------------
SCALINGS = (None, "standard", "minmax", "minmaxsym", "maxabs", "maxabssym",
            "maxnorm", "maxnormsym")


def rows_of(tr, X, inplace=False):
    """Rows 2 and 0 of the inverse transformation."""
    if isinstance(tr, P.TransformerMulti) and len(tr.transformers) > 1:
        return tr.inverse_transform(X.copy())[[2, 0]]
    A = X[[2, 0]].copy()
    if inplace:
        tr.inverse_transform(A, inplace=True, locs=np.array([2, 0]))
        return A
    return tr.inverse_transform(A, locs=np.array([2, 0]))


def transformer_results(tr, Q, X, Z, use):
    """Everything a trained transformer does."""
    if use == "columns":
        return {"transform": np.column_stack([
            tr.transform(x.copy()) for x in X.T]),
            "ddts": np.column_stack([
                tr.transform_ddts(z.copy()) for z in Z.T]),
            "inverse": np.column_stack([
                tr.inverse_transform(x.copy()) for x in X.T]),
            "rows": np.column_stack([
                rows_of(tr, x) for x in X.T]),
            "fit_transform": tr.transform(Q.copy())}
    if use == "inplace":
        out = {}
        for nm, fn, A in (("transform", tr.transform, X), (
                "ddts", tr.transform_ddts, Z),
                ("inverse", tr.inverse_transform, X),
                ("fit_transform", tr.transform, Q)):
            A = A.copy()
            fn(A, inplace=True)
            out[nm] = A
        out["rows"] = rows_of(tr, X, inplace=True)
        return out
    return {"transform": tr.transform(X), "ddts": tr.transform_ddts(Z),
            "inverse": tr.inverse_transform(X), "rows": rows_of(tr, X),
            "fit_transform": tr.transform(Q)}


def register_transformers(tier):
    Q = gen(4, 6, tag=31) * np.array([[1.0], [3.0], [0.5], [2.0]]) + 0.75
    X, Z = gen(4, 5, tag=32), gen(4, 5, tag=33)
    for centering, scaling, byrow in itertools.product(
            (False, True), SCALINGS, (False, True)):
        if byrow and scaling in (None, "maxnorm", "maxnormsym"):
            continue
        if not centering and scaling is None:
            continue

        def make(centering=centering, scaling=scaling, byrow=byrow):
            return P.ShiftScaleTransformer(centering, scaling, byrow)

        def run(how, use, centering=centering, scaling=scaling,
                byrow=byrow, make=make):
            tr = make()
            if how == "fit":
                tr.fit(Q.copy())
            elif how == "fit_transform":
                tr.fit_transform(Q.copy())
            elif how == "in place":
                tr.fit_transform(Q.copy(), inplace=True)
            elif how == "verbose":
                tr = P.ShiftScaleTransformer(
                    centering=centering, scaling=scaling, byrow=byrow,
                    verbose=True, name="x")
                tr.fit(Q.copy())
            elif how == "fortran":
                tr.fit(np.asfortranarray(Q))
            elif how == "strided":
                A = np.empty((8, 12))
                A[::2, ::2] = Q
                tr.fit(A[::2, ::2])
            elif how == "again":
                tr.fit(3 * Q[:, :4] - 1)
                tr.fit(Q.copy())
            elif how in ("by hand", "by hand, dimension"):
                other = make().fit(Q.copy())
                if "dimension" in how:
                    tr.state_dimension = 4
                if centering:
                    tr.mean_ = other.mean_
                if scaling:
                    tr.state_dimension = 4
                    tr.scale_, tr.shift_ = other.scale_, other.shift_
                tr.state_dimension = 4
            elif how == "pipeline":
                tr = P.TransformerPipeline([make()])
                tr.fit(Q.copy())
            elif how == "pipeline of two":
                tr = P.TransformerPipeline([P.NullTransformer(), make()])
                tr.fit(Q.copy())
            elif how == "two steps":
                tr = P.TransformerPipeline(
                    [P.ShiftScaleTransformer(True), P.ShiftScaleTransformer(
                        False, scaling, byrow)])
                tr.fit(Q.copy())
            elif how == "multi":
                tr = P.TransformerMulti([make()], [4])
                tr.fit(Q.copy())
            elif how == "multi, no sizes":
                tr = P.TransformerMulti([make()])
                tr.fit(Q.copy())
            elif how == "rows":
                tr = P.TransformerMulti([make() for _ in range(4)],
                                        [1, 1, 1, 1])
                tr.fit(Q.copy())
            elif how == "pieces":
                one = make().fit(Q.copy())
                trs = []
                if centering:
                    trs.append(P.ShiftTransformer(one.mean_))
                if scaling:
                    a, b = one.scale_, one.shift_
                    trs.append(P.ScaleTransformer(
                        a if np.ndim(a) else float(a)))
                    trs.append(P.ShiftTransformer(
                        -np.broadcast_to(b, (4,)).astype(float)))
                tr = P.TransformerPipeline(trs)
                tr.fit(Q.copy())
            return transformer_results(tr, Q, X, Z, use)

        hows = ["fit", "fit_transform", "in place", "verbose", "fortran",
                "strided", "again", "by hand", "by hand, dimension",
                "pipeline", "pipeline of two", "multi", "multi, no sizes",
                "pieces"]
        if centering and scaling:
            hows.append("two steps")
        if byrow or scaling is None:
            hows.append("rows")
        spell(f"pre/{centering}/{scaling}/{byrow}", how=hows, use=[
            "all", "columns", "inplace"], tol=1e-10)(run)

    def functions(how):
        ref = Q.mean(axis=1)
        if how == "function":
            Y, m = P.shift(Q)
            return {"shifted": Y, "mean": m, "other": P.shift(X, m)}
        if how == "column":
            return {"shifted": P.shift(Q, ref[:, None]), "mean": ref,
                    "other": P.shift(X, ref.reshape((-1, 1)))}
        if how == "given":
            return {"shifted": P.shift(Q, ref), "mean": ref,
                    "other": P.shift(X, ref)}
        if how == "ShiftTransformer":
            tr = P.ShiftTransformer(ref)
            return {"shifted": tr.fit_transform(Q), "mean": tr.reference,
                    "other": tr.transform(X)}
        tr = P.ShiftScaleTransformer(centering=True)
        return {"shifted": tr.fit_transform(Q), "mean": tr.mean_,
                "other": tr.transform(X)}

    spell("pre/shift", how=["function", "column", "given",
                            "ShiftTransformer",
                            "ShiftScaleTransformer"])(functions)

    def scaled(how, to):
        lo, hi = to
        if how == "function":
            Y, to_, frm = P.scale(Q, (lo, hi))
            return {"scaled": Y, "other": P.scale(X, to_, frm)}
        frm = (Q.min(), Q.max())
        if how == "given":
            return {"scaled": P.scale(Q, (lo, hi), frm),
                    "other": P.scale(X, (lo, hi), frm)}
        if how == "lists":
            return {"scaled": P.scale(Q, [lo, hi], list(frm)),
                    "other": P.scale(X, np.array([lo, hi]), np.array(frm))}
        tr = P.ShiftScaleTransformer(
            scaling="minmax" if lo == 0 else "minmaxsym")
        return {"scaled": tr.fit_transform(Q), "other": tr.transform(X)}

    for to in ((0, 1), (-1, 1)):
        spell(f"pre/scale/{to[0]}", how=[
            "function", "given", "lists", "ShiftScaleTransformer"])(
                lambda how, to=to: scaled(how, to))

    def constant(how):
        tr = {"number": lambda: P.ScaleTransformer(2.5),
              "numpy": lambda: P.ScaleTransformer(np.float64(2.5)),
              "array": lambda: P.ScaleTransformer(np.full(4, 2.5)),
              "named": lambda: P.ScaleTransformer(2.5, name="s"),
              "multi": lambda: P.TransformerMulti(
                  [P.ScaleTransformer(2.5), P.ScaleTransformer(
                      np.array([2.5]))], [3, 1]),
              "pipeline": lambda: P.TransformerPipeline(
                  [P.ScaleTransformer(5.0), P.ScaleTransformer(0.5)]),
              "int": lambda: P.TransformerPipeline(
                  [P.ScaleTransformer(5), P.ScaleTransformer(0.5)])}[how]()
        tr.fit(Q.copy())
        return transformer_results(tr, Q, X, Z, "all")

    spell("pre/constant", how=["number", "numpy", "array", "named", "multi",
                               "pipeline", "int"])(constant)

    def nothing(how, use):
        tr = {"null": lambda: P.NullTransformer(),
              "shift": lambda: P.ShiftTransformer(np.zeros(4)),
              "scale": lambda: P.ScaleTransformer(1.0),
              "multi": lambda: P.TransformerMulti([None, None], [1, 3]),
              "pipeline": lambda: P.TransformerPipeline(
                  [P.NullTransformer(), P.NullTransformer()])}[how]()
        tr.fit(Q.copy())
        return transformer_results(tr, Q, X, Z, use)

    spell("pre/nothing", how=["null", "shift", "scale", "multi",
                              "pipeline"], use=[
        "all", "columns", "inplace"])(nothing)

    # Several variables.
    def several(sizes, none, names, access, how):
        mk = [lambda nm: P.ShiftScaleTransformer(True, "maxabs", name=nm),
              lambda nm: P.NullTransformer(name=nm) if none == "null"
              else None,
              lambda nm: P.ShiftScaleTransformer(False, "minmax", name=nm)]
        nms = {"none": (None,) * 3, "given": ("a", None, "c")}[names]
        trs = [f(nm) for f, nm in zip(mk, nms)]
        if none == "null" and names == "given":
            trs[1] = P.NullTransformer(name="b")
        sz = {"list": [1, 2, 3], "tuple": (1, 2, 3),
              "array": np.array([1, 2, 3])}.get(sizes)
        A, Y = gen(6, 6, tag=34) + 0.5, gen(6, 5, tag=35)
        tr = P.TransformerMulti(trs, sz)
        if how == "fit":
            tr.fit(A.copy())
        elif how == "fit_transform":
            tr.fit_transform(A.copy(), inplace=True)
        else:
            for i, (t, x) in enumerate(zip(tr.transformers, tr.split(A))):
                t.fit(x.copy())
        out = {"transform": tr.transform(Y),
               "inverse": tr.inverse_transform(Y),
               "ddts": tr.transform_ddts(Y)}
        if access == "index":
            parts = [tr.get_var(i, Y) for i in range(3)]
        elif access == "name" and names == "given" and none == "null":
            parts = [tr.get_var(n, Y) for n in ("a", "b", "c")]
        else:
            parts = tr.split(Y)
        out["parts"] = parts
        out["by part"] = np.vstack([t.transform(x) for t, x in zip(
            tr.transformers, parts)])
        return out

    spell("pre/several", sizes=["list", "tuple", "array"],
          none=["null", "None"], names=["none", "given"],
          access=["index", "name", "split"],
          how=["fit", "fit_transform", "parts"])(several)


# Bases -----------------------------------------------------------------------
def signed(V):
    return V * np.sign(V[:1] + (V[:1] == 0))


def basis_results(b, Q, X, signs=True):
    V = b.decompress(np.eye(b.reduced_state_dimension))
    flip = np.sign(V[:1] + (V[:1] == 0))[0] if signs else np.ones(V.shape[1])
    return {"vectors": V * flip, "compress": flip[:, None] * b.compress(X),
            "one": flip * b.compress(X[:, 1]),
            "project": b.project(X), "project one": b.project(X[:, 1]),
            "error": b.projection_error(X), "absolute": b.projection_error(
                X, relative=False), "dimension": b.reduced_state_dimension,
            "full": b.full_state_dimension}


def register_bases(tier):
    n, k, r = 5, 6, 3
    Q = gen(n, k, tag=41) * 0.3 ** np.arange(n)[:, None]
    Q = np.linalg.qr(gen(n, n, tag=42))[0] @ Q
    X = gen(n, 4, tag=43)
    W = 0.5 + np.arange(1, n + 1) / 3
    svals = la.svdvals(Q)
    total = np.sum(svals ** 2)
    residual = np.array([np.sum(svals[j:] ** 2) for j in range(n + 1)]) / total

    def criterion(crit):
        return {"num_vectors": dict(num_vectors=r),
                "numpy": dict(num_vectors=np.int64(r)),
                "threshold": dict(svdval_threshold=np.sqrt(
                    svals[r - 1] * svals[r])),
                "cumulative": dict(cumulative_energy=1 - np.sqrt(
                    residual[r - 1] * residual[r])),
                "residual": dict(residual_energy=np.sqrt(
                    residual[r - 1] * residual[r])),
                "projection": dict(projection_error=(
                    residual[r - 1] * residual[r]) ** 0.25),
                "two": dict(num_vectors=r, svdval_threshold=1e-300)}[crit]

    def pod(crit, how, solver, data):
        kw = criterion(crit)
        kw["svdsolver"] = {
            "custom": lambda A, **k: la.svd(A, full_matrices=False),
            "numpy": lambda A, **k: np.linalg.svd(A, full_matrices=False),
        }.get(solver, solver)
        if solver == "options":
            kw.update(svdsolver="dense", lapack_driver="gesvd")
        if solver == "randomized":
            kw.update(n_oversamples=10, random_state=0)
        A = {"array": lambda: Q.copy(),
             "fortran": lambda: np.asfortranarray(Q),
             "list": lambda: [Q[:, :3].copy(), Q[:, 3:].copy()],
             "tuple": lambda: tuple(Q[:, 2*j:2*j + 2] for j in range(3)),
             "3-D": lambda: np.array([Q[:, [j]] for j in range(k)]),
             }[data]()
        if how == "function":
            if not isinstance(A, np.ndarray) or A.ndim == 3:
                A = np.hstack(A)
            V, s = B.pod_basis(A, **kw)
            b = B.LinearBasis(V)
        elif how == "fit_compress":
            b = B.PODBasis(**kw)
            if not isinstance(A, np.ndarray) or A.ndim == 3:
                A = np.hstack(A)
            b.fit_compress(A)
        elif how == "later":
            first = B.PODBasis(num_vectors=1, **{
                key: v for key, v in kw.items()
                if key not in criterion(crit)})
            first.fit(A)
            first.set_dimension(**criterion(crit))
            b = first
        elif how == "attribute":
            b = B.PODBasis(num_vectors=1, **{
                key: v for key, v in kw.items()
                if key not in criterion(crit)})
            b.fit(A)
            b.reduced_state_dimension = r
        elif how == "before":
            b = B.PODBasis(num_vectors=1, **{
                key: v for key, v in kw.items()
                if key not in criterion(crit)})
            b.reduced_state_dimension = r
            b.fit(A)
        elif how == "solver set":
            solver_, opts = kw.pop("svdsolver"), {
                key: kw.pop(key) for key in list(kw)
                if key not in criterion(crit)}
            b = B.PODBasis(**kw)
            b.svdsolver = solver_
            b.svdsolver_options = opts or None
            b.fit(A)
        elif how == "from_svd":
            if not isinstance(A, np.ndarray) or A.ndim == 3:
                A = np.hstack(A)
            F, s, Vt = la.svd(A, full_matrices=False)
            b = B.PODBasis.from_svd(F, s, Vt, **criterion(crit))
        elif how == "linear":
            F = la.svd(Q, full_matrices=False)[0]
            b = B.LinearBasis(F[:, :r])
        elif how == "multi":
            b = B.BasisMulti([B.PODBasis(**kw)])
            b.fit(Q.copy())
        elif how == "multi, sizes":
            b = B.BasisMulti([B.PODBasis(**kw)], [n])
            b.fit(np.hstack(A) if np.ndim(A) == 3 else A)
        else:
            b = B.PODBasis(**kw)
            b.fit(A)
        return basis_results(b, Q, X)

    spell("basis/POD", how=["fit", "function", "fit_compress", "later",
                            "attribute", "before", "solver set", "from_svd",
                            "linear", "multi", "multi, sizes"],
          crit=["num_vectors", "numpy", "threshold", "cumulative",
                "residual", "projection", "two"],
          solver=["dense", "custom", "numpy", "options",
                  "method-of-snapshots", "eigh", "randomized"],
          data=["array", "fortran", "list", "tuple", "3-D"],
          when=lambda crit, how, solver, data: not (
              solver == "randomized" and crit not in (
                  "num_vectors", "numpy", "two"))
          and not (how == "function" and solver == "options")
          and not (solver == "randomized" and how in (
              "later", "attribute", "before")), tol=1e-7)(pod)

    def weighted(weights, how, solver):
        w = {"vector": W, "diagonal": np.diag(W),
             "dia": sparse.dia_array(np.diag(W)),
             "csr": sparse.csr_array(np.diag(W)),
             "csc": sparse.csc_array(np.diag(W))}[weights]
        if how == "linear":
            F = la.svd(np.sqrt(W)[:, None] * Q, full_matrices=False)[0]
            b = B.LinearBasis(F[:, :r] / np.sqrt(W)[:, None], weights=w)
        elif how == "from_svd":
            F, s, Vt = la.svd(np.sqrt(W)[:, None] * Q, full_matrices=False)
            b = B.PODBasis.from_svd(F / np.sqrt(W)[:, None], s, Vt,
                                    num_vectors=r, weights=w)
        elif how == "function":
            V, s = B.pod_basis(Q, num_vectors=r, svdsolver=solver, weights=w)
            b = B.LinearBasis(V, weights=w)
        elif how in ("solver later", "solver changed"):
            b = B.PODBasis(num_vectors=r, weights=w, svdsolver={
                "dense": "eigh"}.get(solver, "dense"))
            if how == "solver changed":
                b.fit(3 * Q[:, :4] + 1)
            b.svdsolver = solver
            b.fit(Q)
        elif how == "again":
            b = B.PODBasis(num_vectors=1, svdsolver=solver, weights=w)
            b.fit(3 * Q[:, :4] + 1)
            b.set_dimension(num_vectors=r)
            b.fit(Q)
        else:
            b = B.PODBasis(num_vectors=r, svdsolver=solver, weights=w)
            b.fit(Q)
        return basis_results(b, Q, X)

    spell("basis/weights", weights=["vector", "diagonal", "dia", "csr",
                                    "csc"],
          how=["fit", "function", "from_svd", "linear", "solver later",
               "solver changed", "again"],
          solver=["dense", "method-of-snapshots"], tol=1e-7)(weighted)

    def unit_weights(weights, solver):
        w = {"None": None, "vector": np.ones(n), "matrix": np.eye(n),
             "dia": sparse.dia_array(np.eye(n)),
             "sparse": sparse.eye_array(n, format="csr")}[weights]
        return basis_results(B.PODBasis(
            num_vectors=r, svdsolver=solver, weights=w).fit(Q), Q, X)

    spell("basis/unit weights", weights=["None", "vector", "matrix", "dia",
                                         "sparse"],
          solver=["dense", "method-of-snapshots"], tol=1e-7)(unit_weights)

    def several(how, sizes, access):
        A, Y = gen(6, 7, tag=44), gen(6, 4, tag=45)
        mk = [lambda: B.PODBasis(num_vectors=2, name="a"),
              lambda: B.PODBasis(svdval_threshold=1e-10)]
        bs = [f() for f in mk]
        sz = {"list": [4, 2], "array": np.array([4, 2]),
              "tuple": (4, 2)}[sizes]
        if how == "fit":
            b = B.BasisMulti(bs, sz)
            b.fit(A)
        elif how == "fitted":
            b = B.BasisMulti([bs[0].fit(A[:4]), bs[1].fit(A[4:])])
        elif how == "bases later":
            b = B.BasisMulti([B.PODBasis(num_vectors=1, name="z"),
                              B.PODBasis(num_vectors=1)], sz)
            b.bases = B.BasisMulti(bs, sz).bases
            b.fit(A)
        elif how == "bases changed":
            b = B.BasisMulti([B.PODBasis(num_vectors=1, name="z"),
                              B.PODBasis(num_vectors=1)], sz)
            b.fit(gen(6, 9, tag=46))
            b.bases = B.BasisMulti(bs, sz).bases
            b.fit(A)
        elif how == "linear":
            b = B.BasisMulti([B.LinearBasis(
                la.svd(A[:4])[0][:, :2], name="a"), B.LinearBasis(
                    la.svd(A[4:])[0])], sz)
        elif how == "block":
            V = la.block_diag(la.svd(A[:4])[0][:, :2], la.svd(A[4:])[0])
            b = B.LinearBasis(V)
            out = basis_results(b, A, Y)
            c = b.compress(Y)
            s = np.sign(V[0, :2])
            out["part a"], out["part b"] = Y[:4], Y[4:]
            out["compressed a"] = np.abs(c[:2])
            return out
        out = basis_results(b, A, Y)
        one, two = {"name": ("a", "variable 1"), "index": (0, 1),
                    "negative": ("a", 1)}[access]
        if access == "split":
            pass
        out["part a"], out["part b"] = b.get_var(one, Y), b.get_var(two, Y)
        out["compressed a"] = np.abs(b.get_var(one, b.compress(Y)))
        if not b[one] is b.bases[0] or not b[two] is b.bases[1]:
            out["part a"] = Raised(ValueError("another basis"))
        return out

    spell("basis/several", how=["fit", "fitted", "bases later", "bases changed", "linear",
               "block"],
          sizes=["list", "array", "tuple"],
          access=["name", "index", "negative"])(several)


# Time derivatives ------------------------------------------------------------
def register_ddt(tier):
    dt = 0.125
    t = np.arange(12) * dt
    Q, U = gen(3, 12, tag=51), gen(2, 12, tag=52)
    forms = {
        2: {"ddt_uniform": lambda: D.ddt_uniform(Q, dt),
            "order": lambda: D.ddt_uniform(Q, dt, order=2),
            "positional": lambda: D.ddt_uniform(Q, dt, 2),
            "ddt": lambda: D.ddt(Q, dt),
            "ddt dt": lambda: D.ddt(Q, dt=dt),
            "ddt order": lambda: D.ddt(Q, dt, order=2),
            "ddt both": lambda: D.ddt(Q, dt, 2),
            "ddt t": lambda: D.ddt(Q, t),
            "ddt t=": lambda: D.ddt(Q, t=t),
            "nonuniform": lambda: D.ddt_nonuniform(Q, t),
            "scheme": lambda: D.ord2(Q, dt)[1],
            "class": lambda: D.UniformFiniteDifferencer(
                t, "ord2").estimate(Q)[1],
            "Nonuniform": lambda: D.NonuniformFiniteDifferencer(
                t).estimate(Q, None)[1],
            "with inputs": lambda: D.NonuniformFiniteDifferencer(
                t).estimate(Q, U)[1],
            "rows": lambda: np.vstack([D.ddt_uniform(q[None], dt)
                                       for q in Q])}}
    for order in (4, 6):
        forms[order] = {
            "ddt_uniform": lambda o=order: D.ddt_uniform(Q, dt, o),
            "order": lambda o=order: D.ddt_uniform(Q, dt, order=o),
            "ddt": lambda o=order: D.ddt(Q, dt, o),
            "ddt order": lambda o=order: D.ddt(Q, dt, order=o),
            "ddt all": lambda o=order: D.ddt(Q, dt=dt, order=o),
            "scheme": lambda o=order: getattr(D, f"ord{o}")(Q, dt)[1],
            "class": lambda o=order: D.UniformFiniteDifferencer(
                t, f"ord{o}").estimate(Q)[1],
            "fortran": lambda o=order: D.ddt_uniform(
                np.asfortranarray(Q), dt, o)}
    for order, fs in forms.items():
        spell(f"ddt/{order}", how=list(fs))(
            lambda how, fs=fs: {"ddts": fs[how]()})

    schemes = [a + str(p) for a in ("fwd", "bwd") for p in range(1, 7)] + [
        "ctr2", "ctr4", "ctr6", "ord2", "ord4", "ord6"]
    for scheme in schemes:
        def run(how, inputs, scheme=scheme):
            fn = getattr(D, scheme)
            u = {"None": None, "2-D": U, "1-D": U[0],
                 "rows": U[:1]}[inputs]
            if how == "function":
                out = fn(Q, dt, u) if u is not None else fn(Q, dt)
            elif how == "keywords":
                out = fn(states=Q, dt=dt, inputs=u)
            else:
                est = D.UniformFiniteDifferencer(
                    t, scheme)
                out = est.estimate(Q, u)
            res = {"states": out[0], "ddts": out[1]}
            if how == "name":
                # the states are those at the kept times
                est = D.UniformFiniteDifferencer(t, scheme)
                res["states"] = est.mask(Q)
            return res

        spell(f"ddt/{scheme}", how=["function", "keywords", "name"],
              inputs=["None", "2-D", "1-D", "rows"])(run)

    ts = np.sort(np.concatenate((t[:6], t[6:] + 0.03)))
    new = np.linspace(ts[0], ts[-1], 9)
    for nm, cl in (("cubic", interp.CubicSpline),
                   ("akima", interp.Akima1DInterpolator),
                   ("pchip", interp.PchipInterpolator)):
        def run(how, times, inputs, nm=nm, cl=cl):
            kw = {} if times == "same" else dict(new_time_domain={
                "given": ts.copy(), "new": new}[times])
            if how == "default":
                est = D.InterpDerivativeEstimator(ts, **kw)
            elif how == "name":
                est = D.InterpDerivativeEstimator(ts, nm, **kw)
            elif how == "class":
                est = D.InterpDerivativeEstimator(
                    ts, InterpolatorClass=cl, **kw)
            elif how == "extrapolate":
                est = D.InterpDerivativeEstimator(
                    ts, nm, extrapolate=True, **kw)
            else:
                f = cl(ts, Q, axis=1)
                x = kw.get("new_time_domain", ts)
                return {"states": f(x), "ddts": f(x, 1)}
            out = est.estimate(Q, {"None": None, "2-D": U,
                                   "1-D": U[:1]}[inputs])
            return {"states": out[0], "ddts": out[1]}

        for times in (["same", "given"], ["new"]):
            spell(f"ddt/{nm}/{times[0]}", how=(
                ["default"] if nm == "cubic" else []) + [
                    "name", "class", "extrapolate", "scipy"], times=times,
                  inputs=["None", "2-D", "1-D"])(run)


# Lifting, errors -------------------------------------------------------------
def register_other(tier):
    Q, Z = gen(3, 5, tag=61), gen(3, 5, tag=62)

    def lifted(how, arg):
        lf = {"quadratic": lambda: opinf.lift.QuadraticLifter(),
              "orders": lambda: opinf.lift.PolynomialLifter((1, 2)),
              "list": lambda: opinf.lift.PolynomialLifter([1, 2]),
              "array": lambda: opinf.lift.PolynomialLifter(np.array([1, 2])),
              "floats": lambda: opinf.lift.PolynomialLifter((1.0, 2.0)),
              "later": lambda: opinf.lift.PolynomialLifter((3,))}[how]()
        if how == "later":
            lf.orders = (1, 2)
        if arg == "columns":
            return {"lift": np.column_stack([lf.lift(q) for q in Q.T]),
                    "ddts": np.column_stack([
                        lf.lift_ddts(q, z) for q, z in zip(Q.T, Z.T)]),
                    "unlift": np.column_stack([
                        lf.unlift(q) for q in lf.lift(Q).T])}
        A = np.asfortranarray(Q) if arg == "fortran" else Q
        return {"lift": lf.lift(A), "ddts": lf.lift_ddts(A, Z),
                "unlift": lf.unlift(lf.lift(A))}

    spell("lift/quadratic", how=["quadratic", "orders", "list", "array",
                                 "floats", "later"],
          arg=["array", "columns", "fortran"])(lifted)

    for p in (1, 2, 3, -1, 0.5):
        def power(how, p=p):
            lf = opinf.lift.PolynomialLifter(
                {"number": p, "tuple": (p,), "list": [p],
                 "array": np.array([p])}[how])
            A = np.abs(Q) + 0.1
            return {"lift": lf.lift(A), "ddts": lf.lift_ddts(A, Z),
                    "unlift": lf.unlift(lf.lift(A))}

        spell(f"lift/{p}", how=["number", "tuple", "list", "array"])(power)

    A, X = gen(3, 6, tag=63), gen(3, 6, tag=64)
    t = np.linspace(0, 1, 6) ** 2

    def fro(how):
        if how == "default":
            return {"error": list(opinf.post.frobenius_error(A, X))}
        if how == "norm":
            e = la.norm(A - X)
            return {"error": [e, e / la.norm(A)]}
        if how == "Lp":
            # a rectangle rule with equal weights
            e = opinf.post.lp_error(A, X)[0]
            m = opinf.post.lp_error(A, 0 * A)[0]
            return {"error": [la.norm(e), la.norm(e) / la.norm(m)]}
        v = opinf.post.lp_error(A.ravel(), X.ravel())
        return {"error": list(v)}

    spell("post/frobenius", how=["default", "norm", "Lp", "vector"])(fro)

    for p in (1, 2, np.inf, 3):
        def errors(how, p=p):
            kw = {} if (p == 2 and how == "default") else dict(p=p)
            if how == "columns":
                out = np.array([opinf.post.lp_error(a, x, **kw)
                                for a, x in zip(A.T, X.T)]).T
            elif how == "positional":
                out = opinf.post.lp_error(A, X, p)
            elif how == "fortran":
                out = opinf.post.lp_error(np.asfortranarray(A),
                                          X.T.copy().T, **kw)
            else:
                out = opinf.post.lp_error(A, X, **kw)
            return {"errors": list(out)}

        spell(f"post/lp/{p}", how=["default", "columns", "positional",
                                   "fortran"])(errors)

        def time_errors(how, p=p):
            kw = {} if (p == 2 and how == "default") else dict(p=p)
            if how == "row":
                norm = la.norm(A - X, axis=0, ord=p)[None]
                ref = la.norm(A, axis=0, ord=p)[None]
                e = opinf.post.Lp_error(norm, 0 * norm, t, p=p)[0]
                return {"errors": [e, e / opinf.post.Lp_error(
                    ref, 0 * ref, t, p=p)[0]]}
            if how == "1-D":
                norm = la.norm(A - X, axis=0, ord=p)
                ref = la.norm(A, axis=0, ord=p)
                e = opinf.post.Lp_error(norm, 0 * norm, t, p=p)[0]
                return {"errors": [e, e / opinf.post.Lp_error(
                    ref, 0 * ref, t, p=p)[0]]}
            if how == "positional":
                return {"errors": list(opinf.post.Lp_error(A, X, t, p))}
            return {"errors": list(opinf.post.Lp_error(A, X, t=t, **kw))}

        spell(f"post/Lp/{p}", how=["default", "positional", "row", "1-D"])(
            time_errors)

    V = np.linalg.qr(gen(3, 2, tag=65))[0]

    def projection(how):
        if how == "matrix":
            return {"error": list(opinf.post.projection_error(A, V))}
        if how == "frobenius":
            return {"error": list(opinf.post.frobenius_error(
                A, V @ V.T @ A))}
        b = B.LinearBasis(V)
        if how == "multi":
            b = B.BasisMulti([b])
        return {"error": [b.projection_error(A, relative=False),
                          b.projection_error(A)]}

    spell("post/projection", how=["matrix", "frobenius", "basis",
                                  "multi"])(projection)


# Models ----------------------------------------------------------------------
NAMES = {"c": "Constant", "A": "Linear", "H": "Quadratic", "G": "Cubic",
         "B": "Input", "N": "StateInput"}


def operators_as(form, how, poly={"c": 0, "A": 1, "H": 2, "G": 3}):
    if how == "string":
        return form
    if how == "list":
        return list(form)
    if how == "tuple":
        return tuple(form)
    objs = [getattr(O, NAMES[k] + "Operator")() for k in form]
    if how == "objects":
        return objs
    if how == "tuple of objects":
        return tuple(objs)
    if how == "mixed":
        return [k if i % 2 else o for i, (k, o) in enumerate(
            zip(form, objs))]
    if how == "one":
        return objs[0] if len(form) == 1 else objs
    if how == "generator":
        return dict.fromkeys(form)
    if how == "polynomial":
        return [O.PolynomialOperator(poly[k]) if k in poly else o
                for k, o in zip(form, objs)]
    raise KeyError(how)


def operator_values(model):
    return [np.zeros(0) if op.entries is None else ops.entries2d(
        np.asarray(op.entries.toarray() if sparse.issparse(op.entries)
                   else op.entries)) for op in model.operators]


def register_models(tier):
    for kind, form, (r, m) in itertools.product(
            "CD", ("A", "c", "cA", "AH", "cAH", "AB", "cAHBN", "ABG", "B"),
            ((2, 2), (1, 1), (2, 1))):
        if r == 1 and form == "cAHBN":
            form = "AHB"
        hasin = bool(set(form) & set("BN"))
        k = 40
        Q, Z = gen(r, k, tag=71), gen(r, k, tag=72)
        U = gen(m, k, tag=73) if hasin else None

        def run(operators, solver, data, train, use, kind=kind, form=form,
                r=r, m=m, hasin=hasin, Q=Q, Z=Z, U=U):
            cl = M.DiscreteModel if kind == "D" else M.ContinuousModel
            sol = {"None": None, "0": 0, "0.0": 0.0,
                   "Plain": L.PlainSolver(), "L2(0)": L.L2Solver(0),
                   "numpy 0": np.float64(0)}.get(solver)
            if train == "operators later":
                model = cl("AB" if form == "H" else "H", solver=sol)
                model.operators = operators_as(form, operators)
            elif train == "operators changed":
                model = cl("cA", solver=sol)
                model.fit(Q[:, :9] + 1, Z[:, :9])
                model.operators = operators_as(form, operators)
            elif solver == "omitted":
                model = cl(operators_as(form, operators))
            else:
                model = cl(operators_as(form, operators), solver=sol)
            A, C, W = Q, Z, U
            if data == "1-D":
                W = W[0] if hasin and m == 1 else W
            elif data == "fortran":
                A, C = np.asfortranarray(A), np.asfortranarray(C)
            elif data == "lists" and r > 1:
                pass
            if train == "fit":
                ret = model.fit(A, C, W) if hasin else model.fit(A, C)
            elif train == "keywords":
                key = "nextstates" if kind == "D" else "ddts"
                ret = model.fit(states=A, **{key: C}, inputs=W)
            elif train == "two steps":
                if kind == "D" and False:
                    pass
                model._fit_solver(A, C, W)
                ret = model.refit()
            elif train == "again":
                model.fit(2 * A + 1, C - 1, None if W is None else W + 1)
                ret = model.fit(A, C, W)
            elif train == "refit":
                model.fit(A, C, W)
                ret = model.refit().refit()
            elif train == "solver later":
                model.solver = L.L2Solver(3.0)
                model.fit(A, C, W)
                model.solver = sol if solver != "omitted" else None
                ret = model.fit(A, C, W)
            elif train == "copy":
                model.fit(A, C, W)
                ret = model = model.copy()
            else:
                ret = model.fit(A, C, W)
            out = {"operators": operator_values(ret),
                   "same": float(ret is model)}
            q, u = gen(r, tag=74), gen(m, tag=75)
            if use == "evaluate":
                model = cl([op.copy() for op in model.operators])
            if kind == "C":
                fs = [lambda t: u * (1 + t)] + (
                    [lambda t: u[0] * (1 + t)] if m == 1 else [])
                fn = fs[-1 if use == "scalar input" else 0] if hasin else None
                out["rhs"] = model.rhs(0.3, q, fn)
                out["jacobian"] = model.jacobian(0.3, q, fn)
                ts = np.linspace(0, 0.1, 5)
                if use == "array input" and hasin:
                    fn = np.outer(u, 1 + ts)
                    if m == 1:
                        fn = fn[0]
                opt = dict(method="RK45", rtol=1e-10, atol=1e-12)
                if use == "keywords":
                    out["predict"] = model.predict(
                        state0=q, t=ts, input_func=fn, **opt)
                else:
                    out["predict"] = model.predict(q, ts, fn, **opt)
            else:
                one = u[0] if (use == "scalar input" and m == 1) else u
                out["rhs"] = model.rhs(q, one if hasin else None)
                out["jacobian"] = model.jacobian(q, one if hasin else None)
                W4 = np.outer(u, np.arange(1, 5)) if hasin else None
                if use in ("array input", "scalar input") and hasin and (
                        m == 1):
                    W4 = W4[0]
                if use == "keywords":
                    out["predict"] = model.predict(
                        state0=q, niters=4, inputs=W4)
                else:
                    out["predict"] = model.predict(q, 4, W4)
            out["rhs"] = np.ravel(out["rhs"])
            return out

        hows = ["string", "list", "tuple", "objects", "tuple of objects",
                "mixed", "one", "generator"]
        if not set(form) & set("BN"):
            hows.append("polynomial")
        spell(f"models/{kind}/{form}/{r}/{m}", operators=hows,
              solver=["None", "omitted", "0", "0.0", "numpy 0", "Plain",
                      "L2(0)"],
              data=["2-D", "1-D", "fortran"],
              train=["fit", "keywords", "two steps", "again", "refit",
                     "solver later", "copy", "operators later",
                     "operators changed"],
              use=["plain", "keywords", "array input", "scalar input",
                   "evaluate"], tol=1e-7)(run)

    # Known operators, however they are given.
    for kind in "CD":
        def known(how, lhs, kind=kind):
            cl = M.DiscreteModel if kind == "D" else M.ContinuousModel
            Q, Z, U = gen(2, 20, tag=76), gen(2, 20, tag=77), gen(
                2, 20, tag=78)
            E = 0.3 * gen(2, 2, tag=79)
            W = 0.2 * gen(2, 2, tag=80)
            mats = {"array": (E, W), "csr": (sparse.csr_array(E), W),
                    "fortran": (np.asfortranarray(E), np.asfortranarray(W)),
                    }.get(how, (E, W))
            if how == "subtracted":
                model = cl("cH")
                model.fit(Q, Z - E @ Q - W @ U)
                ent = operator_values(model)
            elif how == "later":
                A = O.LinearOperator()
                A.entries = E
                model = cl([O.InputOperator(W), "H", A, "c"])
                model.fit(Q, Z, U)
                ent = operator_values(model)[1:][::-2]
            elif how == "two known":
                model = cl(["c", O.LinearOperator(0.25 * E),
                            O.LinearOperator(0.75 * E), "H",
                            O.InputOperator(0.5 * W),
                            O.InputOperator(0.5 * W)])
                model.fit(Q, Z, U)
                ent = [operator_values(model)[0], operator_values(model)[3]]
            else:
                model = cl(["c", O.LinearOperator(mats[0]), "H",
                            O.InputOperator(mats[1])])
                model.fit(Q, Z, U)
                ent = operator_values(model)[:3:2]
            return {"learned": ent}

        spell(f"models/known/{kind}", how=["array", "csr", "fortran",
                                           "subtracted", "later",
                                           "two known"], lhs=["2-D"],
              tol=1e-8)(known)

    # Trajectories of discrete models.
    def discrete(how, inputs):
        Qs = [gen(2, k, tag=81 + k) for k in (9, 7)]
        Us = [gen(1, k, tag=91 + k) for k in (9, 7)]
        cols = [U[0] if inputs in ("1-D", "short 1-D") else U for U in Us]
        if inputs.startswith("short"):
            cols = [u[..., :-1] for u in cols]
        model = M.DiscreteModel("AB")
        if how == "stack":
            model.fit(*M.DiscreteModel.stack_trajectories(Qs, cols))
        elif how == "stack, no inputs":
            a, b = M.DiscreteModel.stack_trajectories(Qs)
            model.fit(a, b, np.hstack([U[..., :Q.shape[1] - 1] for U, Q
                                       in zip(cols, Qs)]))
        elif how == "hand":
            model.fit(np.hstack([Q[:, :-1] for Q in Qs]),
                      np.hstack([Q[:, 1:] for Q in Qs]),
                      np.hstack([U[:, :-1] for U in Us]))
        else:
            rom = opinf.ROM(model)
            if how == "ROM":
                rom.fit(Qs, inputs=cols)
            else:
                rom.fit([Q[:, :-1] for Q in Qs], [Q[:, 1:] for Q in Qs],
                        [U[..., :Q.shape[1] - 1] for U, Q in zip(cols, Qs)])
        return {"operators": operator_values(model)}

    spell("models/discrete", how=["hand", "stack", "stack, no inputs", "ROM",
                                  "ROM, lhs"],
          inputs=["2-D", "1-D", "short", "short 1-D"], tol=1e-8)(discrete)

    def one_trajectory(how, inputs):
        Q, U = gen(2, 9, tag=97), gen(2, 9, tag=98)
        W = {"all": U, "short": U[:, :-1], "long": np.hstack([U, U])}[inputs]
        model = M.DiscreteModel("AB")
        if how == "states":
            model.fit(Q, inputs=W)
        elif how == "None":
            model.fit(Q, None, W)
        elif how == "both":
            model.fit(Q[:, :-1], Q[:, 1:], W)
        elif how == "ROM":
            opinf.ROM(model).fit(Q, inputs=W)
        else:
            opinf.ROM(model).fit([Q], inputs=[W])
        return {"operators": operator_values(model)}

    spell("models/one trajectory", how=["states", "None", "both", "ROM",
                                        "ROM list"],
          inputs=["all", "short", "long"], tol=1e-8)(one_trajectory)


# Parametric models -----------------------------------------------------------
def register_parametric_models(tier):
    for kind, form, r in itertools.product("CD", ("A", "cA", "AH", "AB"),
                                           (1, 2)):
        hasin = "B" in form
        mus = [0.0, 1.0, 2.0, 3.5]
        data = []
        for j in range(4):
            data.append((gen(r, 20, tag=101 + j), gen(r, 20, tag=111 + j),
                         gen(1, 20, tag=121 + j) if hasin else None))

        def run(model, params, inputs, train, use, kind=kind, form=form,
                r=r, hasin=hasin, data=data):
            word = "Discrete" if kind == "D" else "Continuous"
            interps = [getattr(O, f"Interp{NAMES[k]}Operator")
                       for k in form]
            mu = {"list": mus, "tuple": tuple(mus), "array": np.array(mus),
                  "column": np.array(mus)[:, None],
                  "lists": [[x] for x in mus]}[params]
            Qs, Zs, Us = map(list, zip(*data))
            if not hasin:
                Us = None
            elif inputs == "1-D":
                Us = [U[0] for U in Us]
            if params == "array" and r == 2:
                Qs, Zs = np.array(Qs), np.array(Zs)
            if model == "strings":
                mdl = getattr(M, f"Interp{word}Model")(form)
            elif model == "list":
                mdl = getattr(M, f"Interp{word}Model")(list(form))
            elif model == "objects":
                mdl = getattr(M, f"Interp{word}Model")(
                    [cl() for cl in interps])
            elif model == "with parameters":
                mdl = getattr(M, f"Interp{word}Model")(
                    [cl(mus) for cl in interps])
            elif model == "class":
                mdl = getattr(M, f"Interp{word}Model")(
                    form, InterpolatorClass=interp.CubicSpline)
            elif model == "set class":
                mdl = getattr(M, f"Interp{word}Model")(form)
                mdl.set_interpolator(interp.CubicSpline)
            elif model == "deprecated":
                mdl = getattr(M, f"Interpolated{word}Model")(form)
            elif model == "deprecated operators":
                mdl = getattr(M, f"Interp{word}Model")(
                    [getattr(O, f"Interpolated{NAMES[k]}Operator")()
                     for k in form])
            elif model == "parametric":
                mdl = getattr(M, f"Parametric{word}Model")(
                    [cl() for cl in interps])
            elif model == "parametric 1":
                mdl = getattr(M, f"Parametric{word}Model")(
                    interps[0]() if len(form) == 1 else
                    [cl() for cl in interps])
            elif model == "solver":
                mdl = getattr(M, f"Interp{word}Model")(form, solver=0.0)
            elif model == "from models":
                small = []
                for Q, Z, U in zip(Qs, Zs, Us or [None] * 4):
                    one = getattr(M, f"{word}Model")(form)
                    one.fit(Q, Z, U)
                    small.append(one)
                mdl = getattr(M, f"Interp{word}Model")._from_models(
                    mu, small)
            elif model == "from operators":
                small = []
                for Q, Z, U in zip(Qs, Zs, Us or [None] * 4):
                    one = getattr(M, f"{word}Model")(form)
                    one.fit(Q, Z, U)
                    small.append(one)
                mdl = getattr(M, f"Parametric{word}Model")([
                    cl._from_operators(mu, [s.operators[i] for s in small])
                    for i, cl in enumerate(interps)])
            if not model.startswith("from"):
                if train == "fit":
                    mdl.fit(mu, Qs, Zs, Us)
                elif train == "keywords":
                    mdl.fit(parameters=mu, states=Qs, **{
                        "nextstates" if kind == "D" else "ddts": Zs},
                        inputs=Us)
                elif train == "two steps":
                    mdl._fit_solver(mu, Qs, Zs, Us)
                    mdl.refit()
                elif train == "again":
                    mdl.fit(mu, [2 * Q for Q in Qs], Zs, Us)
                    mdl.fit(mu, Qs, Zs, Us)
                elif train == "refit":
                    mdl.fit(mu, Qs, Zs, Us).refit()
                elif train == "copy":
                    mdl.fit(mu, Qs, Zs, Us)
                    mdl = mdl.copy()
            out = {}
            q, u = gen(r, tag=131), gen(1, tag=132)
            for x in (0.0, 0.5, 3.0):
                y = {"list": [x], "array": np.array([x])}.get(use, x)
                one = mdl.evaluate(y)
                out[f"operators {x}"] = operator_values(one)
                if kind == "C":
                    fn = (lambda t: u) if hasin else None
                    ts = np.linspace(0, 0.1, 4)
                    out[f"rhs {x}"] = np.ravel(
                        one.rhs(0.0, q, fn) if use == "evaluated"
                        else mdl.rhs(0.0, y, q, fn))
                    out[f"jacobian {x}"] = (
                        one.jacobian(0.0, q, fn) if use == "evaluated"
                        else mdl.jacobian(0.0, y, q, fn))
                    out[f"predict {x}"] = (
                        one.predict(q, ts, fn) if use == "evaluated"
                        else mdl.predict(y, q, ts, fn))
                else:
                    v = u if hasin else None
                    W = np.repeat(u[:, None], 3, 1) if hasin else None
                    out[f"rhs {x}"] = np.ravel(
                        one.rhs(q, v) if use == "evaluated"
                        else mdl.rhs(y, q, v))
                    out[f"jacobian {x}"] = (
                        one.jacobian(q, v) if use == "evaluated"
                        else mdl.jacobian(y, q, v))
                    out[f"predict {x}"] = (
                        one.predict(q, 3, W) if use == "evaluated"
                        else mdl.predict(y, q, 3, inputs=W))
            return out

        spell(f"models/interp/{kind}/{form}/{r}", model=[
            "strings", "list", "objects", "with parameters", "class",
            "set class", "deprecated", "deprecated operators", "parametric",
            "parametric 1", "solver", "from models", "from operators"],
            params=["list", "tuple", "array", "column", "lists"],
            inputs=["2-D", "1-D"] if hasin else ["2-D"],
            train=["fit", "keywords", "two steps", "again", "refit", "copy"],
            use=["scalar", "list", "array", "evaluated"],
            tol=1e-7)(run)

        def affine(coeffs, params, inputs, train, use, kind=kind, form=form,
                   r=r, hasin=hasin, data=data):
            word = "Discrete" if kind == "D" else "Continuous"
            opers = []
            for k in form:
                if k == "A" and coeffs == "plain":
                    opers.append(O.AffineLinearOperator(*_pair(
                        affine_thetas("functions", 2))))
                    continue
                if coeffs == "plain":
                    opers.append(getattr(O, NAMES[k] + "Operator")())
                    continue
                if k == "A":
                    th, kw = affine_thetas(coeffs, 2)
                    opers.append(O.AffineLinearOperator(th, **kw))
                else:
                    # one coefficient that is one: not parametric
                    opers.append(getattr(O, f"Affine{NAMES[k]}Operator")(
                        [lambda mu: 1.0]))
            Qs, Zs, Us = map(list, zip(*data))
            if not hasin:
                Us = None
            elif inputs == "1-D":
                Us = [U[0] for U in Us]
            mu = {"list": mus, "tuple": tuple(mus), "array": np.array(mus),
                  "column": np.array(mus)[:, None],
                  "lists": [[x] for x in mus]}[params]
            mdl = getattr(M, f"Parametric{word}Model")(opers)
            if train == "fit":
                mdl.fit(mu, Qs, Zs, Us)
            elif train == "two steps":
                mdl._fit_solver(mu, Qs, Zs, Us)
                mdl.refit()
            elif train == "again":
                mdl.fit(mu, [2 * Q for Q in Qs], Zs, Us)
                mdl.fit(mu, Qs, Zs, Us)
            elif train == "split":
                # a trajectory in two pieces
                m_ = [x for x in mu for _ in (0, 1)]
                half = lambda A: [P_ for X in A for P_ in (
                    X[..., :7], X[..., 7:])]
                mdl.fit(m_, half(Qs), half(Zs), None if Us is None
                        else half(Us))
            elif train == "copy":
                mdl = mdl.copy()
                mdl.fit(mu, Qs, Zs, Us)
                mdl = mdl.copy()
            out = {}
            q, u = gen(r, tag=131), gen(1, tag=132)
            for x in (0.25, 3.0):
                y = {"list": [x], "array": np.array([x])}.get(use, x)
                one = mdl.evaluate(y)
                out[f"operators {x}"] = operator_values(one)
                if kind == "C":
                    fn = (lambda t: u) if hasin else None
                    out[f"rhs {x}"] = np.ravel(mdl.rhs(0.0, y, q, fn))
                else:
                    out[f"rhs {x}"] = np.ravel(mdl.rhs(
                        y, q, u if hasin else None))
            return out

        spell(f"models/affine/{kind}/{form}/{r}", coeffs=[
            "functions", "tuple", "functions, nterms", "array-valued",
            "list-valued", "plain"],
            params=["list", "tuple", "array", "column", "lists"],
            inputs=["2-D", "1-D"] if hasin else ["2-D"],
            train=["fit", "two steps", "again", "split", "copy"],
            use=["scalar", "list", "array"], tol=1e-7)(affine)

    def identity(coeffs, entries):
        Es = [gen(2, 2, tag=141 + i) for i in range(3)]
        th, kw = {"int": (3, {}), "int, nterms": (3, dict(nterms=3)),
                  "function": (lambda mu: mu, dict(nterms=3)),
                  "functions": ([lambda mu: mu[0], lambda mu: mu[1],
                                 lambda mu: mu[2]], {})}[coeffs]
        A, kw2 = (np.hstack(Es), dict(fromblock=True)) if (
            entries == "block") else (Es, {})
        op = O.AffineLinearOperator(th, entries=A, **kw, **kw2)
        mu = np.array([0.5, -1.0, 2.0])
        return {"value": op.evaluate(mu).entries, "list": op.evaluate(
            list(mu)).entries, "apply": op.apply(mu, np.ones(2))}

    spell("affine/identity", coeffs=["int", "int, nterms", "function",
                                     "functions"],
          entries=["list", "block"])(identity)


def _pair(both):
    """(coefficients, nterms) as positional arguments."""
    return both[0], both[1].get("nterms")


# Reduced-order models --------------------------------------------------------
def register_roms(tier):
    t = np.linspace(0, 1.5, 25)
    Qs = [np.array([1 + x + (1 + 0.3 * j) * np.exp(-t) * np.sin(3 * x + j)
                    + 0.5 * np.exp(-0.5 * t) * np.cos(2 * t + x)
                    for x in (0.25, 0.5, 0.8, 1.0)]) for j in range(2)]
    W = gen(1, 25, tag=151)
    V = np.linalg.qr(gen(4, 2, tag=152))[0]

    for kind, hasin in itertools.product("CD", (False, True)):
        def run(stages, data, lhs, cls, use, kind=kind, hasin=hasin):
            disc = kind == "D"
            form = "AB" if hasin else "A"
            cl = M.DiscreteModel if disc else M.ContinuousModel
            model = cl(form, solver=L.L2Solver(1e-2))
            b = B.LinearBasis(V)
            kw = {"basis": dict(basis=b),
                  "null": dict(basis=b, transformer=P.NullTransformer()),
                  "scale": dict(basis=b, transformer=P.ScaleTransformer(1.0)),
                  "shift": dict(basis=b, transformer=P.ShiftTransformer(
                      np.zeros(4))),
                  "multi": dict(basis=b, transformer=P.TransformerMulti(
                      [None, None])),
                  "pipeline": dict(basis=b, transformer=P.TransformerPipeline(
                      [P.NullTransformer(), P.ScaleTransformer(1.0)])),
                  "lift": dict(basis=b, lifter=opinf.lift.PolynomialLifter(
                      1)),
                  "bases": dict(basis=B.BasisMulti([b])),
                  "by hand": {}}[stages]
            hand = stages == "by hand"
            enc = (lambda x: V.T @ x) if hand else (lambda x: x)
            dec = (lambda x: V @ x) if hand else (lambda x: x)
            est = None
            A = enc(Qs[0])
            Z, X, I = None, A, W if hasin else None
            if disc:
                if lhs != "default":
                    Z, X = A[:, 1:], A[:, :-1]
                    I = I[:, :-1] if hasin else None
            elif lhs == "default":
                Z = D.ddt_nonuniform(A, t)
            elif lhs == "estimator":
                est = D.NonuniformFiniteDifferencer(t)
            elif lhs == "uniform":
                est = D.UniformFiniteDifferencer(t, "ord2")
            elif lhs == "function":
                Z = D.ddt(A, t)
            rom = {"ROM": opinf.ROM, "Bayesian": R.BayesianROM}[cls](
                model, ddt_estimator=est, **kw)
            if data == "array":
                ret = rom.fit(X, Z, I)
            elif data == "list":
                ret = rom.fit([X], None if Z is None else [Z],
                              None if I is None else [I])
            elif data == "tuple":
                ret = rom.fit((X,), None if Z is None else (Z,),
                              None if I is None else (I,))
            elif data == "3-D":
                ret = rom.fit(X[None], None if Z is None else Z[None],
                              None if I is None else I[None])
            elif data == "1-D inputs":
                ret = rom.fit(X, Z, None if I is None else I[0])
            elif data == "keywords":
                ret = rom.fit(states=X, lhs=Z, inputs=I)
            elif data == "twice":
                rom.fit(2 * X - 1, Z, I)
                ret = rom.fit(X, Z, I)
            elif data == "trained stages":
                rom.fit(X, Z, I)
                ret = rom.fit(X, Z, I, fit_transformer=False,
                              fit_basis=False)
            out = {"same": float(ret is rom)}
            if cls == "ROM":
                out["operators"] = operator_values(model)
            else:
                post = np.array(rom.posterior.means)
                out["operators"] = [post[:, :2]] + (
                    [post[:, 2:]] if hasin else [])
                model.operators[0].entries = post[:, :2]
                if hasin:
                    model.operators[1].entries = post[:, 2:]
            q0 = Qs[0][:, 3]
            pred = opinf.ROM.predict
            mod = opinf.ROM(model, **kw) if cls == "Bayesian" else rom
            if disc:
                out["predict"] = dec(mod.predict(
                    enc(q0), 6, W[:, :6] if hasin else None))
                return out
            fn = None
            if hasin:
                # inputs as an array are interpolated with a cubic spline
                s = interp.CubicSpline(t[:8], W[0, :8])
                fn = {"array": W[:, :8], "row": W[0, :8],
                      "float": lambda x: float(s(x)),
                                            "function": lambda x: np.array([s(x)])}.get(
                          use, lambda x: np.atleast_1d(s(x)))
            kw = dict(method="RK45", rtol=1e-10, atol=1e-12)
            if use == "keywords":
                out["predict"] = dec(mod.predict(
                    state0=enc(q0), t=t[:8], input_func=fn, **kw))
            else:
                out["predict"] = dec(mod.predict(enc(q0), t[:8], fn, **kw))
            return out

        spell(f"roms/{kind}/{hasin}", stages=[
            "basis", "null", "scale", "shift", "multi", "pipeline", "lift",
            "bases", "by hand"],
            data=["array", "list", "tuple", "3-D", "1-D inputs", "keywords",
                  "twice", "trained stages"],
            lhs=["default", "given"] if kind == "D" else [
                "default", "estimator", "uniform", "function"],
            cls=["ROM", "Bayesian"],
            use=["plain"] if kind == "D" else [
                "plain", "keywords"] + (["array", "row", "float", "function"] if hasin else []),
            tol=1e-6)(run)

        def select(cand, factory, solver, tests, inputs, domain, cls,
                   kind=kind, hasin=hasin):
            disc = kind == "D"
            form = "AB" if hasin else "A"
            d = 3 if hasin else 2
            cl = M.DiscreteModel if disc else M.ContinuousModel
            s, fac = {
                "L2": (L.L2Solver(), None),
                "identity": (L.L2Solver(7.0), lambda x: x),
                "Tik": (L.TikhonovSolver(), lambda x: np.full(d, x)),
                "Tik2": (L.TikhonovSolver(), lambda x: x * np.eye(d)),
                "L2D": (L.L2DecoupledSolver(), lambda x: np.full(2, x)),
                "TikD": (L.TikhonovDecoupledSolver(),
                         lambda x: [np.full(d, x)] * 2)}[solver]
            values = [1e-3, 1e-1, 10.0]
            cs = {"list": values, "array": np.array(values),
                  "tuple": tuple(values), "lists": [[x] for x in values],
                  "column": np.array(values)[:, None],
                  "unsorted": [0.1, 10.0, 1e-3],
                  "repeated": values + values}[cand]
            rom = {"ROM": opinf.ROM, "Bayesian": R.BayesianROM}[cls](
                cl(form, solver=s), basis=B.LinearBasis(V))
            q0 = 0.9 * Qs[0][:, 0]
            X = Qs if domain != "arrays" else np.array(Qs)
            kw = dict(gridsearch_only=True)
            if cls == "Bayesian":
                kw["num_posterior_draws"] = 1
            if factory == "given" or solver != "L2":
                kw["regularizer_factory"] = fac
            np.random.seed(5)
            if disc:
                case = T.DiscreteRegTest(q0, 10, inputs=np.zeros((1, 10))
                                         if hasin else None)
                kw["test_cases"] = {"none": None, "empty": [], "one": case,
                                    "list": [case],
                                    "tuple": (case,)}[tests]
                I = None
                if hasin:
                    I = [W, W] if inputs != "1-D" else [W[0], W[0]]
                rom.fit_regselect_discrete(cs, X, inputs=I, **kw)
            else:
                case = T.ContinuousRegTest(
                    q0, t, input_function=(lambda x: np.zeros(1))
                    if hasin else None)
                kw["test_cases"] = {"none": None, "empty": [], "one": case,
                                    "list": [case],
                                    "tuple": (case,)}[tests]
                fn = lambda x: np.array([np.sin(x)])
                if inputs == "1-D":
                    fn = lambda x: np.sin(x)
                I = None
                if hasin:
                    I = fn if inputs == "one" else [fn, fn]
                ts = {"one": t, "list": [t, t], "arrays": [t, t],
                      "tuple": (t, t)}[domain]
                rom.fit_regselect_continuous(
                    cs, ts, X, [D.ddt_uniform(Q, t[1] - t[0]) for Q in Qs],
                    input_functions=I, **kw)
            if cls == "Bayesian":
                # the model holds a draw
                post = rom.posterior
                out = {"means": list(post.means),
                       "precisions": list(post.covs)}
            else:
                out = {"operators": operator_values(rom.model)}
            reg = rom.model.solver.regularizer
            out["regularizer"] = np.max(plain(reg[0] if isinstance(
                reg, list) else reg))
            return out

        for cls in ("ROM", "Bayesian"):
            spell(f"roms/select/{kind}/{hasin}/{cls}", cand=[
                "list", "array", "tuple", "lists", "column"] + (
                    # draws depend on the order of the candidates
                    ["unsorted", "repeated"] if cls == "ROM" else []),
                factory=["default", "given"],
                solver=["L2", "identity", "Tik", "Tik2", "L2D", "TikD"],
                tests=["none", "empty", "one", "list", "tuple"],
                inputs=(["list", "1-D"] + (["one"] if kind == "C" else []))
                if hasin else ["list"],
                domain=["list", "arrays"] + (["one", "tuple"]
                                             if kind == "C" else []),
                cls=[cls], tol=1e-7)(select)


def cases(tier):
    EXPERIMENTS.clear()
    register_operators(tier)
    register_parametric(tier)
    register_solvers(tier)
    register_transformers(tier)
    register_bases(tier)
    register_ddt(tier)
    register_other(tier)
    register_models(tier)
    register_parametric_models(tier)
    register_roms(tier)
    for name, run, options, tol, when in EXPERIMENTS:
        yield name, spelling_case, (run, options, tol, when)
