"""C32: results do not depend on the order of the data."""

import itertools
import warnings

import numpy as np
import scipy.interpolate as interp

import opinf
from checks.c31 import differ
from mc import ops, pre
from mc.data import gen, spd
from mc.objs import Raised, attempt

B = opinf.basis
D = opinf.ddt
L = opinf.lstsq
M = opinf.models
P = opinf.pre
R = opinf.roms

BOUNDS = {
    "orders": "all permutations of the state entries, of the snapshots, of "
    "the trajectories or training parameters, of the inputs, of the "
    "variables, of the operators of a model, of the candidates and of the "
    "basis vectors (up to 4, thorough 5, of each); one kind at a time and "
    "all pairs (quick: pairs with a transposition and a cycle); all signs "
    "of reduced coordinates; reversal of time",
    "operations": "training and use of all transformers, bases, derivative "
    "estimators, solvers, operators, models, lifting maps, error measures, "
    "and reduced-order models, regularization selection and posteriors",
    "oracle": "the same call with the data in the original order; results "
    "are brought back to that order",
}

EXPERIMENTS = []


class Order:
    """One permutation for each kind of data."""

    def __init__(self, sizes, **perms):
        self.perms = perms
        for nm, n in sizes.items():
            if nm == "signs":
                self.signs = perms.get(nm, [0])
                continue
            p = np.array(perms.get(nm, range(n)), dtype=int)
            setattr(self, nm, p)
            setattr(self, nm + "_", np.argsort(p))

    def __str__(self):
        return ";".join(f"{k}={''.join(map(str, v))}"
                        for k, v in self.perms.items()) or "none"


def experiment(name, sizes, run, tol=1e-9, few=()):
    """run(order) -> {name: result in the original order}."""
    EXPERIMENTS.append((name, sizes, run, tol, few))


def some(n):
    """A transposition, a cycle and the reversal."""
    if n < 2:
        return []
    eye = list(range(n))
    out = [[1, 0] + eye[2:], eye[1:] + [0], eye[::-1]]
    return [list(x) for x in dict.fromkeys(map(tuple, out))]


def orders(sizes, tier, few):
    names = [nm for nm in sizes if sizes[nm] > 1 and nm != "signs"]
    for bits in range(1, sizes.get("signs", 1)):
        # all signed permutations
        yield {"signs": [bits]}
        for p in itertools.permutations(range(sizes["rows"])):
            if list(p) != sorted(p):
                yield {"signs": [bits], "rows": p}
    for nm in names:
        if nm in few or sizes[nm] > (5 if tier == "thorough" else 4):
            for p in some(sizes[nm]):
                yield {nm: p}
            continue
        for p in itertools.permutations(range(sizes[nm])):
            if list(p) != sorted(p):
                yield {nm: p}
    for n1, n2 in itertools.combinations(names, 2):
        for p1 in some(sizes[n1])[:3 if tier == "thorough" else 2]:
            for p2 in some(sizes[n2])[:3 if tier == "thorough" else 2]:
                yield {n1: p1, n2: p2}
    if len(names) > 2:
        yield {nm: some(sizes[nm])[-1] for nm in names}
        yield {nm: some(sizes[nm])[min(1, len(some(sizes[nm])) - 1)]
               for nm in names}


def plain(v):
    if isinstance(v, Raised):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return np.asarray(v.toarray() if hasattr(v, "toarray") else v,
                      dtype=float)


def order_case(c, sizes, run, tol, few):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = {k: plain(v) for k, v in run(Order(sizes)).items()}
        for nm, v in base.items():
            if isinstance(v, Raised):
                c.fail("harness", f"{nm}: {v!r}")
        for perms in orders(sizes, c.tier, few):
            O = Order(sizes, **perms)
            with c.sub(str(O)):
                c.op(f"order {O}")
                out = run(O)
                c.check(set(out) == set(base), "results", f"{set(out)}")
                for nm, value in out.items():
                    msg = differ(base[nm], plain(value), tol)
                    c.check(msg is None, nm.replace(" ", "-"), f"{msg}")
                    c.state(str(O), nm)
    c.trace(f"{len(base)} results")


def signed(V):
    """Columns with a sign of their own."""
    return V * np.sign(V[:1] + (V[:1] == 0))


# Transformers ----------------------------------------------------------------
def transformers():
    """(name, make(rows))."""
    for nm, mk in pre.all_ss():
        yield nm, (lambda rows, mk=mk: mk()[0])
    yield "Shift", lambda rows: P.ShiftTransformer(pre.REF4[rows])
    yield "Scale", lambda rows: P.ScaleTransformer(2.5)
    yield "ScaleRow", lambda rows: P.ScaleTransformer(pre.SC4[rows])
    yield "Null", lambda rows: P.NullTransformer()


Q4 = gen(4, 4, tag=1) + np.array([[0.0], [10.0], [-3.0], [1.0]])


def transformer_run(make):
    def run(O):
        t = make(O.rows)
        Q = Q4[O.rows][:, O.cols]
        X = gen(4, 4, tag=2)[O.rows][:, O.cols]
        back = np.ix_(O.rows_, O.cols_)
        out = {"fit_transform": t.fit_transform(Q)[back],
               "transform": t.transform(X)[back],
               "vector": t.transform(X[:, 0])[O.rows_]
               if not O.perms.get("cols") else t.transform(
                   X[:, O.cols_[0]])[O.rows_],
               "ddts": t.transform_ddts(X)[back],
               "inverse": t.inverse_transform(X)[back],
               "locs": t.inverse_transform(X, locs=O.rows_)}
        out["locs"] = t.inverse_transform(
            X[O.rows_[:2]], locs=O.rows_[:2])[:, O.cols_]
        if isinstance(t, P.ShiftScaleTransformer):
            if t.centering:
                out["mean_"] = t.mean_[O.rows_]
            if t.scaling:
                for a in ("scale_", "shift_"):
                    v = getattr(t, a)
                    # some of them are zero up to roundoff
                    out[a] = 1 + (v[O.rows_] if t.byrow else v)
        return out
    return run


def multi_run(names):
    """Variables of different sizes in all orders."""
    menu = dict(transformers())
    sizes = [4, 4, 4]

    def run(O):
        # the rows within the variables as well
        t = P.TransformerMulti(
            [menu[names[v]](O.rows) for v in O.vars], sizes)
        blocks = [gen(4, 4, tag=10 + i) * (3 ** i) + i for i in range(3)]
        X = [gen(4, 4, tag=20 + i) for i in range(3)]

        def give(bl):
            return np.vstack([bl[v][O.rows] for v in O.vars])[:, O.cols]

        def back(Y):
            bl = np.split(Y, 3)
            return np.vstack([bl[i][O.rows_] for i in O.vars_])[:, O.cols_]

        out = {"fit_transform": back(t.fit_transform(give(blocks))),
               "transform": back(t.transform(give(X))),
               "ddts": back(t.transform_ddts(give(X))),
               "inverse": back(t.inverse_transform(give(X)))}
        for i in range(3):
            out[f"var {i}"] = t.get_var(int(O.vars_[i]), give(X))[
                np.ix_(O.rows_, O.cols_)]
        return out
    return run


def sizes_run(kind):
    """Variables of different sizes."""
    base = {"pre": [2, 4, 1], "basis": [2, 4, 3]}[kind]

    def run(O):
        sz = [base[v] for v in O.vars]
        blocks = [gen(n, 4, tag=30 + i) * 2 ** i + i
                  for i, n in enumerate(base)]
        Q = np.vstack([blocks[v] for v in O.vars])[:, O.cols]

        def back(Y, sz=sz):
            bl = np.split(Y, np.cumsum(sz)[:-1])
            return np.vstack([bl[i] for i in O.vars_])[:, O.cols_]
        if kind == "pre":
            mk = [lambda: P.ShiftScaleTransformer(True, "maxabs"),
                  lambda: P.ShiftScaleTransformer(True, None),
                  lambda: P.ScaleTransformer(3.0)]
            t = P.TransformerMulti([mk[v]() for v in O.vars], sz)
            Y = t.fit_transform(Q)
            return {"fit_transform": back(Y),
                    "inverse": back(t.inverse_transform(Y)),
                    "ddts": back(t.transform_ddts(Q))}
        mk = [lambda: B.LinearBasis(np.linalg.qr(gen(2, 2, tag=1))[0]),
              lambda: B.PODBasis(num_vectors=2),
              lambda: B.PODBasis(num_vectors=1)]
        b = B.BasisMulti([mk[v]() for v in O.vars], sz)
        b.fit(Q)
        red = [[2, 2, 1][v] for v in O.vars]
        return {"compress": np.abs(back(b.compress(Q), red)),
                "project": back(b.project(Q)),
                "decompress": back(b.decompress(b.compress(Q))),
                "sizes": np.array(b.reduced_variable_sizes)[O.vars_],
                "error": b.projection_error(Q)}
    return run


def register_transformers(tier):
    menu = dict(transformers())
    for nm, make in menu.items():
        experiment(f"pre/{nm}", dict(rows=4, cols=4), transformer_run(make))
    pick = list(menu) if tier == "thorough" else [
        "SS(1,None,0)", "SS(0,standard,0)", "SS(1,minmaxsym,1)", "Shift",
        "ScaleRow"]
    for n1, n2 in itertools.product(pick, pick):
        experiment(f"pre/{n1}+{n2}", dict(rows=4, cols=4), transformer_run(
            lambda rows, n1=n1, n2=n2: P.TransformerPipeline(
                [menu[n1](rows), menu[n2](rows)])), few=("cols",))
    for names in itertools.permutations(pick[:5], 3):
        experiment(f"pre/Multi({'|'.join(names)})",
                   dict(vars=3, rows=4, cols=4), multi_run(names),
                   few=("rows", "cols"))
    experiment("pre/sizes", dict(vars=3, cols=4), sizes_run("pre"))


# Bases -----------------------------------------------------------------------
WD = np.array([1.0, 2.0, 0.5, 4.0])
DECAY = gen(4, 4, tag=10) * 0.3 ** np.arange(4)[:, None]


def weights_of(kind, rows):
    if kind == "none":
        return None
    if kind == "1-D":
        return WD[rows]
    return (np.diag(WD) + 0.1 * spd(4, tag=4))[np.ix_(rows, rows)]


def pod_run(kind, solver, crit):
    def run(O):
        opts = {"random_state": 3} if solver == "randomized" else {}
        b = B.PODBasis(**{crit[0]: crit[1]}, svdsolver=solver,
                       weights=weights_of(kind, O.rows), **opts)
        Q = DECAY[O.rows][:, O.cols]
        b.fit(Q)
        X = gen(4, 3, tag=11)[O.rows]
        V = signed(b.entries[O.rows_])
        s = np.sign(b.entries[O.rows_][:1]).T
        out = {"entries": V, "r": b.reduced_state_dimension,
               "svdvals": b.svdvals, "energy": b.cumulative_energy,
               "compress": s * b.compress(X),
               "project": b.project(X)[O.rows_],
               "locs": b.decompress(b.compress(X), locs=O.rows_[:2]),
               "error": b.projection_error(X),
               "many": b.project(Q)[np.ix_(O.rows_, O.cols_)]}
        right = b.rightvecs
        if right is not None:
            out["right"] = signed(right[O.cols_][:, :2])
        for nm, val in (("num_vectors", 1), ("cumulative_energy", 0.9),
                        ("residual_energy", 1e-3), ("svdval_threshold", 0.1),
                        ("projection_error", 0.05)):
            b.set_dimension(**{nm: val})
            out[f"set {nm}"] = b.reduced_state_dimension
        return out
    return run


def linear_run(kind):
    W = weights_of(kind, np.arange(4))
    V = np.linalg.qr(gen(4, 3, tag=9))[0]
    if kind == "1-D":
        V = V / np.sqrt(W)[:, None]
    elif kind == "2-D":
        V = np.linalg.solve(np.linalg.cholesky(W).T, V)

    def run(O):
        b = B.LinearBasis(V[O.rows][:, O.vecs],
                          weights=weights_of(kind, O.rows))
        X = gen(4, 4, tag=11)[O.rows][:, O.cols]
        Y = gen(3, 4, tag=12)[O.vecs][:, O.cols]
        return {"compress": b.compress(X)[np.ix_(O.vecs_, O.cols_)],
                "decompress": b.decompress(Y)[np.ix_(O.rows_, O.cols_)],
                "project": b.project(X)[np.ix_(O.rows_, O.cols_)],
                "locs": b.decompress(Y, locs=O.rows_[:2])[:, O.cols_],
                "error": b.projection_error(X)}
    return run


def register_bases(tier):
    for kind in ("none", "1-D", "2-D"):
        experiment(f"basis/Linear/{kind}", dict(rows=4, vecs=3, cols=4),
                   linear_run(kind))
        for solver in ("dense", "method-of-snapshots", "randomized"):
            for crit in (("num_vectors", 2), ("residual_energy", 1e-3),
                         ("projection_error", 0.05)):
                experiment(f"basis/POD/{kind}/{solver}/{crit[0]}",
                           dict(rows=4, cols=4), pod_run(kind, solver, crit),
                           tol=1e-7)
    experiment("basis/sizes", dict(vars=3, cols=4), sizes_run("basis"))


# Time derivatives ------------------------------------------------------------
def estimator_run(make):
    def run(O):
        t = np.linspace(0, 1, 12)
        Q, V = gen(3, 12, tag=1)[O.rows], gen(3, 12, tag=2)[O.inputs]
        est = make(t)
        Qt, Zt, Vt = est.estimate(Q, V)
        return {"states": Qt[O.rows_], "ddts": Zt[O.rows_],
                "inputs": Vt[O.inputs_], "single": np.vstack([
                    est.estimate(Q[i:i + 1])[1] for i in O.rows_]),
                "mask": est.mask(Q)[O.rows_]}
    return run


REVERSED = {**{f"fwd{i}": f"bwd{i}" for i in range(1, 7)},
            **{f"bwd{i}": f"fwd{i}" for i in range(1, 7)},
            **{x: x for x in ("ctr2", "ctr4", "ctr6", "ord2", "ord4",
                              "ord6")}}


def reversal_case(c):
    """Backwards in time, the derivatives change their sign."""
    Q, V = gen(3, 14, tag=1), gen(2, 14, tag=2)
    t = np.linspace(0, 1, 14)
    tn = np.linspace(0, 1, 14) ** 1.5 + 0.1 * t
    pairs = {}
    for a, b in REVERSED.items():
        pairs[a] = (getattr(D, a)(Q, 0.1, V), getattr(D, b)(
            Q[:, ::-1], 0.1, V[:, ::-1]))
        pairs[f"Uniform/{a}"] = (
            D.UniformFiniteDifferencer(t, a).estimate(Q, V),
            D.UniformFiniteDifferencer(t, b).estimate(
                Q[:, ::-1], V[:, ::-1]))
    for nm, mk in (("Nonuniform", D.NonuniformFiniteDifferencer),
                   ("cubic", D.InterpDerivativeEstimator),
                   ("akima", lambda x: D.InterpDerivativeEstimator(
                       x, "akima")),
                   ("pchip", lambda x: D.InterpDerivativeEstimator(
                       x, interp.PchipInterpolator))):
        pairs[nm] = (mk(tn).estimate(Q, V),
                     mk(tn[-1] - tn[::-1]).estimate(Q[:, ::-1], V[:, ::-1]))
    for order in (2, 4, 6):
        pairs[f"ddt_uniform {order}"] = tuple(
            (X, D.ddt_uniform(X, 0.1, order), X)
            for X in (Q, Q[:, ::-1]))
    pairs["ddt_nonuniform"] = ((Q, D.ddt_nonuniform(Q, tn), Q), (
        Q[:, ::-1], D.ddt_nonuniform(Q[:, ::-1], tn[-1] - tn[::-1]), Q[
            :, ::-1]))
    for nm, ((Q1, Z1, V1), (Q2, Z2, V2)) in pairs.items():
        with c.sub(nm):
            c.op(nm, 2)
            c.close(Q2[:, ::-1], Q1, "states", 1e-9)
            c.close(-Z2[:, ::-1], Z1, "ddts", 1e-8)
            c.close(V2[:, ::-1], V1, "inputs", 1e-9)
            c.state(nm)
    c.trace("reversal")


def register_ddt(tier):
    for nm in REVERSED:
        experiment(f"ddt/{nm}", dict(rows=3, inputs=3), estimator_run(
            lambda t, nm=nm: D.UniformFiniteDifferencer(t, nm)), few=(
                "inputs",))
    for nm, mk in (
            ("nonuniform", lambda t: D.NonuniformFiniteDifferencer(
                t + 0.3 * t * t)),
            ("cubic", D.InterpDerivativeEstimator),
            ("akima", lambda t: D.InterpDerivativeEstimator(t, "akima")),
            ("pchip", lambda t: D.InterpDerivativeEstimator(
                t, interp.PchipInterpolator))):
        experiment(f"ddt/{nm}", dict(rows=3, inputs=3), estimator_run(mk))


# Least squares ---------------------------------------------------------------
REG = np.array([1.0, 2.0, 0.5])
REGD = np.array([[1.0, 2.0, 0.5], [0.3, 0.1, 2.0], [0.7, 1.0, 0.2]])
REGM = np.array([[1.0, 0.2, 0.0], [0.0, 2.0, 0.1], [0.3, 0.0, 1.0]])
SOLVERS = {
    "Plain": lambda d, z: L.PlainSolver(),
    "L2": lambda d, z: L.L2Solver(0.5),
    "L2D": lambda d, z: L.L2DecoupledSolver(np.array([0.5, 2.0, 1.0])[z]),
    "Tik/diag": lambda d, z: L.TikhonovSolver(REG[d]),
    "Tik/full": lambda d, z: L.TikhonovSolver(REGM[:, d]),
    "Tik/normal": lambda d, z: L.TikhonovSolver(REGM[:, d], method="normal"),
    "TikD": lambda d, z: L.TikhonovDecoupledSolver(REGD[z][:, d]),
    "TikD/full": lambda d, z: L.TikhonovDecoupledSolver(
        [[REGM, REGM.T, 2 * REGM][i][:, d] for i in z]),
    "TikD/normal": lambda d, z: L.TikhonovDecoupledSolver(
        [[REGM, REGM.T, 2 * REGM][i][:, d] for i in z], method="normal"),
    "TSVD": lambda d, z: L.TruncatedSVDSolver(2),
    "Total": lambda d, z: L.TotalLeastSquaresSolver(),
}


def solver_run(nm, k, rank):
    def run(O):
        A = gen(k, 3, tag=2)
        if rank < 3:
            A[:, 2] = A[:, 0] - 0.5 * A[:, 1]
        A = A[:, O.coef]
        Z = gen(3, k, tag=3)[O.lhs]
        cols = np.arange(k)
        cols[:4] = cols[:4][O.cols]
        cols = np.roll(cols, 3)
        s = SOLVERS[nm](O.coef, O.lhs)
        s.fit(A[cols], Z[:, cols])
        X = gen(3, 3, tag=7)[O.lhs][:, O.coef]
        back = np.ix_(O.lhs_, O.coef_)
        dd = np.ix_(O.coef_, O.coef_)
        out = {"solve": s.solve()[back],
               "residual": s.residual(X)[O.lhs_]}
        if rank == 3:
            out["cond"] = s.cond()
        if hasattr(s, "regcond"):
            rc = np.asarray(s.regcond())
            out["regcond"] = rc[O.lhs_] if rc.ndim else rc
            out["regresidual"] = s.regresidual(X)[O.lhs_]
            m, p = s.posterior()
            out["means"] = [np.asarray(m[i])[O.coef_] for i in O.lhs_]
            out["precisions"] = [np.asarray(p[i])[dd] for i in O.lhs_]
        if nm == "Total":
            out["augcond"], out["tls error"] = s.augcond, s.error
        if nm == "TSVD":
            out["tcond"] = s.tcond()
        return out
    return run


def register_solvers(tier):
    for nm in SOLVERS:
        for k, rank in ((9, 3), (9, 2), (4, 3)):
            if nm == "Total" and (k, rank) != (9, 3):
                continue
            experiment(f"lstsq/{nm}/{k}/{rank}",
                       dict(lhs=3, coef=3, cols=4), solver_run(nm, k, rank),
                       tol=1e-7)


# Operators and models --------------------------------------------------------
FORM = {"c": "ConstantOperator", "A": "LinearOperator",
        "H": "QuadraticOperator", "G": "CubicOperator",
        "B": "InputOperator", "N": "StateInputOperator"}


def coordinates(O, r):
    """Orthogonal change of coordinates: permutation and signs."""
    V = np.eye(r)[:, O.rows]
    if hasattr(O, "signs"):
        bits = int(O.signs[0])
        V = V * np.array([(-1.0) ** (bits >> i & 1) for i in range(r)])
    return V


def operator_run(nm, r=3, m=3):
    """galerkin() with a permutation; batches in any order."""
    def run(O):
        op = ops.cls(nm)(ops.entries_of(nm, r, m))
        V = coordinates(O, r)
        new = op.galerkin(V)
        q, u = gen(r, tag=5), gen(m, tag=6)
        Q, U = gen(r, 4, tag=7)[:, O.cols], gen(m, 4, tag=8)[:, O.cols]
        out = {"apply": V @ new.apply(V.T @ q, u),
               "jacobian": V @ new.jacobian(V.T @ q, u) @ V.T
               if nm not in ("ConstantOperator", "InputOperator") else 0}
        many = V @ np.reshape(new.apply(V.T @ Q, U), (r, -1))
        out["many"] = many[:, O.cols_] if many.shape[1] == 4 else many
        out["block"] = np.linalg.norm(ops.cls(nm).datablock(V.T @ Q, U), axis=0)[
            O.cols_]
        if nm in ops.HAS_INPUT:
            E = op.entries
            d = E.shape[1] // m
            E = np.hstack([E[:, d * i:d * (i + 1)] for i in O.inputs])
            other = ops.cls(nm)(E)
            out["inputs"] = other.apply(q, u[O.inputs])
        return out
    return run


def model_run(kind, form, r=2, m=2):
    """Training in permuted, reflected coordinates, in any order."""
    disc = kind == "D"

    def run(O):
        f = [form[i] for i in O.ops]
        V = coordinates(O, r)
        cl = M.DiscreteModel if disc else M.ContinuousModel
        model = cl("".join(f), solver=L.L2Solver(0.1))
        k = 4 * len(form) + 6
        cols = np.arange(k)
        cols[:4] = cols[:4][O.cols]
        cols[-4:] = cols[-4:][O.cols]
        Q, Z = gen(r, k, tag=1)[:, cols], gen(r, k, tag=2)[:, cols]
        U = gen(m, k, tag=3)[O.inputs][:, cols]
        hasin = bool(set("BN") & set(form))
        model.fit(V.T @ Q, V.T @ Z, U if hasin else None)
        q, u = gen(r, tag=5), gen(m, tag=6)[O.inputs]
        U2 = 0.1 * gen(m, 4, tag=9)[O.inputs] if hasin else None
        out = {}
        if disc:
            out["rhs"] = V @ model.rhs(V.T @ q, u)
            out["jacobian"] = V @ model.jacobian(V.T @ q, u) @ V.T
            out["predict"] = V @ model.predict(0.1 * V.T @ q, 3, U2)
        else:
            out["rhs"] = V @ model.rhs(0, V.T @ q, lambda t: u)
            out["jacobian"] = V @ model.jacobian(
                0, V.T @ q, lambda t: u) @ V.T
        s = model.solver
        out["cond"] = [s.cond(), s.regcond()]
        out["residual"] = np.sum(s.residual(s.solve()))
        # parts, by name
        for i, ch in enumerate(form):
            op = model.operators[int(O.ops_[i])]
            out[f"part {ch}"] = V @ op.apply(V.T @ q, u)
        known = cl([ops.cls(FORM[ch])(op.entries) for ch, op in zip(
            f, model.operators)])
        out["again"] = (V @ known.rhs(V.T @ q, u)) if disc else (
            V @ known.rhs(0, V.T @ q, lambda t: u))
        return out
    return run


def parametric_run(fam, kind, form):
    disc = kind == "Discrete"
    hasin = "B" in form
    base = [0.5, 1.0, 1.7, 2.5]
    pts = np.array([[0, 0], [1, 0.1], [0.2, 1], [1, 1.2]])

    def run(O):
        mus = [base[i] for i in O.traj]
        test = [0.7, 1.0, 2.2]
        co = [lambda mu: 1.0, lambda mu: np.ravel(mu)[0],
              lambda mu: np.sin(np.ravel(mu)[0])]
        if fam == "Affine":
            co = [co[i] for i in O.terms]
            model = getattr(M, f"Parametric{kind}Model")(
                [ops.cls("Affine" + FORM[form[i]])(co) for i in O.ops])
        elif fam == "Interp":
            model = getattr(M, f"Interp{kind}Model")(
                [ops.cls("Interp" + FORM[form[i]])() for i in O.ops])
        elif fam == "Interp2":
            mus = [pts[i] for i in O.traj]
            test = [np.array([0.3, 0.4]), np.array([0.8, 0.7])]
            model = getattr(M, f"Interp{kind}Model")(
                [ops.cls("Interp" + FORM[form[i]])() for i in O.ops])
        else:
            model = getattr(M, f"Parametric{kind}Model")(
                [ops.cls("Affine" + FORM[form[i]])(co) if i else
                 ops.cls("Interp" + FORM[form[i]])() for i in O.ops])
        ks = [12, 15, 13, 14]
        Qs = [gen(2, ks[i], tag=i) for i in O.traj]
        Zs = [gen(2, ks[i], tag=9 + i) for i in O.traj]
        Us = [gen(2, ks[i], tag=19 + i)[O.inputs] for i in O.traj]
        model.fit(mus, Qs, Zs, Us if hasin else None)
        out = {}
        q, u = 0.5 * gen(2, tag=4), gen(2, tag=5)[O.inputs]
        for j, x in enumerate(test):
            ev = model.evaluate(x)
            for i, ch in enumerate(form):
                op = ev.operators[int(O.ops_[i])]
                out[f"{ch} {j}"] = op.apply(q, u)
            if disc:
                out[f"rhs {j}"] = model.rhs(x, q, u)
                out[f"predict {j}"] = model.predict(
                    x, 0.1 * q, 3, np.column_stack([u, u]) if hasin else None)
            else:
                out[f"rhs {j}"] = model.rhs(0, x, q, lambda t: u)
                out[f"jacobian {j}"] = model.jacobian(
                    0, x, q, lambda t: u)
        return out
    return run


def register_models(tier):
    for nm in ops.NONPAR:
        experiment(f"operators/{nm}", dict(
            rows=3, signs=8, cols=4, inputs=3), operator_run(nm))
    for kind in "CD":
        for form in ("A", "cA", "AB", "H", "cAH", "AG", "AN", "ABN", "cAHB",
                     "cAHGBN"):
            experiment(f"models/{kind}/{form}", dict(
                rows=2, signs=4, ops=len(form), inputs=2, cols=4), model_run(
                    kind, form), tol=1e-6, few=("ops",) if len(form) > 4
                else ())
        for form in ("A", "AH"):
            experiment(f"models/{kind}/{form}/3", dict(
                rows=3, signs=8, ops=len(form), cols=4), lambda O, kd=kind,
                f=form: model_run(kd, f, r=3, m=2)(inputs_of(O)), tol=1e-6)
    for fam in ("Affine", "Interp", "Interp2", "Mixed"):
        for kind in ("Continuous", "Discrete"):
            for form in ("A", "cA", "AB", "cAB"):
                if fam == "Mixed" and len(form) == 1:
                    continue
                experiment(f"models/{fam}{kind}/{form}", dict(
                    traj=4, ops=len(form), inputs=2, terms=3),
                    parametric_run(fam, kind, form), tol=1e-6,
                    few=("terms",) if fam != "Affine" else ())


def inputs_of(O):
    O.inputs = O.inputs_ = np.arange(2)
    return O


# Lifting, errors -------------------------------------------------------------
def lift_run(O):
    Q = (np.abs(gen(4, 4, tag=1)) + 0.5)[O.rows][:, O.cols]
    Z = gen(4, 4, tag=2)[O.rows][:, O.cols]
    out = {}
    for orders_ in ((1, 2), (1, 2, 3), (2, -1), (3,), (0.5, 1), (-2, 0, 1)):
        lf = opinf.lift.PolynomialLifter(orders_)
        if orders_ == (1, 2):
            lf = opinf.lift.QuadraticLifter()
        rows = np.concatenate([O.rows_ + 4 * i for i in range(len(orders_))])
        Y = lf.lift(Q)
        out[f"{orders_}"] = Y[np.ix_(rows, O.cols_)]
        out[f"{orders_} ddts"] = lf.lift_ddts(Q, Z)[np.ix_(rows, O.cols_)]
        out[f"{orders_} back"] = lf.unlift(Y)[np.ix_(O.rows_, O.cols_)]
    return out


def error_run(O):
    A = gen(4, 4, tag=1)[O.rows][:, O.cols]
    X = gen(4, 4, tag=2)[O.rows][:, O.cols]
    out = {}
    for p in (1, 2, 3, np.inf):
        for norm in (False, True):
            out[f"lp {p} {norm}"] = [e[O.cols_] for e in opinf.post.lp_error(
                A, X, p=p, normalize=norm)]
        out[f"vector {p}"] = list(opinf.post.lp_error(
            A[:, O.cols_[1]], X[:, O.cols_[1]], p=p))
        # spacing of the time does not depend on the rows
        t = None if p == np.inf else np.array([0, 0.1, 0.5, 1.0])
        out[f"Lp {p}"] = list(opinf.post.Lp_error(
            A[:, O.cols_], X[:, O.cols_], t, p=p))
        # backwards in time
        out[f"Lp {p} back"] = list(opinf.post.Lp_error(
            A[:, O.cols_][:, ::-1], X[:, O.cols_][:, ::-1],
            None if t is None else 1 - t[::-1], p=p))
    out["frobenius"] = list(opinf.post.frobenius_error(A, X))
    V = np.linalg.qr(gen(4, 2, tag=5))[0][O.rows]
    out["projection"] = list(opinf.post.projection_error(A, V))
    return out


# Reduced-order models --------------------------------------------------------
def trajectories(hasin):
    out = []
    for j, k in enumerate((16, 19, 14)):
        t = np.linspace(0, 1.5, k)
        Q = np.array([1 + x + (1 + 0.3 * j) * np.exp(-t) * np.sin(3 * x + j)
                      + 0.5 * np.exp(-0.5 * t) * np.cos(2 * t + x)
                      for x in (0.25, 0.5, 0.8, 1.0)])
        out.append((t, Q, gen(2, k, tag=40 + j) if hasin else None))
    return out


def rom_run(kind, form, tname, bname, select=None):
    disc, hasin = kind == "D", "B" in form

    def run(O):
        data = trajectories(hasin)
        t0 = data[0][0]
        data = [data[i] for i in O.traj]
        Qs = [Q[O.rows] for _, Q, _ in data]
        Us = [U[O.inputs] for *_, U in data] if hasin else None
        Zs = None
        if not disc:
            Zs = [D.ddt_nonuniform(Q, t) for (t, _, _), Q in zip(data, Qs)]
        tr = {"": None, "center": P.ShiftScaleTransformer(True),
              "maxabs": P.ShiftScaleTransformer(True, "maxabs"),
              "byrow": P.ShiftScaleTransformer(True, "standard", True),
              }[tname]
        bs = {"": None, "POD": B.PODBasis(num_vectors=2),
              "weighted": B.PODBasis(num_vectors=2, weights=WD[O.rows]),
              "Linear": B.LinearBasis(np.linalg.qr(gen(4, 2, tag=3))[0][
                  O.rows])}[bname]
        cl = M.DiscreteModel if disc else M.ContinuousModel
        model = cl(form, solver=L.L2Solver(0.05))
        kw = dict(transformer=tr, basis=bs)
        rom = R.BayesianROM(model, **kw) if select == "bayes" else (
            opinf.ROM(model, **kw))
        out = {}
        if select in ("select", "both"):
            cand = np.array([1e-3, 1e-1, 10.0])[O.cand]
            q0 = [Q[:, 0] for Q in Qs]
            if disc:
                tests = [U_.DiscreteRegTest(
                    q0[i] * 0.9, 20, inputs=np.zeros((2, 20)) if hasin
                    else None) for i in range(3)]
                rom.fit_regselect_discrete(cand, Qs, inputs=Us,
                                           test_cases=tests,
                                           num_test_iters=4
                                           if not hasin else 0)
            else:
                tests = [U_.ContinuousRegTest(
                    q0[i] * 0.9, t0, input_function=(
                        lambda t: np.zeros(2)) if hasin else None)
                    for i in range(3)]
                rom.fit_regselect_continuous(
                    cand, [t for t, _, _ in data], Qs, Zs,
                    input_functions=[(lambda t, j=j: np.array(
                        [np.sin(t + j), np.cos(t)])[O.inputs])
                        for j in O.traj] if hasin else None,
                    test_cases=tests, test_time_length=0.4, rtol=1e-9,
                    atol=1e-11)
            out["regularizer"] = np.log10(float(np.ravel(
                rom.model.solver.regularizer)[0]))
        else:
            rom.fit(Qs, Zs, Us)
        X = data[int(O.traj_[0])][1][O.rows]
        if bname in ("", "Linear"):
            # no signs to be chosen
            Y = rom.encode(X)
            V = rom.basis
            out["encode"] = Y if V is not None else Y[O.rows_]
        out["project"] = rom.project(X)[O.rows_]
        rc = rom.model.solver
        if select != "both":
            out["cond"] = [rc.cond(), rc.regcond()]
        if select == "bayes":
            pst = rom.posterior
            out["covs"] = [np.sort(np.linalg.eigvalsh(
                pst.covs[0] / np.trace(pst.covs[0])))]
            if bname == "Linear":
                out["means"], out["all covs"] = list(pst.means), list(
                    pst.covs)
                np.random.seed(4)
                out["draw"] = pst.rvs()
            return out
        q0 = X[:, 0]
        U0 = gen(2, 6, tag=50)[O.inputs] if hasin else None
        if disc:
            out["predict"] = rom.predict(q0, 6, U0)[O.rows_]
        else:
            out["predict"] = rom.predict(
                q0, t0[:6], U0, rtol=1e-9, atol=1e-11)[O.rows_]
        return out
    return run


U_ = opinf.utils


def limits_run(kind, tname, bayes):
    """Trajectories of different sizes and steps, each with its own limit;
    one of them grows beyond it for the best fits."""
    disc = kind == "D"
    sizes = [(20, (0.1, 0.0), 1.1), (14, (10.0, 0.0), 0.9),
             (17, (0.2, 0.05), 1.0)]

    def run(O):
        data = []
        for k, (a, b), end in sizes:
            t = np.linspace(0, end, k)
            data.append((t, np.array([a * np.exp(-t),
                                      b * np.exp(1.2 * t)])))
        data = [data[i] for i in O.traj]
        ts, Qs = [t for t, _ in data], [Q for _, Q in data]
        cl = M.DiscreteModel if disc else M.ContinuousModel
        out = {}
        for margin in (2.0, 6.0, 12.0, 25.0, 1e6):
            seen = []

            class Watched(cl):
                def predict(self, *args, **kwargs):
                    q0, t = args[:2]
                    seen.append((float(np.ravel(q0)[0]), np.size(t),
                                 float(np.max(t))))
                    return super().predict(*args, **kwargs)

            kw = dict(model=Watched("A", solver=L.L2Solver(1.0)),
                      transformer=P.ScaleTransformer(2.0) if tname else None)
            rom = (R.BayesianROM if bayes else opinf.ROM)(**kw)
            cand = np.array([1e-6, 0.1, 0.3, 1.0])[O.cand]
            args = dict(stability_margin=margin, gridsearch_only=True)
            try:
                if disc:
                    rom.fit_regselect_discrete(
                        cand, Qs, num_test_iters=12, **args)
                else:
                    rom.fit_regselect_continuous(
                        cand, ts, Qs, [D.ddt_uniform(Q, t[1] - t[0], 6)
                                       for t, Q in data],
                        test_time_length=1.5, rtol=1e-9, atol=1e-11, **args)
                out[f"{margin}"] = float(np.ravel(
                    rom.model.solver.regularizer)[0])
            except RuntimeError as ex:
                if "grid search failed" not in str(ex):
                    raise
                out[f"{margin}"] = -1.0
            if margin == 1e6 and not bayes:
                out["lengths"] = sorted(set(seen))
        return out
    return run


def posterior_run(dims, inverted):
    """The rows of the posterior may come in any order."""
    def run(O):
        means = [gen(d, tag=40 + i) for i, d in enumerate(dims)]
        covs = [spd(d, tag=50 + i) for i, d in enumerate(dims)]
        mats = covs if inverted else [np.linalg.inv(C) for C in covs]
        post = R.OperatorPosterior([means[i] for i in O.lhs], [
            mats[i] for i in O.lhs], alreadyinverted=inverted)
        out = {"means": [post.means[i] for i in O.lhs_],
               "covs": [post.covs[i] for i in O.lhs_]}
        # almost no variance: the draw is the mean
        post = R.OperatorPosterior(
            [means[i] for i in O.lhs],
            [1e-30 * covs[i] if inverted else 1e30 * mats[i]
             for i in O.lhs], alreadyinverted=inverted)
        draw = attempt(post.rvs)
        out["draw"] = draw if isinstance(draw, Raised) else [
            draw[i] for i in O.lhs_]
        out["array"] = float(isinstance(draw, np.ndarray))
        return out
    return run


def rotation_run(kind, form):
    """Bases of the same space give the same reduced-order model."""
    disc = kind == "D"

    def run(O):
        V = np.linalg.qr(gen(4, 3, tag=3))[0] @ coordinates(O, 3)
        data = trajectories(False)
        t0 = data[0][0]
        Qs = [Q for _, Q, _ in data]
        Zs = None if disc else [D.ddt_nonuniform(Q, t) for t, Q, _ in data]
        cl = M.DiscreteModel if disc else M.ContinuousModel
        rom = opinf.ROM(cl(form, solver=L.L2Solver(0.05)),
                        transformer=P.ShiftScaleTransformer(True),
                        basis=B.LinearBasis(V))
        rom.fit(Qs, Zs)
        X = Qs[0]
        out = {"project": rom.project(X), "cond": rom.model.solver.cond()}
        if disc:
            out["predict"] = rom.predict(X[:, 0], 6)
        else:
            out["predict"] = rom.predict(X[:, 0], t0[:6], rtol=1e-9,
                                         atol=1e-11)
        return out
    return run


def parametric_rom_run(kind, fam):
    disc = kind == "D"

    def run(O):
        data = [trajectories(False)[i] for i in O.traj]
        mus = [[0.5, 1.0, 1.7][i] for i in O.traj]
        Qs = [Q[O.rows] for _, Q, _ in data]
        Zs = None if disc else [D.ddt_nonuniform(Q, t)
                                for (t, _, _), Q in zip(data, Qs)]
        full = "Discrete" if disc else "Continuous"
        if fam == "Interp":
            model = getattr(M, f"Interp{full}Model")(
                "A", solver=L.L2Solver(0.05))
        else:
            model = getattr(M, f"Parametric{full}Model")(
                [ops.cls("AffineLinearOperator")([
                    lambda mu: 1.0, lambda mu: np.ravel(mu)[0]])],
                solver=L.L2Solver(0.05))
        rom = R.ParametricROM(
            model, transformer=P.ShiftScaleTransformer(True, "maxabs"),
            basis=B.PODBasis(num_vectors=2))
        rom.fit(mus, Qs, Zs)
        q0 = trajectories(False)[1][1][O.rows][:, 0]
        out = {}
        for mu in (0.5, 1.2):
            if disc:
                out[f"{mu}"] = rom.predict(mu, q0, 5)[O.rows_]
            else:
                out[f"{mu}"] = rom.predict(
                    mu, q0, np.linspace(0, 0.5, 5), rtol=1e-9,
                    atol=1e-11)[O.rows_]
        return out
    return run


def register_roms(tier):
    for dims in itertools.combinations_with_replacement((1, 2, 3), 3):
        for inverted in (False, True):
            name = "".join(map(str, dims))
            experiment(f"posterior/{name}/{inverted}", dict(lhs=3),
                       posterior_run(dims, inverted), tol=1e-7)
    for kind in "CD":
        for form in ("A", "cA", "AH", "AB"):
            sizes = dict(rows=4, traj=3)
            sizes.update(inputs=2)
            for tname, bname in itertools.product(
                    ("", "center", "maxabs", "byrow"),
                    ("", "POD", "weighted", "Linear")):
                if tier == "quick" and form in ("cA", "AH") and (
                        tname not in ("center", "byrow") or not bname):
                    continue
                experiment(f"roms/{kind}/{form}/{tname}/{bname}", sizes,
                           rom_run(kind, form, tname, bname), tol=1e-5)
        for form in ("A", "AB"):
            experiment(f"roms/{kind}/{form}/select", dict(
                rows=4, traj=3, inputs=2, cand=3), rom_run(
                    kind, form, "maxabs", "POD", "select"), tol=1e-3,
                few=("rows",))
        for tname in ("", "scale"):
            experiment(f"roms/{kind}/{tname}/limits",
                       dict(traj=3, cand=4), limits_run(kind, tname, False),
                       tol=1e-6)
        for bname in ("POD", "Linear"):
            experiment(f"roms/{kind}/A/{bname}/bayes", dict(
                rows=4, traj=3, inputs=2), rom_run(
                    kind, "A", "center", bname, "bayes"), tol=1e-5)
        for form in ("A", "cA", "AH"):
            experiment(f"roms/{kind}/{form}/rotation", dict(
                rows=3, signs=8), rotation_run(kind, form), tol=1e-6)
        for fam in ("Interp", "Affine"):
            experiment(f"roms/{fam}/{kind}", dict(rows=4, traj=3),
                       parametric_rom_run(kind, fam), tol=1e-5)


def cases(tier):
    EXPERIMENTS.clear()
    register_transformers(tier)
    register_bases(tier)
    register_ddt(tier)
    register_solvers(tier)
    register_models(tier)
    experiment("lift", dict(rows=4, cols=4), lift_run)
    experiment("post", dict(rows=4, cols=4), error_run)
    register_roms(tier)
    for name, sizes, run, tol, few in EXPERIMENTS:
        yield name, order_case, (sizes, run, tol, few)
    yield "ddt/reversal", reversal_case, ()
