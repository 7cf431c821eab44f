"""C31: results follow the units of the data."""

import itertools
import warnings

import numpy as np
import scipy.interpolate as interp
import scipy.sparse as sparse

import opinf
from mc import ops, pre
from mc.data import gen, spd
from mc.objs import Raised, attempt

B = opinf.basis
D = opinf.ddt
L = opinf.lstsq
M = opinf.models
P = opinf.pre

BOUNDS = {
    "units": "of the states, the time, the inputs, the parameters and the "
    "weights, and of the two sides of a regression: powers of two (every "
    "arithmetic operation then scales exactly) from 2^-60 to 2^60, one "
    "quantity at a time and all pairs; where columns of different degree "
    "enter one regression, 2^-8 to 2^8",
    "operations": "every transformer (all shift-scale options, pipelines, "
    "several variables with different units), basis (all criteria, solvers "
    "and weights), derivative estimate, least-squares solver, operator, "
    "model, lifting map, error measure, reduced-order model and posterior",
    "oracle": "the same call in the original units; every result is the "
    "original one times the unit that it is measured in",
}
ASSUMPTIONS = [
    "Parameters with a unit (references, regularizers, tolerances of the "
    "integrator, thresholds) are given in the new units.",
]

BIG = (-60, -27, 27, 60)
MID = (-20, -9, 9, 20)
SMALL = (-8, -3, 3, 8)
EXPERIMENTS = []


class Units:
    """Units of the quantities: powers of two (of four for weights)."""

    def __init__(self, **exps):
        self.exps = exps
        for nm in "stupwzd":
            e = exps.get(nm, 0)
            # square roots of weights are needed
            setattr(self, nm, 2.0 ** (2 * (e // 2) if nm == "w" else e))
        self.sqw = self.w ** 0.5

    def __str__(self):
        return ",".join(f"{k}2^{v}" for k, v in self.exps.items()) or "none"


def experiment(name, dims, run, exps=BIG, tol=1e-11, thorough=False):
    """run(units) -> {name: (result, unit)}."""
    EXPERIMENTS.append((name, dims, run, exps, tol, thorough))


# Comparison ------------------------------------------------------------------
def normal(value, unit):
    """Value in the original units."""
    if isinstance(value, Raised):
        return value
    if isinstance(value, (list, tuple)):
        unit = unit if isinstance(unit, (list, tuple)) else [unit] * len(value)
        return [normal(v, u) for v, u in zip(value, unit)]
    if sparse.issparse(value):
        value = value.toarray()
    return np.asarray(value, dtype=float) / unit


def differ(a, b, tol):
    if isinstance(a, Raised) or isinstance(b, Raised):
        return None if (isinstance(a, Raised) and isinstance(b, Raised)
                        and a.type == b.type) else f"{a!r:.90} / {b!r:.90}"
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{len(a)} / {len(b)} parts"
        for x, y in zip(a, b):
            if (out := differ(x, y, tol)):
                return out
        return None
    if a.shape != b.shape:
        return f"shapes {a.shape} / {b.shape}"
    if not a.size:
        return None
    with np.errstate(all="ignore"):
        if not np.array_equal(np.isfinite(a), np.isfinite(b)):
            return "not finite"
        a, b = np.nan_to_num(a), np.nan_to_num(b)
        scale = np.max(np.abs(a))
        err = np.max(np.abs(a - b))
        if err <= tol * scale:
            return None
    return f"relative difference {err / scale if scale else np.inf:.2e}"


def settings(dims, exps, tier):
    for dim in dims:
        for e in exps:
            yield {dim: e}
    for d1, d2 in itertools.combinations(dims, 2):
        vals = exps if tier == "thorough" else exps[1:3]
        for e1, e2 in itertools.product(vals, vals):
            yield {d1: e1, d2: e2}
    if len(dims) > 2:
        vals = exps[1:3]
        for es in itertools.product(vals, repeat=len(dims)):
            yield dict(zip(dims, es))


def unit_case(c, dims, run, exps, tol):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = {k: normal(*v) for k, v in run(Units()).items()}
        for nm, v in base.items():
            if isinstance(v, Raised):
                c.fail("harness", f"{nm}: {v!r}")
            c.state(nm, v if not isinstance(v, list) else str(v))
        for exps_ in settings(dims, exps, c.tier):
            U = Units(**exps_)
            with c.sub(str(U)):
                c.op(f"units {U}")
                out = run(U)
                c.check(set(out) == set(base), "results", f"{set(out)}")
                for nm, (value, unit) in out.items():
                    msg = differ(base[nm], normal(value, unit), tol)
                    c.check(msg is None, f"{nm.replace(' ', '-')}", f"{msg}")
                    c.state(str(U), nm)
    c.trace(f"{len(base)} results")


# Transformers ----------------------------------------------------------------
def transformers():
    """(name, make(unit) -> (transformer, rows, [unit after] per row))."""
    SS = P.ShiftScaleTransformer

    def ss(centering, scaling, byrow):
        return (lambda s: (SS(centering=centering, scaling=scaling,
                              byrow=byrow),
                           s if scaling is None else 1.0))
    for nm, _ in pre.all_ss():
        opts = nm[3:-1].split(",")
        sc = None if opts[1] == "None" else opts[1]
        yield nm, ss(bool(int(opts[0])), sc, bool(int(opts[2])))
    yield "Shift", lambda s: (P.ShiftTransformer(pre.REF3 * s), s)
    yield "Scale", lambda s: (P.ScaleTransformer(2.5), s)
    yield "ScaleRow", lambda s: (P.ScaleTransformer(pre.SC3), s)
    yield "ScaleUnit", lambda s: (P.ScaleTransformer(-2.5 / s), 1.0)
    yield "ScaleRowUnit", lambda s: (P.ScaleTransformer(pre.SC3 * s), s * s)
    yield "Null", lambda s: (P.NullTransformer(), s)


def pipelines(tier):
    menu = dict(transformers())
    names = list(menu)
    pick = names if tier == "thorough" else [
        "SS(1,None,0)", "SS(0,standard,0)", "SS(1,maxabs,0)",
        "SS(1,minmaxsym,1)", "SS(0,maxnormsym,0)", "Shift", "ScaleUnit",
        "ScaleRowUnit"]
    for n1, n2 in itertools.product(pick, pick):
        def make(s, n1=n1, n2=n2):
            t1, s1 = menu[n1](s)
            t2, s2 = menu[n2](s1)
            return P.TransformerPipeline([t1, t2]), s2
        yield f"{n1}+{n2}", make


def transformer_run(make, data):
    def run(U):
        t, after = make(U.s)
        Q = data * U.s
        Z = gen(3, 4, tag=3) * U.s / U.t
        New = gen(3, 4, tag=4) * U.s
        out = {"fit_transform": (attempt(t.fit_transform, Q), after)}
        out["transform"] = attempt(t.transform, New), after
        out["transform vector"] = attempt(t.transform, New[:, 0]), after
        out["ddts"] = attempt(t.transform_ddts, Z), after / U.t
        Y = gen(3, 4, tag=5) * after
        out["inverse"] = attempt(t.inverse_transform, Y), U.s
        locs = np.array([2, 0])
        out["locs"] = attempt(
            lambda: t.inverse_transform(Y[locs], locs=locs)), U.s
        if isinstance(t, P.ShiftScaleTransformer):
            if t.centering:
                out["mean_"] = t.mean_, U.s
            if t.scaling:
                out["scale_"] = t.scale_, 1 / U.s
                out["shift_"] = t.shift_, 1.0
        return out
    return run


def multi_run(names, menu):
    """Several variables with different units: s, s^2, 1/s."""
    def run(U):
        units = [U.s, U.s ** 2, 1 / U.s]
        made = [menu[nm](s) for nm, s in zip(names, units)]
        rows = np.repeat(units, 3)[:, None]
        after = np.repeat([a for _, a in made], 3)[:, None]
        t = P.TransformerMulti([m for m, _ in made], [3] * 3)
        Q = np.vstack([gen(3, 6, tag=i) for i in range(3)]) * rows
        out = {"fit_transform": (attempt(t.fit_transform, Q), after)}
        New = gen(9, 4, tag=7)
        out["transform"] = attempt(t.transform, New * rows), after
        out["ddts"] = attempt(t.transform_ddts, New * rows / U.t), (
            after / U.t)
        out["inverse"] = attempt(t.inverse_transform, New * after), rows
        locs = np.array([2, 1])
        ii = np.concatenate([locs, 3 + locs, 6 + locs])
        out["locs"] = attempt(lambda: t.inverse_transform(
            (New * after)[ii], locs=locs)), rows[ii]
        return out
    return run


def function_run(U):
    Q = gen(3, 5, tag=1) * U.s
    out = {"shift": (list(P.shift(Q)), U.s),
           "shift by": (P.shift(Q, Q[:, 0]), U.s)}
    Y, to, fr = P.scale(Q, (-2.0, 3.0))
    out["scale"] = Y, 1.0
    out["scale to"], out["scale from"] = (to, 1.0), (fr, U.s)
    out["scale unit"] = P.scale(Q, (-2 * U.s, U.s))[0], U.s
    out["scale back"] = P.scale(Y, fr, to)[0], U.s
    return out


def register_transformers(tier):
    flat = gen(3, 6, tag=1) + np.array([[0.0], [100.0], [-3.0]])
    one = gen(3, 1, tag=2)
    for nm, make in transformers():
        experiment(f"pre/{nm}", "st", transformer_run(make, flat))
        if not nm.startswith("SS(1"):
            experiment(f"pre/{nm}/one", "s", transformer_run(make, one))
    for nm, make in pipelines(tier):
        experiment(f"pre/{nm}", "s", transformer_run(make, flat))
    menu = dict(transformers())
    pick = ["SS(1,None,0)", "SS(0,standard,0)", "SS(1,maxabs,1)", "Shift",
            "Null"]
    for names in itertools.product(pick, repeat=3):
        if tier == "quick" and len(set(names)) != 3:
            continue
        experiment(f"pre/Multi({'|'.join(names)})", "st",
                   multi_run(names, menu), exps=(-30, -13, 13, 30))
    experiment("pre/functions", "s", function_run)


# Bases -----------------------------------------------------------------------
WD = np.array([1.0, 2.0, 0.5, 4.0, 3.0])
DECAY = gen(5, 7, tag=10) * 0.25 ** np.arange(5)[:, None]


def weights_of(kind, w):
    if kind == "none":
        return None
    if kind == "1-D":
        return WD * w
    W = (np.diag(WD) + 0.1 * spd(5, tag=4)) * w
    return W if kind == "2-D" else sparse.csr_array(W)


def basis_results(b, U, sw, out, svd=False):
    X = gen(5, 4, tag=11) * U.s
    Y = gen(b.reduced_state_dimension, 3, tag=12) * U.s * sw
    out["entries"] = b.entries, 1 / sw
    out["compress"] = attempt(b.compress, X), U.s * sw
    out["compress vector"] = attempt(b.compress, X[:, 0]), U.s * sw
    out["decompress"] = attempt(b.decompress, Y), U.s
    out["locs"] = attempt(lambda: b.decompress(Y, locs=np.array([3, 1]))), U.s
    out["project"] = attempt(b.project, X), U.s
    out["error"] = attempt(b.projection_error, X), 1.0
    out["absolute error"] = attempt(
        lambda: b.projection_error(X, relative=False)), U.s
    if svd:
        out["svdvals"] = b.svdvals, 1.0
        out["energies"] = [b.cumulative_energy, b.residual_energy], 1.0
        if b.rightvecs is not None:
            R = b.rightvecs
            out["rightvecs"] = R * np.sign(R[:, :1]), 1.0
        out["left"] = b.leftvecs, 1 / sw
    return out


def linear_run(kind):
    V = np.linalg.qr(gen(5, 3, tag=9))[0]

    def run(U):
        W = weights_of(kind, 1.0)
        sw = 1.0 if W is None else U.sqw
        if W is None:
            E = V
        elif kind == "1-D":
            E = V / np.sqrt(WD)[:, None]
        else:
            A = W.toarray() if sparse.issparse(W) else W
            E = np.linalg.solve(np.linalg.cholesky(A).T, V)
        b = B.LinearBasis(E / sw, weights=weights_of(kind, U.w))
        with warnings.catch_warnings(record=True) as told:
            warnings.simplefilter("always")
            B.LinearBasis(E / sw, weights=weights_of(kind, U.w))
            B.LinearBasis(2 * E / sw, weights=weights_of(kind, U.w))
        return basis_results(b, U, sw, {"warnings": (len(told), 1.0)})
    return run


CRITERIA = (("num_vectors", 2), ("svdval_threshold", 0.1),
            ("cumulative_energy", 0.9), ("residual_energy", 1e-3),
            ("projection_error", 0.05))


def pod_run(kind, solver, crit, options=()):
    def run(U):
        sw = 1.0 if kind == "none" else U.sqw
        opts = dict(options)
        if solver == "method-of-snapshots":
            opts["minthresh"] = 1e-15 * (U.s * sw) ** 2
        if solver == "randomized":
            opts["random_state"] = 5
        b = B.PODBasis(**{crit[0]: crit[1]}, svdsolver=solver,
                       weights=weights_of(kind, U.w), **opts)
        b.fit(DECAY * U.s)
        out = basis_results(b, U, sw, {"r": (b.reduced_state_dimension, 1.0)},
                            svd=True)
        for nm, val in CRITERIA:
            b.set_dimension(**{nm: val})
            out[f"set {nm}"] = b.reduced_state_dimension, 1.0
        f = B.PODBasis.from_svd(b.leftvecs, b.svdvals * U.s * sw,
                                **{crit[0]: crit[1]},
                                weights=weights_of(kind, U.w))
        out["from_svd"] = [f.svdvals, f.reduced_state_dimension,
                           f.cumulative_energy], 1.0
        if solver != "randomized" and kind != "sparse":
            V, sv = B.pod_basis(DECAY * U.s, num_vectors=2, svdsolver=solver,
                                weights=weights_of(kind, U.w),
                                **{k: v for k, v in opts.items()
                                   if k != "max_vectors"})
            out["pod_basis"], out["pod values"] = (V, 1 / sw), (
                sv / sv[0], 1.0)
        return out
    return run


def energy_run(U):
    sv = 0.3 ** np.arange(6) * U.s
    return {
        "svdval_decay": (B.svdval_decay(sv, [1e-1, 1e-2], plot=False), 1.0),
        "cumulative_energy": (B.cumulative_energy(
            sv, [0.9, 0.999], plot=False), 1.0),
        "residual_energy": (B.residual_energy(
            sv, [1e-1, 1e-3], plot=False), 1.0),
        "method": (list(B.method_of_snapshots(
            DECAY * U.s, minthresh=1e-15 * U.s ** 2)[:2]), [1.0, U.s]),
    }


def multibasis_run(U):
    rows = np.repeat([U.s, 1 / U.s], [3, 5])[:, None]
    b = B.BasisMulti([B.LinearBasis(np.eye(3)[:, [2, 0]]),
                      B.PODBasis(projection_error=0.1)], [3, 5])
    Q = np.vstack([gen(3, 7, tag=1), DECAY]) * rows
    b.fit(Q)
    r = np.array(b.reduced_variable_sizes)
    red = np.repeat([U.s, 1 / U.s], r)[:, None]
    Y = gen(int(r.sum()), 3, tag=12) * red
    return {"sizes": (r, 1.0), "compress": (b.compress(Q), red),
            "decompress": (b.decompress(Y), rows),
            "project": (b.project(Q), rows)}


def register_bases(tier):
    for kind in ("none", "1-D", "2-D", "sparse"):
        dims = "s" if kind == "none" else "sw"
        experiment(f"basis/Linear/{kind}", dims, linear_run(kind))
        for solver in ("dense", "method-of-snapshots", "randomized"):
            for crit in CRITERIA:
                experiment(f"basis/POD/{kind}/{solver}/{crit[0]}", dims,
                           pod_run(kind, solver, crit), tol=1e-9)
            experiment(f"basis/POD/{kind}/{solver}/max", dims, pod_run(
                kind, solver, ("num_vectors", 2), {"max_vectors": 3}),
                tol=1e-9)
    experiment("basis/energy", "s", energy_run)
    experiment("basis/Multi", "s", multibasis_run)


# Time derivatives ------------------------------------------------------------
def scheme_run(name):
    def run(U):
        Q, V = gen(3, 12, tag=1) * U.s, gen(2, 12, tag=2) * U.u
        fn = getattr(D, name)
        Qt, Zt, Vt = fn(Q, 0.1 * U.t, V)
        return {"states": (Qt, U.s), "ddts": (Zt, U.s / U.t),
                "inputs": (Vt, U.u),
                "alone": (list(fn(Q, 0.1 * U.t)), [U.s, U.s / U.t])}
    return run


def estimator_run(make, offset):
    def run(U):
        est = make((np.linspace(0, 1, 12) + offset) * U.t, U)
        if isinstance(est, Raised):
            return {"new": (est, 1.0)}
        Q, V = gen(3, 12, tag=1) * U.s, gen(2, 12, tag=2) * U.u
        Qt, Zt, Vt = est.estimate(Q, V)
        out = {"states": (Qt, U.s), "ddts": (Zt, U.s / U.t),
               "inputs": (Vt, U.u),
               "alone": (list(est.estimate(Q)), [U.s, U.s / U.t]),
               "time": (est.time_domain, U.t),
               "mask": (est.mask(Q), U.s)}
        if hasattr(est, "dt"):
            out["dt"] = est.dt, U.t
        return out
    return run


def ddt_run(U):
    t = np.linspace(0, 1, 12) * U.t
    tn = (np.linspace(0, 1, 12) ** 1.5 + 0.2) * U.t
    Q = gen(3, 12, tag=1) * U.s
    out = {}
    for order in (2, 4, 6):
        out[f"uniform {order}"] = D.ddt_uniform(Q, 0.1 * U.t, order), (
            U.s / U.t)
        out[f"ddt {order}"] = D.ddt(Q, 0.1 * U.t, order), U.s / U.t
    out["nonuniform"] = D.ddt_nonuniform(Q, tn), U.s / U.t
    out["ddt(t)"] = D.ddt(Q, tn), U.s / U.t
    out["ddt(uniform t)"] = D.ddt(Q, t), U.s / U.t
    # what is uniform does not depend on the unit
    for nm, dom in (("uniform", t), ("nonuniform", tn), ("nearly", t * (
            1 + 1e-3 * np.sin(np.arange(12))))):
        est = attempt(lambda: D.UniformFiniteDifferencer(dom))
        out[f"accepts {nm}"] = float(isinstance(est, Raised)), 1.0
    return out


def register_ddt(tier):
    for nm in ("fwd1 fwd2 fwd3 fwd4 fwd5 fwd6 bwd1 bwd2 bwd3 bwd4 bwd5 bwd6 "
               "ctr2 ctr4 ctr6 ord2 ord4 ord6").split():
        experiment(f"ddt/{nm}", "stu", scheme_run(nm))
        for off in (0.0, 3.0):
            experiment(f"ddt/Uniform/{nm}/{off}", "stu", estimator_run(
                lambda t, U, nm=nm: D.UniformFiniteDifferencer(t, nm), off))
    for off in (0.0, 3.0):
        experiment(f"ddt/Nonuniform/{off}", "stu", estimator_run(
            lambda t, U: D.NonuniformFiniteDifferencer(
                t + 0.3 * t * t / U.t), off))
        for kind in ("cubic", "akima", interp.PchipInterpolator,
                     interp.CubicSpline):
            for new in (False, True):
                def make(t, U, kind=kind, new=new):
                    return D.InterpDerivativeEstimator(
                        t, kind, new_time_domain=t[0] + np.array(
                            [0.05, 0.3, 0.6, 0.9]) * U.t if new else None)

                nm = kind if isinstance(kind, str) else kind.__name__
                run = estimator_run(make, off)
                if new:
                    # inputs are to be given as functions of time
                    def run(U, make=make, off=off):
                        est = make((np.linspace(0, 1, 12) + off) * U.t, U)
                        Q = gen(3, 12, tag=1) * U.s
                        return {"alone": (list(est.estimate(Q)),
                                          [U.s, U.s / U.t]),
                                "time": (est.new_time_domain, U.t)}
                experiment(f"ddt/{nm}/{off}/{new}", "stu", run, tol=1e-9)
    experiment("ddt/functions", "st", ddt_run)


# Least squares ---------------------------------------------------------------
REG = np.array([1.0, 2.0, 0.5])
REGD = np.array([[1.0, 2.0, 0.5], [0.3, 0.1, 2.0]])
REGM = np.array([[1.0, 0.2, 0.0], [0.0, 2.0, 0.1], [0.3, 0.0, 1.0]])
SOLVERS = {
    "Plain": lambda d: L.PlainSolver(),
    "Plain/gelss": lambda d: L.PlainSolver(lapack_driver="gelss"),
    "L2": lambda d: L.L2Solver(0.5 * d),
    "L2/zero": lambda d: L.L2Solver(0.0),
    "L2D": lambda d: L.L2DecoupledSolver(np.array([0.5, 2.0]) * d),
    "Tik/diag": lambda d: L.TikhonovSolver(REG * d),
    "Tik/full": lambda d: L.TikhonovSolver(REGM * d),
    "Tik/sparse": lambda d: L.TikhonovSolver(sparse.csr_array(REGM) * d),
    "Tik/normal": lambda d: L.TikhonovSolver(REGM * d, method="normal"),
    "TikD": lambda d: L.TikhonovDecoupledSolver(REGD * d),
    "TikD/full": lambda d: L.TikhonovDecoupledSolver([REGM * d, REGM.T * d]),
    "TikD/normal": lambda d: L.TikhonovDecoupledSolver(
        [REGM * d, REGM.T * d], method="normal"),
    "TSVD": lambda d: L.TruncatedSVDSolver(2),
    "TSVD/all": lambda d: L.TruncatedSVDSolver(None),
    "Total": lambda d: L.TotalLeastSquaresSolver(),
}


def solver_results(s, U, out):
    X = gen(2, 3, tag=7) * U.z / U.d
    out["solve"] = attempt(s.solve), U.z / U.d
    out["cond"] = attempt(s.cond), 1.0
    out["residual"] = attempt(s.residual, X), U.z ** 2
    if hasattr(s, "regcond"):
        out["regcond"] = attempt(s.regcond), 1.0
        out["regresidual"] = attempt(s.regresidual, X), U.z ** 2
        post = attempt(s.posterior)
        if isinstance(post, Raised):
            out["posterior"] = post, 1.0
        else:
            out["means"] = list(post[0]), U.z / U.d
            out["precisions"] = list(post[1]), (U.d / U.z) ** 2
    if hasattr(s, "tcond"):
        out["tcond"] = s.tcond(), 1.0
    if hasattr(s, "augcond"):
        out["augcond"], out["tls error"] = (s.augcond, 1.0), (s.error, U.z)
    return out


def solver_run(nm, k, rank=3):
    make = SOLVERS[nm]

    def run(U):
        A = gen(k, 3, tag=2)
        if rank < 3:
            A[:, 2] = A[:, 0] - 0.5 * A[:, 1]
        A, Z = A * U.d, gen(2, k, tag=3) * U.z
        s = make(U.d)
        s.fit(A, Z)
        out = solver_results(s, U, {})
        if hasattr(s, "regularizer") and not nm.startswith("TikD"):
            s.regularizer = (make(U.d).regularizer * 2)
            out["second"] = attempt(s.solve), U.z / U.d
        elif hasattr(s, "regularizer"):
            s.regularizer = [2 * G for G in make(U.d).regularizer]
            out["second"] = attempt(s.solve), U.z / U.d
        if nm == "TSVD":
            s.num_svdmodes = 1
            out["second"] = s.solve(), U.z / U.d
        return {k_: v for k_, v in out.items()
                if rank == 3 or k_ not in ("cond", "tcond", "regcond")}
    return run


def small_residual_run(nm):
    """Fits that are nearly, but not quite, exact."""
    def run(U):
        A = gen(9, 3, tag=2) * U.d
        O = gen(2, 3, tag=5) * U.z / U.d
        Z = O @ A.T + 1e-4 * gen(2, 9, tag=6) * U.z
        s = SOLVERS[nm](1e-5 * U.d)
        s.fit(A, Z)
        return solver_results(s, U, {})
    return run


def register_solvers(tier):
    for nm in SOLVERS:
        for k in (9, 4) if nm != "Total" else (9,):
            # Total least squares compares the two sides.
            experiment(f"lstsq/{nm}/{k}", "dz" if nm != "Total" else "",
                       solver_run(nm, k), tol=1e-9)
        if nm.startswith(("Plain", "L2D", "Tik/", "TSVD")) and nm != (
                "Tik/normal"):
            experiment(f"lstsq/{nm}/rank", "dz", solver_run(nm, 9, 2),
                       tol=1e-7)
        if nm.startswith(("L2", "Tik")) and nm != "L2/zero":
            experiment(f"lstsq/{nm}/small", "dz", small_residual_run(nm),
                       tol=1e-6)

    def total(U):
        V = Units(d=U.exps.get("s", 0), z=U.exps.get("s", 0))
        return solver_run("Total", 9)(V)
    experiment("lstsq/Total/same", "s", total, tol=1e-9)


# Operators -------------------------------------------------------------------
def op_unit(nm, U, discrete=False):
    """Unit of the entries of an operator."""
    t = 1.0 if discrete else U.t
    if nm == "InputOperator":
        return U.s / (t * U.u)
    if nm == "StateInputOperator":
        return 1 / (t * U.u)
    return U.s / t / U.s ** ops.DEGREE[nm]


def operator_run(nm, r=3, m=2):
    def run(U):
        unit = op_unit(nm, U)
        E = ops.entries_of(nm, r, m)
        op = ops.cls(nm)(E * unit)
        q, u = gen(r, tag=5) * U.s, gen(m, tag=6) * U.u
        Q, V = gen(r, 4, tag=5) * U.s, gen(m, 4, tag=6) * U.u
        rate = U.s / U.t
        out = {"entries": (op.entries, unit),
               "apply": (attempt(op.apply, q, u), rate),
               "apply many": (attempt(op.apply, Q, V), rate)}
        if hasattr(op, "jacobian"):
            out["jacobian"] = attempt(op.jacobian, q, u), 1 / U.t
        Vr, Wr = gen(r, 2, tag=7), np.linalg.qr(gen(r, 2, tag=8))[0]
        Wr = np.linalg.solve(Wr.T @ Vr, Wr.T).T
        out["galerkin"] = attempt(
            lambda: op.galerkin(Vr, Wr).entries), unit
        # bases that carry a unit (weighted): entries pick it up
        out["galerkin unit"] = attempt(
            lambda: op.galerkin(Vr / U.w, Wr * U.w).entries), (
                unit * U.w / U.w ** (
                    ops.DEGREE.get(nm, 1 if nm[0] == "S" else 0)))
        block = attempt(lambda: ops.cls(nm).datablock(Q, V))
        out["datablock"] = block, U.s / U.t / unit
        return out
    return run


def param_operator_run(nm, fam, cls_=None, r=2, m=2):
    def run(U):
        unit = op_unit(nm, U)
        Es = [ops.entries_of(nm, r, m, tag=k) * unit for k in range(5)]
        op_cls = ops.cls(fam + nm)
        if fam == "Affine":
            op = op_cls([lambda mu: 1.0, lambda mu: (mu[0] / U.p) ** 2],
                        entries=Es[:2])
            mus = [np.array([x]) * U.p for x in (0.5, 3.0)]
        elif fam == "AffineMatrix":
            op = ops.cls("Affine" + nm)(
                np.array([[1.0, 0.5], [0.0, 2.0]]) / U.p, entries=Es[:2])
            mus = [np.array(x) * U.p for x in ((0.5, 1.0), (3.0, -1.0))]
        elif cls_ in (interp.LinearNDInterpolator,
                      interp.NearestNDInterpolator):
            pts = np.array([[0, 0], [1, 0.1], [0.2, 1], [1, 1.2],
                            [0.5, 0.6]]) * U.p
            op = op_cls(pts, entries=Es, InterpolatorClass=cls_)
            mus = [np.array(x) * U.p for x in ((0.3, 0.3), (0.7, 0.9),
                                               (1, 0.1))]
        else:
            pts = np.array([0.0, 1.0, 1.5, 3.0, 4.0]) * U.p
            op = op_cls(pts, entries=Es, InterpolatorClass=cls_)
            mus = [x * U.p for x in (0.5, 1.0, 3.3, 4.0)]
        q, u = gen(r, tag=5) * U.s, gen(m, tag=6) * U.u
        out = {}
        for i, mu in enumerate(mus):
            out[f"evaluate {i}"] = attempt(
                lambda: op.evaluate(mu).entries), unit
            out[f"apply {i}"] = attempt(op.apply, mu, q, u), U.s / U.t
            out[f"jacobian {i}"] = attempt(op.jacobian, mu, q, u), 1 / U.t
        V = gen(r, 1, tag=7)
        V /= np.linalg.norm(V)
        out["galerkin"] = attempt(lambda: op.galerkin(V).evaluate(
            mus[0]).entries), unit
        if fam == "Interp":
            out["parameters"] = op.training_parameters, U.p
        return out
    return run


def register_operators(tier):
    for nm in ops.NONPAR:
        for r, m in ((3, 2), (1, 1)):
            if r == 1:
                run = single_run(nm)
            else:
                run = operator_run(nm, r, m)
            experiment(f"operators/{nm}/{r}", "stuw" if r > 1 else "stu", run,
                       exps=(-40, -13, 13, 40))
        if nm == "QuarticOperator":     # no parametric version
            continue
        for fam in ("Affine", "AffineMatrix"):
            if fam == "AffineMatrix":
                def run(U, nm=nm):
                    A = np.array([[1.0, 0.5], [0.0, 2.0]]) / U.p
                    Es = [ops.entries_of(nm, 2, 2, tag=k) * op_unit(nm, U)
                          for k in range(2)]
                    op = ops.cls("Affine" + nm)(lambda mu: A @ mu, 2,
                                                entries=Es)
                    mu = np.array([0.5, -1.0]) * U.p
                    return {"evaluate": (op.evaluate(mu).entries,
                                         op_unit(nm, U)),
                            "jacobian": (op.jacobian(
                                mu, gen(2, tag=5) * U.s,
                                gen(2, tag=6) * U.u), 1 / U.t)}
            else:
                run = param_operator_run(nm, fam)
            experiment(f"operators/{fam}{nm}", "stup", run,
                       exps=(-40, -13, 13, 40))
        for cls_ in (None, interp.CubicSpline, interp.Akima1DInterpolator,
                     interp.PchipInterpolator, interp.LinearNDInterpolator,
                     interp.NearestNDInterpolator):
            nd = cls_ is not None and "ND" in cls_.__name__
            experiment(
                f"operators/Interp{nm}/{getattr(cls_, '__name__', 'default')}",
                "stup", param_operator_run(nm, "Interp", cls_),
                exps=(-9, -4, 4, 9) if nd else (-40, -13, 13, 40), tol=1e-9)


def single_run(nm):
    """One state, one input."""
    def run(U):
        unit = op_unit(nm, U)
        op = ops.cls(nm)(ops.entries_of(nm, 1, 1) * unit)
        q, u = gen(1, tag=5) * U.s, gen(1, tag=6) * U.u
        return {"apply": (attempt(op.apply, q, u), U.s / U.t),
                "jacobian": (attempt(op.jacobian, q, u), 1 / U.t)}
    return run


# Models ----------------------------------------------------------------------
FORM = {"c": "ConstantOperator", "A": "LinearOperator",
        "H": "QuadraticOperator", "G": "CubicOperator",
        "B": "InputOperator", "N": "StateInputOperator"}


def stable_ops(form, U, r=2, m=1, discrete=False):
    out = []
    for ch in form:
        nm = FORM[ch]
        E = 0.3 * ops.entries_of(nm, r, m)
        if ch == "A":
            E = E - (0 if discrete else 2.0) * np.eye(r)
        out.append(ops.cls(nm)(E * op_unit(nm, U, discrete)))
    return out


def model_run(kind, form, r=2, m=1):
    disc = kind == "D"
    hasin = bool(set("BN") & set(form))

    def run(U):
        cl = M.DiscreteModel if disc else M.ContinuousModel
        model = cl(stable_ops(form, U, r, m, disc))
        q, u = 0.5 * gen(r, tag=1) * U.s, gen(m, tag=2) * U.u
        rate = U.s if disc else U.s / U.t
        out = {}
        if disc:
            V = gen(m, 6, tag=3) * U.u if hasin else None
            out["rhs"] = model.rhs(q, u if hasin else None), rate
            out["jacobian"] = model.jacobian(q, u if hasin else None), 1.0
            out["predict"] = model.predict(q, 5, V), U.s
        else:
            def inp(t):
                return np.array([np.sin(3 * t / U.t) + 0.5]) * U.u
            V = inp if hasin else None
            out["rhs"] = model.rhs(0.2 * U.t, q, V), rate
            out["jacobian"] = model.jacobian(0.2 * U.t, q, V), 1 / U.t
        V2 = np.linalg.qr(gen(r, 1, tag=7))[0]
        small = model.galerkin(V2)
        out["galerkin"] = [op.entries for op in small.operators], [
            op_unit(FORM[ch], U, disc) for ch in form]
        return out
    return run


def predict_run(form, method, sampled=False):
    hasin = bool(set("BN") & set(form))

    def run(U):
        model = M.ContinuousModel(stable_ops(form, U))
        q = 0.5 * gen(2, tag=1) * U.s
        t = np.linspace(0, 1, 7) * U.t

        def inp(tt):
            return np.array([np.sin(3 * tt / U.t) + 0.5]) * U.u
        V = None
        if hasin:
            V = np.column_stack([inp(x) for x in t]) if sampled else inp
        Q = model.predict(q, t, V, method=method, rtol=1e-9,
                          atol=1e-12 * U.s)
        return {"predict": (Q, U.s), "rhs after": (
            model.rhs(0.2 * U.t, q, inp), U.s / U.t)}
    return run


def reg_of(form, U, r=2, m=1):
    """Tikhonov regularizer, one unit per column of the data matrix."""
    parts = []
    for ch in form:
        nm = FORM[ch]
        # unit of the columns: the states, inputs, or their products
        unit = {"InputOperator": U.u, "StateInputOperator": U.s * U.u}.get(
            nm, U.s ** ops.DEGREE.get(nm, 0))
        parts.append(np.full(ops.columns(nm, r, m), unit))
    return np.concatenate(parts)


def fit_run(kind, form, solver, r=2, m=1):
    disc = kind == "D"
    hasin = bool(set("BN") & set(form))

    def run(U):
        reg = 0.1 * reg_of(form, U, r, m)
        s = {"None": None, "Plain": L.PlainSolver(),
             "Tik": L.TikhonovSolver(reg),
             "TikN": L.TikhonovSolver(np.diag(reg), method="normal"),
             "TikD": L.TikhonovDecoupledSolver([reg, 2 * reg][:r])}[solver]
        cl = M.DiscreteModel if disc else M.ContinuousModel
        model = cl(form, solver=s)
        Q = gen(r, 24, tag=1) * U.s
        Z = gen(r, 24, tag=2) * U.s / (1 if disc else U.t)
        V = gen(m, 24, tag=3) * U.u if hasin else None
        model.fit(Q, Z, V)
        out = {"operators": ([op.entries for op in model.operators], [
            op_unit(FORM[ch], U, disc) for ch in form])}
        q, u = gen(r, tag=4) * U.s, gen(m, tag=5) * U.u
        if disc:
            out["rhs"] = model.rhs(q, u), U.s
        else:
            out["rhs"] = model.rhs(0, q, lambda t: u), U.s / U.t
        # some operators known
        if len(form) > 1:
            known = stable_ops(form[:1], U, r, m, disc)
            part = cl(known + [FORM_CLS(ch)() for ch in form[1:]],
                      solver=None)
            part.fit(Q, Z, V)
            out["known"] = [op.entries for op in part.operators], [
                op_unit(FORM[ch], U, disc) for ch in form]
        return out
    return run


def FORM_CLS(ch):
    return ops.cls(FORM[ch])


def param_fit_run(fam, kind, form):
    disc = kind == "Discrete"
    hasin = "B" in form

    def run(U):
        mus = np.array([0.5, 1.0, 1.7, 2.5]) * U.p
        if fam == "Affine":
            co = [lambda mu: 1.0, lambda mu: np.ravel(mu)[0] / U.p]
            model = getattr(M, f"Parametric{kind}Model")(
                [ops.cls("Affine" + FORM[ch])(co) for ch in form])
        elif fam == "Interp":
            model = getattr(M, f"Interp{kind}Model")(form)
        else:
            co = [lambda mu: 1.0, lambda mu: np.ravel(mu)[0] / U.p]
            model = getattr(M, f"Parametric{kind}Model")(
                [(ops.cls(("Interp" if i else "Affine") + FORM[ch]))(
                    *(() if i else (co,))) for i, ch in enumerate(form)])
        t = 1 if disc else U.t
        Qs = [gen(2, 14, tag=i) * U.s for i in range(4)]
        Zs = [gen(2, 14, tag=9 + i) * U.s / t for i in range(4)]
        Vs = [gen(1, 14, tag=19 + i) * U.u for i in range(4)]
        model.fit(mus, Qs, Zs, Vs if hasin else None)
        out = {}
        q, u = 0.5 * gen(2, tag=4) * U.s, gen(1, tag=5) * U.u
        for i, x in enumerate((0.5, 1.2, 2.5)):
            ev = model.evaluate(x * U.p)
            out[f"operators {i}"] = [op.entries for op in ev.operators], [
                op_unit(FORM[ch], U, disc) for ch in form]
            if disc:
                out[f"rhs {i}"] = model.rhs(x * U.p, q, u), U.s
                out[f"predict {i}"] = model.predict(
                    x * U.p, q, 3, np.column_stack([u, u]) if hasin
                    else None), U.s
            else:
                out[f"rhs {i}"] = model.rhs(0, x * U.p, q, lambda t: u), (
                    U.s / U.t) if False else U.s / U.t
                out[f"jacobian {i}"] = attempt(
                    lambda: model.jacobian(0, x * U.p, q, lambda t: u)), (
                        1 / U.t)
        return out
    return run


def register_models(tier):
    forms = ("A", "c", "cA", "AB", "H", "cAH", "cAHG", "AN", "cAHBN", "B")
    for kind in "CD":
        for form in forms:
            dims = ("s" if kind == "D" else "st") + (
                "u" if set("BN") & set(form) else "")
            experiment(f"models/{kind}/{form}", dims, model_run(kind, form),
                       exps=(-40, -13, 13, 40))
            for solver in ("None", "Plain", "Tik", "TikN", "TikD"):
                experiment(f"models/{kind}/{form}/fit/{solver}", dims,
                           fit_run(kind, form, solver),
                           exps=BIG if form in ("A", "H", "B", "c") else
                           SMALL, tol=1e-6)
    for form in ("A", "cAH", "AB", "cAN"):
        dims = "stu" if set("BN") & set(form) else "st"
        for method in ("RK45", "RK23", "DOP853", "Radau", "BDF", "LSODA"):
            if tier == "quick" and method in ("RK23", "DOP853", "LSODA") and (
                    form != "cAH"):
                continue
            if tier == "quick" and method == "Radau" and form == "A":
                continue
            experiment(f"models/predict/{form}/{method}", dims, predict_run(
                form, method), exps=(-30, -8, 8, 20), tol=2e-5)
    experiment("models/predict/AB/sampled", "stu", predict_run(
        "AB", "RK45", True), exps=(-30, -8, 8, 20), tol=2e-5)
    for fam in ("Affine", "Interp", "Mixed"):
        for kind in ("Continuous", "Discrete"):
            for form in ("A", "cA", "AB", "cAB"):
                if fam == "Mixed" and len(form) == 1:
                    continue
                dims = ("sp" if kind == "Discrete" else "stp") + (
                    "u" if "B" in form else "")
                experiment(
                    f"models/{fam}{kind}/{form}", dims, param_fit_run(
                        fam, kind, form),
                    exps=MID if form == "A" else SMALL, tol=1e-6)


# Lifting, errors -------------------------------------------------------------
def lift_run(U):
    Q = np.abs(gen(3, 4, tag=1)) + 0.5
    Z = gen(3, 4, tag=2) * U.s / U.t
    out = {}
    lf = opinf.lift.QuadraticLifter()
    two = np.repeat([U.s, U.s ** 2], 3)[:, None]
    out["quadratic"] = lf.lift(Q * U.s), two
    out["quadratic ddts"] = lf.lift_ddts(Q * U.s, Z), two / U.t
    out["quadratic back"] = lf.unlift(np.vstack([Q, Q ** 2]) * two), U.s
    for orders in ((1, 2, 3), (2, -1), (3,), (0.5, 1), (-2, 0, 1), (-1,),
                   (2, 4), (1 / 3, 2)):
        lf = opinf.lift.PolynomialLifter(orders)
        rows = np.repeat([U.s ** p for p in orders], 3)[:, None]
        out[f"{orders}"] = lf.lift(Q * U.s), rows
        out[f"{orders} ddts"] = lf.lift_ddts(Q * U.s, Z), rows / U.t
        out[f"{orders} back"] = lf.unlift(
            np.vstack([Q ** p for p in orders]) * rows), U.s
    return out


def error_run(U):
    A, X = gen(4, 6, tag=1), gen(4, 6, tag=2)
    t = np.array([0, 0.1, 0.4, 0.5, 0.9, 1.0]) * U.t
    out = {}
    for nm, (Q, R) in (("2-D", (A, A + 0.1 * X)), ("1-D", (A[0], X[0])),
                       ("close", (A, A + 1e-7 * X))):
        Q, R = Q * U.s, R * U.s
        for p in (1, 2, 3, np.inf):
            e = opinf.post.lp_error(Q, R, p=p)
            out[f"lp {nm} {p}"] = list(e), [U.s, 1.0]
            if Q.ndim == 2:
                e = opinf.post.lp_error(Q, R, p=p, normalize=True)
                out[f"lp normalized {nm} {p}"] = list(e), [U.s, 1.0]
            e = opinf.post.Lp_error(Q, R, t if p != np.inf else None, p=p)
            out[f"Lp {nm} {p}"] = list(e), [U.s * (
                U.t ** (1 / p) if p != np.inf else 1.0), 1.0]
        if Q.ndim == 2:
            out[f"frobenius {nm}"] = list(
                opinf.post.frobenius_error(Q, R)), [U.s, 1.0]
    V = np.linalg.qr(gen(4, 2, tag=5))[0]
    out["projection"] = list(opinf.post.projection_error(A * U.s, V)), [
        U.s, 1.0]
    return out



# Reduced-order models --------------------------------------------------------
def snapshots(k=25, n=6):
    """Snapshots of a damped linear system with some nonlinearity."""
    t = np.linspace(0, 2, k)
    rows = []
    for i in range(n):
        x = (i + 1) / n
        rows.append(3 + x + np.exp(-t) * np.sin(3 * x) + 0.5 * np.exp(
            -0.5 * t) * np.cos(2 * t + x) * x)
    return t, np.array(rows)


def rom_run(tname, basis, kind, form, select=False):
    menu = dict(transformers())

    def run(U):
        t, Q = snapshots()
        t, Q = t * U.t, Q * U.s
        after = U.s
        tr = None
        if tname:
            tr, after = (lambda s: (P.ShiftScaleTransformer(
                centering=True), s))(U.s) if tname == "center" else (
                P.ShiftScaleTransformer(centering=True, scaling=tname), 1.0)
        bs = None
        if basis:
            bs = B.PODBasis(num_vectors=2)
        reg = 1e-3 * reg_of(form, Units(
            s=int(np.log2(after)), u=U.exps.get("u", 0)), 2 if basis else 6)
        disc = kind == "D"
        cl = M.DiscreteModel if disc else M.ContinuousModel
        if select:
            model = cl(form, solver=L.L2Solver(after))
        else:
            model = cl(form, solver=L.TikhonovSolver(reg))
        rom = opinf.ROM(model, transformer=tr, basis=bs,
                        ddt_estimator=None if disc else
                        D.UniformFiniteDifferencer(t, "ord4"))
        opts = {} if disc else dict(method="RK45", rtol=1e-9, atol=1e-12 * (
            after))
        out = {}
        if select == "bayes":
            rom = opinf.roms.BayesianROM(
                model, transformer=tr, basis=bs, ddt_estimator=None if disc
                else D.UniformFiniteDifferencer(t, "ord4"))
        hasin = "B" in form

        def inp(tt):
            return np.array([np.cos(tt / U.t)]) * U.u
        V = np.column_stack([inp(x) for x in t]) if hasin else None
        if select:
            cand = np.array([1e-4, 1e-2, 1.0, 100.0]) * after
            np.random.seed(3)
            kw = dict(num_posterior_draws=3) if select == "bayes" else {}
            if disc:
                rom.fit_regselect_discrete(
                    cand, Q, inputs=V, test_cases=opinf.utils.DiscreteRegTest(
                        Q[:, 0], 30, inputs=np.hstack([V, V]) if hasin
                        else None, bound=1e3 * after), **kw)
            else:
                rom.fit_regselect_continuous(
                    cand, t, Q, input_functions=inp if hasin else None,
                    gridsearch_only=select == "bayes",
                    test_time_length=0.5 * U.t,
                    test_cases=opinf.utils.ContinuousRegTest(
                        Q[:, 0], t, input_function=inp if hasin else None,
                        bound=1e3 * after), **kw, **opts)
            out["regularizer"] = rom.model.solver.regularizer, after
        else:
            rom.fit(Q, inputs=V)
        out["encode"] = rom.encode(Q), after
        out["project"] = rom.project(Q), U.s
        Y = gen(rom.model.state_dimension, 3, tag=4) * after
        out["decode"] = rom.decode(Y), U.s
        out["locs"] = rom.decode(Y, locs=np.array([3, 0])), U.s
        if select == "bayes":
            np.random.seed(5)
            pst = rom.posterior
            out["means"] = list(pst.means), (1.0 if disc else 1 / U.t)
            out["covs"] = list(pst.covs), (1.0 if disc else 1 / U.t) ** 2
        else:
            out["operators"] = [op.entries for op in rom.model.operators], [
                op_unit(FORM[ch], Units(
                    s=int(np.log2(after)), t=U.exps.get("t", 0),
                    u=U.exps.get("u", 0)), disc) for ch in form]
        if disc:
            out["predict"] = rom.predict(Q[:, 0], 8, V), U.s
        else:
            out["predict"] = rom.predict(
                Q[:, 0], t[:9], inp if hasin else None, **opts), U.s
        return out
    return run


def limits_run(kind, tname, bayes):
    """The best fit of the training data grows beyond the limits later."""
    def run(U):
        disc = kind == "D"
        t = np.linspace(0, 1, 12)
        Q = np.vstack([np.exp(0.9 * t), np.exp(1.1 * t) * np.cos(t)])
        out = {}
        for margin in (1.5, 5.0, 1e6):
            tr, after = None, U.s
            if tname:
                tr = P.ShiftScaleTransformer(scaling=tname)
                after = 1.0
            cl = M.DiscreteModel if disc else M.ContinuousModel
            model = cl("A", solver=L.L2Solver(after))
            rom = (opinf.roms.BayesianROM if bayes else opinf.ROM)(
                model, transformer=tr, ddt_estimator=None if disc else
                D.UniformFiniteDifferencer(t * U.t, "ord4"))
            cand = np.array([1e-6, 0.1, 1.0, 4.0] if disc else
                            [1e-6, 4.0, 8.0, 40.0]) * after
            kw = dict(stability_margin=margin, gridsearch_only=True)
            np.random.seed(3)
            if bayes:
                kw["num_posterior_draws"] = 2
            try:
                if disc:
                    rom.fit_regselect_discrete(
                        cand, Q * U.s, num_test_iters=8, **kw)
                else:
                    rom.fit_regselect_continuous(
                        cand, t * U.t, Q * U.s, test_time_length=2 * U.t,
                        method="RK45", rtol=1e-8, atol=1e-10 * after, **kw)
            except RuntimeError as ex:
                if "grid search failed" not in str(ex):
                    raise
                out[f"margin {margin}"] = -1.0, 1
                continue
            out[f"margin {margin}"] = model.solver.regularizer, after
        return out
    return run


def bayes_fit_run(solver, kind):
    def run(U):
        t, Q = snapshots()
        t, Q = t * U.t, Q * U.s
        disc = kind == "D"
        s = {"L2": lambda d: L.L2Solver(0.1 * d),
             "L2D": lambda d: L.L2DecoupledSolver(np.array([0.1, 0.5]) * d),
             "Tik": lambda d: L.TikhonovSolver(np.array([0.1, 0.3]) * d),
             "TikD": lambda d: L.TikhonovDecoupledSolver(
                 [np.array([0.1, 0.3]) * d] * 2)}[solver](U.s)
        cl = M.DiscreteModel if disc else M.ContinuousModel
        rom = opinf.roms.BayesianROM(
            cl("A", solver=s),
            transformer=P.ShiftScaleTransformer(centering=True),
            basis=B.PODBasis(num_vectors=2),
            ddt_estimator=None if disc else D.UniformFiniteDifferencer(
                t, "ord4"))
        rom.fit(Q)
        rate = 1.0 if disc else 1 / U.t
        out = {"means": (list(rom.posterior.means), rate),
               "covs": (list(rom.posterior.covs), rate ** 2)}
        np.random.seed(7)
        out["draws"] = rom.posterior.rvs(), rate
        np.random.seed(8)
        if disc:
            out["predict"] = rom.predict(Q[:, 0], 6), U.s
        else:
            out["predict"] = rom.predict(
                Q[:, 0], t[:7], method="RK45", rtol=1e-9,
                atol=1e-12 * U.s), U.s
        return out
    return run


def lifted_rom_run(U):
    """Quadratic lifting, one transformer for each lifted variable."""
    t, Q = snapshots()
    t, Q = t * U.t, Q * U.s
    rom = opinf.ROM(
        M.ContinuousModel("A", solver=L.L2Solver(1e-2)),
        lifter=opinf.lift.QuadraticLifter(),
        transformer=P.TransformerMulti([
            P.ShiftScaleTransformer(centering=True, scaling="maxabs"),
            P.ShiftScaleTransformer(centering=True, scaling="minmaxsym")],
            [6, 6]),
        basis=B.BasisMulti([B.PODBasis(num_vectors=2),
                            B.PODBasis(projection_error=0.05)], [6, 6]),
        ddt_estimator=D.UniformFiniteDifferencer(t, "ord2"))
    rom.fit(Q)
    return {"encode": (rom.encode(Q), 1.0),
            "operators": ([op.entries for op in rom.model.operators],
                          1 / U.t),
            "project": (rom.project(Q), U.s),
            "predict": (rom.predict(Q[:, 0], t[:9], method="RK45",
                                    rtol=1e-9, atol=1e-12), U.s)}


def register_roms(tier):
    for kind in "CD":
        for form in ("A", "cA", "AH", "AB"):
            dims = ("s" if kind == "D" else "st") + ("u" * ("B" in form))
            for tname in (None, "center", "standard", "maxabs", "minmaxsym",
                          "maxnorm"):
                big = form == "A" or (tname not in (None, "center"))
                if tier == "quick" and tname in ("standard", "maxnorm") and (
                        form != "cA"):
                    continue
                experiment(f"roms/{kind}/{form}/{tname}", dims, rom_run(
                    tname, True, kind, form), exps=MID if big and (
                        "B" not in form) else SMALL, tol=2e-5)
        for form in ("A", "AB"):
            for tname in ("center", "maxabs"):
                if form == "AB" and tname == "center":
                    continue
                # One regularizer for all columns: the inputs keep their unit.
                experiment(f"roms/{kind}/{form}/{tname}/select",
                           "s" if kind == "D" else "st", rom_run(
                               tname, True, kind, form, select=True),
                           exps=(-9, -4, 4, 9), tol=5e-3)
        for tname in ("center", "maxabs"):
            experiment(f"roms/{kind}/A/{tname}/select/bayes",
                       "s" if kind == "D" else "st", rom_run(
                           tname, True, kind, "A", select="bayes"),
                       exps=(-9, -4, 4, 9), tol=5e-3)
        for tname in (None, "maxabs"):
            for bayes in (False, True):
                experiment(f"roms/{kind}/{tname}/limits/{bayes}",
                           "s" if kind == "D" else "st",
                           limits_run(kind, tname, bayes), tol=1e-6)
        for solver in ("L2", "L2D", "Tik", "TikD"):
            experiment(f"roms/bayes/{kind}/{solver}",
                       "s" if kind == "D" else "st",
                       bayes_fit_run(solver, kind), exps=MID, tol=1e-5)
    experiment("roms/lifted", "st", lifted_rom_run, exps=MID, tol=1e-5)


def cases(tier):
    EXPERIMENTS.clear()
    register_transformers(tier)
    register_bases(tier)
    register_ddt(tier)
    register_solvers(tier)
    register_operators(tier)
    register_models(tier)
    experiment("lift", "st", lift_run, exps=(-40, -10, 12, 38), tol=1e-9)
    experiment("post", "st", error_run, exps=(-40, -20, 20, 40), tol=1e-9)
    register_roms(tier)
    for name, dims, run, exps, tol, _ in EXPERIMENTS:
        yield name, unit_case, (dims, run, exps, tol)
