"""C20: reduced-order models compose their stages consistently."""

import itertools
import warnings

import numpy as np

import opinf
from mc import models as mm
from mc import pre as mp
from mc.data import gen

BOUNDS = {
    "stages": "every combination of lifter {none, (q, q^2) polynomial, "
    "quadratic} x transformer {none, shift, scale by row, shift-scale, "
    "multi-variable, pipeline} x basis {none, linear, weighted linear, POD, "
    "multi-variable}",
    "models": "continuous, discrete, affine parametric, interpolated "
    "parametric; with and without inputs",
    "left-hand sides": "given, or estimated by six estimators / shifted",
    "data forms": "one array, list of one, list of two or three trajectories "
    "of different lengths",
    "histories": "all sequences over {fit with each combination of the two "
    "training flags on two datasets, encode with training flags, predict} up "
    "to depth 3 (thorough 4)",
}
ASSUMPTIONS = ["Derivative estimators, the model training and the model "
               "prediction are the subjects of C18, C14 and C15."]
R = opinf.roms
REG = 0.05
N = 3


# Stages with independent reference maps --------------------------------------
def lifters(kind):
    if kind == "none":
        return None, lambda q: q, lambda q, d: d, lambda x: x
    obj = (opinf.lift.PolynomialLifter((1, 2)) if kind == "poly"
           else opinf.lift.QuadraticLifter())
    return (obj, lambda q: np.concatenate((q, q * q)),
            lambda q, d: np.concatenate((d, 2 * q * d)),
            lambda x: x[:x.shape[0] // 2])


def transformers(kind, n):
    """(opinf object, reference model with attributes a, b)."""
    if kind == "none":
        return None, mp.RefFixed()
    ref = np.linspace(-1, 2, n)
    sc = np.where(np.arange(n) % 2, -0.5, 2.0) * np.linspace(1, 2, n)
    half = (n // 2, n - n // 2)
    if kind == "shift":
        return opinf.pre.ShiftTransformer(ref), mp.RefFixed(ref=ref)
    if kind == "scale":
        return opinf.pre.ScaleTransformer(sc), mp.RefFixed(scaler=sc)
    if kind == "ss":
        return mp.ss(True, "minmaxsym", True)[1]()
    if kind == "ss2":
        return mp.ss(False, "standard", False)[1]()
    if kind == "multi":
        return mp.multi([mp.ss(True, "maxabs", False), mp.ss(
            False, "minmax", False)], half, True)[1]()
    if kind == "pipe":
        a, b = mp.ss(True, None, False)[1](), mp.ss(
            False, "maxabs", False)[1]()
        return (opinf.pre.TransformerPipeline([a[0], b[0]]),
                mp.RefPipe([a[1], b[1]]))
    raise ValueError(kind)


def orth(n, r, tag=0):
    return np.linalg.qr(gen(n, r, tag=tag))[0]


class Basis:
    """Reference: V, W with compress V^T W, decompress V."""

    def __init__(self, kind, n):
        self.kind, self.n = kind, n
        self.half = (n // 2, n - n // 2)
        self.V, self.W = None, np.eye(n)
        B = opinf.basis
        if kind == "none":
            self.obj = None
            self.V = np.eye(n)
        elif kind == "linear":
            self.V = orth(n, 2, 31)
            self.obj = B.LinearBasis(self.V)
        elif kind == "weighted":
            w = 0.5 + np.arange(n)
            self.V = orth(n, 2, 32) / np.sqrt(w)[:, None]
            self.W = np.diag(w)
            self.obj = B.LinearBasis(self.V, weights=w)
        elif kind == "pod":
            self.obj = B.PODBasis(num_vectors=2)
        elif kind == "multi":
            self.obj = B.BasisMulti(
                [B.PODBasis(num_vectors=1), B.PODBasis(num_vectors=1)],
                full_variable_sizes=list(self.half))

    def fit(self, c, X, check=True):
        """Reference training; the signs are taken from the implementation."""
        if self.kind == "pod":
            Y = np.linalg.svd(X, full_matrices=False)[0][:, :2]
            V = np.array(self.obj.entries)
        elif self.kind == "multi":
            h = self.half[0]
            Y, V = np.zeros((self.n, 2)), np.zeros((self.n, 2))
            Y[:h, :1] = np.linalg.svd(X[:h], full_matrices=False)[0][:, :1]
            Y[h:, 1:] = np.linalg.svd(X[h:], full_matrices=False)[0][:, :1]
            V[:h, :1] = self.obj.bases[0].entries
            V[h:, 1:] = self.obj.bases[1].entries
        else:
            return
        S = np.sign(np.sum(Y * V, axis=0))
        c.close(V, Y * S, "basis not trained on the transformed data", 1e-7)
        self.V = Y * S

    def compress(self, X):
        return self.V.T @ (self.W @ X)

    def decompress(self, x):
        return self.V @ x


class Stages:
    def __init__(self, lk, tk, bk):
        self.names = (lk, tk, bk)
        self.lifter, self.lift, self.lift_ddts, self.unlift = lifters(lk)
        self.n = N if lk == "none" else 2 * N
        self.tf, self.ref = transformers(tk, self.n)
        self.basis = Basis(bk, self.n)
        if not hasattr(self.ref, "a"):
            self.ref.a = self.ref.b = None
        if tk == "none":
            self.ref.fit(np.zeros((self.n, 1)))

    def kwargs(self):
        return dict(lifter=self.lifter, transformer=self.tf,
                    basis=self.basis.obj)

    def lin(self, X, b=True):
        a = self.ref.a if X.ndim == 1 else self.ref.a[:, None]
        if not b:
            return a * X
        return a * X + (self.ref.b if X.ndim == 1 else self.ref.b[:, None])

    def fit(self, c, states, ftf=True, fb=True):
        L = [self.lift(Q) for Q in states]
        if ftf and self.tf is not None:
            self.ref.fit(np.hstack(L))
        if fb:
            self.basis.fit(c, np.hstack([self.lin(X) for X in L]))

    def encode(self, Q):
        return self.basis.compress(self.lin(self.lift(Q)))

    def encode_ddts(self, Q, dQ):
        return self.basis.compress(self.lin(self.lift_ddts(Q, dQ), False))

    def decode(self, x, locs=None, lift=True):
        X = self.basis.decompress(x)
        a, b = self.ref.a, self.ref.b
        if x.ndim == 2:
            a, b = a[:, None], b[:, None]
        X = (X - b) / a
        if locs is not None:
            X = X[locs]
        return self.unlift(X)


LIFT = ("none", "poly", "quad")
TF = ("none", "shift", "scale", "ss", "ss2", "multi", "pipe")
BASES = ("none", "linear", "weighted", "pod", "multi")


def trajectories(which):
    ks = {"array": (14,), "list1": (13,), "list2": (12, 15),
          "list3": (9, 12, 10)}[which]
    return [1.2 + gen(N, k, tag=60 + i) for i, k in enumerate(ks)]


def inputs_for(states, m, ndim=2):
    if not m:
        return None
    return [gen(m, Q.shape[1], tag=70 + i) if ndim == 2 else
            gen(Q.shape[1], tag=70 + i) for i, Q in enumerate(states)]


def form_of(st, m):
    big = st.basis.kind == "none"
    return ("cA" if big else "cAH") + ("B" if m else "")


def maps_case(c, lk, tk, bk, kind):
    """encode / decode / project against the reference maps."""
    st = Stages(lk, tk, bk)
    M = getattr(opinf.models, kind)("cA")
    rom = R.ROM(M, **st.kwargs())
    Q = trajectories("array")[0]
    keep = Q.copy()
    dQ = gen(N, Q.shape[1], tag=81)
    dkeep = dQ.copy()
    cont = kind == "ContinuousModel"

    def lhs_of(Q, d):
        return st.encode_ddts(Q, d) if cont else st.encode(d)

    # train through encode
    got = rom.encode(Q, fit_transformer=True, fit_basis=True)
    c.op("encode(fit, fit)")
    st.fit(c, [keep])
    c.close(got, st.encode(keep), "encode(fit)", 1e-9)
    c.same(Q, keep, "encode changed its argument")
    Qs = [Q, trajectories("list2")[1], 2 * Q[:, :1]]
    for X in Qs:
        d = gen(*X.shape, tag=82) if cont else X[:, ::-1].copy() + 0.5
        want, wantd = st.encode(X), lhs_of(X, d)
        for rep in range(2):
            c.close(rom.encode(X), want, "encode", 1e-9)
            a, b = rom.encode(X, d)
            c.close(a, want, "encode with lhs", 1e-9)
            c.close(b, wantd, "encoded lhs", 1e-9)
            c.op("encode", 2)
        j = X.shape[1] - 1
        c.close(rom.encode(X[:, j]), want[:, j], "encode 1-D", 1e-9)
        a, b = rom.encode(X[:, j], d[:, j])
        c.close(a, want[:, j], "encode 1-D with lhs", 1e-9)
        c.close(b, wantd[:, j], "encode 1-D lhs", 1e-9)
        if not cont:
            for lab, dd in (("fewer", d[:, 1:]), ("one", d[:, :1]),
                            ("one 1-D", d[:, 0]), ("more",
                                                   np.hstack((d, d)))):
                a, b = rom.encode(X, dd)
                c.op(f"encode {lab} lhs")
                c.close(a, want, f"encode with {lab} lhs", 1e-9)
                c.close(b, lhs_of(X, dd), f"encoded {lab} lhs", 1e-9)
        a, b = rom.encode(X.copy(), d.copy(), inplace=True)
        c.close(a, want, "encode inplace", 1e-9)
        c.close(b, wantd, "encode inplace lhs", 1e-9)
        c.op("encode", 3)
        # decode
        keepw = want.copy()
        full = st.decode(want)
        c.close(rom.decode(want), full, "decode", 1e-9)
        c.close(rom.decode(want[:, j]), full[:, j], "decode 1-D", 1e-9)
        c.close(rom.project(X), full, "project", 1e-9)
        c.close(rom.project(X[:, j]), full[:, j], "project 1-D", 1e-9)
        c.same(want, keepw, "decode changed its argument")
        c.op("decode", 4)
        if bk == "none":
            c.close(full, X, "decode(encode(q)) without a basis", 1e-9)
    # locations
    x = st.encode(Q)
    multi = [k for k in (tk, bk) if k == "multi"]
    if not multi or (len(multi) == 2 and st.n % 2 == 0) or (
            len(multi) == 1 and st.n % 2 == 0 and "none" in (tk, bk)):
        nx = st.n // 2 if multi else N
        for name, locs in mp.locs_menu(nx):
            if name == "none":
                continue
            if lk != "none" and not multi:
                # the same locations in both lifted variables
                base = np.arange(N)[locs]
                if name.startswith("slice"):
                    continue
                use = np.concatenate((base, base + N))
                want = st.decode(x)[base]
            elif multi:
                use = locs
                rows = np.concatenate((np.arange(nx)[locs],
                                       nx + np.arange(nx)[locs]))
                want = st.decode(x, rows)
            else:
                use = locs
                want = st.decode(x, locs)
            if multi and bk == "none":
                continue      # decode() cannot know the variables
            with c.sub(f"locs/{name}"):
                c.close(rom.decode(x, locs=use), want, "decode locs", 1e-9)
                c.close(rom.decode(x[:, 1], locs=use), want[:, 1],
                        "decode locs 1-D", 1e-9)
                c.op("decode locs", 2)
    # inplace only when asked for
    c.same(Q, keep, "caller's states changed")
    c.same(dQ, dkeep, "caller's ddts changed")
    c.check(rom.lifter is st.lifter and rom.transformer is st.tf
            and rom.basis is st.basis.obj and rom.model is M, "stages")
    repr(rom)
    c.state(lk, tk, bk, kind)
    c.trace(lk, tk, bk, kind)


ESTIMATORS = {
    "ord2": lambda t: opinf.ddt.UniformFiniteDifferencer(t, "ord2"),
    "fwd2": lambda t: opinf.ddt.UniformFiniteDifferencer(t, "fwd2"),
    "bwd1": lambda t: opinf.ddt.UniformFiniteDifferencer(t, "bwd1"),
    "ctr4": lambda t: opinf.ddt.UniformFiniteDifferencer(t, "ctr4"),
    "nonuniform": lambda t: opinf.ddt.NonuniformFiniteDifferencer(t),
    "interp": lambda t: opinf.ddt.InterpDerivativeEstimator(t),
    "newt": lambda t: opinf.ddt.InterpDerivativeEstimator(
        t, new_time_domain=t[0] + (t[-1] - t[0]) * np.linspace(
            0.05, 0.95, 11)),
}


def solver():
    return opinf.lstsq.L2Solver(REG)


def make_model(kind, form):
    return getattr(opinf.models, kind)(form, solver=solver())


def regression(c, st, kind, states, lhs, U, est):
    """Reference training data (lists)."""
    Q_ = [st.encode(Q) for Q in states]
    if kind == "DiscreteModel" or kind == "discrete":
        if lhs is None:
            Z = [Q[:, 1:] for Q in Q_]
            Q_ = [Q[:, :-1] for Q in Q_]
            if U is not None:
                U = [u[..., :Q.shape[1]] for u, Q in zip(U, Q_)]
        else:
            Z = [st.encode(X) for X in lhs]
    elif lhs is not None:
        Z = [st.encode_ddts(Q, d) for Q, d in zip(states, lhs)]
    else:
        out = [est.estimate(Q, *([] if U is None else [U[i]]))
               for i, Q in enumerate(Q_)]
        Q_, Z = [o[0] for o in out], [o[1] for o in out]
        if U is not None:
            U = [o[2] for o in out]
    if U is not None:
        U = [np.atleast_2d(u) for u in U]
    return Q_, Z, U


def compare_model(c, model, form, Q_, Z, U, label):
    want = mm.ref_fit(form, [None] * len(form), np.hstack(Q_), np.hstack(Z),
                      None if U is None else np.hstack(U), REG)
    got = [np.array(op.entries) for op in model.operators]
    for k, g, w in zip(form, got, want):
        c.close(g.reshape(w.shape), w, f"{label}: operator {k}", 1e-6)
    return want


def fit_case(c, lk, tk, bk, kind, lhsk, dform, m, undim):
    st = Stages(lk, tk, bk)
    states = trajectories(dform)
    if lhsk in ESTIMATORS and lhsk not in ("ord2", "fwd2", "bwd1", "ctr4"):
        # the estimator has one time domain
        k = min(Q.shape[1] for Q in states)
        states = [Q[:, :k] for Q in states]
    k = states[0].shape[1]
    t = np.linspace(0, 1, k)
    if lhsk == "nonuniform":
        t = t**1.5
    est = ESTIMATORS[lhsk](t) if lhsk in ESTIMATORS else None
    est2 = ESTIMATORS[lhsk](t) if lhsk in ESTIMATORS else None
    lhs = None
    if lhsk == "given":
        if kind == "DiscreteModel":
            lhs = [1.2 + gen(*Q.shape, tag=90 + i)
                   for i, Q in enumerate(states)]
        else:
            lhs = [gen(*Q.shape, tag=90 + i) for i, Q in enumerate(states)]
    U = inputs_for(states, m, undim)
    form = form_of(st, m)
    model = make_model(kind, form)
    rom = R.ROM(model, ddt_estimator=est, **st.kwargs())
    one = dform == "array"

    def pick(x):
        return None if x is None else (x[0].copy() if one else [
            a.copy() for a in x])

    args = pick(states), pick(lhs), pick(U)
    keep = pick(states), pick(lhs), pick(U)
    out = rom.fit(args[0], lhs=args[1], inputs=args[2])
    c.op(f"fit {lhsk} {dform}")
    c.check(out is rom, "fit() returns self")
    for a, b in zip(args, keep):
        if a is not None:
            for x, y in zip(a, b):
                c.same(x, y, "fit() changed its arguments")
    st.fit(c, states)
    Q_, Z, U_ = regression(c, st, kind, states, lhs, U, est2)
    E = compare_model(c, rom.model, form, Q_, Z, U_, "fit")
    # The trained maps.
    c.close(rom.encode(states[-1]), st.encode(states[-1]), "encode", 1e-8)
    # Prediction.
    fresh = getattr(opinf.models, kind)([
        mm.make_op(k, mm.flat(k, e)) for k, e in zip(form, E)])
    q0 = states[0][:, 2]
    x0 = st.encode(q0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "DiscreteModel":
            a = [4] if not m else [4, gen(m, 4, tag=99) * 0.1]
            kw = {}
        else:
            tt = np.linspace(0, 0.02, 5)
            a = [tt] if not m else [tt, gen(m, 5, tag=99)]
            kw = {"rtol": 1e-10, "atol": 1e-12}
        want = st.decode(fresh.predict(x0, *a, **kw))
        got = rom.predict(q0, *a, **kw)
        c.op("predict")
    s = max(1.0, np.abs(want).max())
    c.close(got / s, want / s, "predict", 1e-6)
    c.close(rom.encode(states[-1]), st.encode(states[-1]),
            "encode after predict", 1e-8)
    c.state(lk, tk, bk, kind, lhsk, dform, m, undim)
    c.trace(lk, tk, bk, kind, lhsk, dform)


# Parametric -------------------------------------------------------------
MUS = [0.5, 1.25, 2.0, 3.0]


def param_model(kind, form):
    cont = "Continuous" if "Continuous" in kind else "Discrete"
    if kind.startswith("Interp"):
        return getattr(opinf.models, kind)(form, solver=solver())
    ops_ = []
    for k in form:
        if k in "AB":
            ops_.append(getattr(opinf.operators, "Affine" + mm.ABBR[k])(
                lambda mu: np.array([1.0, float(np.ravel(mu)[0])]), 2))
        else:
            ops_.append(getattr(opinf.operators, mm.ABBR[k])())
    return getattr(opinf.models, f"Parametric{cont}Model")(
        ops_, solver=solver())


def param_case(c, lk, tk, bk, kind, lhsk, m, order):
    st = Stages(lk, tk, bk)
    cont = "Continuous" in kind
    k = 12
    states = [1.2 + gen(N, k, tag=110 + i) for i in range(4)]
    t = np.linspace(0, 1, k)
    est = ESTIMATORS[lhsk](t) if lhsk in ESTIMATORS else None
    lhs = None
    if lhsk == "given":
        lhs = [(0.0 if cont else 1.2) + gen(N, k, tag=130 + i)
               for i in range(4)]
    U = inputs_for(states, m)
    mus = [MUS[i] for i in order]
    form = form_of(st, m).replace("H", "")
    rom = R.ParametricROM(param_model(kind, form), ddt_estimator=est,
                          **st.kwargs())
    keep = [Q.copy() for Q in states]
    out = rom.fit(mus, states, lhs=lhs, inputs=U)
    c.op("fit")
    c.check(out is rom, "fit() returns self")
    for a, b in zip(states, keep):
        c.same(a, b, "fit() changed the states")
    st.fit(c, states)
    Q_, Z, U_ = regression(c, st, "ContinuousModel" if cont else "discrete",
                           states, lhs, U,
                           ESTIMATORS[lhsk](t) if est else None)
    ref = param_model(kind, form)
    ref.fit(mus, Q_, Z, U_)
    for mu in (0.75, 1.25, 2.5):
        a, b = rom.model.evaluate(mu), ref.evaluate(mu)
        for x, y in zip(a.operators, b.operators):
            c.close(x.entries, y.entries, "operators", 1e-6)
        c.op("evaluate")
        q0 = states[1][:, 0]
        if cont:
            tt = np.linspace(0, 0.02, 5)
            args = [tt] if not m else [tt, gen(m, 5, tag=99)]
            kw = {"rtol": 1e-10, "atol": 1e-12}
        else:
            args = [4] if not m else [4, 0.1 * gen(m, 4, tag=99)]
            kw = {}
        want = st.decode(ref.predict(mu, st.encode(q0), *args, **kw))
        got = rom.predict(mu, q0, *args, **kw)
        c.op("predict")
        s = max(1.0, np.abs(want).max())
        c.close(got / s, want / s, "predict", 1e-6)
    c.close(rom.encode(states[2]), st.encode(states[2]), "encode", 1e-8)
    c.state(lk, tk, bk, kind, lhsk, m, order)
    c.trace(lk, tk, bk, kind, lhsk, m)


# Histories ------------------------------------------------------------------
DATASETS = {"A": lambda: [1.2 + gen(N, 14, tag=140)],
            "B": lambda: [2.0 + 0.7 * gen(N, 11, tag=141),
                          2.0 + gen(N, 13, tag=142)]}
STEPS = [("fit", d, ft, fb) for d in "AB" for ft in (0, 1) for fb in (0, 1)
         ] + [("encode", "B", 1, 0), ("encode", "A", 0, 1),
              ("encode", "B", 1, 1), ("predict", "A", 0, 0)]


def history_case(c, lk, tk, bk, kind, first, depth):
    for n in range(0, depth):
        for rest in itertools.product(range(len(STEPS)), repeat=n):
            h = (first,) + rest
            with c.sub("-".join(map(str, h))):
                run_history(c, lk, tk, bk, kind, [STEPS[i] for i in h])


def run_history(c, lk, tk, bk, kind, h):
    c.trail = []
    st = Stages(lk, tk, bk)
    form = form_of(st, 0)
    est = ESTIMATORS["ord2"] if kind == "ContinuousModel" else None
    rom = R.ROM(make_model(kind, form), **st.kwargs(),
                ddt_estimator=est and est(np.linspace(0, 1, 14)))
    needtf = tk in ("ss", "ss2", "multi", "pipe")
    needb = bk in ("pod", "multi")
    E = None
    for what, d, ft, fb in h:
        data = DATASETS[d]()
        c.op(f"{what}({d},{ft},{fb})")
        missing = (needtf and not ft and st.ref.a is None) or (
            needb and not fb and st.basis.V is None)
        kw = dict(fit_transformer=bool(ft), fit_basis=bool(fb))
        if what == "predict":
            missing = missing or E is None
            q0 = data[0][:, 1]
            a = [3] if kind == "DiscreteModel" else [np.linspace(0, 0.01, 3)]
            kw = {} if kind == "DiscreteModel" else {
                "rtol": 1e-10, "atol": 1e-12}

            def call():
                return rom.predict(q0, *a, **kw)
        elif what == "fit":
            def call():
                return rom.fit(data if d == "B" else data[0], **kw)
        else:
            def call():
                return rom.encode(data[-1], **kw)
        if missing:
            c.raises(Exception, call, "untrained stage used")
            return                  # the rest is the subject of C24
        out = call()
        if what == "fit":
            st.fit(c, data, ft or not needtf, fb)
            Q_, Z, U_ = regression(
                c, st, kind, data, None, None,
                est and est(np.linspace(0, 1, 14)))
            E = compare_model(c, rom.model, form, Q_, Z, U_, "history")
        elif what == "encode":
            st.fit(c, [data[-1]], ft or not needtf, fb)
            c.close(out, st.encode(data[-1]), "encode in a history", 1e-8)
        else:
            fresh = getattr(opinf.models, kind)([
                mm.make_op(k, mm.flat(k, e)) for k, e in zip(form, E)])
            want = st.decode(fresh.predict(st.encode(q0), *a, **kw))
            s = max(1.0, np.abs(want).max())
            c.close(out / s, want / s, "predict in a history", 1e-6)
        X = DATASETS["A"]()[0]
        if st.ref.a is None and not needtf:
            st.ref.fit(np.zeros((st.n, 1)))
        if st.ref.a is not None and st.basis.V is not None:
            c.close(rom.encode(X), st.encode(X), "encode after", 1e-8)
        c.state(lk, tk, bk, kind, st.ref.a, st.ref.b, st.basis.V,
                None if E is None else E)
    c.trace(*h)


def misc_case(c, kind):
    model = make_model(kind, "AB")
    rom = R.ROM(model)
    Q = trajectories("array")[0]
    c.raises(ValueError, lambda: rom.fit(Q, lhs=Q), "inputs missing")
    if kind == "ContinuousModel":
        c.raises(ValueError, lambda: rom.fit(Q, inputs=gen(14)),
                 "lhs missing")
        with warnings.catch_warnings(record=True) as wn:
            warnings.simplefilter("always")
            R.ROM(model, ddt_estimator=object())
            R.ROM(model, lifter=object())
            R.ROM(model, transformer=object())
            R.ROM(model, basis=object())
        c.check(len(wn) == 4, "warnings", f"{len(wn)}")
    else:
        with warnings.catch_warnings(record=True) as wn:
            warnings.simplefilter("always")
            rom = R.ROM(model, ddt_estimator=ESTIMATORS["ord2"](
                np.linspace(0, 1, 14)))
        c.check(len(wn) == 1 and rom.ddt_estimator is None, "estimator")
    c.raises(TypeError, lambda: R.ParametricROM(model), "nonparametric")
    c.raises(TypeError, lambda: R.ROM(param_model(
        "ParametricContinuousModel", "cA")), "parametric")
    c.state(kind)
    c.trace(kind)


def cases(tier):
    deep = tier == "thorough"
    out = []
    kinds = ("ContinuousModel", "DiscreteModel")
    stages = list(itertools.product(LIFT, TF, BASES))
    for s in stages:
        for kind in kinds:
            out.append((f"maps/{'-'.join(s)}/{kind}", maps_case, s + (kind,)))
    for i, s in enumerate(stages):
        if s[0] == "quad" and not deep:
            continue
        for kind in kinds:
            lks = ["given"] + (list(ESTIMATORS) if kind == kinds[0]
                               else ["none"])
            for j, lhsk in enumerate(lks):
                for m, undim in ((0, 2), (1, 1), (2, 2)):
                    for dform in ("array", "list1", "list2", "list3"):
                        if not deep and (i + j + m) % 4 != (
                                "array", "list1", "list2", "list3"
                                ).index(dform):
                            continue
                        out.append((
                            f"fit/{'-'.join(s)}/{kind}/{lhsk}/m{m}/{dform}",
                            fit_case,
                            s + (kind, lhsk, dform, m, undim)))
    for i, s in enumerate(stages):
        if s[0] == "quad":
            continue
        for j, kind in enumerate((
                "ParametricContinuousModel", "ParametricDiscreteModel",
                "InterpContinuousModel", "InterpDiscreteModel")):
            lks = ["given"] + (["ord2", "fwd2"] if "Cont" in kind
                               else ["none"])
            for lhsk in lks:
                for m in (0, 2):
                    if not deep and (i + j) % 2:
                        continue
                    order = (0, 1, 2, 3) if (i + m) % 2 else (2, 0, 3, 1)
                    out.append((
                        f"param/{'-'.join(s)}/{kind}/{lhsk}/m{m}",
                        param_case, s + (kind, lhsk, m, order)))
    hist = [("none", "ss", "pod"), ("poly", "multi", "pod"),
            ("none", "pipe", "none"), ("quad", "ss2", "multi"),
            ("none", "none", "pod"), ("poly", "shift", "linear")]
    for s in hist:
        for kind in kinds:
            for f in range(len(STEPS)):
                out.append((f"history/{'-'.join(s)}/{kind}/{f}",
                            history_case, s + (kind, f, 4 if deep else 3)))
    for kind in kinds:
        out.append((f"misc/{kind}", misc_case, (kind,)))
    return out
