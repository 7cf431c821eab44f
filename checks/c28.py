"""C28: results do not depend on how equal data are stored."""

import itertools

import numpy as np

import opinf
from mc import align, objs

BOUNDS = {
    "operations": "every public operation of mc/align.py with the arguments "
    "that fit (transformers, bases, operators, solvers, models, derivative "
    "estimators, lifting maps, errors, reduced-order models), and the "
    "constructors below with stored data of every kind",
    "storage": "C, Fortran, strided, reversed and read-only arrays, an array "
    "that owns no data, float32, int64, int32, array subclass x each argument on its own and all arguments together "
    "(thorough: all pairs of storages for all pairs of arguments)",
    "oracle": "the result for C-ordered float64 arrays of the same values; "
    "integers (and whatever cannot be changed in place) may be refused with "
    "a TypeError or ValueError, but not silently truncated",
}


# Storage ----------------------------------------------------------------------
class Labelled(np.ndarray):
    """A subclass without behaviour of its own."""


def strided(A):
    big = np.full([2 * s + 1 for s in A.shape], -77.25)
    view = big[tuple(slice(1, None, 2) for _ in A.shape)]
    view[...] = A
    return view


def reversed_(A):
    flip = (slice(None, None, -1),) * A.ndim
    return np.ascontiguousarray(A[flip])[flip]


def readonly(A):
    B = A.copy()
    B.flags.writeable = False
    return B


def window(A):
    return np.frombuffer(bytearray(A.tobytes()), dtype=A.dtype).reshape(
        A.shape)


STORAGE = {
    "F": lambda A: np.asfortranarray(A) if A.ndim > 1 else strided(A),
    "strided": strided,
    "reversed": reversed_,
    "readonly": readonly,
    "window": window,
    "float32": lambda A: A.astype(np.float32),
    "int64": lambda A: A.astype(np.int64),
    "int32": lambda A: A.astype(np.int32),
    "subclass": lambda A: A.copy().view(Labelled),
}
INTS = ("int64", "int32")
SLACK = {"float32": 2e-3}
REFUSALS = ("UFuncTypeError", "TypeError", "ValueError")


def whole(A):
    return np.array_equal(A, np.round(A))


def base(call, name, A):
    """Values that all kinds of numbers can represent."""
    if name in call.maker:
        A = np.asarray(A)
        if A.dtype.kind != "f":
            return A
        return A.astype(np.float32).astype(float)
    B = np.round(7 * A)
    if name in ("t", "mu"):     # sorted, distinct
        B = np.argsort(np.argsort(A.ravel())).reshape(A.shape) * 2.0 + 1
    return B


def store(kind, A):
    if A.dtype.kind != "f" or (kind in INTS and not whole(A)):
        return None
    return STORAGE[kind](A)


def put(kind, value):
    """`value` (an array or a list of arrays) in the given storage."""
    if isinstance(value, list):
        out = [store(kind, A) for A in value]
        return None if any(A is None for A in out) else out
    return store(kind, value)


# Observation ------------------------------------------------------------------
def seen(x, o):
    """What the caller gets to see."""
    if x is None:
        x = o
    if isinstance(x, (opinf.pre.TransformerTemplate,
                      opinf.pre.TransformerMulti)):
        n = x.state_dimension
        X = np.arange(n * 4.0).reshape(n, 4) ** 1.5 / n
        return [x.transform(X), x.inverse_transform(X)]
    if isinstance(x, (opinf.basis.BasisTemplate, opinf.basis.BasisMulti)):
        n = x.shape[0]
        X = np.arange(n * 4.0).reshape(n, 4) ** 1.5 / n
        return [x.shape, x.project(X)]
    if hasattr(x, "model"):
        n = x.basis.shape[0]
        X = np.arange(n * 4.0).reshape(n, 4) ** 1.5 / n
        V = x.basis.entries
        return [x.project(X), x.encode(X).T @ x.encode(X)] + [
            V @ op.entries @ V.T for op in x.model.operators[:1]]
    if hasattr(x, "operators"):
        out = []
        for op in x.operators:
            E = op.entries
            out.append(list(E) if isinstance(E, (list, tuple)) else E)
        return out
    if isinstance(x, opinf.lstsq.SolverTemplate):
        return [x.solve()] if x.data_matrix is not None else []
    if isinstance(x, opinf.roms.OperatorPosterior):
        return [x.means, x.covs]
    if hasattr(x, "entries") and not isinstance(x, np.ndarray):
        E = x.entries
        return list(E) if isinstance(E, (list, tuple)) else E
    return x


def plain(x):
    """Results as plain float64 arrays (the kind of number is not promised)."""
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if hasattr(x, "toarray"):
        x = x.toarray()
    if isinstance(x, np.ndarray) and x.dtype == object:
        return [plain(y) for y in x]
    if isinstance(x, (np.ndarray, np.generic, float, int)):
        return np.asarray(x, dtype=float)
    return x


def gap(x, y, tol):
    """Difference of two results."""
    if isinstance(x, list) or isinstance(y, list):
        if not (isinstance(x, list) and isinstance(y, list)):
            return f"{type(x).__name__} vs. {type(y).__name__}"
        if len(x) != len(y):
            return f"{len(x)} vs. {len(y)} parts"
        return next((m for a, b in zip(x, y) if (m := gap(a, b, tol))), None)
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        if x.shape != y.shape:
            return f"shape {x.shape} vs. {y.shape}"
        if not x.size:
            return None
        big = max(np.abs(x[np.isfinite(x)]).max(initial=0),
                  np.abs(y[np.isfinite(y)]).max(initial=0), 1e-30)
        if not np.array_equal(np.isfinite(x), np.isfinite(y)):
            return f"{x} vs. {y}"
        ok = np.isfinite(x)
        err = np.abs(x[ok] - y[ok]).max(initial=0) / big
        return f"relative difference {err:.2e}" if err > tol else None
    return None if type(x) is type(y) else f"{x!r:.200} vs. {y!r:.200}"


def stored(c, call):
    names = list(call.args)
    vals = {}
    for name, v in call.arguments().items():
        vals[name] = ([base(call, name, A) for A in v]
                      if isinstance(v, list) else base(call, name, v))

    def run(kinds):
        a = {}
        for name, v in vals.items():
            a[name] = put(kinds[name], v) if kinds.get(name) else (
                [A.copy() for A in v] if isinstance(v, list) else v.copy())
            if a[name] is None:
                return None
        o = call.make()
        return objs.attempt(lambda: plain(seen(call.fn(o, a), o)))

    ref = run({})
    c.op("reference")
    c.check(not isinstance(ref, objs.Raised), "reference rejected", f"{ref}")
    combos = [{nm: kd} for nm in names for kd in STORAGE]
    combos += [{nm: kd for nm in names} for kd in STORAGE if len(names) > 1]
    if c.tier != "quick":
        combos += [{a: ka, b: kb} for a, b in itertools.combinations(names, 2)
                   for ka in STORAGE for kb in STORAGE if ka != kb]
    for kinds in combos:
        got = run(kinds)
        if got is None:
            continue
        tag = ",".join(f"{k}:{v}" for k, v in kinds.items())
        c.op(tag)
        c.state(tag)
        with c.sub(tag):
            refusable = {*INTS}
            if "inplace=True" in call.name:
                refusable |= {"readonly", "float32"}
            if isinstance(got, objs.Raised):
                c.check(bool(refusable & set(kinds.values())) and got.type in
                        REFUSALS, "equal data rejected", f"{got}")
                continue
            tol = max(SLACK.get(k, 1e-8) for k in kinds.values())
            m = gap(got, ref, tol)
            c.check(m is None, "storage changes the result", f"{m}")
    c.trace(call.name)



# Stored data ------------------------------------------------------------------
def constructors():
    Call, gen = align.Call, align.gen
    P, B, L, D = opinf.pre, opinf.basis, opinf.lstsq, opinf.ddt
    ops = align.ops
    Q, Z = gen(5, 12, tag=1), gen(2, 12, tag=2)

    yield Call("ShiftTransformer", object,
               lambda o, a: seen(P.ShiftTransformer(a["s"]).fit(Q), o),
               dict(s=("n",)))
    yield Call("ScaleTransformer", object,
               lambda o, a: seen(P.ScaleTransformer(a["s"]).fit(Q), o),
               dict(s=("n",)), maker=dict(s=lambda n: np.arange(n) + 1.0))
    for attr, byrow in (("mean_", True), ("scale_", True), ("shift_", True),
                        ("mean_", False)):
        def make(byrow=byrow):
            return P.ShiftScaleTransformer(centering=True, scaling="minmax",
                                           byrow=byrow).fit(Q)
        yield Call(f"SS{int(byrow)}.{attr}=", make,
                   lambda o, a, at=attr: setattr(o, at, a["X"]),
                   dict(X=("n",)), maker=dict(X=lambda n: np.arange(n) + 2.0))
    for scaling in (None, "standard", "minmax", "maxabssym", "maxnorm"):
        for byrow in (False, True):
            if scaling in (None, "maxnorm") and byrow:
                continue
            yield Call(f"SS({scaling},{int(byrow)}).fit",
                       lambda s=scaling, b=byrow: P.ShiftScaleTransformer(
                           centering=True, scaling=s, byrow=b),
                       lambda o, a: o.fit(a["Q"]), dict(Q=("n", "k")))
            yield Call(f"SS({scaling},{int(byrow)}).fit_transform",
                       lambda s=scaling, b=byrow: P.ShiftScaleTransformer(
                           centering=True, scaling=s, byrow=b),
                       lambda o, a: o.fit_transform(a["Q"]),
                       dict(Q=("n", "k")))
    W = dict(w=lambda n: np.arange(n) + 1.0)
    W2 = dict(W=lambda n, n2: np.diag(np.arange(n) + 2.0) + np.ones((n, n2)))
    for kind, args, mk in (("1-D", dict(w=("n",)), W), ("2-D", dict(
            W=("n", "n2")), W2)):
        key = next(iter(args))
        yield Call(f"Linear/{kind}", object,
                   lambda o, a, k=key: [
                       (b := B.LinearBasis(a["E"], a[k],
                                           check_orthogonality=False)
                        ).compress(Q), b.decompress(Z[:, :3].T)],
                   dict(E=("n", "r"), **args), maker=mk, sizes=dict(n2=5))
        yield Call(f"POD/{kind}", object,
                   lambda o, a, k=key: seen(B.PODBasis(
                       num_vectors=2, weights=a[k]).fit(a["Q"]), o),
                   dict(Q=("n", "k"), **args), maker=mk, sizes=dict(n2=5))
    for solver in ("dense", "method-of-snapshots"):
        def pod(o, a, s=solver):
            b = B.PODBasis(num_vectors=2, svdsolver=s, max_vectors=3)
            b.fit(a["Q"])
            return [b.project(Q), b.svdvals[:3],
                    np.atleast_1d(b.cumulative_energy),
                    np.atleast_1d(b.residual_energy)]
        yield Call(f"POD/{solver}", object, pod, dict(Q=("n", "k")))
    SV = dict(s=lambda n: 2.0 ** np.arange(n - 1, -1, -1))
    for fn in (B.svdval_decay, B.cumulative_energy, B.residual_energy):
        for thr in (0.3, [0.2, 0.3]):
            yield Call(f"{fn.__name__}/{thr}", object,
                       lambda o, a, f=fn, t=thr: [
                           np.atleast_1d(f(a["s"], t, plot=False))],
                       dict(s=("n",)), maker=SV)
    yield Call("POD.from_svd", object, lambda o, a: [
        (b := B.PODBasis.from_svd(a["V"], a["s"], num_vectors=2)).entries,
        b.svdvals, np.atleast_1d(b.cumulative_energy),
        np.atleast_1d(b.residual_energy)], dict(V=("n", "n"), s=("n",)),
        maker=dict(V=lambda *s: np.eye(*s), **SV))
    r, m = 3, 2
    for nm in ops.NONPAR:
        E = ops.entries_of(nm, r, m)
        d = E.shape[1] if E.ndim == 2 else None
        args = dict(E=("r", "D") if d else ("r",))

        def use(o, a, nm=nm, r=r, m=m):
            op = ops.cls(nm)(a["E"])
            q, u = gen(r, tag=1), gen(m, tag=2)
            out = [op.entries, op.apply(q, u),
                   op.apply(gen(r, 4, tag=3), gen(m, 4, tag=4))]
            if nm not in ("ConstantOperator", "InputOperator"):
                out.append(op.jacobian(q, u))
            V = np.linalg.qr(gen(r, 2, tag=5))[0]
            return out + [op.galerkin(V).entries, op.copy().entries]
        yield Call(f"{nm}(entries)", object, use, args, sizes=dict(D=d))
    k, d, r = 8, 3, 2
    data = dict(D=("k", "d"), Z=("r", "k"))
    kw = dict(k=k, d=d, r=r)
    pos = dict(g=lambda *s: np.arange(np.prod(s)).reshape(s) + 1.0,
               G=lambda *s: np.eye(*s) * 2 + np.ones(s))
    for nm, arg, mk in (
            ("L2D", dict(g=("r",)), L.L2DecoupledSolver),
            ("Tik", dict(g=("d",)), L.TikhonovSolver),
            ("TikG", dict(G=("d", "d")), L.TikhonovSolver),
            ("TikN", dict(g=("d",)),
             lambda g: L.TikhonovSolver(g, method="normal")),
            ("TikD", dict(g=("r", "d")), L.TikhonovDecoupledSolver)):
        def solve(o, a, mk=mk, key=next(iter(arg))):
            s = mk(a[key]).fit(a["D"], a["Z"])
            x = s.solve()
            means, precs = s.posterior()
            return [x, s.residual(x), s.regresidual(x),
                    np.atleast_1d(s.cond()), np.atleast_1d(s.regcond()),
                    list(means), list(precs)]
        yield Call(f"{nm}(regularizer)", object, solve, dict(**data, **arg),
                   sizes=kw, maker=pos)
    for nm, mk in (("Plain", L.PlainSolver),
                   ("TSVD", lambda: L.TruncatedSVDSolver(2)),
                   ("Total", L.TotalLeastSquaresSolver)):
        yield Call(f"{nm}(diagnostics)", mk, lambda o, a: [
            (x := o.fit(a["D"], a["Z"]).solve()), o.residual(x),
            np.atleast_1d(o.cond())], data, sizes=kw)
    t = dict(t=lambda k: np.arange(k) * 2.0 + 1,
             s=lambda k: np.arange(k) ** 2 * 1.0)
    for sch in ("fwd2", "ctr4", "ord6"):
        yield Call(f"Uniform/{sch}(t)", object,
                   lambda o, a, s=sch: list(D.UniformFiniteDifferencer(
                       a["t"], s).estimate(a["Q"], a["U"])),
                   dict(t=("k",), Q=("r", "k"), U=("m", "k")),
                   sizes=dict(k=12), maker=t)
    for nm, mk in (("Nonuniform", D.NonuniformFiniteDifferencer),
                   ("Interp", D.InterpDerivativeEstimator),
                   ("Interp/new", lambda t: D.InterpDerivativeEstimator(
                       t, "akima", new_time_domain=t[2:6]))):
        yield Call(f"{nm}(t)", object,
                   lambda o, a, mk=mk: list(mk(a["s"]).estimate(
                       a["Q"], a["U"])),
                   dict(s=("k",), Q=("r", "k"), U=("m", "k")),
                   sizes=dict(k=12), maker=t)
    C, Mo = opinf.models.ContinuousModel, opinf.models.DiscreteModel
    sz = dict(r=3, m=2, k=6)
    for form in ("cAH", "AB", "cAHGBN"):
        known = [ops.cls(dict(c="ConstantOperator", A="LinearOperator",
                              H="QuadraticOperator", G="CubicOperator",
                              B="InputOperator", N="StateInputOperator")[f])(
            0.1 * ops.entries_of(dict(
                c="ConstantOperator", A="LinearOperator",
                H="QuadraticOperator", G="CubicOperator", B="InputOperator",
                N="StateInputOperator")[f], 3, 2)) for f in form]
        args = dict(q=("r",))
        if "B" in form:
            args["U"] = ("m", "k")
        yield Call(f"C/{form}.predict(t)", object,
                   lambda o, a, kn=known: C(kn).predict(
                       a["q"] / 16, a["t"] / 64, a.get("U"), method="RK23",
                       rtol=1e-10, atol=1e-12),
                   dict(t=("k",), **args), sizes=sz, maker=t)
        yield Call(f"C/{form}.jacobian", object,
                   lambda o, a, kn=known: C(kn).jacobian(
                       0, a["q"], (lambda t: a["U"][:, 0])
                       if "U" in a else None), args, sizes=sz)
        yield Call(f"D/{form}.predict", object,
                   lambda o, a, kn=known: Mo(kn).predict(
                       a["q"], 4, a.get("U")), args, sizes=sz)
    for fam in ("Affine", "Interp"):
        for nm in ("ConstantOperator", "LinearOperator", "InputOperator"):
            def use(o, a, fam=fam, nm=nm):
                op = (ops.cls("Affine" + nm)(3, entries=a["E"])
                      if fam == "Affine" else
                      ops.cls("Interp" + nm)(a["mu"], entries=a["E"]))
                p = np.array([0.5, 2.0, 1.5]) if fam == "Affine" else 2.25
                return [list(op.entries), op.evaluate(p).entries]
            dims = ("r", "D") if nm != "ConstantOperator" else ("r",)
            yield Call(f"{fam}{nm}(entries)", object, use, dict(
                E=[dims] * 3, **(dict(mu=("s",)) if fam == "Interp" else {})),
                maker=dict(mu=lambda s: np.arange(s) * 2.0 + 1),
                sizes=dict(D=3 if nm == "LinearOperator" else 2))


def cases(tier):
    menu = [("call", x) for x in align.calls(tier)]
    menu += [("stored", x) for x in constructors()]
    return [(f"{kind}/{x.name}".replace(" ", ""), stored, (x,))
            for kind, x in menu if x.name != "BasisMulti(sizes)"]
