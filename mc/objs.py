"""Menu of every trainable, savable or copyable opinf object, with the events
that change it and the probes that observe it (used by C02, C08, C09, C10 and
C24).

The oracle never needs a model of the object: two objects are equivalent when
every probe gives the same result (or raises the same type of exception) on
both, now and after every sequence of events.
"""

import itertools
import types

import numpy as np
import scipy.interpolate as spi
import scipy.sparse as sparse

import opinf
from mc import ops, pre
from mc.core import canon, relerr
from mc.data import gen, spd

OP = opinf.operators
L = opinf.lstsq
M = opinf.models


# Arguments -------------------------------------------------------------------
class Vault(dict):
    """Arrays owned by the caller; compared bitwise after every operation."""

    def __init__(self, **arrays):
        super().__init__(**arrays)
        self.snap = {k: self._bytes(a) for k, a in self.items()}

    @staticmethod
    def _bytes(a):
        if isinstance(a, (list, tuple)):
            return tuple(Vault._bytes(x) for x in a)
        if sparse.issparse(a):
            a_ = a.tocoo()
            return (type(a).__name__, a.shape, a_.data.tobytes(),
                    a_.row.tobytes(), a_.col.tobytes())
        if isinstance(a, np.ndarray):
            return a.shape, a.dtype.str, a.tobytes()
        return repr(a)

    def changed(self):
        return [k for k, a in self.items() if self._bytes(a) != self.snap[k]]


# Results ---------------------------------------------------------------------
class Raised:
    def __init__(self, ex):
        self.type = type(ex).__name__
        self.text = str(ex)

    def __repr__(self):
        return f"<raises {self.type}: {self.text:.80}>"


def norm(x, obj=None):
    """Observable value of a result: nested tuples of arrays and scalars."""
    if obj is not None and x is obj:
        return "self"
    if x is None or isinstance(x, (bool, int, float, str, np.bool_,
                                   np.integer, np.floating, Raised)):
        return x
    if sparse.issparse(x):
        return np.array(x.toarray())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return tuple(norm(y, obj) for y in x)
        return np.array(x)
    if isinstance(x, (list, tuple)):
        return tuple(norm(y, obj) for y in x)
    if isinstance(x, dict):
        return tuple((k, norm(x[k], obj)) for k in sorted(x, key=str))
    if isinstance(x, type):
        return x.__name__
    if hasattr(x, "operators"):
        return (type(x).__name__, norm(x.operators), x.state_dimension,
                x.input_dimension)
    if hasattr(x, "entries"):
        return (type(x).__name__, norm(x.entries))
    if hasattr(x, "means"):
        return (type(x).__name__, norm(list(x.means)), norm(list(x.covs)))
    if hasattr(x, "t") and hasattr(x, "y"):
        return norm(x.t), norm(x.y)
    if callable(x):
        return "callable"
    return type(x).__name__


def same(a, b, tol):
    """None if equal, else a message."""
    if isinstance(a, Raised) or isinstance(b, Raised):
        if isinstance(a, Raised) and isinstance(b, Raised):
            return None if a.type == b.type else f"{a} / {b}"
        return f"{a!r:.200} / {b!r:.200}"
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f"lengths {len(a)} / {len(b)}: {a!r:.200} / {b!r:.200}"
        for x, y in zip(a, b):
            if (m := same(x, y, tol)):
                return m
        return None
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return None if (type(a) is type(b) and a == b) else (
            f"{a!r:.300} / {b!r:.300}")
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.shape(a) != np.shape(b):
            return f"shapes {np.shape(a)} / {np.shape(b)}"
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"types {type(a).__name__} / {type(b).__name__}"
        if a.dtype.kind != b.dtype.kind:
            return f"dtypes {a.dtype} / {b.dtype}"
        e = relerr(a, b) if tol else (
            0 if np.array_equal(a, b, equal_nan=True) else np.inf)
        return None if e <= tol else f"error {e:.2e}: {a} / {b}"
    if isinstance(a, (bool, np.bool_)) != isinstance(b, (bool, np.bool_)):
        return f"{a!r} / {b!r}"
    if a == b or (a != a and b != b):
        return None
    e = relerr(float(a), float(b))
    return None if (tol and e <= tol) else f"{a!r} / {b!r}"


def has_eq(o):
    """Is equality defined for the object and everything inside it?"""
    return type(o).__eq__ is not object.__eq__ and all(
        has_eq(x) for name in ("transformers", "bases", "operators")
        for x in getattr(o, name, ()))


def attempt(fn, *args):
    try:
        return fn(*args)
    except Exception as ex:
        return Raised(ex)


def attr(name):
    return "." + name, lambda o, V: getattr(o, name)


def text(o, V):
    """repr() without memory addresses."""
    import re
    return re.sub(r"0x[0-9a-f]+|np\.\w+\(([^()]*)\)", r"\1", str(o))


# Specifications --------------------------------------------------------------
class Spec:
    """One object: how to make it, change it, observe it, and persist it."""

    def __init__(self, name, make, vault, events, probes, load=None,
                 copy=True, untrained=(),
                 bad=(), tol=1e-9, tries=()):
        self.name = name
        self.tries = tries          # [(label, fn(o, V))] may be rejected
        self.make = make            # V -> object
        self.vault = vault          # () -> Vault
        self.events = events        # [(label, fn(o, V))]
        self.probes = probes        # [(label, fn(o, V))]
        self.load = load            # path -> object, or None
        self.copy = copy
        self.untrained = untrained  # labels of probes that need training
        self.bad = bad              # [(label, fn(o, V))] misuse: must raise
        self.tol = tol

    def observe(self, o, V, only=None):
        return [(lab, norm(attempt(fn, o, V), o)) for lab, fn in self.probes
                if only is None or lab in only]

    def histories(self, depth):
        for n in range(depth + 1):
            yield from itertools.product(self.events, repeat=n)

    def build(self, hist, V):
        """New object after a history; also the outcome of every event."""
        o = self.make(V)
        outs = [norm(attempt(fn, o, V), o) for _, fn in hist]
        return o, outs


def hist_name(h):
    return ",".join(lab for lab, _ in h) or "-"


def diff(A, B, tol):
    for (la, a), (lb, b) in zip(A, B):
        if (m := same(a, b, tol)):
            return f"{la}: {m}"
    return None


def odd_training(n):
    """Training data that may be rejected: [(label, fn(o, V))]."""
    def nan(i):
        Q = gen(n, n + 1, tag=61)
        Q[i, 1] = np.nan
        return Q

    data = [("1-D", lambda: gen(n, tag=62)), ("3-D", lambda: gen(n, 4, 2)),
            ("twice 1-D", lambda: gen(2 * n, tag=62)),
            ("twice 3-D", lambda: gen(2 * n, 4, 2)),
            ("one more", lambda: gen(n + 1, 4, tag=63)),
            ("one less", lambda: gen(n - 1, 4, tag=64)),
            ("empty", lambda: np.empty((n, 0))),
            ("integers", lambda: np.round(5 * gen(n, 6, tag=65)).astype(int)),
            ("NaN first", lambda: nan(0)), ("NaN last", lambda: nan(n - 1)),
            ("text", lambda: np.full((n, 4), "a")),
            ("list", lambda: gen(n, 4, tag=66).tolist())]
    return [(f"fit {lab}", lambda o, V, make=make: o.fit(make()))
            for lab, make in data]


def odd(A, how):
    """An array with something that cannot be used."""
    A = np.array(A)
    if how == "NaN":
        A[-1, -1] = np.nan
    elif how == "3-D":
        A = np.array([A, A])
    elif how == "1-D":
        A = A[0]
    elif how == "empty":
        A = A[:, :0]
    elif how == "transposed":
        A = A.T
    return A


ODD = ("NaN", "3-D", "1-D", "empty", "transposed")


def odd_fit(keys, only=None):
    """Training with one argument spoiled: [(label, fn(o, V))]."""
    def spoil(x, how):
        if isinstance(x, list):
            return x[:-1] + [odd(x[-1], how)]
        return odd(x, how)

    return [(f"fit {k} {how}", lambda o, V, i=i, how=how: o.fit(*[
        x if j != i else spoil(x, how)
        for j, x in enumerate(None if k is None else V[k] for k in keys)]))
        for i, k in enumerate(keys) for how in ODD if k not in (None, "mus")]


def odd_values(attr, values):
    return [(f"{attr}={lab}", lambda o, V, v=v: setattr(o, attr, v))
            for lab, v in values]


def odd_entries():
    """Operator entries that may be rejected."""
    def one(how):
        def change(E):
            if sparse.issparse(E):
                E = E.toarray()
            E = np.array(E)
            if how in ("NaN", "inf"):
                E.flat[-1] = float(how)
                return E
            return {"list": E.tolist(), "text": E.astype(str),
                    "scalar": 2.0, "None": None, "3-D": np.array([[E]]),
                    "wider": np.concatenate((E.T, E.T)).T,
                    "higher": np.concatenate((E, E)),
                    "empty": E[:0]}[how]
        return change

    out = []
    for how in ("NaN", "inf", "list", "text", "scalar", "None", "3-D",
                "wider", "higher", "empty"):
        def single(o, V, f=one(how)):
            o.set_entries(f(V["E0"]))

        def last(o, V, f=one(how)):
            o.set_entries([*V["E0"][:-1], f(V["E0"][-1])])

        def assigned(o, V, f=one(how)):
            o.entries = [*V["E0"][:-1], f(V["E0"][-1])]

        out += [(f"entries {how}", single), (f"last entries {how}", last),
                (f"assign last entries {how}", assigned)]
    return out


def odd_parametric():
    def points(how):
        def try_(o, V):
            p = np.array(V["pts"])
            o.set_training_parameters(
                {"less": p[:-1], "3-D": p[None, None], "text": "a",
                 "twice": np.concatenate((p, p)), "number": 3.0}[how])
        return try_

    def bad_class(*args, **kwargs):
        raise RuntimeError("no interpolation")

    return odd_entries() + [
        ("one set less", lambda o, V: o.set_entries(V["E0"][:-1])),
        ("one set more", lambda o, V: o.set_entries(
            [*V["E0"], V["E0"][0]])),
        ("block", lambda o, V: o.set_entries(
            np.hstack([np.asarray(e).reshape(len(e), -1)
                       for e in V["E0"]])[:, :-1], fromblock=True)),
        ("block 3-D", lambda o, V: o.set_entries(
            np.ones((2, 2, 2)), fromblock=True)),
        ("interpolator None", lambda o, V: o.set_interpolator(None)),
        ("interpolator raises", lambda o, V: o.set_interpolator(bad_class)),
        ("interpolator number", lambda o, V: o.set_interpolator(3)),
    ] + [(f"points {how}", points(how)) for how in (
        "less", "3-D", "text", "twice", "number")]


def ODD_NUMBERS(n):
    return [("0", 0), ("-1", -1), ("text", "a"), ("array", np.ones(2)),
            ("list", []), ("NaN", np.nan), ("one more", n + 1),
            ("fraction", 1.5)]


def ODD_VALUES(n):
    return [("number", 2.0), ("None", None), ("text", "a"),
            ("matrix", np.ones((n, 2))), ("one more", np.ones(n + 1)),
            ("one less", np.ones(n - 1)), ("list", [1.0] * n)]


# Transformers ----------------------------------------------------------------
T_ATTRS = ("state_dimension", "name", "reference", "scaler", "centering",
           "scaling", "byrow", "mean_", "scale_", "shift_", "verbose",
           "num_variables", "num_transformers", "variable_sizes",
           "variable_names")


def t_attrs(o, V):
    return tuple((a, norm(attempt(getattr, o, a))) for a in T_ATTRS
                 if hasattr(type(o), a))


def t_inner(o, V):
    return tuple(t_attrs(t, V) + (type(t).__name__,) + (t_inner(t, V),)
                 for t in getattr(o, "transformers", ()))


def tf_spec(name, make, n, cls, classes=None, rename=None):
    def vault():
        return Vault(Q0=pre.training(n, 5, 0), Q1=pre.training(n, 5, 1),
                     X=gen(n, 3, tag=31), x=gen(n, tag=32),
                     D=gen(n, 3, tag=33), bad=gen(n + 1, 3, tag=34),
                     locs=np.array([n - 1, 0]),
                     Xl=gen(2, 3, tag=35))

    def fit(k):
        return f"fit{k}", lambda o, V: o.fit(V[f"Q{k}"])

    def named(V):
        t = make()[0]
        if rename is not None:
            t.name = rename
        return t

    events = [fit(0), fit(1)]
    if not name.startswith(("Multi", "Pipe")):
        events.append(("name", lambda o, V: setattr(o, "name", "renamed")))
    nlocs = 2 if not name.startswith("Multi") else None
    probes = [
        ("attributes", t_attrs), ("inner", t_inner), ("str", text),
        ("fit_transform", None),
        ("transform", lambda o, V: o.transform(V["X"])),
        ("transform 1-D", lambda o, V: o.transform(V["x"])),
        ("inverse", lambda o, V: o.inverse_transform(V["X"])),
        ("ddts", lambda o, V: o.transform_ddts(V["D"])),
    ]
    probes = [p for p in probes if p[1] is not None]
    if nlocs:
        probes.append(("locs", lambda o, V: o.inverse_transform(
            V["Xl"], locs=V["locs"])))
    bad = [
        ("transform rows", lambda o, V: o.transform(V["bad"])),
        ("inverse rows", lambda o, V: o.inverse_transform(V["bad"])),
        ("ddts rows", lambda o, V: o.transform_ddts(V["bad"])),
    ]
    if nlocs:
        bad.append(("locs rows", lambda o, V: o.inverse_transform(
            V["X"], locs=V["locs"])))
    trained = ("transform", "transform 1-D", "inverse", "ddts", "locs")
    if (cls is opinf.pre.NullTransformer or "SS(0,None,0)" == name
            or "SS" not in name):
        trained = ()    # nothing to be trained
    if classes is None:
        def load(p):
            return cls.load(p)
    else:
        def load(p):
            lazy = isinstance(classes, types.FunctionType)
            return cls.load(p, classes() if lazy else classes)
    return Spec(name + (f"/{rename}" if rename else ""), named, vault, events,
                probes, load, copy=False, untrained=trained, bad=bad,
                tries=odd_training(n) + [
                    t for attr in ("mean_", "scale_", "shift_")
                    for t in odd_values(attr, ODD_VALUES(n))]
                + odd_values("state_dimension", ODD_NUMBERS(n))
                + odd_values("name", [("number", 3)]))


def transformers(tier):
    P = opinf.pre
    SS = P.ShiftScaleTransformer
    for nm, mk in pre.all_ss():
        yield tf_spec(nm, mk, 3, SS)
    yield tf_spec("SSv", lambda: (SS(centering=True, scaling="minmax",
                                     verbose=True, name="p q"), None), 3, SS)
    yield tf_spec("SSname", lambda: (SS(scaling="maxabs", name=""), None), 3,
                  SS)
    yield tf_spec("SSname2", lambda: (SS(scaling="minmax", name="\u03c6 1"), None), 3, SS)
    for nm, mk in [pre.shift(3)]:
        yield tf_spec(nm, mk, 3, P.ShiftTransformer)
        yield tf_spec(nm, mk, 3, P.ShiftTransformer, rename="none")
    yield tf_spec("Shift1", lambda: (P.ShiftTransformer(np.array([2.5])),
                                     None), 1, P.ShiftTransformer)
    for nm, mk in [pre.scale(2.5), pre.scale(-0.5), pre.scale(pre.SC3),
                   ("ScaleInt", lambda: (P.ScaleTransformer(3), None))]:
        yield tf_spec(nm, mk, 3, P.ScaleTransformer)
        yield tf_spec(nm, mk, 3, P.ScaleTransformer, rename="s")
    yield tf_spec("ScaleRow1", lambda: (P.ScaleTransformer(np.array([2.5])),
                                        None), 1, P.ScaleTransformer)
    yield tf_spec("Null", pre.null()[1], 3, P.NullTransformer)
    yield tf_spec("Null", pre.null()[1], 3, P.NullTransformer, rename="x")
    kinds = {"SS": SS, "Shift": P.ShiftTransformer,
             "Scale": P.ScaleTransformer, "Null": P.NullTransformer}

    def cls_of(make):
        # evaluated later: making the menu makes no objects (C29)
        return lambda: [type(t) for t in make()[0].transformers]

    pp = list(pre.pipes("quick"))
    pp = [p for p in pp if "Multi" not in p[0]]
    if tier == "quick":
        pp = pp[::4]
    for nm, mk in pp:
        yield tf_spec(nm, mk, 3, P.TransformerPipeline, cls_of(mk))
    yield tf_spec("PipeNamed", lambda: (P.TransformerPipeline(
        [SS(True), P.ScaleTransformer(2.0)], name="pipe"), None), 3,
        P.TransformerPipeline, [SS, P.ScaleTransformer])
    mm = list(pre.multis("quick"))
    if tier == "quick":
        mm = mm[::7]
    for nm, mk in mm:
        n = int(sum(eval(nm.split("]")[-1].rstrip("g"))))
        yield tf_spec(nm, mk, n, P.TransformerMulti, cls_of(mk))
    yield tf_spec("MultiNamed", lambda: (P.TransformerMulti(
        [SS(True, name="a"), SS(False, "minmax", name="b")]), None), 6,
        P.TransformerMulti, SS)
    N = P.NullTransformer
    yield tf_spec("MultiNone", lambda: (P.TransformerMulti(
        [None, SS(True)]), None), 6, P.TransformerMulti, [N, SS])
    yield tf_spec("MultiNoneLast", lambda: (P.TransformerMulti(
        [SS(False, "maxabs"), None]), None), 6, P.TransformerMulti, [SS, N])
    del kinds


# Bases -----------------------------------------------------------------------
B_ATTRS = ("full_state_dimension", "reduced_state_dimension", "shape", "name",
           "entries", "weights", "leftvecs", "svdvals", "rightvecs",
           "cumulative_energy", "residual_energy", "max_vectors", "svdsolver",
           "svdsolver_options", "full_variable_sizes",
           "reduced_variable_sizes", "num_variables", "variable_names")


def b_attrs(o, V):
    return tuple((a, norm(attempt(getattr, o, a))) for a in B_ATTRS
                 if hasattr(type(o), a))


def b_inner(o, V):
    return tuple(b_attrs(t, V) + (type(t).__name__,)
                 for t in getattr(o, "bases", ()))


def basis_spec(name, make, n, r, load, events=(), nlocs=None, trained=True,
               arrays=None, tol=1e-9):
    def vault():
        V = dict(Q0=gen(n, n + 2, tag=41), Q1=gen(n, n + 1, tag=42),
                 X=gen(n, 2, tag=43), x=gen(n, tag=44), Y=gen(r, 2, tag=45),
                 y=gen(r, tag=46), bad=gen(n + 1, 2, tag=47),
                 badY=gen(n + 2, 2, tag=48), locs=np.array([n - 1, 0]))
        V.update(arrays() if arrays else {})
        return Vault(**V)

    ev = [("fit0", lambda o, V: o.fit(V["Q0"])),
          ("fit1", lambda o, V: o.fit(V["Q1"]))] + list(events)
    probes = [
        ("attributes", b_attrs), ("inner", b_inner), ("str", text),
        ("compress", lambda o, V: o.compress(V["X"])),
        ("compress 1-D", lambda o, V: o.compress(V["x"])),
        ("decompress", lambda o, V: o.decompress(
            np.arange(o.reduced_state_dimension) + 0.5)),
        ("locs", lambda o, V: o.decompress(
            np.arange(o.reduced_state_dimension) + 0.5, locs=V["locs"])),
        ("project", lambda o, V: o.project(V["X"])),
        ("error", lambda o, V: o.projection_error(V["X"])),
        ("abs error", lambda o, V: o.projection_error(V["X"],
                                                      relative=False)),
    ]
    bad = [
        ("compress rows", lambda o, V: o.compress(V["bad"])),
        ("decompress rows", lambda o, V: o.decompress(V["badY"])),
        ("project rows", lambda o, V: o.project(V["bad"])),
    ]
    unt = () if trained else tuple(p[0] for p in probes[3:])
    return Spec(name, make, vault, ev, probes, load, copy=not name.startswith("BasisMulti"),
                untrained=unt, bad=bad, tol=tol, tries=odd_training(n) + odd_values(
                    "reduced_state_dimension", ODD_NUMBERS(n))
                + odd_values("full_state_dimension", ODD_NUMBERS(n))
                + odd_values("svdsolver", [("unknown", "a"), ("number", 3)])
                + odd_values("svdsolver_options", [("list", [1]), ("text", "a")])
                + [(f"set_dimension {k}={lab}", lambda o, V, k=k, v=v:
                    o.set_dimension(**{k: v}))
                   for k in ("num_vectors", "cumulative_energy",
                             "svdval_threshold", "residual_energy",
                             "projection_error")
                   for lab, v in ODD_NUMBERS(n)])


def bases(tier):
    B = opinf.basis
    E = np.linalg.qr(gen(4, 2, tag=49))[0]
    wd = np.array([1.0, 2.0, 0.5, 4.0])
    W2 = spd(4, tag=50)
    for wn, w in (("none", None), ("diag", wd), ("dense", W2),
                  ("sparse diag", sparse.diags_array(wd))):
        for nm in (None, "phi", "", "\u03c6 1"):
            if nm is not None and nm != "phi" and wn != "none":
                continue
            yield basis_spec(
                f"Linear/{wn}/{nm}",
                lambda V, w=w, nm=nm: B.LinearBasis(
                    E.copy(), weights=None if w is None else w.copy(),
                    check_orthogonality=False, name=nm),
                4, 2, B.LinearBasis.load)
    dims = [("r1", lambda o, V: setattr(o, "reduced_state_dimension", 1)),
            ("thr", lambda o, V: o.set_dimension(svdval_threshold=0.3)),
            ("name", lambda o, V: setattr(o, "name", "new"))]
    crits = [dict(num_vectors=2), dict(svdval_threshold=0.4),
             dict(cumulative_energy=0.8), dict(residual_energy=0.1),
             dict(projection_error=0.5), dict(num_vectors=2, max_vectors=3),
             dict(cumulative_energy=0.9, max_vectors=2)]
    for cr in crits:
        yield basis_spec(
            f"POD/{cr}", lambda V, cr=cr: B.PODBasis(**cr), 4, 2,
            B.PODBasis.load, dims, trained=False)
    for wn, w in (("diag", wd), ("dense", W2)):
        for sol in ("dense", "method-of-snapshots", "eigh"):
            yield basis_spec(
                f"POD/{sol}/{wn}",
                lambda V, w=w, sol=sol: B.PODBasis(
                    num_vectors=3, svdsolver=sol, weights=w.copy(),
                    name="w"), 4, 2, B.PODBasis.load, dims, trained=False,
                tol=1e-7)
    for sol, opts in (("randomized", dict(random_state=3)),
                      ("randomized", dict(random_state=5, n_iter=1,
                                          n_oversamples=1)),
                      ("method-of-snapshots", dict(minthresh=1e-3)),
                      ("dense", dict(lapack_driver="gesvd",
                                     check_finite=False))):
        yield basis_spec(
            f"POD/{sol}/{opts}",
            lambda V, sol=sol, opts=opts: B.PODBasis(
                num_vectors=2, max_vectors=3, svdsolver=sol, **opts), 4, 2,
            B.PODBasis.load, dims, trained=False)
    yield basis_spec(
        "BasisMulti",
        lambda V: B.BasisMulti([B.PODBasis(num_vectors=1, name="a"),
                                B.PODBasis(cumulative_energy=0.9)],
                               full_variable_sizes=[2, 3]),
        5, 2, lambda p: B.BasisMulti.load(p, B.PODBasis), (), trained=False)
    yield basis_spec(
        "BasisMulti/even",
        lambda V: B.BasisMulti([B.PODBasis(num_vectors=1),
                                B.PODBasis(num_vectors=2)]),
        6, 3, lambda p: B.BasisMulti.load(p, B.PODBasis), (), trained=False)
    yield basis_spec(
        "BasisMulti/linear",
        lambda V: B.BasisMulti([B.LinearBasis(np.eye(3)[:, :2], name="u"),
                                B.PODBasis(num_vectors=2),
                                B.LinearBasis(np.eye(2))], [3, 4, 2]),
        9, 6, lambda p: B.BasisMulti.load(
            p, (B.LinearBasis, B.PODBasis, B.LinearBasis)), (),
        trained=False)


# Operators -------------------------------------------------------------------
O_ATTRS = ("entries", "shape", "state_dimension", "input_dimension",
           "parameter_dimension", "nterms", "training_parameters",
           "polynomial_order")


def o_attrs(o, V):
    return tuple((a, norm(attempt(getattr, o, a))) for a in O_ATTRS
                 if hasattr(type(o), a))


def op_spec(name, make, entries, hasin, m, load, r, static=None, tol=1e-9):
    """entries: two arrays of entries (for the events)."""
    def vault():
        return Vault(E0=entries[0].copy(), E1=entries[1].copy(),
                     q=gen(r, tag=51), Q=gen(r, 3, tag=52),
                     u=gen(m, tag=53), U=gen(m, 3, tag=54),
                     Vr=np.linalg.qr(gen(r, max(1, r - 1), tag=55))[0],
                     Wr=gen(r, max(1, r - 1), tag=56),
                     badq=gen(r + 1, tag=57))

    def u(V, k):
        return V[k] if hasin else None

    events = [
        ("set0", lambda o, V: o.set_entries(V["E0"])),
        ("set1", lambda o, V: setattr(o, "entries", V["E1"])),
        ("del", lambda o, V: delattr(o, "entries")),
    ]
    probes = [
        ("attributes", o_attrs), ("str", text),
        ("apply", lambda o, V: o.apply(V["q"], u(V, "u"))),
        ("call", lambda o, V: o(V["Q"], u(V, "U"))),
        ("jacobian", lambda o, V: o.jacobian(V["q"], u(V, "u"))),
        ("galerkin", lambda o, V: o.galerkin(V["Vr"])),
        ("petrov", lambda o, V: o.galerkin(V["Vr"], V["Wr"])),
        ("sum", lambda o, V: o + o),
    ]
    bad = []
    if name.split("/")[0] not in ("Constant", "Input") and r > 1:
        bad = [("state size", lambda o, V: o.apply(V["badq"], u(V, "u")))]
    unt = ("apply", "call", "jacobian", "galerkin", "petrov")
    if name == "Polynomial/0":
        unt = unt[:2] + unt[3:]     # zero whatever the entries are
    return Spec(name, make, vault, events, probes, load, copy=True,
                untrained=unt,
                bad=bad, tol=tol, tries=odd_entries())


def operators(tier):
    for short in ("Constant", "Linear", "Quadratic", "Cubic", "Quartic",
                  "Input", "StateInput"):
        nm = short + "Operator"
        cl = ops.cls(nm)
        for r, m in ((3, 2), (1, 1), (2, 1)):
            es = [ops.entries_of(nm, r, m, tag=k) for k in (60, 61)]
            hasin = nm in ops.HAS_INPUT
            for start in ("empty", "full"):
                yield op_spec(
                    f"{short}/r{r}m{m}/{start}",
                    lambda V, cl=cl, start=start: cl(
                        V["E1"] if start == "full" else None),
                    es, hasin, m, cl.load, r)
    for short, shape in (("Linear", (3, 3)), ("Input", (3, 2))):
        for fmt in ("csr", "csc", "coo", "dia"):
            cl = ops.cls(short + "Operator")
            E = gen(*shape, tag=62)
            E[E < 0] = 0
            es = [getattr(sparse, fmt + "_array")(E),
                  getattr(sparse, fmt + "_array")(2 * E + np.eye(*shape))]
            yield op_spec(f"{short}/sparse {fmt}",
                          lambda V, cl=cl: cl(V["E1"]), es,
                          short == "Input", 2, cl.load, 3)
    for p in range(5):
        E = [gen(2, len(ops.multi_indices(2, p)), tag=63 + k)
             for k in (0, 1)]
        yield op_spec(
            f"Polynomial/{p}",
            lambda V, p=p: OP.PolynomialOperator(p), E, False, 1,
            OP.PolynomialOperator.load, 2)
    # Parametric operators
    coeffs = [lambda mu: mu[0], lambda mu: mu[1] ** 2 + 1]
    for short in ("Constant", "Linear", "Quadratic", "Cubic", "Input",
                  "StateInput"):
        yield from affine(short, coeffs)
        yield from interpolated(short)


def par_vault(nm, r, m, s, scalar):
    E = [[ops.entries_of(nm, r, m, tag=70 + 10 * k + i) for i in range(s)]
         for k in (0, 1)]
    return dict(E0=E[0], E1=E[1], q=gen(r, tag=51), Q=gen(r, 3, tag=52),
                u=gen(m, tag=53), U=gen(m, 3, tag=54),
                mu=np.array([0.4, 1.7]), mu2=np.array([1.1, -0.3]),
                nu=0.4, nu2=1.3, badmu=np.array([1.0, 2.0, 3.0]),
                Vr=np.linalg.qr(gen(r, max(1, r - 1), tag=55))[0])


def par_probes(hasin, mu, mu2, V_=None):
    def u(V, k):
        return V[k] if hasin else None

    # evaluate() determines the parameter dimension: look at it afterwards
    return [
        ("evaluate", lambda o, V: o.evaluate(V[mu])),
        ("apply", lambda o, V: o.apply(V[mu2], V["q"], u(V, "u"))),
        ("jacobian", lambda o, V: o.jacobian(V[mu2], V["q"], u(V, "u"))),
        ("galerkin", lambda o, V: norm(o.galerkin(V["Vr"]).entries)),
        ("attributes", o_attrs), ("str", text),
    ]


def affine(short, coeffs):
    nm = short + "Operator"
    cl = ops.cls("Affine" + nm)
    r, m = 2, 2
    for form, kw in (("list", dict(coeffs=coeffs)), ("int", dict(coeffs=2)),
                     ("callable", dict(coeffs=lambda mu: mu, nterms=2))):
        def vault():
            return Vault(**par_vault(nm, r, m, 2, False))
        events = [
            ("set0", lambda o, V: o.set_entries(V["E0"])),
            ("set1", lambda o, V: setattr(o, "entries", V["E1"])),
            ("eval", lambda o, V: attempt(o.evaluate, V["mu"])),
            ("del", lambda o, V: delattr(o, "entries")),
        ]
        yield Spec(
            f"Affine{short}/{form}", lambda V, kw=kw: cl(**kw), vault,
            events, par_probes(nm in ops.HAS_INPUT, "mu", "mu2"),
            lambda p, kw=kw: cl.load(p, kw["coeffs"]),
            untrained=("evaluate", "apply", "jacobian", "galerkin"),
            bad=(), tries=odd_parametric())
    if short == "Linear":
        Es = [sparse.csr_array(np.diag([1.0, 2.0])),
              sparse.csc_array(np.array([[0, 1.0], [3.0, 0]]))]

        def vault():
            V = par_vault(nm, r, m, 2, False)
            V.update(E0=[e.copy() for e in Es], E1=[Es[1] * 2, Es[0] * 3])
            return Vault(**V)

        yield Spec("AffineLinear/sparse", lambda V: cl(coeffs), vault,
                   events[:2], par_probes(False, "mu", "mu2"),
                   lambda p: cl.load(p, coeffs),
                   untrained=("evaluate", "apply", "jacobian"))


class OwnInterpolator:
    """Interpolator that is not in scipy.interpolate."""

    def __init__(self, points, values):
        self.p, self.v = np.array(points), np.array(values)

    def __call__(self, x):
        w = np.exp(-np.sum((self.p.reshape(len(self.p), -1)
                            - np.ravel(x)) ** 2, axis=1))
        return np.tensordot(w / w.sum(), self.v, axes=1)


def interpolated(short):
    nm = short + "Operator"
    cl = ops.cls("Interp" + nm)
    r, m = 2, 2
    pts1 = np.array([0.0, 0.5, 1.5, 2.0])
    pts2 = gen(4, 2, tag=66)
    menu = [("none", pts1, None, "nu", "nu2", None),
            ("pchip", pts1, spi.PchipInterpolator, "nu", "nu2", None),
            ("nearest", pts2, spi.NearestNDInterpolator, "mu", "mu2", None),
            ("own", pts2, OwnInterpolator, "mu", "mu2", OwnInterpolator)]
    for iname, pts, IC, mu, mu2, arg in menu:
        def vault(pts=pts):
            V = par_vault(nm, r, m, 4, False)
            V["pts"] = pts.copy()
            V["E0"] = np.array(V["E0"])
            V["E1"] = np.array(V["E1"])
            return Vault(**V)

        events = [
            ("points", lambda o, V: o.set_training_parameters(V["pts"])),
            ("set0", lambda o, V: o.set_entries(V["E0"])),
            ("set1", lambda o, V: setattr(o, "entries", V["E1"])),
            ("linear", lambda o, V, mu=mu: o.set_interpolator(
                spi.Akima1DInterpolator if mu == "nu"
                else spi.LinearNDInterpolator)),
            ("del", lambda o, V: delattr(o, "entries")),
        ]
        for start in ("empty", "points", "full"):
            def make(V, start=start, IC=IC):
                if start == "empty":
                    return cl(InterpolatorClass=IC)
                if start == "points":
                    return cl(training_parameters=V["pts"],
                              InterpolatorClass=IC)
                return cl(training_parameters=V["pts"],
                          InterpolatorClass=IC, entries=V["E0"])

            # the class is required by load() only if it is not SciPy's
            yield Spec(
                f"Interp{short}/{iname}/{start}", make, vault,
                events if arg is None else events[:3] + events[4:],
                par_probes(nm in ops.HAS_INPUT, mu, mu2),
                (lambda p, arg=arg: cl.load(p) if arg is None
                 else cl.load(p, arg)),
                untrained=("evaluate", "apply", "jacobian", "galerkin"),
                tries=odd_parametric())


# Solvers ---------------------------------------------------------------------
S_ATTRS = ("data_matrix", "lhs_matrix", "k", "d", "r", "options",
           "regularizer", "method", "num_svdmodes", "max_modes", "augcond",
           "error")


def s_attrs(o, V):
    return tuple((a, norm(attempt(getattr, o, a))) for a in S_ATTRS
                 if hasattr(type(o), a) and not (
                     # only meaningful once there are data
                     a == "num_svdmodes" and o.data_matrix is None))


def solver_specs(tier):
    def vault():
        return Vault(D0=gen(7, 3, tag=81), Z0=gen(2, 7, tag=82),
                     D1=gen(6, 3, tag=83), Z1=gen(2, 6, tag=84),
                     X=gen(2, 3, tag=85), bad=gen(2, 6, tag=86),
                     badX=gen(2, 4, tag=87),
                     vec=np.array([0.5, 1.0, 2.0]),
                     G=gen(3, 3, tag=88), Gs=[gen(3, 3, tag=89),
                                              np.diag([1.0, 0, 2.0])],
                     two=np.array([0.25, 4.0]),
                     vecs=gen(2, 3, tag=90, offset=1.5),
                     sp=sparse.csr_array(np.diag([1.0, 3.0, 0.5])))

    base = [("fit0", lambda o, V: o.fit(V["D0"], V["Z0"])),
            ("fit1", lambda o, V: o.fit(V["D1"], V["Z1"])),
            ("reset", lambda o, V: o.reset())]

    def reg(k, val=None):
        return f"reg={k}", lambda o, V: setattr(
            o, "regularizer", V[k] if val is None else val)

    probes = [
        ("attributes", s_attrs), ("str", text),
        ("solve", lambda o, V: o.solve()),
        ("residual", lambda o, V: o.residual(V["X"])),
        ("cond", lambda o, V: o.cond()),
    ]
    regp = [("regcond", lambda o, V: o.regcond()),
            ("regresidual", lambda o, V: o.regresidual(V["X"])),
            ("posterior", lambda o, V: o.posterior())]
    tcond = [("tcond", lambda o, V: o.tcond())]
    bad = [("fit columns", lambda o, V: o.fit(V["D0"], V["bad"])),
           ("residual shape", lambda o, V: o.residual(V["badX"]))]
    unt = ("solve", "residual", "cond", "regcond", "regresidual",
           "posterior", "tcond")

    def spec(name, make, events, extra, cl):
        return Spec(name, make, vault, base + events, probes + extra,
                    cl.load, untrained=unt, bad=bad, tol=1e-9,
                    tries=odd_fit(("D1", "Z1")) + odd_values("regularizer", [
                        ("None", None), ("negative", -1.0), ("text", "a"),
                        ("one more", np.ones(4)), ("some", [1.0, -2.0]),
                        ("3-D", np.ones((3, 3, 3))), ("nothing", []),
                        ("rows", np.ones((2, 4))), ("NaN", np.nan),
                        ("ragged", [np.eye(3), np.eye(2)])]) + odd_values(
                        "num_svdmodes", [("text", "a"), ("0", 0),
                                         ("9", 9), ("-9", -9)]))

    yield spec("Plain", lambda V: L.PlainSolver(), [], [], L.PlainSolver)
    yield spec("Plain/opts", lambda V: L.PlainSolver(
        cond=1e-3, lapack_driver="gelsy"), [], [], L.PlainSolver)
    yield spec("Plain/cond0", lambda V: L.PlainSolver(
        cond=0.0, lapack_driver="gelss"), [], [], L.PlainSolver)
    yield spec("Tik/lstsq/vec/cond0", lambda V: L.TikhonovSolver(
        V["vec"], cond=0.0), [], regp, L.TikhonovSolver)
    for drv in ("gesdd", "gesvd"):
        yield spec(f"L2/{drv}", lambda V, d=drv: L.L2Solver(
            lapack_driver=d), [reg("1", 1.0), reg("0", 0)], regp,
            L.L2Solver)
        yield spec(f"L2D/{drv}", lambda V, d=drv: L.L2DecoupledSolver(
            [1.0, 2.0], lapack_driver=d), [reg("two")], regp,
            L.L2DecoupledSolver)
        yield spec(f"Total/{drv}", lambda V, d=drv:
                   L.TotalLeastSquaresSolver(lapack_driver=d), [], [],
                   L.TotalLeastSquaresSolver)
        for n in (None, 1, 2, -1):
            yield spec(
                f"TSVD/{drv}/{n}", lambda V, d=drv, n=n:
                L.TruncatedSVDSolver(n, lapack_driver=d),
                [("modes2", lambda o, V: setattr(o, "num_svdmodes", 2))],
                tcond, L.TruncatedSVDSolver)
    for meth in ("lstsq", "normal"):
        for key in ("vec", "G", "sp", None):
            yield spec(
                f"Tik/{meth}/{key}", lambda V, k=key, me=meth:
                L.TikhonovSolver(V[k] if k else None, method=me,
                                 lapack_driver="gelsy", cond=1e-12),
                [reg("vec"), reg("G"), (
                    "method", lambda o, V: setattr(o, "method", "normal"))],
                regp, L.TikhonovSolver)
        for key in ("vecs", "Gs", None):
            yield spec(
                f"TikD/{meth}/{key}", lambda V, k=key, me=meth:
                L.TikhonovDecoupledSolver(V[k] if k else None, method=me),
                [reg("vecs"), reg("Gs")], regp, L.TikhonovDecoupledSolver)


# Models ----------------------------------------------------------------------
M_ATTRS = ("state_dimension", "input_dimension", "parameter_dimension",
           "data_matrix_", "operator_matrix_", "operator_matrix_dimension",
           "num_params", "training_parameters")


def m_attrs(o, V):
    return tuple((a, norm(attempt(getattr, o, a))) for a in M_ATTRS
                 if hasattr(type(o), a))


def m_ops(o, V):
    return tuple((type(p).__name__, o_attrs(p, V)) for p in o.operators)


def m_solver(o, V):
    s = o.solver
    if s is None:
        return None
    return type(s).__name__, s_attrs(s, V), norm(attempt(s.solve))


MK = {"c": "ConstantOperator", "A": "LinearOperator",
      "H": "QuadraticOperator", "B": "InputOperator",
      "N": "StateInputOperator"}


def model_vault(r, m):
    k = 14
    V = dict(
        Q0=gen(r, k, tag=91), Z0=gen(r, k, tag=92), U0=gen(m, k, tag=93),
        Q1=gen(r, k + 2, tag=94), Z1=gen(r, k + 2, tag=95),
        U1=gen(m, k + 2, tag=96), q=gen(r, tag=97) / 4, u=gen(m, tag=98),
        t=np.linspace(0, 0.2, 5), Up=gen(m, 6, tag=99) / 4,
        Vr=np.linalg.qr(gen(r, max(1, r - 1), tag=100))[0],
        badq=gen(r + 1, tag=101), badZ=gen(r, k - 1, tag=102),
        badZr=gen(r + 1, k, tag=103), badU=gen(m, k - 1, tag=104),
        KA=-np.eye(r) + 0.1 * gen(r, r, tag=105), Kc=gen(r, tag=106),
        Upf=gen(m, 5, tag=99) / 4)
    return V


def nonparametric_models(tier):
    r, m = 2, 1
    C, D = M.ContinuousModel, M.DiscreteModel
    forms = ["A", "cA", "cAH", "AB", "cAHBN", "HN"]
    solvers = [("None", lambda: None), ("L2", lambda: L.L2Solver(0.1)),
               ("Tik", None)]
    for cl, kind in ((C, "C"), (D, "D")):
        for form in forms:
            for known in ("", "A", "cA"):
                if not set(known) <= set(form) or (
                        known and len(form) > 3 and known == "cA"):
                    continue
                if known == form:
                    sols = [("None", lambda: None)]
                else:
                    sols = solvers[:2]
                for sn, mk in sols:
                    yield model_spec(cl, kind, form, known, sn, mk, r, m)
    # forms given as strings, and other solvers
    yield model_spec(C, "C", "cA", "", "TSVD",
                     lambda: L.TruncatedSVDSolver(2), r, m)
    yield model_spec(D, "D", "cAB", "", "Total",
                     lambda: L.TotalLeastSquaresSolver(), r, m)
    yield model_spec(C, "C", "cAB", "", "Tik",
                     lambda: L.TikhonovSolver(np.array([.1, .2, .3, .4])),
                     r, m)
    yield model_spec(D, "D", "cA", "", "TikD",
                     lambda: L.TikhonovDecoupledSolver(
                         np.array([[.1, .2, .3], [.3, .2, .1]])), r, m)
    yield model_spec(C, "C", "cA", "", "L2D",
                     lambda: L.L2DecoupledSolver([.1, .3]), r, m)
    # other dimensions
    l2 = ("L2", lambda: L.L2Solver(0.1))
    for r, m in ((1, 1), (3, 2), (1, 2)):
        for form, known in (("cA", "c"), ("HAB", ""), ("AB", "A"),
                            ("cANH" if r == 1 else "NcA", "c")):
            if (r, m) == (1, 2) and form != "HAB":
                continue
            yield model_spec(C, "C", form, known, *l2, r, m)
            yield model_spec(D, "D", form, known, *l2, r, m)


def known_op(k, V):
    key = "K" + k
    return ops.cls(MK[k])(V[key])


def model_events(kind, hasin, par=False, r=2):
    def fit(k):
        def run(o, V):
            u = V[f"U{k}"] if hasin else None
            if par:
                return o.fit(V["mus"], V[f"Q{k}"], V[f"Z{k}"], u)
            return o.fit(V[f"Q{k}"], V[f"Z{k}"], u)
        return f"fit{k}", run

    return [
        fit(0), fit(1), ("refit", lambda o, V: o.refit()),
        ("solver", lambda o, V: setattr(o, "solver", 0.5)),
        ("dim", lambda o, V: setattr(o, "state_dimension", r)),
    ]


def model_bad(kind, hasin):
    def u(V, k):
        return V[k] if hasin else None

    bad = [
        ("fit columns", lambda o, V: o.fit(V["Q0"], V["badZ"],
                                           u(V, "U0"))),
        ("fit rows", lambda o, V: o.fit(V["Q0"], V["badZr"], u(V, "U0"))),
    ]
    if hasin:
        bad += [
            ("fit inputs", lambda o, V: o.fit(V["Q0"], V["Z0"], V["badU"])),
            ("fit no inputs", lambda o, V: o.fit(V["Q0"], V["Z0"])),
        ]
    if kind == "C":
        bad += [("predict size", lambda o, V: o.predict(
            V["badq"], V["t"], u(V, "Upf")))]
    else:
        bad += [("predict size", lambda o, V: o.predict(
            V["badq"], 4, u(V, "Up")))]
    return bad


def model_spec(cl, kind, form, known, sn, mk, r, m):
    hasin = any(k in "BN" for k in form)

    def vault():
        return Vault(**model_vault(r, m))

    def make(V):
        return cl([known_op(k, V) if k in known else ops.cls(MK[k])()
                   for k in form], solver=mk())

    def u(V, k):
        return V[k] if hasin else None

    if kind == "C":
        def inf(V):
            return (lambda t: V["u"] * t) if hasin else None
        use = [
            ("rhs", lambda o, V: o.rhs(0.3, V["q"], inf(V))),
            ("jacobian", lambda o, V: o.jacobian(0.3, V["q"], inf(V))),
            ("predict", lambda o, V: np.array(o.predict(
                V["q"], V["t"], inf(V), method="RK23", max_step=0.1))),
        ]
    else:
        use = [
            ("rhs", lambda o, V: o.rhs(V["q"], u(V, "u"))),
            ("jacobian", lambda o, V: o.jacobian(V["q"], u(V, "u"))),
            ("predict", lambda o, V: o.predict(V["q"], 4, u(V, "Up"))),
        ]
    probes = [("attributes", m_attrs), ("operators", m_ops),
              ("solver", m_solver), ("str", text)] + use + [
        ("galerkin", lambda o, V: o.galerkin(V["Vr"]))]
    unt = () if set(known) == set(form) else ("rhs", "jacobian", "predict")
    size = "" if (r, m) == (2, 1) else f"/{r},{m}"
    return Spec(f"{kind}/{form}/known={known}/{sn}{size}", make, vault,
                model_events(kind, hasin, r=r), probes, cl.load, untrained=unt,
                bad=model_bad(kind, hasin) if unt else (), tol=1e-8,
                tries=odd_fit(("Q1", "Z1") + (("U1",) if hasin else ()))
                + MODEL_ODD)


MODEL_ODD = odd_values("solver", [
    ("text", "a"), ("negative", -1.0), ("class", object), ("list", [])]) + (
    odd_values("state_dimension", [("0", 0), ("text", "a"), ("9", 9)])
    + odd_values("input_dimension", [("text", "a"), ("9", 9)])
    + odd_values("operators", [("none", []), ("twice", "AA"),
                               ("unknown", "Z"), ("number", 1)]))


def parametric_models(tier):
    r, m, s = 2, 1, 3
    for kind in "CD":
        for fam in ("Affine", "Interp"):
            word = "Continuous" if kind == "C" else "Discrete"
            if fam == "Affine":
                cl = getattr(M, f"Parametric{word}Model")
            else:
                cl = getattr(M, f"Interp{word}Model")
            for form in ("A", "cA", "cAB", "AH"):
                for known in ("", "A"):
                    if form == known or (known and form == "AH"):
                        continue
                    for sn, mk in (("None", lambda: None),
                                   ("L2", lambda: L.L2Solver(0.1))):
                        if fam == "Interp":
                            for IC in (None, spi.PchipInterpolator):
                                yield par_spec(cl, kind, fam, form, known,
                                               sn, mk, IC, r, m, s)
                        else:
                            yield par_spec(cl, kind, fam, form, known, sn,
                                           mk, None, r, m, s)


def par_spec(cl, kind, fam, form, known, sn, mk, IC, r, m, s):
    hasin = "B" in form
    coeffs = [lambda mu: 1.0, lambda mu: mu]

    def vault():
        V = model_vault(r, m)
        for k in (0, 1):
            V[f"Q{k}"] = [gen(r, 9 + i, tag=110 + 10 * k + i)
                          for i in range(s)]
            V[f"Z{k}"] = [gen(r, 9 + i, tag=130 + 10 * k + i)
                          for i in range(s)]
            V[f"U{k}"] = [gen(m, 9 + i, tag=150 + 10 * k + i)
                          for i in range(s)]
        V["badZ"] = V["Z0"][:2] + [gen(r, 4, tag=160)]
        V["badZr"] = V["Z0"][:2] + [gen(r + 1, 11, tag=161)]
        V["badU"] = V["U0"][:2] + [gen(m, 4, tag=162)]
        V["mus"] = np.array([1.0, 1.5, 3.0])
        V["mus2"] = [1.0, 1.5]
        V["mu"] = 1.7
        return Vault(**V)

    def make(V):
        opz = []
        for k in form:
            if k in known and fam == "Interp":
                opz.append(ops.cls("Interp" + MK[k])(
                    training_parameters=V["mus"],
                    entries=np.array([(i + 1) * V["K" + k]
                                      for i in range(s)]),
                    InterpolatorClass=IC))
            elif k in known:
                opz.append(ops.cls(MK[k])(V["K" + k]))
            elif fam == "Affine":
                opz.append(ops.cls("Affine" + MK[k])(coeffs))
            else:
                opz.append(ops.cls("Interp" + MK[k])(InterpolatorClass=IC))
        kw = {} if IC is None else {"InterpolatorClass": IC}
        return cl(opz, solver=mk(), **kw)

    def u(V, k):
        return V[k] if hasin else None

    if kind == "C":
        def inf(V):
            return (lambda t: V["u"] * t) if hasin else None
        use = [
            ("rhs", lambda o, V: o.rhs(V["mu"], 0.3, V["q"], inf(V))),
            ("jacobian", lambda o, V: o.jacobian(V["mu"], 0.3, V["q"],
                                                 inf(V))),
            ("predict", lambda o, V: np.array(o.predict(
                V["mu"], V["q"], V["t"], inf(V), method="RK23",
                max_step=0.1))),
        ]
    else:
        use = [
            ("rhs", lambda o, V: o.rhs(V["mu"], V["q"], u(V, "u"))),
            ("jacobian", lambda o, V: o.jacobian(V["mu"], V["q"],
                                                 u(V, "u"))),
            ("predict", lambda o, V: o.predict(V["mu"], V["q"], 4,
                                               u(V, "Up"))),
        ]
    probes = [("attributes", m_attrs), ("operators", m_ops),
              ("solver", m_solver), ("str", text),
              ("evaluate", lambda o, V: o.evaluate(V["mu"]))] + use

    def badfit(mus, Q, Z, U):
        return lambda o, V: o.fit(V[mus], V[Q], V[Z], u(V, U))

    bad = [("fit columns", badfit("mus", "Q0", "badZ", "U0")),
           ("fit rows", badfit("mus", "Q0", "badZr", "U0")),
           ("fit parameters", badfit("mus2", "Q0", "Z0", "U0"))]
    if hasin:
        bad += [("fit inputs", badfit("mus", "Q0", "Z0", "badU")),
                ("fit no inputs", lambda o, V: o.fit(V["mus"], V["Q0"],
                                                     V["Z0"]))]
    load = None
    if fam == "Interp":
        def load(p):
            return cl.load(p)
        load.__name__ = "interp"
    ev = model_events(kind, hasin, par=True)
    return Spec(f"{kind}{fam}/{form}/known={known}/{sn}/"
                f"{IC.__name__ if IC else None}", make, vault, ev, probes,
                load, untrained=("evaluate", "rhs", "jacobian", "predict"),
                bad=bad, tol=1e-8, tries=odd_fit(
                    ("mus", "Q0", "Z0") + (("U0",) if hasin else ()))
                + MODEL_ODD)


def menu(tier):
    for gen_ in (transformers, bases, operators, solver_specs,
                 nonparametric_models, parametric_models):
        yield from gen_(tier)


# Reduced-order models, derivative estimators, lifting maps -------------------
def rom_stages(kind, n):
    """(transformer, basis) of a reduced-order model."""
    P, B = opinf.pre, opinf.basis
    half = n // 2
    T = {"none": lambda: None,
         "ss": lambda: P.ShiftScaleTransformer(True, "maxabs", byrow=True),
         "shift": lambda: P.ShiftTransformer(np.linspace(-1, 1, n)),
         "pipe": lambda: P.TransformerPipeline(
             [P.ShiftTransformer(np.linspace(-1, 1, n)),
              P.ScaleTransformer(2.0)]),
         "multi": lambda: P.TransformerMulti(
             [P.ShiftScaleTransformer(True), P.ScaleTransformer(-2.0)],
             [half, n - half])}
    V = {"none": lambda: None,
         "lin": lambda: B.LinearBasis(np.linalg.qr(gen(n, 2, tag=170))[0]),
         "pod": lambda: B.PODBasis(num_vectors=2),
         "multi": lambda: B.BasisMulti(
             [B.PODBasis(num_vectors=1), B.PODBasis(num_vectors=1)],
             [half, n - half])}
    t, b = kind.split("+")
    return T[t](), V[b]()


ROM_STAGES = ("none+none", "none+lin", "none+pod", "ss+none", "ss+pod",
              "shift+pod", "pipe+lin", "multi+multi", "multi+pod")


def rom_specs(tier):
    for kind in "CD":
        for form in ("A", "cAB"):
            for stages in ROM_STAGES:
                for lifted in (False, True):
                    if lifted and stages not in ("ss+pod", "none+none"):
                        continue
                    yield rom_spec(kind, form, stages, lifted, False)
            for stages in ("ss+pod", "shift+none", "none+lin"):
                yield rom_spec(kind, form, stages, False, True)
        yield rom_spec(kind, "A", "ss+pod", False, False, bayes=True)
        yield rom_spec(kind, "cAB", "shift+pod", False, False, bayes=True)


def rom_spec(kind, form, stages, lifted, parametric, bayes=False):
    hasin = "B" in form
    n0 = 3 if lifted else 6
    n = 6
    m = 1
    s = 3 if parametric else 2

    def vault():
        V = dict(q=gen(n0, tag=180) / 4, t=np.linspace(0, 0.1, 4),
                 Up=gen(m, 6, tag=181) / 4, X=gen(n0, 3, tag=182),
                 D=gen(n0, 3, tag=183), locs=np.array([n0 - 1, 0]),
                 badq=gen(n0 + 1, tag=184), badX=gen(n0 + 1, 3, tag=185))
        for k in (0, 1):
            V[f"Q{k}"] = [gen(n0, 15 + i + k, tag=190 + i + 10 * k)
                          for i in range(s)]
            V[f"Z{k}"] = [gen(n0, 15 + i + k, tag=210 + i + 10 * k)
                          for i in range(s)]
            V[f"U{k}"] = [gen(m, 15 + i + k, tag=230 + i + 10 * k)
                          for i in range(s)]
        V["badZ"] = V["Z0"][:-1] + [gen(n0, 3, tag=250)]
        V["badQ"] = V["Q0"][:-1] + [gen(n0 + 1, 14 + s, tag=251)]
        V["mus"] = np.array([1.0, 1.5, 3.0])
        V["mu"] = 1.7
        return Vault(**V)

    def make(V):
        tr, ba = rom_stages(stages, n)
        word = "Continuous" if kind == "C" else "Discrete"
        names = [ops.cls(("Affine" if parametric else "") + MK[k])
                 for k in form]
        solver = L.L2Solver(0.1)
        if parametric:
            coeffs = [lambda mu: 1.0, lambda mu: mu]
            model = getattr(M, f"Parametric{word}Model")(
                [c(coeffs) for c in names], solver=solver)
            cl = opinf.roms.ParametricROM
        else:
            model = getattr(M, f"{word}Model")(
                [c() for c in names], solver=solver)
            cl = opinf.roms.BayesianROM if bayes else opinf.ROM
        return cl(model, lifter=opinf.lift.QuadraticLifter() if lifted
                  else None, transformer=tr, basis=ba)

    def u(V, k):
        return V[k] if hasin else None

    def fit(Q="Q0", Z="Z0", U="U0", **kw):
        def run(o, V):
            a = (V["mus"],) if parametric else ()
            return o.fit(*a, V[Q], V[Z], u(V, U), **kw)
        return run

    par = ("mu",) if parametric else ()

    def pred(o, V, q="q"):
        a = [V[k] for k in par]
        if kind == "C":
            f = (lambda t: np.array([np.cos(t)])) if hasin else None
            return np.array(o.predict(*a, V[q], V["t"], input_func=f,
                                      method="RK23", max_step=0.05))
        return o.predict(*a, V[q], 4, inputs=u(V, "Up"))

    events = [("fit0", fit()), ("fit1", fit("Q1", "Z1", "U1")),
              ("train", lambda o, V: o.encode(
                  V["Q1"][0], fit_transformer=True, fit_basis=True)),
              ("solver", lambda o, V: setattr(o.model, "solver", 0.5))]
    if "ss" in stages:
        events.append(("keep", fit("Q1", "Z1", "U1", fit_transformer=False,
                                   fit_basis=False)))

    def red(o, V):
        r = np.shape(o.encode(V["X"]))[0]
        return np.arange(r) / 2 + 0.5

    probes = [
        ("str", text),
        ("encode", lambda o, V: o.encode(V["X"])),
        ("encode 1-D", lambda o, V: o.encode(V["q"])),
        ("encode lhs", lambda o, V: o.encode(V["X"], V["D"])),
        ("decode", lambda o, V: o.decode(red(o, V))),
        ("project", lambda o, V: o.project(V["X"])),
        ("model", lambda o, V: None if bayes else (
            m_attrs(o.model, V), m_ops(o.model, V))),
    ]
    if not lifted and not stages.startswith("multi") and (
            not stages.endswith("multi")):
        probes.append(("locs", lambda o, V: o.decode(red(o, V),
                                                     locs=V["locs"])))
    unt = ["predict"]
    if stages.split("+")[0] in ("ss", "multi"):
        unt += ["encode", "encode 1-D", "encode lhs", "project"]
    elif stages.split("+")[1] in ("pod", "multi"):
        unt += ["encode", "encode 1-D", "encode lhs", "project"]
    if bayes:
        def draw(o, V):
            state = np.random.get_state()
            np.random.seed(7)
            try:
                return pred(o, V)
            finally:
                np.random.set_state(state)

        def means(o, V):
            p = o.posterior
            return None if p is None else (list(p.means), list(p.covs))
        probes += [("predict", draw), ("posterior", means)]
    else:
        probes.append(("predict", pred))
    def select(**change):
        """A selection of the regularization that fails."""
        def run(o, V):
            kw = dict(candidates=[0.1, 1.0], states=V["Q1"],
                      gridsearch_only=True,
                      regularizer_factory=lambda x: float(np.squeeze(x)))
            if parametric:
                kw["parameters"] = V["mus"]
            if bayes:
                kw["num_posterior_draws"] = 2
            if kind == "C":
                kw["ddts"] = V["Z1"]
                kw["train_time_domains"] = [
                    np.linspace(0, 0.1, Q.shape[1]) for Q in V["Q1"]]
                if hasin:
                    kw["input_functions"] = lambda t: np.array([np.cos(t)])
                kw |= dict(method="RK23", max_step=0.05)
            elif hasin:
                kw["inputs"] = V["U1"]
            kw.update({k: v(V) if callable(v) and k != "regularizer_factory"
                       else v for k, v in change.items()})
            word = "continuous" if kind == "C" else "discrete"
            return getattr(o, f"fit_regselect_{word}")(**kw)
        return run

    def refuse(x):
        raise ArithmeticError("no regularizer")

    tries = [(f"select {lab}", select(**ch)) for lab, ch in (
        ("unstable", dict(stability_margin=0.0)),
        ("test cases", dict(test_cases=[3])),
        ("candidates", dict(candidates=[-1.0])),
        ("margin", dict(stability_margin="a")),
        ("factory", dict(regularizer_factory=refuse)),
        ("states", dict(states=lambda V: V["badQ"])),
        ("NaN", dict(states=lambda V: [odd(Q, "NaN") for Q in V["Q1"]])))]
    if kind == "C":
        tries.append(("select ddts", select(ddts=lambda V: V["badZ"])))
        tries.append(("select method", select(method="none")))
    if hasin and kind == "D":
        tries.append(("select inputs", select(
            inputs=lambda V: [U[:, :3] for U in V["U1"]])))
    bad = [("fit columns", fit(Z="badZ")), ("fit rows", fit(Q="badQ")),
           ("predict size", lambda o, V: pred(o, V, "badq"))]
    if hasin:
        bad.append(("fit no inputs", lambda o, V: o.fit(
            *[V["mus"]][:len(par)], V["Q0"], V["Z0"])))
    return Spec(
        f"{'Bayes' if bayes else 'Par' if parametric else ''}ROM{kind}/"
        f"{form}/{stages}/{'lifted' if lifted else '-'}", make, vault,
        events, probes, copy=False, untrained=tuple(unt), bad=bad, tol=1e-8,
        tries=tries + odd_fit((("mus",) if par else ()) + ("Q1", "Z1") + (
            ("U1",) if hasin else ())))


def small_specs(tier):
    """Derivative estimators and lifting maps: nothing to be trained."""
    D = opinf.ddt
    k = 12
    t = np.linspace(0, 1, k)

    def dvault():
        return Vault(t=t.copy(), tn=t ** 1.5 + t, new=np.linspace(.1, .9, 7),
                     Q=gen(2, k, tag=260), U=gen(1, k, tag=261),
                     u=gen(k, tag=262), badQ=gen(2, k + 1, tag=263),
                     badU=gen(1, k - 1, tag=264))

    ests = [("Nonuniform", lambda V: D.NonuniformFiniteDifferencer(V["tn"]))]
    ests += [(f"Uniform/{s}", lambda V, s=s: D.UniformFiniteDifferencer(
        V["t"], s)) for s in ("fwd1", "fwd4", "bwd2", "bwd6", "ctr2", "ctr6",
                              "ord2", "ord4", "ord6")]
    ests += [(f"Interp/{s}", lambda V, s=s: D.InterpDerivativeEstimator(
        V["t"], s)) for s in ("cubic", "akima")]
    ests += [(f"Interp/{s}/new", lambda V, s=s: D.InterpDerivativeEstimator(
        V["t"], s, new_time_domain=V["new"])) for s in ("cubic", "akima")]
    for nm, mk in ests:
        yield Spec(
            f"ddt/{nm}", mk, dvault, [], [
                ("time", lambda o, V: (o.time_domain,
                                       attempt(getattr, o, "dt"),
                                       attempt(getattr, o,
                                               "new_time_domain"))),
                ("str", text),
                ("estimate", lambda o, V: o.estimate(V["Q"])),
                ("estimate inputs", lambda o, V: o.estimate(V["Q"], V["U"])),
                ("estimate 1-D", lambda o, V: o.estimate(V["Q"], V["u"])),
                ("mask", lambda o, V: o.mask(V["Q"])),
                ("mask 1-D", lambda o, V: o.mask(V["u"])),
                ("verify shapes", lambda o, V: o.verify_shapes()),
                ("verify", lambda o, V: o.verify(return_errors=True)),
            ], copy=False, bad=[
                ("inputs", lambda o, V: o.estimate(V["Q"], V["badU"])),
            ], tol=1e-9, tries=odd_values("scheme", [
                ("unknown", "a"), ("number", 3), ("None", None)])
            + odd_values("new_time_domain", [
                ("number", 0.5), ("text", "a"), ("outside", t + 3),
                ("2-D", np.ones((2, 2)))])
            + odd_values("time_domain", [
                ("other", t[:5] ** 2), ("text", "a"), ("None", None)])
            + odd_values("options", [("number", 3)])
            + [(f"estimate {how}", lambda o, V, how=how: o.estimate(
                odd(V["Q"], how))) for how in ODD])

    def lvault():
        return Vault(Q=gen(3, 4, tag=270) + 2, Z=gen(3, 4, tag=271),
                     T=np.linspace(0, 1, 9),
                     L=gen(6, 4, tag=272) + 2, q=gen(3, tag=273) + 2,
                     Qt=2 + gen(3, 1, tag=274) * np.linspace(0, 1, 9))

    lifters = [("Quadratic", lambda V: opinf.lift.QuadraticLifter())]
    lifters += [(f"Poly{p}", lambda V, p=p: opinf.lift.PolynomialLifter(p))
                for p in ((1, 2), (2, -1), (0.5, 3), (0, 1), (-1, 0.5))]
    for nm, mk in lifters:
        ev = []
        if nm != "Quadratic":
            ev = [("orders", lambda o, V: setattr(o, "orders", (3, 1)))]
        yield Spec(
            f"lift/{nm}", mk, lvault, ev, [
                ("str", text),
                ("orders", lambda o, V: attempt(getattr, o, "orders")),
                ("lift", lambda o, V: o.lift(V["Q"])),
                ("lift 1-D", lambda o, V: o.lift(V["q"])),
                ("lift_ddts", lambda o, V: o.lift_ddts(V["Q"], V["Z"])),
                ("unlift", lambda o, V: o.unlift(V["L"])),
                ("verify", lambda o, V: o.verify(V["Qt"], V["T"])),
            ], copy=False, tries=odd_values("orders", [
                ("text", "a"), ("mixed", (1, "a")), ("None", None),
                ("nested", [(1, 2), 3]), ("later", (2, 1, None))]))


def others(tier):
    yield from rom_specs(tier)
    yield from small_specs(tier)
