"""C27: verify() accepts consistent objects, reports each single deviation,
and leaves the object and the working directory as they were."""

import contextlib
import os

import numpy as np

import opinf
from mc import objs
from mc.core import canon
from mc.data import gen

BOUNDS = {
    "objects": "every trained class and option combination of mc/objs.py that "
    "has a verify() method (transformers, bases, operators, parametric "
    "operators, solvers, derivative estimators, lifters), after every history "
    "of at most one event",
    "accept": "verify() returns for seeds 0..2 (thorough 0..9) of the random "
    "numbers it draws",
    "deviations": "every single-method deviation of a table per template "
    "(wrong shapes, values, types, flags, locations), applied to every object",
    "faults": "an exception at the j-th call of every method that verify() "
    "calls, for every j (thorough; quick: first, second and last call)",
    "oracle": "VerificationError for each deviation; the observations of the "
    "object, its caller's arrays and the files of the working directory are "
    "the same before and after every verification, accepted or not",
}

VERR = opinf.errors.VerificationError


@contextlib.contextmanager
def workdir(c):
    d = c.path("cwd")
    os.makedirs(d, exist_ok=True)
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)


# Deviations: (label, method, fn(original, self) -> replacement) ----------------
def on_result(change, when=lambda a, k: True):
    def make(orig):
        def method(*a, **k):
            out = orig(*a, **k)
            return change(out) if when(a, k) else out
        return method
    return make


def located(a, k):
    return k.get("locs") is not None


def whole(a, k):
    return k.get("locs") is None


def inplace(a, k):
    return bool(k.get("inplace"))


def spoil(x):
    x *= 1.5
    x += 1
    return x


def same_array(orig):
    def method(x, *a, **k):
        out = orig(x, *a, **k)
        if k.get("inplace"):
            return out
        x[...] = out
        return x
    return method


def two_d(a, k):
    return np.ndim(a[0]) == 2


def one_d(a, k):
    return np.ndim(a[0]) == 1


def one_entry(x):
    e = np.zeros(x.shape)
    e[-1, -1] = 0.5
    return e


TRANSFORMER = [
    ("row lost", "transform", on_result(lambda x: x[:-1])),
    ("column lost", "transform", on_result(lambda x: x[:, :-1])),
    ("not a copy", "transform", same_array),
    ("copy although in place", "transform",
     on_result(lambda x: x.copy(), inplace)),
    ("row lost", "inverse_transform", on_result(lambda x: x[:-1], whole)),
    ("column lost", "inverse_transform", on_result(
        lambda x: x[:, :-1], whole)),
    ("not a copy", "inverse_transform", same_array),
    ("copy although in place", "inverse_transform",
     on_result(lambda x: x.copy(), inplace)),
    ("values", "inverse_transform", on_result(spoil, whole)),
    ("one entry", "inverse_transform", on_result(
        lambda x: x + np.eye(*x.shape), whole)),
    ("values at locs", "inverse_transform", on_result(
        lambda x: spoil(x.copy()), located)),
    ("shape at locs", "inverse_transform", on_result(
        lambda x: x[:, :-1], located)),
    ("rows exchanged at locs", "inverse_transform", on_result(
        lambda x: x[::-1], located)),
    ("columns exchanged at locs", "inverse_transform", on_result(
        lambda x: x[:, ::-1], located)),
    ("one entry at locs", "inverse_transform", on_result(
        lambda x: x + one_entry(x), located)),
    ("rows exchanged", "inverse_transform", on_result(
        lambda x: x[::-1], whole)),
    ("scale", "transform_ddts", on_result(lambda x: 1.01 * x)),
    ("sign", "transform_ddts", on_result(lambda x: -x)),
    ("shift", "transform_ddts", on_result(
        lambda x: x + 0.1 * np.abs(x).max())),
    ("not a copy", "transform_ddts", same_array),
    ("copy although in place", "transform_ddts",
     on_result(lambda x: x.copy(), inplace)),
]
BASIS = [
    ("column lost", "compress", on_result(lambda x: x[:, :-1], two_d)),
    ("vector as column", "compress", on_result(
        lambda x: x.reshape((-1, 1)), one_d)),
    ("row lost", "decompress", on_result(lambda x: x[:-1], whole)),
    ("column lost", "decompress", on_result(
        lambda x: x[:, :-1], lambda a, k: two_d(a, k) and whole(a, k))),
    ("vector as column", "decompress", on_result(
        lambda x: x.reshape((-1, 1)),
        lambda a, k: one_d(a, k) and whole(a, k))),
    ("values at locs", "decompress", on_result(
        lambda x: 1.5 * x + 1, located)),
    ("shape at locs", "decompress", on_result(lambda x: x[:, :-1], located)),
    ("rows exchanged at locs", "decompress", on_result(
        lambda x: x[::-1], located)),
    ("columns exchanged at locs", "decompress", on_result(
        lambda x: x[:, ::-1], located)),
    ("one entry at locs", "decompress", on_result(
        lambda x: x + one_entry(x), located)),
    ("not idempotent", "decompress", on_result(lambda x: 1.1 * x)),
    ("not idempotent", "project", on_result(lambda x: 1.1 * x)),
]


def other_entries(op):
    new = opinf_copy(op)
    new.set_entries(1.5 * new.entries)
    return new


def opinf_copy(op):
    return op.__class__(op.entries.copy())


def with_one(op):
    new = opinf_copy(op)
    E = new.entries.toarray() if hasattr(
        new.entries, "toarray") else np.array(new.entries, dtype=float)
    E.flat[-1] += 0.5
    new.set_entries(E)
    return new


def fewer_inputs(op):
    class Fewer(type(op)):
        @property
        def input_dimension(self):
            return super().input_dimension + 1
    new = opinf_copy(op)
    new.__class__ = Fewer
    return new


def other_dimension(op):
    class Other(type(op)):
        @property
        def state_dimension(self):
            return super().state_dimension + 1
    new = opinf_copy(op)
    new.__class__ = Other
    return new


def exchanged(orig):
    """galerkin() with the trial and the test space exchanged."""
    return lambda Vr, Wr=None: orig(Vr if Wr is None else Wr, Vr)


def no_test_space(orig):
    return lambda Vr, Wr=None: orig(Vr)


class Stranger:
    state_dimension = 1
    input_dimension = 1


OPERATOR = [
    ("row lost", "apply", on_result(lambda x: x[:-1], one_d)),
    ("a list", "apply", on_result(list, one_d)),
    ("vector as column", "apply", on_result(
        lambda x: x.reshape((-1, 1)), one_d)),
    ("column lost", "apply", on_result(lambda x: x[:, :-1], two_d)),
    ("row lost in batches", "apply", on_result(lambda x: x[:-1], two_d)),
    ("a list of rows", "apply", on_result(list, two_d)),
    ("scale", "jacobian", on_result(lambda x: 1.1 * x)),
    ("transposed off the diagonal", "jacobian", on_result(
        lambda x: x + np.eye(len(x)) if np.ndim(x) else x)),
    ("row lost", "jacobian", on_result(
        lambda x: x[:-1] if np.ndim(x) else x)),
    ("no operator", "galerkin", on_result(lambda x: Stranger())),
    ("values", "galerkin", on_result(other_entries)),
    ("one value", "galerkin", on_result(with_one)),
    ("other state dimension", "galerkin", on_result(other_dimension)),
    ("other input dimension", "galerkin", on_result(fewer_inputs)),
    ("spaces exchanged", "galerkin", exchanged),
    ("test space ignored", "galerkin", no_test_space),
    ("itself", "galerkin", None),
    ("itself", "copy", None),
    ("other type", "copy", on_result(lambda x: Stranger())),
    ("values", "copy", on_result(other_entries)),
    ("one value", "copy", on_result(with_one)),
    ("one value", "load", on_result(with_one)),
    ("other type", "load", on_result(lambda x: Stranger())),
    ("values", "load", on_result(other_entries)),
]
STATIC = [
    ("too large", "operator_dimension", lambda f: staticmethod(
        lambda r=None, m=None: f(r, m) + 1)),
    ("negative", "operator_dimension", lambda f: staticmethod(
        lambda r=None, m=None: -f(r, m))),
    ("a float", "operator_dimension", lambda f: staticmethod(
        lambda r=None, m=None: float(f(r, m)))),
    ("not static", "operator_dimension", lambda f: (
        lambda self, r=None, m=None: f(r, m))),
    ("row lost", "datablock", lambda f: staticmethod(
        lambda Q, U=None: f(Q, U)[:-1])),
    ("transposed", "datablock", lambda f: staticmethod(
        lambda Q, U=None: f(Q, U).T)),
    ("a list", "datablock", lambda f: staticmethod(
        lambda Q, U=None: list(f(Q, U)))),
    ("not static", "datablock", lambda f: (
        lambda self, Q, U=None: f(Q, U))),
]
PARAMETRIC = [
    ("other type", "evaluate", on_result(lambda x: Stranger())),
    ("the entries", "evaluate", on_result(lambda x: x.entries)),
    ("other dimension", "evaluate", on_result(
        lambda x: x.__class__(bigger(x.entries)))),
    ("nothing", "evaluate", on_result(lambda x: None)),
]


def bigger(E):
    """Entries of a larger operator of the same input dimension."""
    E = np.asarray(E)
    if E.ndim == 1:
        return np.append(E, 1.0)
    return None


def more_data(s):
    """Solver with the data twice (twice as many columns and rows)."""
    s.fit(np.vstack([s.data_matrix] * 2), np.hstack([s.lhs_matrix] * 2))
    return s


def other_data(s):
    s.fit(s.data_matrix.copy(), 1.5 * s.lhs_matrix)
    return s


def one_row_other(s):
    Z = s.lhs_matrix.copy()
    Z[-1] *= 2
    s.fit(s.data_matrix.copy(), Z)
    return s


def one_row_less(s):
    if s.lhs_matrix.shape[0] == 1:
        return more_data(s)
    for name in ("regularizer",):
        if hasattr(s, name) and np.ndim(getattr(s, name)) + isinstance(
                getattr(s, name), list) and "Decoupled" in type(s).__name__:
            return more_data(s)
    s.fit(s.data_matrix.copy(), s.lhs_matrix[:-1])
    return s


SOLVER = [
    ("data twice", "copy", on_result(more_data)),
    ("other data", "copy", on_result(other_data)),
    ("other data in one row", "copy", on_result(one_row_other)),
    ("row less", "copy", on_result(one_row_less)),
    ("data twice", "load", on_result(more_data)),
    ("other data", "load", on_result(other_data)),
    ("other data in one row", "load", on_result(one_row_other)),
    ("row less", "load", on_result(one_row_less)),
    ("row lost", "solve", on_result(lambda x: x[:-1])),
    ("column lost", "solve", on_result(lambda x: x[:, :-1])),
    ("flat", "solve", on_result(np.ravel)),
    ("other type", "copy", on_result(lambda x: Stranger())),
]
LIFTER = [
    ("column lost", "lift", on_result(lambda x: x[:, :-1])),
    ("values", "lift", on_result(spoil)),
    ("row lost", "unlift", on_result(lambda x: x[:-1])),
    ("column lost", "unlift", on_result(lambda x: x[:, :-1])),
    ("values", "unlift", on_result(lambda x: x + 0.01)),
    ("one entry", "unlift", on_result(lambda x: x + np.eye(*x.shape))),
    ("row lost", "lift_ddts", on_result(lambda x: x[:-1])),
    ("column lost", "lift_ddts", on_result(lambda x: x[:, :-1])),
    ("sign", "lift_ddts", on_result(lambda x: -x)),
    ("scale", "lift_ddts", on_result(lambda x: 1.01 * x)),
    ("one row", "lift_ddts", on_result(
        lambda x: np.vstack([x[:-1], 1.1 * x[-1:]]))),
]


def with_inputs(a, k):
    return len(a) > 1 and a[1] is not None or k.get("inputs") is not None


def without_inputs(a, k):
    return not with_inputs(a, k)


def entry(i, change):
    return lambda out: out[:i] + (change(out[i]),) + out[i + 1:]


DDT = [
    ("a list", "estimate", on_result(list, without_inputs)),
    ("no derivatives", "estimate", on_result(
        lambda x: x[:1], without_inputs)),
    ("inputs without inputs", "estimate", on_result(
        lambda x: x + (x[0],), without_inputs)),
    ("state row lost", "estimate", on_result(
        entry(0, lambda x: x[:-1]), without_inputs)),
    ("derivative row lost", "estimate", on_result(
        entry(1, lambda x: x[:-1]), without_inputs)),
    ("state column lost", "estimate", on_result(
        entry(0, lambda x: x[:, :-1]), without_inputs)),
    ("derivative column lost", "estimate", on_result(
        entry(1, lambda x: x[:, :-1]), without_inputs)),
    ("a list", "estimate with inputs", on_result(list, with_inputs)),
    ("inputs lost", "estimate with inputs", on_result(
        lambda x: x[:2], with_inputs)),
    ("inputs None", "estimate with inputs", on_result(
        lambda x: x[:2] + (None,), with_inputs)),
    ("input row lost", "estimate with inputs", on_result(
        entry(2, lambda x: x[:-1]), with_inputs)),
    ("input column lost", "estimate with inputs", on_result(
        entry(2, lambda x: x[:, :-1]), with_inputs)),
]
TESTS = (                       # functions and derivatives of the time
    (lambda t: t, np.ones_like),
    (lambda t: t**4 - t**3 / 3, lambda t: 4 * t**3 - t**2),
    (np.sin, np.cos),
    (np.exp, np.exp),
    (lambda t: 1 / (1 + t), lambda t: -1 / (1 + t)**2),
    (lambda t: t - t**3 + np.cos(t) - np.exp(t / 2),
     lambda t: 1 - 3 * t**2 - np.sin(t) - np.exp(t / 2) / 2),
)


def reported(c, spec, hname, hist):
    """The errors that verify() of an estimator reports are the errors."""
    V = spec.vault()
    o, _ = spec.build(hist, V)
    runs = []

    def record(orig):
        def method(states, inputs=None, *a):
            out = orig(states, inputs, *a)
            if inputs is None:
                runs.append((o.time_domain.copy(), states.copy(), out))
            return out
        return method
    override(o, "estimate", record)
    errors = dict(o.verify(return_errors=True))
    dts = errors.pop("dts", [])
    c.check(len(errors) > 0 and all(
        len(e) == len(dts) for e in errors.values()), "errors missing",
        spec.name)
    got = np.array(list(errors.values()))
    runs = [x for x in runs if x[0].size > 1000][-len(dts):]
    for j, (t, Q, (Qe, dQ)) in enumerate(runs):
        if abs(np.mean(np.diff(t)) - dts[j]) > 1e-3 * dts[j]:
            c.check(False, "time step", f"{spec.name}: {dts[j]}")
        if dts[j] < 1e-4:
            continue            # the error is that of the roundoff
        k = Qe.shape[1]
        starts = [s for s in range(t.size - k + 1)
                  if np.array_equal(Q[:, s:s + k], Qe)]
        if len(starts) != 1:
            c.outcome("not located")
            continue
        tt = t[starts[0]:starts[0] + k]
        for i, q in enumerate(Q):
            for f, df in TESTS:
                if np.allclose(f(t), q, rtol=1e-12, atol=1e-12):
                    truth = df(tt)
                    err = np.linalg.norm(dQ[i] - truth)
                    err /= np.linalg.norm(truth)
                    c.op("error")
                    c.check(abs(err - got[i, j]) <= 1e-6 * err + 1e-10,
                            "reported error", f"{spec.name} {i} {dts[j]}: "
                            f"{got[i, j]:.4e}, not {err:.4e}")
    c.trace(spec.name, len(runs))


# Exploration -----------------------------------------------------------------
def patched(o, name, method):
    """The object with one method overridden, as in a subclass."""
    cls = o.__class__
    o.__class__ = type(cls.__name__, (cls,), {
        name: method, "__module__": cls.__module__})
    return o


def override(o, name, make, wrap=None):
    """Override a regular, static or class method."""
    cls = o.__class__
    raw = next(vars(b)[name] for b in cls.__mro__ if name in vars(b))
    if isinstance(raw, staticmethod):
        f = getattr(cls, name)
        return patched(o, name, staticmethod(
            lambda *a, **k: make(f)(*a, **k)))
    if isinstance(raw, classmethod):
        def method(klass, *a, **k):
            return make(lambda *b, **m: raw.__get__(None, klass)(*b, **m))(
                *a, **k)
        return patched(o, name, classmethod(method))

    def method(self, *a, **k):
        return make(lambda *b, **m: raw(self, *b, **m))(*a, **k)
    return patched(o, name, method)


def verify_args(o):
    if isinstance(o, opinf.lift.LifterTemplate):
        t = np.linspace(0, 1, 2001)
        return np.vstack([2 + t + t**2, 3 - t, 1 + np.sin(t) / 2]), t
    if getattr(o, "training_parameters", None) is not None:
        # Piecewise linear interpolation is NaN outside the convex hull.
        return (np.atleast_1d(np.mean(o.training_parameters, axis=0)),)
    return ()


def call(o, seed=0):
    np.random.seed(seed)
    try:
        return None, o.verify(*verify_args(o))
    except Exception as ex:
        return ex, None


def states_of(spec, depth=1):
    """Trained states: [(history name, history)]."""
    out, seen = [], set()
    for d in range(depth + 1):
        for h in ([()] if d == 0 else [(e,) for e in spec.events]):
            V = spec.vault()
            o, outs = spec.build(h, V)
            if any(isinstance(x, objs.Raised) for x in outs):
                continue
            obs = spec.observe(o, V)
            key = canon([str(x) for _, x in obs])
            if key in seen:
                continue
            seen.add(key)
            out.append((objs.hist_name(h), h))
    return out


def ready(o):
    """Can the object be verified (is it trained)?"""
    err, _ = call(o)
    return err is None, err


def unchanged(c, spec, o, V, before, tag):
    m = objs.diff(spec.observe(o, V), before, spec.tol)
    c.check(m is None, "object changed by verify()", f"{tag}: {m}")
    c.check(not V.changed(), "arguments changed", tag)


def clean(c, d, tag):
    left = os.listdir(d)
    c.check(not left, "files left behind", f"{tag}: {left}")
    for f in left:
        os.remove(os.path.join(d, f))


def table(o):
    T = opinf
    if isinstance(o, (T.pre.TransformerTemplate, T.pre.TransformerMulti)):
        return TRANSFORMER
    if isinstance(o, (T.basis.BasisTemplate, T.basis.BasisMulti)):
        return BASIS
    if isinstance(o, T.operators.OpInfOperator):
        return OPERATOR
    if isinstance(o, T.operators.ParametricOpInfOperator):
        return PARAMETRIC
    if isinstance(o, T.lstsq.SolverTemplate):
        return SOLVER
    if isinstance(o, T.lift.LifterTemplate):
        return LIFTER
    if isinstance(o, T.ddt.DerivativeEstimatorTemplate):
        return DDT
    return []


def applies(o, label, name):
    """Is the deviation one (for an object of this size and kind)?"""
    if name == "inverse_transform" or name == "decompress":
        if "locs" in label:
            sizes = getattr(o, "variable_sizes", None) or getattr(
                o, "full_variable_sizes", None) or [
                getattr(o, "state_dimension", None)
                or getattr(o, "full_state_dimension", None)]
            least = 6 if "rows" in label else 3
            return len(set(sizes)) == 1 and sizes[0] >= least
    if isinstance(o, opinf.operators.OpInfOperator):
        r = o.state_dimension
        if name == "jacobian":
            q = np.ones(r)
            u = np.ones(o.input_dimension) if hasattr(
                o, "input_dimension") else None
            J = o.jacobian(q, u)
            if np.isscalar(J) or not isinstance(J, np.ndarray):
                return False
            if label == "scale":
                return bool(np.abs(J).max() > 0)
            return np.ndim(J) == 2
        if "input dimension" in label and not hasattr(o, "input_dimension"):
            return False
        if name == "galerkin":
            return r > 1
        if "column" in label and name == "apply":
            return True
    if isinstance(o, opinf.operators.ParametricOpInfOperator):
        if label == "other dimension":
            return np.ndim(o.entries[0]) == 1
    return True


def accept(c, spec, hname, hist, seeds):
    V = spec.vault()
    o, _ = spec.build(hist, V)
    before = spec.observe(o, V)
    tag = f"{spec.name}/{hname}"
    with workdir(c) as d:
        ok, err = ready(o)
        clean(c, d, tag)
        unchanged(c, spec, o, V, before, tag)
        if not idempotent(o):
            c.check(isinstance(err, VERR), "deviation not reported",
                    f"{tag}: not orthonormal: {err!r}")
            c.outcome("not orthonormal")
            return False
        if not ok:
            # Only an untrained object may refuse.
            c.check(not isinstance(err, VERR) or untrained(o),
                    "consistent object rejected", f"{tag}: {err}")
            c.check(untrained(o), "verify() failed",
                    f"{tag}: {type(err).__name__}: {err}")
            c.outcome("untrained")
            return False
        for s in seeds:
            c.op("verify")
            err, _ = call(o, s)
            c.check(err is None, "consistent object rejected",
                    f"{tag} seed {s}: {type(err).__name__}: {err}")
            clean(c, d, tag)
        unchanged(c, spec, o, V, before, tag)
        if untrained(o):
            c.outcome("untrained")
            return False
    c.outcome("accepted")
    return True


def idempotent(o):
    """Is decompress() then compress() the identity (for a trained basis)?"""
    if not hasattr(o, "compress") or untrained(o):
        return True
    r = o.reduced_state_dimension
    return bool(np.allclose(o.compress(o.decompress(np.eye(r))), np.eye(r)))


def untrained(o):
    members = getattr(o, "transformers", None) or getattr(o, "bases", ())
    if any(untrained(x) for x in members):
        return True
    if isinstance(o, (opinf.pre.ShiftScaleTransformer,
                      opinf.pre.ScaleTransformer)):
        try:
            o.transform(np.ones((o.state_dimension, 2)))
        except Exception:
            return True
    for name in ("state_dimension", "full_state_dimension", "entries",
                 "data_matrix", "reduced_state_dimension"):
        if hasattr(o, name) and getattr(o, name) is None:
            return True
    if hasattr(o, "regularizer") and o.regularizer is None:
        return True
    check = getattr(o, "_is_trained", None)
    return check is not None and not check()


def deviate(c, spec, hname, hist):
    probe, _ = spec.build(hist, spec.vault())
    for label, name, make in table(probe):
        tag = f"{spec.name}/{hname}: {name}() {label}"
        if not applies(probe, label, name):
            continue
        if make is None:                    # returns the object itself
            def make(orig):
                return lambda *a, **k: holder[0]
        V = spec.vault()
        o, _ = spec.build(hist, V)
        holder = [o]
        before = spec.observe(o, V)
        cls = o.__class__
        override(o, name.split()[0], make)
        with workdir(c) as d:
            c.op(f"{name} {label}")
            err, _ = call(o)
            c.check(isinstance(err, VERR), "deviation not reported",
                    f"{tag}: {type(err).__name__}: {err}")
            clean(c, d, tag)
        o.__class__ = cls
        unchanged(c, spec, o, V, before, tag)
        c.trace(tag)
    for name in ("state_dimension", "input_dimension"):
        if not isinstance(probe, (opinf.operators.OpInfOperator,
                                  opinf.operators.ParametricOpInfOperator)):
            break
        if not hasattr(probe, name):
            continue
        true = getattr(probe, name)
        for value in (None, 0, -1, float(true), str(true), true + 1):
            o, _ = spec.build(hist, spec.vault())
            patched(o, name, property(lambda self, v=value: v))
            c.op(f"{name} {value!r}")
            with workdir(c) as d:
                err, _ = call(o)
                ok = isinstance(err, VERR) or (
                    value == true + 1 and err is not None)
                c.check(ok, "deviation not reported",
                        f"{spec.name}: {name} = {value!r}: {err!r}")
                clean(c, d, spec.name)
            c.trace(spec.name, name, value)
    if isinstance(probe, opinf.operators.OpInfOperator):
        for label, name, make in STATIC:
            V = spec.vault()
            o, _ = spec.build(hist, V)
            cls = o.__class__
            f = getattr(cls, name)
            patched(o, name, make(f))
            c.op(f"{name} {label}")
            with workdir(c) as d:
                err, _ = call(o)
                c.check(isinstance(err, VERR), "deviation not reported",
                        f"{spec.name}: {name}() {label}: {err!r}")
                clean(c, d, spec.name)
            c.trace(spec.name, name, label)


METHODS = ("transform", "inverse_transform", "transform_ddts", "compress",
           "decompress", "project", "apply", "jacobian", "galerkin", "copy",
           "save", "load", "evaluate", "solve", "estimate", "lift", "unlift",
           "lift_ddts", "datablock", "operator_dimension")


class Fault(Exception):
    pass


def faults(c, spec, hname, hist, deep):
    """An exception at each call of each method."""
    for name in METHODS:
        probe, _ = spec.build(hist, spec.vault())
        if not hasattr(probe, name):
            continue
        n = [0]

        def count(orig):
            n[0] += 1
            return orig
        override(probe, name, count)
        with workdir(c) as d:
            call(probe)
            clean(c, d, spec.name)
        js = range(1, n[0] + 1)
        if not deep:
            js = sorted({1, 2, n[0]} & set(js))
        for j in js:
            V = spec.vault()
            o, _ = spec.build(hist, V)
            before = spec.observe(o, V)
            left = [j]

            def fail(orig):
                left[0] -= 1
                if left[0] == 0:
                    raise Fault(f"{name} call {j}")
                return orig
            cls = o.__class__
            override(o, name, fail)
            with workdir(c) as d:
                c.op(f"fault {name}")
                err, _ = call(o)
                c.check(isinstance(err, Exception), "fault hidden",
                        f"{spec.name}: {name} call {j}")
                clean(c, d, f"{spec.name}: {name} call {j}")
            o.__class__ = cls
            unchanged(c, spec, o, V, before,
                      f"{spec.name}: exception in {name}() call {j}")
            c.trace(spec.name, name, j)


def larger():
    """Bases and transformers with states of more than five entries."""
    def basis(V):
        return opinf.basis.LinearBasis(np.linalg.qr(V["W"])[0])

    def pod(V):
        return opinf.basis.PODBasis(num_vectors=2).fit(V["X"])

    def shift(V):
        return opinf.pre.ShiftTransformer(V["X"][:, 0])

    def scale(V):
        return opinf.pre.ScaleTransformer(1 + np.arange(9.0))

    def both(V):
        t = opinf.pre.ShiftScaleTransformer(centering=True, scaling="maxabs",
                                            byrow=True)
        return t.fit(V["X"])

    def pipe(V):
        t = opinf.pre.TransformerPipeline([
            opinf.pre.ShiftTransformer(V["X"][:, 0]),
            opinf.pre.ShiftScaleTransformer(scaling="minmax")])
        return t.fit(V["X"])

    def multi(V):
        b = opinf.basis.BasisMulti([opinf.basis.PODBasis(num_vectors=2),
                                       opinf.basis.PODBasis(num_vectors=1)])
        return b.fit(np.vstack([V["X"], V["X"][::-1]]))

    for f in (basis, pod, shift, scale, both, pipe, multi):
        probe = f(objs.Vault(W=gen(9, 3, tag=2701), X=gen(9, 6, tag=2702)))
        name = "full_state_dimension" if hasattr(
            probe, "compress") else "state_dimension"
        yield objs.Spec(
            f"nine/{f.__name__}", f,
            lambda: objs.Vault(W=gen(9, 3, tag=2701), X=gen(9, 6, tag=2702)),
            [], [("size", lambda o, V, name=name: getattr(o, name))])


def spec_case(c, which, index, tier):
    spec = list(menus(which))[index]
    deep = tier == "thorough"
    for hname, hist in states_of(spec):
        with c.sub(hname):
            if not accept(c, spec, hname, hist, range(10 if deep else 3)):
                continue
            c.state(spec.name, hname)
            deviate(c, spec, hname, hist)
            if isinstance(spec.make(spec.vault()),
                          opinf.ddt.DerivativeEstimatorTemplate):
                reported(c, spec, hname, hist)
            faults(c, spec, hname, hist, deep)


def menus(which):
    if which == "nine":
        return larger()
    return (s for s in (objs.menu if which == "menu" else objs.others)("quick")
            if hasattr(s.make(s.vault()), "verify"))


def cases(tier):
    out = []
    for which in ("menu", "others", "nine"):
        for i, s in enumerate(menus(which)):
            out.append((s.name, spec_case, (which, i, tier)))
    return out
