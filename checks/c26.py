"""C26: equality of objects is an equivalence that agrees with behaviour."""

import copy

import numpy as np
import scipy.sparse as sparse

import opinf
from mc import objs
from mc.data import gen, spd

BOUNDS = {
    "objects": "every class with an equality (shift-scale and multi-variable "
    "transformers, bases, operators, interpolated operators, models, operator "
    "posteriors) x option combinations of mc/objs.py, and hand-made families "
    "that differ in one respect only",
    "states": "all histories of events up to length 1 (thorough 2), distinct "
    "states once",
    "pairs": "every ordered pair of states within a family (all classes of "
    "the family), every state with a twin of the same history, and with "
    "objects of unrelated types",
    "oracle": "a boolean, symmetric, `!=` is the negation, no exception; "
    "twins are equal; states with the same observations are equal; equal "
    "objects give equal results in every operation; comparing changes nothing",
}

DESCRIPTIVE = ("attributes", "str", "inner", "solver", "call")
UNRELATED = (None, 0, 1.5, "text", (), [1.0], {}, int, object())


def compare(c, a, b, tag):
    """Equality of a and b, with all its formal properties."""
    c.op("==", n=4)
    e = []
    for x, y in ((a, b), (b, a)):
        v, w = objs.attempt(lambda: x == y), objs.attempt(lambda: x != y)
        for r in (v, w):
            c.check(isinstance(r, (bool, np.bool_)), "not a boolean",
                    f"{tag}: {r!r}")
        c.check(bool(v) != bool(w), "!= is not the negation of ==", tag)
        e.append(bool(v))
    c.check(e[0] == e[1], "not symmetric", f"{tag}: {e}")
    return e[0]


def behaviour(obs):
    return [(k, v) for k, v in obs if k not in DESCRIPTIVE]


def alike(x, y, tol):
    """Same labels and same results?"""
    if [k for k, _ in x] != [k for k, _ in y]:
        return "different operations"
    return next((f"{k}: {m}" for (k, a), (_, b) in zip(x, y)
                 if (m := objs.same(a, b, tol))), None)


def collect(c, specs, depth):
    """All states: [(name, spec, object, observation)]."""
    out = []
    for s in specs:
        V = s.vault()
        o, _ = s.build((), V)
        if not objs.has_eq(o):
            continue
        hists, frontier = [()], [()]
        for _ in range(depth):
            frontier = [h + (e,) for h in frontier for e in s.events]
            hists += frontier
        seen = []
        for h in hists:
            V = s.vault()
            o, outs = s.build(h, V)
            if any(isinstance(r, objs.Raised) for r in outs):
                continue
            obs = s.observe(o, V)
            V2 = s.vault()
            twin, _ = s.build(h, V2)
            s.observe(twin, V2)
            name = f"{s.name}/{objs.hist_name(h)}"
            c.check(compare(c, o, twin, name), "twins differ", name)
            c.check(compare(c, o, o, name), "not reflexive", name)
            for other in UNRELATED:
                c.check(not compare(c, o, other, name),
                        "equals an unrelated object", f"{name}: {other!r}")
            if any(alike(obs, ob, 0) is None for ob in seen):
                # another history with the same result
                i = next(i for i, ob in enumerate(seen)
                         if alike(obs, ob, 0) is None)
                c.check(compare(c, o, out[len(out) - len(seen) + i][2], name),
                        "same behaviour and attributes, but different", name)
                continue
            seen.append(obs)
            out.append((name, s, o, obs, V))
            c.state(name)
            c.trace(name)
    return out


def pairs(c, states):
    ntrue = 0
    for i, (na, sa, a, oa, Va) in enumerate(states):
        with c.sub(na):
            for nb, sb, b, ob, Vb in states[:i]:
                tag = f"{na} / {nb}"
                if not compare(c, a, b, tag):
                    c.outcome("different")
                    continue
                ntrue += 1
                c.outcome("equal")
                c.check(type(a) is type(b), "equal objects of other types",
                        tag)
                x, y = behaviour(oa), behaviour(ob)
                if ([k for k, _ in x] == [k for k, _ in y]):
                    m = alike(x, y, max(sa.tol, sb.tol, 1e-6))
                    c.check(m is None, "equal objects behave differently",
                            f"{tag}: {m}")
    # Comparing changes nothing.
    for name, s, o, obs, V in states:
        m = objs.diff(s.observe(o, V), obs, s.tol)
        c.check(m is None, "changed by comparisons", f"{name}: {m}")
        c.check(not V.changed(), "arguments changed", name)


def family(c, tier, prefix, depth):
    specs = [s for s in objs.menu("quick") if s.name.startswith(prefix)]
    pairs(c, collect(c, specs, depth))


# Hand-made families ----------------------------------------------------------
def handmade(c, members, operate, tol=1e-9):
    """Members: {name: constructor}; equal iff the results are the same
    (`operate` gives everything that equality has to distinguish)."""
    objects = {k: f() for k, f in members.items()}
    results = {}
    for k, o in objects.items():
        results[k] = objs.norm(objs.attempt(operate, o), o)
        c.state(k)
        c.check(compare(c, o, o, k), "not reflexive", k)
        c.check(compare(c, o, members[k](), k), "twins differ", k)
        for other in UNRELATED:
            c.check(not compare(c, o, other, k),
                    "equals an unrelated object", f"{k}: {other!r}")
    for k, a in objects.items():
        for l, b in objects.items():
            if k == l:
                continue
            with c.sub(f"{k} / {l}"):
                eq = compare(c, a, b, "")
                m = objs.same(results[k], results[l], tol)
                c.check(eq == (m is None), "equality and behaviour disagree",
                        f"equal: {eq}; {m or 'same results'}")
    c.trace(sorted(members))


def shiftscale(c):
    SS = opinf.pre.ShiftScaleTransformer
    n = 3
    # Integers and four snapshots: means are exact.
    Q, R = (np.round(gen(n, 4, tag=t, scale=50.0)) for t in (401, 402))
    flipped = 2 * Q.mean(axis=1, keepdims=True) - Q     # the same mean

    def trained(data, **kw):
        return lambda: SS(**kw).fit(data.copy())

    def sized(**kw):
        def make():
            t = SS(**kw)
            t.state_dimension = n
            return t
        return make

    members = {}
    for byrow in (False, True):
        for cent in (False, True):
            for sc in (None, "standard", "maxabs"):
                if sc is None and byrow:
                    continue
                kw = dict(centering=cent, scaling=sc, byrow=byrow)
                t = f"{cent} {sc} {byrow}"
                members[f"{t} new"] = lambda kw=kw: SS(**kw)
                members[f"{t} sized"] = sized(**kw)
                for nm, D in (("Q", Q), ("R", R), ("flip", flipped)):
                    members[f"{t} {nm}"] = trained(D, **kw)
                members[f"{t} refit"] = (
                    lambda kw=kw: SS(**kw).fit(R.copy()).fit(Q.copy()))

    def operate(t):
        conf = (t.centering, str(t.scaling), t.byrow, t.state_dimension)
        X = gen(n, 4, tag=403)
        return conf, objs.norm(objs.attempt(t.transform, X))

    handmade(c, members, operate, 1e-12)
    M = opinf.pre.TransformerMulti
    multi = {}
    few = [k for k in members if k.startswith(("True standard True",
                                               "False None False"))
           if not k.endswith("flip")]
    for k in few:
        for l in few:
            def make(k=k, l=l):
                return M([members[k](), members[l]()])
            multi[f"{k}+{l}"] = make
    multi = dict(list(multi.items())[::2])

    def operate2(t):
        return tuple(operate(x) for x in t.transformers)

    handmade(c, multi, operate2, 1e-12)


def bases(c):
    LB, PB, n = opinf.basis.LinearBasis, opinf.basis.PODBasis, 4
    V = np.linalg.qr(gen(n, 2, tag=404))[0]
    Q = gen(n, 6, tag=405)
    w1, w2 = np.array([1.0, 2, 3, 4]), np.array([1.0, 2, 3, 5])
    W1, W2 = spd(n, tag=406), spd(n, tag=407)
    W2[0, 0] = W1[0, 0]
    bd = W1.copy()
    bd[-1, -1] += 1.0
    weights = {
        "none": None, "ones": np.ones(n), "w1": w1, "w2": w2,
        "diag w1": np.diag(w1), "W1": W1, "W2": W2, "W1+": bd,
        "tiny w1": 1e-9 * w1, "tiny w2": 1e-9 * w2, "tiny W1": 1e-9 * W1,
        "tiny W2": 1e-9 * W2,
    }
    members = {}
    for wn, w in weights.items():
        members[f"V {wn}"] = lambda w=w: LB(
            V.copy(), weights=copy.deepcopy(w), check_orthogonality=False)
    members["V sparse w1"] = lambda: LB(
        V.copy(), weights=sparse.dia_array(np.diag(w1)),
        check_orthogonality=False)
    members["V csr w1"] = lambda: LB(
        V.copy(), weights=sparse.csr_array(np.diag(w1)),
        check_orthogonality=False)
    members["V csr w2"] = lambda: LB(
        V.copy(), weights=sparse.csr_array(np.diag(w2)),
        check_orthogonality=False)
    for wn in ("tiny w1", "tiny w2"):
        members[f"V csr {wn}"] = lambda w=weights[wn]: LB(
            V.copy(), weights=sparse.csr_array(np.diag(w)),
            check_orthogonality=False)
    members["-V"] = lambda: LB(-V)
    members["V swapped"] = lambda: LB(V[:, ::-1].copy())
    members["V1"] = lambda: LB(V[:, :1].copy())
    V2 = V.copy()
    V2[-1, -1] *= 1 + 1e-3
    members["V'"] = lambda: LB(V2.copy(), check_orthogonality=False)

    def operate(b):
        # absent weights and unit weights need not be equal
        return (b.weights is None, objs.norm(b.entries),
                b.compress(np.eye(n)), b.decompress(np.eye(b.shape[1])))

    handmade(c, members, operate, 1e-12)
    pods = {}
    for r in (1, 2, 3):
        for wn in ("none", "w1", "W1"):
            pods[f"r={r} {wn}"] = lambda r=r, wn=wn: PB(
                num_vectors=r, weights=copy.deepcopy(weights[wn])).fit(Q)
    pods["2 -> 1"] = lambda: PB(num_vectors=2).fit(Q).set_dimension(
        num_vectors=1) or None
    def down():
        b = PB(num_vectors=3).fit(Q)
        b.set_dimension(num_vectors=1)
        return b
    pods["2 -> 1"] = down
    pods["flipped data"] = lambda: PB(num_vectors=2).fit(Q + 0.1)
    handmade(c, pods, operate, 1e-12)
    # A basis of another class with the same entries.
    with c.sub("classes"):
        p = PB(num_vectors=2).fit(Q)
        lb = LB(np.array(p.entries))
        compare(c, p, lb, "POD / Linear")
        for wn in ("none", "w1"):
            a = PB(num_vectors=2, weights=copy.deepcopy(weights[wn]))
            b = PB(num_vectors=2, weights=copy.deepcopy(weights[wn]))
            compare(c, a, b, "untrained")
            compare(c, a, p, "untrained / trained")
    BM = opinf.basis.BasisMulti
    few = list(members)[:6]
    multi = {f"{k}+{l}": lambda k=k, l=l: BM([members[k](), members[l]()])
             for k in few for l in few}
    handmade(c, multi, lambda b: tuple(operate(x) for x in b.bases), 1e-12)


def operators(c):
    O = opinf.operators
    members = {}
    for r in (1, 2):
        for p in range(5):
            d = O.PolynomialOperator.operator_dimension
            k = O.PolynomialOperator(p).operator_dimension(r)
            for tag in (408, 409):
                E = np.ones((r, k)) if tag == 408 else gen(r, k, tag=tag)
                members[f"P{p} r={r} {tag}"] = (
                    lambda p=p, E=E: O.PolynomialOperator(p, E.copy()))
        for kind in ("Constant", "Linear", "Quadratic", "Cubic", "Quartic",
                     "Input", "StateInput"):
            cls = getattr(O, kind + "Operator")
            k = cls.operator_dimension(r, 1)
            members[f"{kind} r={r}"] = (
                lambda cls=cls, k=k, r=r: cls(
                    np.ones(r) if k == 1 and cls is O.ConstantOperator
                    else np.ones((r, k))))
    for p in range(5):
        members[f"P{p} empty"] = lambda p=p: O.PolynomialOperator(p)
    A = gen(3, 3, tag=410)
    B = A.copy()
    B[2, 1] += 1e-3
    for nm, E in (("A", A), ("B", B), ("A.T", A.T.copy()), ("-A", -A)):
        members[f"L {nm}"] = lambda E=E: O.LinearOperator(E.copy())
        for fmt in ("csr", "csc", "coo", "dia"):
            members[f"L {nm} {fmt}"] = (
                lambda E=E, fmt=fmt: O.LinearOperator(getattr(
                    sparse, fmt + "_array")(E)))
    members["S diag"] = lambda: O.LinearOperator(
        sparse.csr_array(np.diag([1.0, 2.0, 0.0])))
    members["S lower"] = lambda: O.LinearOperator(
        sparse.csr_array(np.array([[1.0, 0, 0], [0, 0, 2.0], [0, 0, 0]])))

    def operate(op):
        if op.entries is None:
            return type(op).__name__, getattr(op, "polynomial_order", None)
        r = op.state_dimension
        return (type(op).__name__, objs.norm(op.entries),
                op.apply(gen(r, tag=411), np.ones(1)))

    handmade(c, members, operate, 1e-12)


def interpolated(c):
    import scipy.interpolate as spi
    O = opinf.operators
    E, F = gen(4, 2 * 2, tag=412).reshape(4, 2, 2), gen(
        4, 4, tag=413).reshape(4, 2, 2)
    mu, nu = np.array([1.0, 2, 3, 4]), np.array([1.0, 2, 3, 5])
    two = np.column_stack([mu, [0.0, 1, 0, 2]])
    members = {"new": lambda: O.InterpLinearOperator()}
    for ic in (None, spi.CubicSpline, spi.PchipInterpolator):
        nm = ic.__name__ if ic else "default"
        members[f"new {nm}"] = lambda ic=ic: O.InterpLinearOperator(
            InterpolatorClass=ic)
        for pn, p in (("mu", mu), ("nu", nu), ("rev", mu[::-1].copy())):
            members[f"{nm} {pn}"] = lambda p=p, ic=ic: O.InterpLinearOperator(
                p, InterpolatorClass=ic)
            for en, X in (("E", E), ("F", F), ("tiny E", 1e-9 * E),
                          ("tiny F", 1e-9 * F)):
                members[f"{nm} {pn} {en}"] = (
                    lambda p=p, X=X, ic=ic: O.InterpLinearOperator(
                        p, X.copy(), InterpolatorClass=ic))
    # Other interpolators need ascending parameters.
    members = {k: f for k, f in members.items() if "Pchip" not in k
               or "rev" not in k or k.endswith("rev")}
    members["two"] = lambda: O.InterpLinearOperator(two)
    members["two E"] = lambda: O.InterpLinearOperator(two, E.copy())
    members["mu E3"] = lambda: O.InterpLinearOperator(mu[:3], E[:3].copy())
    members["quad"] = lambda: O.InterpQuadraticOperator(mu)
    members.pop("new default")

    # Two classes of the same name.
    for which in ("Akima1DInterpolator", "PchipInterpolator"):
        ic = type("Spline", (getattr(spi, which),), {})
        members[f"Spline {which}"] = lambda ic=ic: O.InterpLinearOperator(
            mu, E.copy(), InterpolatorClass=ic)

    def operate(op):
        ic = [ln for ln in str(op).split("\n") if "interpolator" in ln]
        between = objs.attempt(lambda: objs.norm(op.evaluate(
            np.full(op.parameter_dimension, 1.3)).entries)) if (
                "Spline" in op.__str__() and op.entries is not None) else None
        return (type(op).__name__, objs.norm(op.training_parameters), ic,
                objs.norm(op.entries), between)

    handmade(c, members, operate, 1e-12)


def models(c):
    O, M = opinf.operators, opinf.models
    r = 2
    parts = {
        "c": O.ConstantOperator(gen(r, tag=414)),
        "A": O.LinearOperator(gen(r, r, tag=415)),
        "A'": O.LinearOperator(gen(r, r, tag=416)),
        "H": O.QuadraticOperator(gen(r, 3, tag=417)),
        "B": O.InputOperator(gen(r, 2, tag=418)),
        "B1": O.InputOperator(gen(r, 1, tag=418)),
    }
    sets = [("c",), ("A",), ("A'",), ("A", "c"), ("c", "A"), ("A", "A"),
            ("A", "A'"), ("A'", "A"), ("A", "H"), ("A", "B"), ("A", "B1"),
            ("A", "A", "A'"), ("A", "A'", "A'"), ("c", "A", "B"),
            ("B", "c", "A"), ("H",)]
    members = {}
    for cls in (M.ContinuousModel, M.DiscreteModel):
        for s in sets:
            members[f"{cls.__name__} {''.join(s)}"] = (
                lambda cls=cls, s=s: cls([parts[k].copy() for k in s]))
        for s in ("A", "cA", "AH", "Ac"):
            members[f"{cls.__name__} new {s}"] = lambda cls=cls, s=s: cls(s)

    def operate(m):
        return (type(m).__name__, sorted(
            (type(op).__name__, repr(objs.norm(op.entries)))
            for op in m.operators), m.state_dimension, m.input_dimension)

    handmade(c, members, operate, 1e-12)


def posteriors(c):
    OP = opinf.roms.OperatorPosterior
    m1, m2 = gen(2, 3, tag=419), gen(2, 3, tag=420)
    C1 = [spd(3, tag=421), spd(3, tag=422)]
    C2 = [spd(3, tag=421), spd(3, tag=423)]
    C3, C4 = C1[1].copy(), C1[0].copy()         # other correlations only
    C3[0, 1] = C3[1, 0] = 0.9 * C3[0, 1]
    C4[0, 2] = C4[2, 0] = 0.9 * C4[0, 2]
    members = {
        "1 1": lambda: OP(list(m1.copy()), [x.copy() for x in C1]),
        "1 2": lambda: OP(list(m1.copy()), [x.copy() for x in C2]),
        "2 1": lambda: OP(list(m2.copy()), [x.copy() for x in C1]),
        "swap": lambda: OP(list(m1[::-1].copy()), C1[::-1]),
        "inv": lambda: OP(list(m1.copy()), [x.copy() for x in C1],
                          alreadyinverted=True),
        "inv off": lambda: OP(list(m1.copy()), [C1[0].copy(), C3],
                              alreadyinverted=True),
        "inv off 2": lambda: OP(list(m1.copy()), [C4, C1[1].copy()],
                                alreadyinverted=True),
        "one": lambda: OP(list(m1[:1]), C1[:1]),
        "short": lambda: OP(list(m1[:, :2]), [x[:2, :2] for x in C1]),
    }
    handmade(c, members, lambda p: (objs.norm(list(p.means)),
                                    objs.norm(list(p.covs))), 1e-12)


def cases(tier):
    depth = 1 if tier == "quick" else 2
    out = [(f.__name__, f, ()) for f in (
        shiftscale, bases, operators, interpolated, models, posteriors)]
    kinds = ("Constant", "Linear", "Quadratic", "Cubic", "Quartic", "Input",
             "StateInput", "Polynomial")
    fams = {"transformers": ("SS", "Multi"),
            "bases": ("Linear/", "POD", "BasisMulti"),
            "continuous models": ("C/",), "discrete models": ("D/",),
            "interpolated continuous": ("CInterp",),
            "interpolated discrete": ("DInterp",),
            **{f"interp {k}": ("Interp" + k + "/",) for k in kinds[:7]}}
    for k, p in fams.items():
        k = "family " + k
        out.append((k, family, (tier, p, depth)))
    out.append(("all operators", family,
                (tier, tuple(f"{k}/" for k in kinds), depth)))
    return out
