"""C13: affine operators are the sum of coefficient times matrix; interpolated
operators reproduce the training entries, in any order and after any history.
"""

import collections
import itertools
import warnings

import numpy as np
import scipy.interpolate as spi
import scipy.sparse as sparse

import opinf
from mc import ops
from mc.core import canon
from mc.data import gen, layouts

BOUNDS = {
    "affine": "6 operator types x coefficient forms (int, callable, scalar "
    "callable, list) x 1..3 terms x scalar/vector parameters x dimensions; "
    "breadth-first histories depth 3 (thorough 4) of {set, set from block, "
    "evaluate, copy, save/load}",
    "interpolated": "6 operator types x every order of 2..4 training "
    "parameters (thorough 5), 1-D and 2-D parameters, interpolators {default, "
    "CubicSpline, Pchip, Akima, Nearest, LinearND}; breadth-first histories "
    "depth 4 (thorough 5)",
}

TYPES = ("Constant", "Linear", "Quadratic", "Cubic", "Input", "StateInput")


def A_of(name, r, m, tag):
    return ops.entries_of(name + "Operator", r, m, tag)


def input_of(name, U):
    return U if name + "Operator" in ops.HAS_INPUT else None


def ref_apply(name, E, q, u):
    return ops.entries2d(E) @ ops.data_vector(name + "Operator", q, u)


# Affine ----------------------------------------------------------------------
def coeff_forms(nterms):
    """(name, coeffs argument, nterms argument, theta, parameters)."""
    vec = [gen(nterms, tag=300 + i) for i in range(3)]
    vec += [np.eye(nterms)[i] for i in range(nterms)]
    yield "int", nterms, None, (lambda mu: np.atleast_1d(mu)), vec
    if nterms == 1:
        yield "int scalar", 1, None, (lambda mu: [mu]), [0.5, -2.0, 0.0]
        yield ("callable scalar", (lambda mu: mu**2 + 1), 1,
               (lambda mu: [mu**2 + 1]), [0.5, -2.0, 0.0])
    fns = [(lambda mu, i=i: (np.sum(mu) + i) ** 2 - i)
           for i in range(nterms)]
    yield ("list", fns, None, (lambda mu: [f(mu) for f in fns]),
           [1.5, -0.25, 0.0])
    yield ("tuple vec", tuple(fns), nterms,
           (lambda mu: [f(mu) for f in fns]),
           [gen(2, tag=310 + i) for i in range(3)])
    yield ("callable", (lambda mu: np.array([mu**i for i in range(nterms)])),
           nterms, (lambda mu: [mu**i for i in range(nterms)]),
           [1.5, -0.25, 2.0])


def affine_case(c, name, nterms, r, m):
    Aff = getattr(opinf.operators, f"Affine{name}Operator")
    As = [A_of(name, r, m, 20 + i) for i in range(nterms)]
    A2 = [ops.entries2d(A) for A in As]
    block = np.hstack(A2)
    for form, coeffs, nt, theta, mus in coeff_forms(nterms):
        with c.sub(form):
            op0 = Aff(coeffs, nt)
            c.check(op0.entries is None, "untrained")
            c.raises(AttributeError, lambda: op0.evaluate(mus[0]),
                     "evaluate-untrained")
            variants = {
                "list": Aff(coeffs, nt, [A.copy() for A in As]),
                "tuple": Aff(coeffs, nt, tuple(A.copy() for A in As)),
            }
            for lname, B in layouts(block):
                variants[f"block {lname}"] = Aff(coeffs, nt, B,
                                                 fromblock=True)
            for lname in ("F", "view"):
                variants[f"list {lname}"] = Aff(
                    coeffs, nt, [dict(layouts(A)).get(lname, A) for A in As])
            for vname, op in variants.items():
                c.same(op.nterms, nterms, "nterms")
                c.same(op.state_dimension, r, "state_dimension")
                if input_of(name, 1):
                    c.same(op.input_dimension, m, "input_dimension")
                for mu in mus:
                    c.op(f"evaluate {vname}")
                    want = sum(t * A for t, A in zip(theta(mu), A2))
                    got = op.evaluate(mu)
                    c.check(type(got) is ops.cls(name + "Operator"),
                            "evaluate-type")
                    c.close(ops.entries2d(got.entries), want,
                            "evaluate", 1e-12, f"{vname} {mu}")
                    for k in range(2):
                        q, u = gen(r, tag=320 + k), gen(m, tag=322 + k)
                        c.op("apply")
                        c.close(op.apply(mu, q, input_of(name, u)),
                                ref_apply(name, want, q, u), "apply", 1e-11)
                        J = op.jacobian(mu, q, input_of(name, u))
                        c.close(np.zeros((r, r)) + J,
                                want @ ops.data_gradient(
                                    name + "Operator", q, u), "jacobian",
                                1e-11)
                    c.state(form, vname, mu)
                for A, B in zip(op.entries, A2):
                    c.same(ops.entries2d(A), B, "entries", vname)
                p = np.size(mus[0])
                c.same(op.parameter_dimension, p, "parameter_dimension")
                c.raises(ValueError, lambda: op.evaluate(np.ones(p + 1)),
                         "wrong parameter dimension")
            # Data blocks.
            op = variants["list"]
            for share in ("", "states", "inputs", "both"):
                Qs = [gen(r, k + 2, tag=330 + k) for k in range(len(mus))]
                Us = [gen(m, k + 2, tag=340 + k) for k in range(len(mus))]
                if share:           # the same array for several parameters
                    Qs = [gen(r, 3, tag=334 + k) for k in range(len(mus))]
                    Us = [gen(m, 3, tag=344 + k) for k in range(len(mus))]
                if share in ("states", "both"):
                    Qs = [Qs[0]] * len(mus)
                if share in ("inputs", "both"):
                    Us = [Us[0]] * len(mus)
                c.op(f"datablock {share}")
                D = op.datablock(mus, Qs, Us if input_of(name, 1) else None)
                want = np.hstack([
                    np.column_stack([ref_apply(
                        name, sum(t * A for t, A in zip(theta(mu), A2)),
                        Q[:, j], U[:, j]) for j in range(Q.shape[1])])
                    for mu, Q, U in zip(mus, Qs, Us)])
                c.close(block @ D, want, "datablock", 1e-11, share)
            c.same(D.shape[0], op.operator_dimension(len(mus), r, m),
                   "operator_dimension")
            for lname, B in layouts(block):
                back = Aff(coeffs, nt)
                back.set_entries(B, fromblock=True)
                c.close(back.evaluate(mus[0]).entries,
                        op.evaluate(mus[0]).entries, "fromblock", 1e-14,
                        lname)
            c.trace(name, form, nterms, r, m)


def affine_sparse_case(c):
    for form in (sparse.csr_array, sparse.csc_matrix):
        As = [gen(3, 3, tag=350 + i) for i in range(2)]
        op = opinf.operators.AffineLinearOperator(
            2, entries=[form(A) for A in As])
        for mu in ([1.0, 0.0], [0.5, -2.0]):
            c.op()
            got = op.evaluate(np.array(mu)).entries
            c.close(ops.entries2d(got), mu[0] * As[0] + mu[1] * As[1],
                    "sparse", 1e-12)
        f = c.path("s.h5")
        op.save(f, overwrite=True)
        two = opinf.operators.AffineLinearOperator.load(f, 2)
        c.close(ops.entries2d(two.evaluate(np.array([1., 2.])).entries),
                As[0] + 2 * As[1], "sparse load", 1e-12)
        c.state(form.__name__)
        c.trace(form.__name__)


def affine_history(c, name, form, depth):
    Aff = getattr(opinf.operators, f"Affine{name}Operator")
    r, m = 2, 2
    forms = {f[0]: f for f in coeff_forms(2)}
    _, coeffs, nt, theta, mus = forms[form]
    data = {t: [A_of(name, r, m, 30 + 2 * i + j) for j in range(2)]
            for i, t in enumerate("AB")}
    alphabet = ["setA", "setB", "blockA", "blockB", "eval", "copy", "load"]

    def build(hist):
        op, cur = Aff(coeffs, nt), None
        for i, ev in enumerate(hist):
            c.op(ev)
            if ev[:3] == "set":
                cur = ev[3]
                op.set_entries([A.copy() for A in data[cur]])
            elif ev[:5] == "block":
                cur = ev[5]
                op.set_entries(np.hstack(
                    [ops.entries2d(A) for A in data[cur]]), fromblock=True)
            elif ev == "copy":
                op = op.copy()
            elif ev == "load":
                f = c.path(f"a{i}.h5")
                op.save(f, overwrite=True)
                op = Aff.load(f, coeffs)
            elif cur is not None:
                op.evaluate(mus[0])
        return op, cur

    for n in range(1, depth + 1):
        for hist in itertools.product(alphabet, repeat=n):
            with c.sub(";".join(hist)):
                op, cur = build(hist)
                c.same(op.nterms, 2, "nterms", str(hist))
                if cur is None:
                    c.check(op.entries is None, "no entries")
                else:
                    for mu in mus:
                        want = sum(t * ops.entries2d(A) for t, A in zip(
                            theta(mu), data[cur]))
                        c.close(ops.entries2d(op.evaluate(mu).entries),
                                want, "evaluate", 1e-12, str(hist))
                c.state(cur, hist[-2:])
                c.trace(*hist)


# Interpolated ----------------------------------------------------------------
def ref_interp(params, entries, cls, mu):
    """Interpolation entry by entry on the sorted data."""
    params = np.asarray(params, dtype=float)
    if params.ndim == 1:
        order = np.argsort(params)
        F = (cls or spi.CubicSpline)(
            params[order], np.array(entries)[order])
        return F(mu)
    E = np.array(entries)
    F = (cls or spi.LinearNDInterpolator)(params, E.reshape((len(E), -1)))
    return F(np.asarray(mu)).reshape(E.shape[1:])


def interp_case(c, name, s, r, m):
    """Every order of s training parameters."""
    Int = getattr(opinf.operators, f"Interp{name}Operator")
    base = np.array([-1.0, 0.25, 1.0, 2.5, 3.0])[:s]
    Es = [A_of(name, r, m, 40 + i) for i in range(s)]
    test = [0.0, 0.2, 0.6 if s > 2 else 0.1, float(base[0]) + 0.1]
    for perm in itertools.permutations(range(s)):
        perm = list(perm)
        params = base[perm]
        entries = [Es[i].copy() for i in perm]
        classes = [None, spi.CubicSpline]
        if perm == sorted(perm):
            classes += [spi.PchipInterpolator]
            classes += [spi.Akima1DInterpolator] if s > 2 else []
        for cls in classes:
            for col in (False, True):
                P = params.reshape((-1, 1)) if col else params
                with c.sub(f"{perm},{cls and cls.__name__},{col}"):
                    op = Int(P, entries, InterpolatorClass=cls)
                    twins = {"direct": op, "copy": op.copy()}
                    c.op("copy")
                    f = c.path("i.h5")
                    op.save(f, overwrite=True)
                    c.op("save/load")
                    twins["load"] = Int.load(f)
                    twins["load2"] = Int.load(f, cls or spi.CubicSpline)
                    for lname, B in layouts(np.hstack(
                            [ops.entries2d(E) for E in entries])):
                        blk = Int(P, InterpolatorClass=cls)
                        blk.set_entries(B, fromblock=True)
                        twins[f"block {lname}"] = blk
                    if hasattr(Int, "_from_operators"):
                        twins["from_operators"] = Int._from_operators(
                            P, [ops.cls(name + "Operator")(E.copy())
                                for E in entries], cls)
                    for tn, t in twins.items():
                        for i, mu in enumerate(params):
                            c.op("evaluate at training parameter")
                            got = t.evaluate(mu)
                            c.check(
                                type(got) is ops.cls(name + "Operator"),
                                "type", tn)
                            c.close(ops.entries2d(got.entries),
                                    ops.entries2d(entries[i]),
                                    "training", 1e-10, f"{tn} {mu}")
                            got = t.evaluate([mu])
                            c.close(ops.entries2d(got.entries),
                                    ops.entries2d(entries[i]),
                                    "training", 1e-10, f"{tn} [{mu}]")
                        for mu in test:
                            c.op("evaluate")
                            want = ref_interp(params, entries, cls, mu)
                            c.close(t.evaluate(mu).entries, want,
                                    "between", 1e-10, f"{tn} {mu}")
                        for a, b in zip(t.entries, entries):
                            c.close(ops.entries2d(a), ops.entries2d(b),
                                    "entries", 1e-14, tn)
                        c.same(t.training_parameters, params, "params", tn)
                        c.same(t.parameter_dimension, 1, "pdim", tn)
                        c.same(t.state_dimension, r, "r", tn)
                        c.check(t == op, "eq", tn)
                        if input_of(name, 1):
                            c.same(t.input_dimension, m, "m", tn)
                    c.state(perm, cls and cls.__name__)
            c.trace(name, perm, cls and cls.__name__)
    # data blocks
    op = Int(base, Es)
    for share in ("", "states", "inputs", "both"):
        Qs = [gen(r, 2 if share else k + 2, tag=360 + k) for k in range(s)]
        Us = [gen(m, 2 if share else k + 2, tag=370 + k) for k in range(s)]
        if share in ("states", "both"):
            Qs = [Qs[0]] * s
        if share in ("inputs", "both"):
            Us = [Us[0]] * s
        D = op.datablock(base, Qs, Us if input_of(name, 1) else None)
        c.op(f"datablock {share}")
        want = np.hstack([np.column_stack([
            ref_apply(name, E, Q[:, j], U[:, j]) for j in range(Q.shape[1])])
            for E, Q, U in zip(Es, Qs, Us)])
        c.close(np.hstack([ops.entries2d(E) for E in Es]) @ D, want,
                "datablock", 1e-11, share)
    c.same(Int.operator_dimension(s, r, m), D.shape[0], "operator_dimension")
    for i, mu in enumerate(base):
        q, u = gen(r, tag=380), gen(m, tag=381)
        c.close(op.apply(mu, q, input_of(name, u)),
                ref_apply(name, Es[i], q, u), "apply", 1e-9)
        c.close(np.zeros((r, r)) + op.jacobian(mu, q, input_of(name, u)),
                ops.entries2d(Es[i]) @ ops.data_gradient(
                    name + "Operator", q, u), "jacobian", 1e-9)
    c.check(not (op == Int(base + 1, Es)), "eq other parameters")
    c.check(not (op == Int(base, [2 * E for E in Es])), "eq other entries")


def interp2d_case(c, name, r, m):
    """Two parameters: the default and the nearest-neighbor interpolator."""
    Int = getattr(opinf.operators, f"Interp{name}Operator")
    pts = np.array([[0., 0.], [1., 0.1], [0.2, 1.], [1.1, 1.2], [0.5, 0.4]])
    Es = [A_of(name, r, m, 50 + i) for i in range(5)]
    orders = [list(p) for p in itertools.permutations(range(5))][::17]
    for perm in orders:
        P, entries = pts[perm], [Es[i].copy() for i in perm]
        for cls in (None, spi.LinearNDInterpolator,
                    spi.NearestNDInterpolator):
            with c.sub(f"{perm},{cls and cls.__name__}"):
                op = Int(P, entries, InterpolatorClass=cls)
                f = c.path("j.h5")
                op.save(f, overwrite=True)
                for tn, t in (("direct", op), ("copy", op.copy()),
                              ("load", Int.load(f))):
                    for i in range(5):
                        c.op("evaluate")
                        got = t.evaluate(P[i])
                        c.close(ops.entries2d(got.entries),
                                ops.entries2d(entries[i]), "training",
                                1e-10, tn)
                    for mu in ([0.4, 0.5], [0.7, 0.6]):
                        c.close(t.evaluate(np.array(mu)).entries,
                                ref_interp(P, entries, cls, mu), "between",
                                1e-10, tn)
                    c.same(t.parameter_dimension, 2, "pdim")
                    c.check(t == op, "eq", tn)
                    c.raises(ValueError, lambda: t.evaluate(1.0),
                             "wrong parameter dimension")
                c.state(perm, cls and cls.__name__)
                c.trace(name, perm)


def interp_history(c, name, ordered, depth):
    Int = getattr(opinf.operators, f"Interp{name}Operator")
    r, m = 2, 1
    P = {"P": [0.0, 1.0, 2.0, 4.0], "R": [3.0, 1.0, 2.5, -1.0]}
    if ordered:
        P["R"] = [-1.0, 1.0, 2.5]
    E = {t: [A_of(name, r, m, 60 + 7 * i + j) for j in range(4)]
         for i, t in enumerate("AB")}
    classes = {"default": None, "Cubic": spi.CubicSpline}
    if ordered:
        classes["Pchip"] = spi.PchipInterpolator
    alphabet = (["P", "R", "A", "B", "blockA", "copy", "load", "clear"]
                + list(classes))

    def step(op, st, ev, i):
        params, ent, cls = st
        c.op(ev)
        if ev in P:
            if ent is not None:
                c.raises(AttributeError,
                         lambda: op.set_training_parameters(P[ev]),
                         "reset parameters")
            else:
                op.set_training_parameters(P[ev])
                params = ev
        elif ev in E or ev == "blockA":
            if params is None:
                c.raises(AttributeError,
                         lambda: op.set_entries(E["A"][:3]),
                         "entries before parameters")
            else:
                ent = ev[-1]
                data = [A.copy() for A in E[ent][:len(P[params])]]
                if ev == "blockA":
                    op.set_entries(np.hstack(
                        [ops.entries2d(A) for A in data]), fromblock=True)
                else:
                    op.set_entries(data)
        elif ev in classes:
            op.set_interpolator(classes[ev])
            cls = classes[ev]
        elif ev == "clear":
            if hasattr(op, "_clear"):
                op._clear()         # as models do before training again
                ent = None
                if params is not None:
                    op.set_training_parameters(P[params])
        elif ev == "copy":
            op = op.copy()
        elif ev == "load":
            f = c.path(f"h{i}.h5")
            op.save(f, overwrite=True)
            op = Int.load(f)
        return op, (params, ent, cls)

    queue, seen = collections.deque([()]), set()
    while queue:
        hist = queue.popleft()
        for ev in alphabet:
            h = hist + (ev,)
            with c.sub(";".join(h)):
                op, st = Int(), (None, None, None)
                for i, e in enumerate(h):
                    op, st = step(op, st, e, i)
                params, ent, cls = st
                if ent is None:
                    c.check(op.entries is None, "no entries", str(h))
                    c.check(op.interpolator is None, "stale interpolator",
                            str(h))
                else:
                    data = E[ent][:len(P[params])]
                    c.same(list(op.training_parameters), P[params],
                           "parameters", str(h))
                    for mu, A in zip(P[params], data):
                        c.close(ops.entries2d(op.evaluate(mu).entries),
                                ops.entries2d(A), "training", 1e-10, str(h))
                    for mu in (0.3, 1.7):
                        c.close(op.evaluate(mu).entries, ref_interp(
                            P[params], data, cls, mu), "between", 1e-10,
                            str(h))
                c.state(st, h[-1])
                c.trace(*h)
                key = canon((st[0], st[1], st[2] and st[2].__name__, h[-1:]))
                if len(h) < depth and key not in seen:
                    seen.add(key)
                    queue.append(h)


def deprecated_case(c, name):
    Old = getattr(opinf.operators, f"Interpolated{name}Operator")
    New = getattr(opinf.operators, f"Interp{name}Operator")
    P = [0.5, 0.0, 2.0]
    Es = [A_of(name, 2, 1, 80 + i) for i in range(3)]
    a, b = Old(P, Es), New(P, Es)
    for mu in P + [0.3]:
        c.op("evaluate")
        c.same(a.evaluate(mu).entries, b.evaluate(mu).entries, "deprecated")
    c.state(name)
    c.trace(name)


def cases(tier):
    quick = tier == "quick"
    out = []
    for name in TYPES:
        for n in (1, 2, 3):
            for r, m in ((1, 1), (2, 1), (2, 3), (3, 2)):
                out.append((f"affine {name} n={n} r={r} m={m}", affine_case,
                            (name, n, r, m)))
        for form in ("int", "list", "callable"):
            out.append((f"affine history {name} {form}", affine_history,
                        (name, form, 3 if quick else 4)))
        for s in ((2, 3, 4) if quick else (2, 3, 4, 5)):
            for r, m in (((2, 2),) if s > 3 else ((1, 1), (2, 2), (3, 1))):
                out.append((f"interp {name} s={s} r={r} m={m}", interp_case,
                            (name, s, r, m)))
        for r, m in ((1, 1), (2, 2)):
            out.append((f"interp2d {name} r={r} m={m}", interp2d_case,
                        (name, r, m)))
        for ordered in (True, False):
            out.append((f"interp history {name} {ordered}", interp_history,
                        (name, ordered, 4 if quick else 6)))
        out.append((f"deprecated {name}", deprecated_case, (name,)))
    out.append(("affine sparse", affine_sparse_case, ()))
    return out
