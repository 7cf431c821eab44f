"""C15: right-hand side, Jacobian and predictions of every model agree with
the sum of the operators."""

import itertools
import warnings

import numpy as np
import scipy.integrate as spi
import scipy.linalg as la

import opinf
from mc import models as mm
from mc import ops
from mc.data import gen

BOUNDS = {
    "evaluation": "every subset of {c,A,H,G,B,N} (plus quartic, "
    "PolynomialOperator) x dimensions (1,1), (2,2), (3,1), (2,3) on a "
    "lattice that determines the polynomials, plus generic points; "
    "nonparametric, affine, plain and interpolated, discrete and continuous",
    "discrete prediction": "the same models x 1..6 iterations x inputs "
    "(exact, longer, one-dimensional)",
    "continuous prediction": "linear models with exact solutions and "
    "nonlinear ones with a reference integration x 6 integrators x inputs as "
    "array, function, scalar function x uniform and non-uniform times",
}
M = opinf.models
TOL = 1e-10


def build(kind, form, r, m, types=None, mus=None, scale=1.0):
    """(model, function parameter -> 2-D entries)."""
    if types is None:
        E = [scale * mm.truth(k, r, m, 20 + i) for i, k in enumerate(form)]
        return getattr(M, kind)([mm.make_op(k, mm.flat(k, e)) for k, e in
                                 zip(form, E)]), lambda mu: E
    Es, objs = [], []
    for i, (k, t) in enumerate(zip(form, types)):
        name = mm.ABBR[k]
        if t == "plain":
            E = scale * mm.truth(k, r, m, 20 + i)
            objs.append(ops.cls(name)(mm.flat(k, E)))
            Es.append(lambda mu, E=E: E)
        elif t == "affine":
            E = [scale * mm.truth(k, r, m, 30 + 2 * i + j) for j in (0, 1)]
            objs.append(ops.cls("Affine" + name)(
                lambda mu: np.array([1.0, mu**2]), 2,
                [mm.flat(k, e) for e in E]))
            Es.append(lambda mu, E=E: E[0] + mu**2 * E[1])
        else:
            E = [scale * mm.truth(k, r, m, 40 + 3 * i + j)
                 for j in range(len(mus))]
            objs.append(ops.cls("Interp" + name)(
                list(mus), [mm.flat(k, e) for e in E]))
            Es.append(lambda mu, E=E: E[list(mus).index(mu)])
    model = getattr(M, kind)(objs)
    return model, lambda mu: [f(mu) for f in Es]


def subsets(deep):
    out = ["".join(s) for n in range(1, 7)
           for s in itertools.combinations("cAHGBN", n)]
    out += ["Q", "QA", "cAQB", "P", "AP", "NP"]
    if deep:
        out += ["".join(p) for p in itertools.permutations("AHBN", 3)]
    return out


def eval_case(c, form, r, m):
    mi = m if mm.has_inputs(form) else 0
    pts = ops.lattice(r, 3) + [gen(r, tag=601), -2 * gen(r, tag=602)]
    us = [None] if not mi else [np.zeros(mi), gen(mi, tag=603)] + list(
        np.eye(mi))
    md, E = build("DiscreteModel", form, r, mi)
    mc_, _ = build("ContinuousModel", form, r, mi)
    E = E(None)
    for q, u in itertools.product(pts, us):
        want = mm.evaluate(form, E, q[:, None],
                           None if u is None else u[:, None])[:, 0]
        wantJ = mm.jac(form, E, q, u)
        q0, u0 = q.copy(), None if u is None else u.copy()
        c.op("rhs")
        c.close(md.rhs(q, u), want, "rhs", TOL, f"{q} {u}")
        c.close(md.jacobian(q, u), wantJ, "jacobian", TOL, f"{q} {u}")
        for t in (0.0, 1.5):
            f = None if u is None else (lambda s, t=t: u if s == t
                                        else u + 1e3)
            c.op("rhs")
            c.close(mc_.rhs(t, q, f), want, "rhs", TOL)
            c.close(mc_.jacobian(t, q, f), wantJ, "jacobian", TOL)
        c.same(q, q0, "state changed")
        if u is not None:
            c.same(u, u0, "input changed")
        c.state(q, u)
    if mi == 1:
        q = gen(r, tag=604)
        want = mm.evaluate(form, E, q[:, None], np.array([[0.7]]))[:, 0]
        c.op("scalar input")
        c.close(md.rhs(q, 0.7), want, "scalar input", TOL)
        c.close(mc_.rhs(0, q, lambda t: 0.7), want, "scalar input", TOL)
    c.trace(form, r, m)


def par_case(c, form, types, r, m):
    mi = m if mm.has_inputs(form) else 0
    mus = (0.5, 1.25, 2.0)
    pts = [gen(r, tag=610 + i) for i in range(2)] + [np.ones(r), np.zeros(r)]
    us = [None] if not mi else [gen(mi, tag=615), np.ones(mi)]
    kinds = [("ParametricDiscreteModel", "ParametricContinuousModel")]
    if all(t == "interp" for t in types):
        kinds.append(("InterpDiscreteModel", "InterpContinuousModel"))
    U = None if not mi else gen(mi, 6, tag=616)
    for kd, kc in kinds:
        md, Ef = build(kd, form, r, mi, types, mus, 0.4)
        mc_, _ = build(kc, form, r, mi, types, mus, 0.4)
        for mu in mus + mus[:1]:
            E = Ef(mu)
            for q, u in itertools.product(pts, us):
                want = mm.evaluate(form, E, q[:, None],
                                   None if u is None else u[:, None])[:, 0]
                J = mm.jac(form, E, q, u)
                f = None if u is None else (lambda t: u * t)
                c.op("rhs")
                c.close(md.rhs(mu, q, u), want, "rhs", 1e-9)
                c.close(md.jacobian(mu, q, u), J, "jacobian", 1e-9)
                c.close(mc_.rhs(1.0, mu, q, f), want, "rhs", 1e-9)
                c.close(mc_.jacobian(1.0, mu, q, f), J, "jacobian", 1e-9)
                ev = md.evaluate(mu)
                c.close(ev.rhs(q, u), want, "evaluated model", 1e-9)
                c.check(isinstance(ev, M.DiscreteModel), "type")
                ev = mc_.evaluate(mu)
                c.close(ev.rhs(1.0, q, f), want, "evaluated model", 1e-9)
                c.check(isinstance(ev, M.ContinuousModel), "type")
            c.state(kd, mu, E)
            # Predictions.
            q = 0.2 * gen(r, tag=617)
            S = [q]
            for j in range(5):
                S.append(mm.evaluate(form, E, S[-1][:, None],
                                     None if U is None else U[:, j:j + 1]
                                     )[:, 0])
            if np.all(np.isfinite(S[-1])) and np.max(np.abs(S[-1])) < 1e8:
                c.op("predict")
                c.close(md.predict(mu, q, 6, U), np.array(S).T, "predict",
                        1e-8)
            whole = np.arange(r) % 3 - 1
            c.close(md.predict(mu, whole, 3, U),
                    md.predict(mu, whole.astype(float), 3, U),
                    "initial condition of integers", 1e-12)
            t = np.linspace(0, 0.2, 6)
            fu = (lambda s: np.cos(s) * us[0]) if mi else None
            c.op("predict")
            got = mc_.predict(mu, q, t, fu, rtol=1e-9, atol=1e-11)
            ref = spi.solve_ivp(
                lambda s, x: mm.evaluate(
                    form, E, x[:, None],
                    fu(s)[:, None] if mi else None)[:, 0],
                [0, 0.2], q, t_eval=t, rtol=1e-10, atol=1e-12,
                method="DOP853")
            c.close(got, ref.y, "predict", 1e-6)
        # The parametric model is not changed by using it.
        for mu in mus:
            q, u = pts[0], us[0]
            c.close(md.rhs(mu, q, u), mm.evaluate(
                form, Ef(mu), q[:, None],
                None if u is None else u[:, None])[:, 0], "after use", 1e-9)
    c.trace(form, types, r, m)


def iterate_case(c, form, r, m):
    mi = m if mm.has_inputs(form) else 0
    model, E = build("DiscreteModel", form, r, mi, scale=0.5)
    E = E(None)
    q = 0.3 * gen(r, tag=620)
    for niters in range(1, 7):
        for extra in (0, 3):
            U = gen(mi, max(niters - 1, 1) + extra, tag=621) if mi else None
            S = [q]
            for j in range(niters - 1):
                S.append(mm.evaluate(form, E, S[-1][:, None],
                                     None if U is None else U[:, j:j + 1]
                                     )[:, 0])
            want = np.array(S).T
            q0 = q.copy()
            c.op(f"predict {niters}")
            got = model.predict(q, niters, U)
            c.close(got, want, "predict", 1e-9, f"{niters} {extra}")
            c.same(q, q0, "initial condition changed")
            whole = np.arange(r) % 3 - 1
            c.close(model.predict(whole, niters, U),
                    model.predict(whole.astype(float), niters, U),
                    "initial condition of integers", 1e-12)
            if mi == 1:
                c.close(model.predict(q, niters, U[0]), want,
                        "one-dimensional inputs", 1e-9)
            c.state(niters, extra, want)
            if mi and niters > 2:
                c.raises(ValueError, lambda: model.predict(
                    q, niters, U[:, :niters - 2]), "too few inputs")
                c.raises(ValueError, lambda: model.predict(
                    q, niters, np.vstack((U, U))), "wrong input dimension")
    for bad in (0, -1, 2.0, "3", None):
        c.raises(ValueError, lambda: model.predict(
            q, bad, gen(mi, 4) if mi else None), "niters", str(bad))
    c.raises(ValueError, lambda: model.predict(
        np.zeros(r + 1), 3, gen(mi, 4) if mi else None), "state0")
    if mi:
        c.raises(ValueError, lambda: model.predict(q, 3), "inputs required")
        c.raises(TypeError, lambda: model.predict(q, 3, lambda t: t),
                 "callable inputs")
    else:
        c.close(model.predict(q, 3, np.ones((1, 5))), model.predict(q, 3),
                "unneeded inputs", 1e-14)
    c.trace(form, r, m)


METHODS = ("RK45", "RK23", "DOP853", "Radau", "BDF", "LSODA")


def grids():
    return {"uniform": np.linspace(0, 1, 9),
            "late": np.linspace(2, 2.6, 7),
            "graded": np.linspace(0, 1, 8) ** 2,
            "long": np.linspace(0, 1, 6),
            "two": np.array([0.25, 1.0]),
            "fine": np.linspace(0, 1, 41) ** 3,
            "bursts": np.sort(np.concatenate(
                [a + np.linspace(0, 0.01, 6) for a in (0, 0.3, 0.9)]))}


def linear_solution(E, form, t, q0, upoly):
    """Exact solution of q' = c + A q + B u with polynomial u (Taylor)."""
    r = len(q0)
    A = np.zeros((r, r))
    cc = np.zeros(r)
    B = None
    for k, e in zip(form, E):
        if k == "A":
            A = e
        elif k == "c":
            cc = e[:, 0]
        else:
            B = e
    n = 0 if upoly is None else upoly.shape[1]      # powers of t
    # Augmented autonomous system [q; 1; t; t^2; ...].
    N = r + max(n, 1)
    L = np.zeros((N, N))
    L[:r, :r] = A
    L[:r, r] += cc
    if B is not None:
        L[:r, r:r + n] += B @ upoly
    for p in range(1, n):
        L[r + p, r + p - 1] = p
    x0 = np.concatenate((q0, [t[0]**p for p in range(max(n, 1))]))
    return np.column_stack([(la.expm(L * (s - t[0])) @ x0)[:r] for s in t])


def linear_case(c, form, r, m):
    mi = m if "B" in form else 0
    model, E = build("ContinuousModel", form, r, mi)
    E = E(None)
    q0 = gen(r, tag=630)
    upoly = gen(mi, 4, tag=631) if mi else None

    def ufun(s):
        return upoly @ np.array([s**p for p in range(4)])

    for gname, t in grids().items():
        want = linear_solution(E, form, t, q0, upoly)
        inputs = {"none": None} if not mi else {
            "function": ufun,
            "array": np.column_stack([ufun(s) for s in t])}
        if mi == 1:
            inputs["scalar function"] = lambda s: float(ufun(s)[0])
            inputs["flat array"] = inputs["array"][0]
        if t.size < 4:          # cubic inputs need four samples
            inputs = {k: v for k, v in inputs.items() if "array" not in k}
        for iname, u in inputs.items():
            for method in METHODS:
                c.op(f"predict {gname} {iname} {method}")
                q00, t0 = q0.copy(), t.copy()
                got = model.predict(q0, t, u, method=method, rtol=1e-8,
                                    atol=1e-10)
                c.close(got, want, "predict", 2e-5,
                        f"{gname} {iname} {method}")
                c.close(model.predict_result_.y, got, "predict_result_",
                        1e-14)
                c.same(q0, q00, "initial condition changed")
                c.same(t, t0, "times changed")
                c.state(gname, iname, method)
            c.op("default")
            c.close(model.predict(q0, t, u), want, "default integrator",
                    3e-2)
        if mi:
            c.raises(ValueError, lambda: model.predict(q0, t), "no inputs")
            c.raises(ValueError, lambda: model.predict(
                q0, t, np.ones((mi, len(t) - 1))), "input length")
            c.raises(ValueError, lambda: model.predict(
                q0, t, lambda s: np.ones(mi + 1)), "input dimension")
        c.raises(ValueError, lambda: model.predict(
            np.ones(r + 1), t, inputs.get("function")), "state0")
        c.raises(ValueError, lambda: model.predict(
            q0, np.vstack((t, t)), inputs.get("function")), "times")
    c.trace(form, r, m)


def nonlinear_case(c, form, r, m):
    mi = m if mm.has_inputs(form) else 0
    model, E = build("ContinuousModel", form, r, mi, scale=0.5)
    E = E(None)
    q0 = 0.5 * gen(r, tag=640)

    def ufun(s):
        return np.array([np.cos((i + 1) * s) for i in range(mi)])

    t = np.linspace(0, 0.8, 7) ** 2

    def f(s, x):
        return mm.evaluate(form, E, x[:, None],
                           ufun(s)[:, None] if mi else None)[:, 0]

    ref = spi.solve_ivp(f, [t[0], t[-1]], q0, t_eval=t, rtol=1e-11,
                        atol=1e-13, method="DOP853")
    for method in METHODS:
        c.op(f"predict {method}")
        got = model.predict(q0, t, ufun if mi else None, method=method,
                            rtol=1e-8, atol=1e-10)
        c.close(got, ref.y, "predict", 2e-5, method)
        c.state(method)
    c.trace(form, r, m)


def scalar_ode_case(c):
    """Scalar equations with known solutions."""
    t = np.linspace(0, 1.5, 10)
    q0 = np.array([0.4])
    one = np.ones((1, 1))
    table = {
        "logistic": (["AH", [one, -one]], None, lambda s: 1 / (
            1 + (1 / 0.4 - 1) * np.exp(-s))),
        "cubic": (["G", [-one]], None,
                  lambda s: 0.4 / np.sqrt(1 + 2 * 0.16 * s)),
        "bilinear": (["N", [one]], lambda s: np.array([np.cos(s)]),
                     lambda s: 0.4 * np.exp(np.sin(s))),
        "bilinear scalar": (["N", [one]], lambda s: np.cos(s),
                            lambda s: 0.4 * np.exp(np.sin(s))),
        "integral": (["B", [one]], lambda s: np.cos(s),
                     lambda s: 0.4 + np.sin(s)),
        "constant": (["c", [one]], None, lambda s: 0.4 + s),
    }
    for name, ((form, E), u, sol) in table.items():
        model = M.ContinuousModel([mm.make_op(k, mm.flat(k, e))
                                   for k, e in zip(form, E)])
        for method in METHODS:
            with c.sub(f"{name}/{method}"):
                c.op(name)
                got = model.predict(q0, t, u, method=method, rtol=1e-9,
                                    atol=1e-11)
                c.close(got, sol(t)[None, :], "predict", 1e-5)
                c.state(name, method)
        c.trace(name)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for form in subsets(deep):
        for r, m in ((1, 1), (2, 2), (3, 1), (2, 3)) + (
                ((4, 2), (1, 4)) if deep else ()):
            if len(form) > 4 and r * m > 4 and not deep:
                continue
            out.append((f"eval/{form}/{r}{m}", eval_case, (form, r, m)))
            if r * m <= 4 or deep:
                out.append((f"iterate/{form}/{r}{m}", iterate_case,
                            (form, r, m)))
    TY = ("plain", "affine", "interp")
    for n in (1, 2, 3) if deep else (1, 2):
        for sub in itertools.combinations("cAHBN", n):
            for types in itertools.product(TY, repeat=n):
                for r, m in ((2, 2), (1, 1)):
                    out.append((f"par/{''.join(sub)}/{'-'.join(types)}/"
                                f"{r}{m}", par_case,
                                ("".join(sub), types, r, m)))
    for form in ("A", "cA", "AB", "cAB", "B", "cB", "BAc"):
        for r, m in ((1, 1), (2, 2), (3, 1)):
            out.append((f"linear/{form}/{r}{m}", linear_case, (form, r, m)))
    for form in ("AH", "cAHB", "AG", "N", "AHGBN", "cN", "P", "HB"):
        for r, m in ((1, 1), (2, 2), (3, 1)):
            out.append((f"nonlinear/{form}/{r}{m}", nonlinear_case,
                        (form, r, m)))
    out.append(("scalar", scalar_ode_case, ()))
    return out
