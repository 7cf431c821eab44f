"""C18: time-derivative estimates are exact to their order and aligned."""

import itertools
import warnings

import numpy as np
import scipy.interpolate as interp

import opinf
from mc.data import gen, layouts

ddt = opinf.ddt

SCHEMES = [f"{m}{o}" for m in ("fwd", "bwd") for o in range(1, 7)] + [
    "ctr2", "ctr4", "ctr6", "ord2", "ord4", "ord6"]

BOUNDS = {
    "schemes": SCHEMES,
    "grid lengths": "order+1 .. order+6 (thorough: order+12)",
    "time steps and offsets": "dt in {1e-6, 0.25, 8}, t0 in {0, -3, 10}",
    "data": "the unit vectors of R^k (the schemes are linear), all monomials "
            "up to the order, generic rows, integer data, memory layouts",
    "nonuniform grids": "all spacing sequences over {1, 2, 5} of 2..5 "
                        "(thorough 6) intervals; over {1, 1 + 4e-6} and with "
                        "steps of 1e-9",
    "interpolants": "cubic / akima / pchip, as string and as class, with "
                    "options, old and new time domains (also extrapolating)",
    "inputs": "none, one-dimensional, two-dimensional",
}
ASSUMPTIONS = ["The stencil of a p-th order scheme with p+1 points is unique, "
               "so the reference weights come from a Vandermonde system."]

DOMAINS = [(1e-6, 0.0), (0.25, -3.0), (8.0, 10.0), (0.25, 0.0)]


def weights(offsets):
    """Weights w with sum w_j f(x_j) = f'(0), exact for polynomials."""
    x = np.array(offsets, dtype=float)
    V = np.vander(x, increasing=True).T
    e = np.zeros(x.size)
    e[1] = 1
    return np.linalg.solve(V, e)


def stencil(scheme, k):
    """(columns, D): ddts = states @ D / dt, at the given columns."""
    mode, p = scheme[:3], int(scheme[3])
    if mode == "fwd":
        cols = list(range(0, k - p))
        rows = [range(0, p + 1)] * len(cols)
    elif mode == "bwd":
        cols = list(range(p, k))
        rows = [range(-p, 1)] * len(cols)
    elif mode == "ctr":
        h = p // 2
        cols = list(range(h, k - h))
        rows = [range(-h, h + 1)] * len(cols)
    else:
        h = p // 2
        cols = list(range(k))
        rows = []
        for j in cols:
            if j < h:
                rows.append(range(-j, p + 1 - j))
            elif j > k - 1 - h:
                rows.append(range(k - 1 - j - p, k - j))
            else:
                rows.append(range(-h, h + 1))
    D = np.zeros((k, len(cols)))
    for n, (j, offs) in enumerate(zip(cols, rows)):
        D[[j + o for o in offs], n] = weights(offs)
    return cols, D


def two(x):
    return np.atleast_2d(x)


def uniform_case(c, scheme, extra):
    p = int(scheme[3])
    func = getattr(ddt, scheme)
    for k in range(p + 1, p + extra + 1):
        cols, D = stencil(scheme, k)
        for dt, t0 in DOMAINS:
            t = t0 + dt * np.arange(k)
            est = ddt.UniformFiniteDifferencer(t, scheme)
            runs = [("func", lambda *a: func(a[0], dt, *a[1:])),
                    ("estimator", est.estimate)]
            if (k, scheme) == (p + 1, "ord4"):
                runs.append(("default", ddt.UniformFiniteDifferencer(
                    t).estimate))
            for name, run in runs:
                with c.sub(f"k{k}/dt{dt}/{name}"):
                    # The whole linear map.
                    Q = np.eye(k)
                    S, dS = run(Q)
                    c.op(f"{name}(eye)")
                    c.same(S, Q[:, cols], "states at the wrong times")
                    c.close(dS * dt, D, "stencil", 1e-8)
                    # Polynomials up to the order.
                    mid, L = (t[0] + t[-1]) / 2, dt * k
                    s = (t - mid) / L
                    Q = np.array([s**e for e in range(p + 1)])
                    dQ = np.array([0 * s if e == 0 else e * s**(e - 1)
                                   for e in range(p + 1)])
                    S, dS = run(Q)
                    c.op(f"{name}(monomials)")
                    c.same(S, Q[:, cols], "states at the wrong times")
                    c.close(dS * L, dQ[:, cols], "polynomial", 1e-7)
                    # Row by row.
                    for e in range(p + 1):
                        S1, dS1 = run(Q[e:e + 1])
                        c.close(dS1 * L, (dS * L)[e:e + 1], "row by row",
                                1e-12)
                    # Inputs.
                    for U in (gen(k), gen(1, k), gen(3, k),
                              np.arange(k), np.arange(2 * k).reshape(2, k)):
                        out = run(Q, U)
                        c.op(f"{name} inputs{U.shape}")
                        c.check(len(out) == 3, "inputs not returned")
                        c.same(out[0], S, "states with inputs")
                        c.same(out[1], dS, "ddts with inputs")
                        c.same(two(out[2]), two(U)[:, cols],
                               "inputs at the wrong times")
                    # Layouts, integer states.
                    for lname, A in layouts(Q):
                        S2, dS2 = run(A)
                        c.close(dS2 * L, dS * L, f"layout {lname}", 1e-12)
                        c.same(S2, S, f"layout {lname}")
                    Qi = np.array([[(3 * j * j + 7 * i * j) % 11
                                    for j in range(k)] for i in range(2)])
                    S3, dS3 = run(Qi)
                    c.close(dS3 * dt, Qi @ D, "integer states", 1e-8)
                    c.same(S3, Qi[:, cols], "integer states")
                    S3, dS3 = run((Qi * 0.5).astype(np.float32))
                    c.close(dS3 * dt, 0.5 * Qi @ D, "float32 states", 1e-8)
                    c.same(S3, 0.5 * Qi[:, cols], "float32 states")
                    c.state(scheme, k, dt, name)
                    c.trace(scheme, k, name)
            # mask().
            with c.sub(f"k{k}/dt{dt}/mask"):
                for arr in (gen(k), gen(2, k), gen(2, 3, k)):
                    c.same(est.mask(arr), arr[..., cols], "mask")
                    c.op("mask")
                Q, U = gen(3, k), gen(2, k)
                S, _, U2 = est.estimate(Q, U)
                c.same(est.mask(Q), S, "mask of the states")
                c.same(est.mask(U), U2, "mask of the inputs")
                c.same(est.time_domain, t, "time_domain")
                c.close(est.dt / dt, 1.0, "dt", 1e-6)
                c.same(est.scheme, func, "scheme")
            if scheme == "fwd1" or scheme.startswith("ord"):
                with c.sub(f"k{k}/dt{dt}/int"):
                    if dt == 8.0:
                        ti = np.arange(k) * 8 + 10
                        e2 = ddt.UniformFiniteDifferencer(ti, scheme)
                        _, dS = e2.estimate(np.eye(k))
                        c.close(dS * 8, D, "integer time domain", 1e-8)
                        c.op("integer time domain")
            # Misaligned.
            with c.sub(f"k{k}/dt{dt}/misaligned"):
                Q = gen(2, k)
                c.raises(Exception, lambda: est.estimate(Q[0]), "1-D states")
                for bad in (gen(k + 1), gen(2, k + 1), gen(2, k - 1)):
                    c.raises(opinf.errors.DimensionalityError,
                             lambda: est.estimate(Q, bad),
                             "misaligned inputs accepted")


def spacing_case(c, scheme):
    """Only uniform grids are accepted as uniform."""
    for n in range(2, 6):
        for sp in itertools.product((1, 2, 5), repeat=n):
            for unit in (1e-9, 1e-6, 1.0, 1e3):
                t = 2 * unit + unit * np.cumsum((0,) + sp)
                with c.sub(f"{sp}x{unit}"):
                    if len(set(sp)) == 1:
                        est = ddt.UniformFiniteDifferencer(t, scheme)
                        c.close(est.dt / unit, float(sp[0]), "dt", 1e-6)
                        c.op("uniform")
                    else:
                        c.raises(
                            ValueError, lambda: ddt.UniformFiniteDifferencer(
                                t, scheme), "nonuniform grid accepted")
    for t0 in (0.0, 1.0, -1e3, 1e5):
        for dt in (1e-8, 1e-4, 0.1, 1 / 3, 10.0):
            for k in (7, 50, 1001):
                for name, t in (("linspace", np.linspace(
                        t0, t0 + dt * (k - 1), k)),
                        ("arange", t0 + dt * np.arange(k))):
                    if dt == 1e-8 and abs(t0) > 1:
                        continue
                    with c.sub(f"round/{t0}/{dt}/{k}/{name}"):
                        ddt.UniformFiniteDifferencer(t, scheme)
                        c.op("roundoff")
    c.state(scheme)
    c.trace("spacings", scheme)
    c.raises(ValueError, lambda: ddt.UniformFiniteDifferencer(
        np.arange(9.0), "fwd7"), "invalid scheme")
    c.raises(ValueError, lambda: ddt.UniformFiniteDifferencer(
        np.arange(9.0).reshape(3, 3), scheme), "2-D time domain")


def nonuniform_case(c, n, unit, t0, steps=(1, 2, 5)):
    for sp in itertools.product(steps, repeat=n):
        t = t0 + unit * np.cumsum((0,) + sp).astype(float)
        k = t.size
        L = t[-1] - t[0]
        s = (t - (t[0] + t[-1]) / 2) / L
        Q = np.array([s**0, s, s**2])
        dQ = np.array([0 * s, s**0, 2 * s])
        with c.sub(str(sp)):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                est = ddt.NonuniformFiniteDifferencer(t)
            S, dS = est.estimate(Q)
            c.op(f"estimate {sp}")
            c.same(S, Q, "states")
            c.close(dS * L, dQ, "quadratics", 1e-8)
            for j in range(k):       # linear, every row by itself
                e = np.zeros((3, k))
                e[1, j] = 1
                _, d = est.estimate(e)
                c.op("unit")
                c.check(not d[0].any() and not d[2].any(), "rows mix")
                if j == 0:
                    tot = d[1].copy()
                else:
                    tot = tot + Q[1, j] * 0 + d[1]
            c.close(tot * L, 0 * tot, "constants", 1e-8)
            d2 = ddt.ddt_nonuniform(Q, t)
            c.close(d2 * L, dQ, "ddt_nonuniform", 1e-8)
            c.close(ddt.ddt(Q, t) * L, dQ, "ddt(Q, t)", 1e-8)
            c.close(ddt.ddt(Q, t=t) * L, dQ, "ddt(t=)", 1e-8)
            c.op(n=3)
            for U in (gen(k), gen(2, k)):
                out = est.estimate(Q, U)
                c.op("inputs")
                c.check(len(out) == 3, "inputs not returned")
                c.same(out[1], dS, "ddts with inputs")
                c.same(two(out[2]), two(U), "inputs")
            c.same(est.mask(Q), Q, "mask")
            c.same(est.mask(Q[0]), Q[0], "mask 1-D")
            Qi = (np.arange(2 * k).reshape(2, k) * 7) % 5
            c.close(est.estimate(Qi)[1] * L, est.estimate(
                Qi.astype(float))[1] * L, "integer states", 1e-12)
            c.close(est.estimate((0.5 * Qi).astype(np.float32))[1] * L,
                    est.estimate(0.5 * Qi)[1] * L, "float32 states", 1e-4)
            for bad in (gen(2, k + 1), gen(2, k - 1), gen(k)):
                c.raises(opinf.errors.DimensionalityError,
                         lambda: est.estimate(bad), "misaligned states")
                c.raises(opinf.errors.DimensionalityError,
                         lambda: ddt.ddt_nonuniform(bad, t),
                         "misaligned states (function)")
            for bad in (gen(2, k + 1), gen(k - 1)):
                c.raises(opinf.errors.DimensionalityError,
                         lambda: est.estimate(Q, bad), "misaligned inputs")
            c.raises(opinf.errors.DimensionalityError,
                     lambda: ddt.ddt_nonuniform(Q, t[None, :]), "2-D t")
            c.state(sp)
            c.trace(sp)


def old_api_case(c, order):
    for k in range(order + 1, order + 8):
        _, D = stencil(f"ord{order}", k)
        for dt in (1e-4, 0.5, 4.0):
            with c.sub(f"k{k}/dt{dt}"):
                Q = np.vstack((np.eye(k), gen(2, k)))
                want = Q @ D
                calls = [lambda: ddt.ddt_uniform(Q, dt, order),
                         lambda: ddt.ddt_uniform(Q, dt, order=order),
                         lambda: ddt.ddt(Q, dt, order),
                         lambda: ddt.ddt(Q, dt, order=order),
                         lambda: ddt.ddt(Q, dt=dt, order=order),
                         lambda: ddt.ddt_uniform(
                             np.asfortranarray(Q), dt, order)]
                if order == 2:
                    calls += [lambda: ddt.ddt_uniform(Q, dt),
                              lambda: ddt.ddt(Q, dt),
                              lambda: ddt.ddt(Q, dt=dt)]
                for n, call in enumerate(calls):
                    c.close(call() * dt, want, f"call {n}", 1e-8)
                    c.op(f"call {n}")
                Qi = np.arange(3 * k).reshape(3, k) ** 2 % 13
                c.close(ddt.ddt_uniform(Qi, dt, order) * dt, Qi @ D,
                        "integer states", 1e-8)
                c.raises(Exception, lambda: ddt.ddt(Q), "no dt")
                c.raises(Exception, lambda: ddt.ddt(Q, order=order), "order")
                c.raises(Exception, lambda: ddt.ddt(Q, dt, order, 1), "4")
                c.raises(Exception, lambda: ddt.ddt(Q, other=dt), "kw")
                c.raises(Exception, lambda: ddt.ddt_uniform(Q[0], dt), "1-D")
                c.raises(Exception, lambda: ddt.ddt_uniform(
                    Q, np.arange(k)), "array dt")
                c.raises(NotImplementedError, lambda: ddt.ddt_uniform(
                    Q, dt, order + 1), "odd order")
                c.state(k, dt)
                c.trace(k, dt)


INTERP = [
    ("cubic", interp.CubicSpline, 3, {}),
    ("cubic", interp.CubicSpline, 0, {"bc_type": "clamped"}),
    ("cubic", interp.CubicSpline, 1, {"bc_type": "natural"}),
    ("akima", interp.Akima1DInterpolator, 1, {}),
    ("akima", interp.Akima1DInterpolator, 1, {"method": "makima"}),
    ("pchip", interp.PchipInterpolator, 1, {}),
]


def interp_case(c, which, how, sp, newt):
    name, cls, deg, options = INTERP[which]
    t = -1 + 0.25 * np.cumsum((0,) + sp)
    k = t.size
    t2 = None
    if newt == "same":
        t2 = t.copy()
    elif newt == "inner":
        t2 = t[0] + (t[-1] - t[0]) * np.array([0.1, 0.35, 0.5, 0.8])
    elif newt == "ends":
        t2 = np.array([t[0], t[-1]])
    elif newt == "one":
        t2 = np.array([0.3 * t[0] + 0.7 * t[1]])
    elif newt == "dense":
        t2 = np.linspace(t[0], t[-1], 2 * k + 1)
    elif newt == "outside":
        t2 = np.array([t[0] - 0.2, t[1], t[-1] + 0.15])
    elif newt == "unsorted":
        t2 = np.array([t[-1], t[0], 0.5 * (t[0] + t[1])])
    if how == "default":
        est = ddt.InterpDerivativeEstimator(t, new_time_domain=t2, **options)
    else:
        est = ddt.InterpDerivativeEstimator(
            t, name if how == "string" else cls, new_time_domain=t2,
            **options)
    tt = t if t2 is None else t2
    Q = np.array([t**e for e in range(deg + 1)])
    want = np.array([tt**e for e in range(deg + 1)])
    dwant = np.array([0 * tt if e == 0 else e * tt**(e - 1)
                      for e in range(deg + 1)])
    S, dS = est.estimate(Q)
    c.op("polynomials")
    c.close(S, want, "states", 1e-9)
    c.close(dS, dwant, "polynomials", 1e-8)
    # Generic data, row by row, against a one-dimensional interpolant; the
    # number of rows may equal the number of snapshots.
    for r in (1, 2, k):
        Q = gen(r, k, tag=r)
        splines = [cls(t, q, **options) for q in Q]
        want = np.array([s(tt) for s in splines])
        dwant = np.array([s(tt, 1) for s in splines])
        for U in (None, gen(k, tag=9), gen(2, k, tag=8), gen(k, k, tag=7)):
            c.op(f"estimate r={r} U={None if U is None else U.shape}")
            if U is None:
                out = est.estimate(Q)
                c.check(len(out) == 2, "number of results")
            else:
                out = est.estimate(Q, U)
                c.check(len(out) == 3, "number of results")
                uw = np.array([cls(t, u, **options)(tt) for u in two(U)])
                c.close(two(out[2]), uw, "inputs", 1e-9)
                c.close(est.mask(U), uw if U.ndim == 2 else uw[0],
                        "mask of the inputs", 1e-9)
            c.close(out[0], want, "states", 1e-9)
            c.close(out[1], dwant, "ddts", 1e-8)
            if t2 is None:
                c.same(out[0], Q, "states changed")
            c.close(est.mask(Q), want, "mask", 1e-9)
            c.close(est.mask(Q[0]), want[0], "mask 1-D", 1e-9)
    Qi = (np.arange(2 * k).reshape(2, k) * 7) % 5
    a, b = est.estimate(Qi), est.estimate(Qi.astype(float))
    c.close(a[1], b[1], "integer states", 1e-12)
    a, b = est.estimate((0.5 * Qi).astype(np.float32)), est.estimate(0.5 * Qi)
    c.close(a[1], b[1], "float32 states", 1e-4)
    for bad in (gen(2, k + 1), gen(2, k - 1), gen(k)):
        c.raises(opinf.errors.DimensionalityError,
                 lambda: est.estimate(bad), "misaligned states")
    c.raises(opinf.errors.DimensionalityError,
             lambda: est.estimate(gen(2, k), gen(2, k - 1)), "bad inputs")
    for bad in (5, np.arange(4.0).reshape(2, 2), [0.0, 0.5]):
        c.raises(TypeError, lambda: ddt.InterpDerivativeEstimator(
            t, name, new_time_domain=bad), "new_time_domain")
    c.raises(ValueError, lambda: ddt.InterpDerivativeEstimator(
        t, "quintic"), "name")
    c.state(which, how, sp, newt)
    c.trace(which, how, sp, newt)


def verify_case(c, which):
    """verify() is an observation: it leaves the estimator unchanged."""
    t = np.linspace(0, 1, 12)
    make = {
        "uniform": lambda: ddt.UniformFiniteDifferencer(t, "ctr4"),
        "ord6": lambda: ddt.UniformFiniteDifferencer(t, "ord6"),
        "nonuniform": lambda: ddt.NonuniformFiniteDifferencer(t**2),
        "interp": lambda: ddt.InterpDerivativeEstimator(t, "pchip"),
        "interp new": lambda: ddt.InterpDerivativeEstimator(
            t, "cubic", new_time_domain=np.array([0.2, 0.5])),
    }[which]
    a, b = make(), make()
    Q, U = gen(3, 12), gen(2, 12)
    want = b.estimate(Q, U)
    errs = a.verify(return_errors=True)
    c.op("verify")
    for x, y in zip(a.estimate(Q, U), want):
        c.same(x, y, "estimate after verify")
    c.same(a.mask(U), want[2], "mask after verify")
    c.same(a.time_domain, b.time_domain, "time_domain after verify")
    dts = errs["dts"]
    # f(t) = t is differentiated exactly (until roundoff dominates).
    lin = errs["$f(t) = t$"]
    c.check(all(e < 1e-9 for d, e in zip(dts, lin) if d > 1e-4), "verify",
            f"{lin}")
    c.state(which)
    c.trace(which)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for s in SCHEMES:
        out.append((f"uniform/{s}", uniform_case, (s, 12 if deep else 6)))
    for s in ("fwd1", "ctr2", "ord4") if not deep else SCHEMES:
        out.append((f"spacing/{s}", spacing_case, (s,)))
    for n in range(2, 7 if deep else 6):
        for unit, t0 in ((1.0, 0.0), (1e-3, 4.0)):
            out.append((f"nonuniform/{n}/{unit}", nonuniform_case,
                        (n, unit, t0)))
        out.append((f"nonuniform/{n}/tiny", nonuniform_case, (n, 1e-9, 0.0)))
        out.append((f"nonuniform/{n}/almost", nonuniform_case,
                    (n, 1.0, 0.0, (1, 1 + 4e-6))))
    for o in (2, 4, 6):
        out.append((f"ddt/{o}", old_api_case, (o,)))
    sps = [s for n in ((4, 5) if deep else (4,))
           for s in itertools.product((1, 2, 5), repeat=n)]
    if not deep:
        sps = sps[::4] + [(1, 1, 1), (2, 1, 5)]
    for i in range(len(INTERP)):
        for how in ("string", "class") + (("default",) if i < 3 else ()):
            for sp in sps:
                for newt in ("none", "same", "inner", "ends", "one", "dense",
                             "unsorted", "outside"):
                    if newt == "outside" and INTERP[i][0] == "akima":
                        continue        # NaN outside the time domain
                    key = "".join(map(str, sp))
                    out.append((f"interp/{i}/{how}/{key}/{newt}",
                                interp_case, (i, how, sp, newt)))
    for w in ("uniform", "ord6", "nonuniform", "interp", "interp new"):
        out.append((f"verify/{w}".replace(" ", "_"), verify_case, (w,)))
    return out
