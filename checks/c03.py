"""C03: fitting a transformer depends on the last training data only and
delivers the advertised statistics."""

import numpy as np

import opinf
from mc import pre
from mc.data import gen

BOUNDS = {
    "configurations": "all shift-scale configurations (verbose on/off), "
    "fixed shift/scale, null, pipelines, multi-variable",
    "histories": "all sequences of <=2 (thorough <=3) fits over {fit, "
    "fit_transform, in place} x 3 data sets x 2 state dimensions, with "
    "intermediate transform/inverse calls",
    "data": "k in {2,..,6}, generic / large offset / tiny scale / constant "
    "row / negative / already normalized; spreads of 1e-4 and 1e-2 around "
    "means of 1 and 1000; units from 1e-30 to 1e30",
}


def stats_ok(c, name, Y, centering, scaling, byrow, tol=1e-8):
    """The advertised statistics of transformed training data."""
    groups = [Y[i] for i in range(Y.shape[0])] if byrow else [Y.ravel()]
    if centering and scaling in (None, "standard", "maxabs", "maxabssym",
                                 "maxnorm", "maxnormsym"):
        c.close(np.mean(Y, axis=1), np.zeros(Y.shape[0]), "mean-zero", tol,
                name)
    for g in groups:
        if scaling == "standard":
            c.close(np.mean(g), 0.0, "standard-mean", tol, name)
            c.close(np.std(g), 1.0, "standard-std", tol, name)
        elif scaling == "minmax":
            c.close(np.min(g), 0.0, "min", tol, name)
            c.close(np.max(g), 1.0, "max", tol, name)
        elif scaling == "minmaxsym":
            c.close(np.min(g), -1.0, "min", tol, name)
            c.close(np.max(g), 1.0, "max", tol, name)
        elif scaling == "maxabs":
            c.close(np.max(np.abs(g)), 1.0, "maxabs", tol, name)
        elif scaling == "maxabssym":
            c.close(np.max(np.abs(g)), 1.0, "maxabs", tol, name)
            c.close(np.mean(g), 0.0, "maxabssym-mean", tol, name)
        elif scaling in ("maxnorm", "maxnormsym"):
            c.close(np.max(np.sqrt(np.sum(Y**2, axis=0))), 1.0, "maxnorm",
                    tol, name)
            if scaling == "maxnormsym":
                c.close(np.mean(g), 0.0, "maxnormsym-mean", tol, name)


def dataset(n, w):
    if w < 3:
        return pre.training(n, 3, w)
    if w == 3:                     # one row constant (not degenerate in sum)
        Q = gen(n, 4, tag=11)
        Q[0] = 2.0
        return Q
    if w == 4:                     # negative values only
        return -np.abs(gen(n, 4, tag=12)) - 0.5
    if w == 5:                     # a single snapshot
        return gen(n, 1, tag=13)
    return gen(n, 2, tag=14)


def degenerate(cfg, w):
    centering, scaling, byrow = cfg
    if w == 3:
        return byrow
    if w == 5:
        return scaling is not None and (centering or byrow)
    return False


def explore_ss(c, cfg, verbose, depth, dims):
    def make():
        return (opinf.pre.ShiftScaleTransformer(
            centering=cfg[0], scaling=cfg[1], byrow=cfg[2],
            verbose=verbose, name=("v" if verbose else None)),
            pre.RefShiftScale(*cfg))

    alphabet = [(how, n, w) for how in pre.FITS for n in dims
                for w in range(7) if not degenerate(cfg, w)]
    frontier, seen = [()], set()
    probe = {n: gen(n, 3, tag=21, scale=2.0, offset=1.0) for n in dims}
    for d in range(depth):
        nxt = []
        for hist in frontier:
            for ev in alphabet:
                h = hist + (ev,)
                tf, ref = make()
                for (how, n, w) in h:
                    Q = dataset(n, w)
                    pre.do_fit(c, tf, ref, how, Q)
                    # intermediate use must not matter either
                    c.op("transform")
                    tf.inverse_transform(tf.transform(Q))
                (_, n, w) = h[-1]
                Q = dataset(n, w)
                fresh = make()[0]
                c.op("fresh.fit")
                fresh.fit(Q)
                for attr in ("mean_", "scale_", "shift_"):
                    f, g = getattr(fresh, attr), getattr(tf, attr)
                    c.check((f is None) == (g is None), "memoryless", attr)
                    if f is not None:
                        c.close(g, f, "memoryless", 1e-12, attr)
                if not cfg[0]:
                    c.check(tf.mean_ is None, "mean-not-learned")
                c.same(tf.state_dimension, n, "state_dimension")
                c.check(tf == fresh and fresh == tf, "equality")
                c.op("transform")
                a, b = ref.a[:, None], ref.b[:, None]
                c.close(tf.transform(probe[n]), a * probe[n] + b,
                        "transform-after-fit", 1e-8)
                c.close(tf.transform(probe[n]), fresh.transform(probe[n]),
                        "memoryless-transform", 1e-12)
                Y = tf.transform(Q)
                c.close(Y, a * Q + b, "transform-training", 1e-8)
                stats_ok(c, f"history {h}", Y, *cfg)
                c.state(h)
                c.trace(*h)
                c.outcome(Y)
                if (n, w) not in seen:
                    seen.add((n, w))
                    nxt.append(h)
        frontier = nxt


def tiny(c, cfg):
    """Data in units in which they are very small or very large."""
    for n, k in ((1, 5), (3, 4), (4, 30)):
        for unit in (1e-30, 1e-15, 1e-9, 1e9, 1e30):
            with c.sub(f"{n}x{k}/{unit}"):
                Q = gen(n, k, tag=41, offset=2.0) * unit
                tf = opinf.pre.ShiftScaleTransformer(
                    centering=cfg[0], scaling=cfg[1], byrow=cfg[2])
                Y = tf.fit_transform(Q)
                c.op("fit_transform")
                stats_ok(c, "unit", Y / (1 if cfg[1] else unit), *cfg,
                         tol=1e-8)
                c.close(tf.inverse_transform(Y) / unit, Q / unit, "inverse",
                        1e-8)
                c.state(n, k, unit)
        c.trace(n, k)


def spread(c, cfg):
    """Data with a spread that is small compared to its mean."""
    for n, k in ((1, 5), (3, 4), (4, 30)):
        for offset in (1e3, -1e3, 1.0):
            for size in (1e-4, 1e-2):
                with c.sub(f"{n}x{k}/{offset}/{size}"):
                    Q = gen(n, k, tag=41, scale=size, offset=offset)
                    tf = opinf.pre.ShiftScaleTransformer(
                        centering=cfg[0], scaling=cfg[1], byrow=cfg[2])
                    Y = tf.fit_transform(Q)
                    c.op("fit_transform")
                    stats_ok(c, "spread", Y, *cfg, tol=1e-6)
                    # The transformation is affine, by row or all together.
                    for i in range(n):
                        w = np.max(np.abs(Q[i] - Q[i, 0]))
                        d = (Y[i] - Y[i, 0]) * w
                        e = (Q[i] - Q[i, 0]) * np.max(np.abs(Y[i] - Y[i, 0]))
                        c.close(d / w, e / w, "affine", 1e-6)
                    c.close((tf.inverse_transform(Y) - Q) / size, 0 * Q,
                            "inverse", 1e-6)
                    c.state(n, k, offset, size)
                    c.trace(n, k, offset, size)


def explore_other(c, make, n, depth, multi):
    alphabet = [(how, w) for how in pre.FITS for w in range(3)]
    frontier, seen = [()], set()
    X = gen(n, 3, tag=22)
    for d in range(depth):
        nxt = []
        for hist in frontier:
            for ev in alphabet:
                h = hist + (ev,)
                tf, ref = make()
                for how, w in h:
                    pre.do_fit(c, tf, ref, how, pre.training(n, 4, w),
                               tol=1e-8)
                fresh, _ = make()
                fresh.fit(pre.training(n, 4, h[-1][1]))
                c.op("fresh.fit, transform")
                want = ref.a[:, None] * X + ref.b[:, None]
                c.close(tf.transform(X), want, "transform-after-fit", 1e-8)
                c.close(fresh.transform(X), want, "fresh", 1e-8)
                c.same(tf.state_dimension, n, "state_dimension")
                c.state(h)
                c.trace(*h)
                if ev[1] not in seen:
                    seen.add(ev[1])
                    nxt.append(h)
        frontier = nxt


def functional(c):
    for n in (1, 3):
        for k in (1, 2, 4):
            Q = gen(n, k, tag=31, scale=3.0, offset=2.0)
            keep = Q.copy()
            c.op("shift")
            Y, mean = opinf.pre.shift(Q)
            c.close(mean, Q.sum(axis=1) / k, "shift-mean")
            c.close(Y, Q - mean[:, None], "shift-value")
            c.close(opinf.pre.shift(Y, -mean), Q, "shift-inverse")
            c.close(opinf.pre.shift(Q, mean[:, None]), Y, "shift-column")
            c.same(Q, keep, "shift-mutates")
            for to in ((0, 1), (-1, 1), (2.5, 7.0), (3, -3)):
                if n * k > 1:
                    c.op("scale")
                    Z, to_, fr = opinf.pre.scale(Q, to)
                    c.close(np.array(fr), [Q.min(), Q.max()], "scale-from")
                    c.close(np.array(to_), np.array(to), "scale-to")
                    w = (Q - Q.min()) / (Q.max() - Q.min())
                    c.close(Z, to[0] + w * (to[1] - to[0]), "scale-value")
                    c.close(opinf.pre.scale(Z, fr, to), Q, "scale-inverse")
                for fr in ((-1, 4), (0, 2)):
                    c.op("scale")
                    Z = opinf.pre.scale(Q, to, fr)
                    w = (Q - fr[0]) / (fr[1] - fr[0])
                    c.close(Z, to[0] + w * (to[1] - to[0]), "scale-value")
                c.same(Q, keep, "scale-mutates")
                c.state(n, k, to)
            c.trace("shift/scale", n, k)


def cases(tier):
    out = [("functional", functional, ())]
    for centering in (False, True):
        for scaling in pre.SCALINGS:
            for byrow in (False, True):
                if byrow and (scaling is None
                              or scaling.startswith("maxnorm")):
                    continue
                for verbose in (False, True):
                    if verbose:
                        d, dims = 1, (3,)
                    else:
                        d, dims = 2, (3, 4)
                    if tier != "quick":
                        d, dims = d + (not verbose), (2, 3, 4)
                    cfg = (centering, scaling, byrow)
                    out.append((f"SS{cfg} verbose={verbose}", explore_ss,
                                (cfg, verbose, d, dims)))
                    if not verbose:
                        out.append((f"spread{cfg}", spread, (cfg,)))
                        out.append((f"units{cfg}", tiny, (cfg,)))
    depth = 2 if tier == "quick" else 3
    for name, make in list(pre.singles())[-5:]:
        out.append((name, explore_other, (make, 3, depth, False)))
    for name, make in pre.pipes(tier):
        out.append((name, explore_other, (make, 3, 2, False)))
    for name, make in pre.multis(tier):
        n = sum(int(x) for x in name.split("(")[-1].split(")")[0].split(",")
                if x.strip())
        out.append((name, explore_other, (make, n, 2, True)))
    return out
