"""C01: inverse_transform undoes transform, in every trained state."""

import numpy as np

from mc import pre
from mc.core import canon
from mc.data import gen, layouts

BOUNDS = {
    "configurations": "all centering x scaling x byrow of the shift-scale "
    "transformer, fixed shift/scale (scalar, row), null, pipelines of 2-3, "
    "multi-variable with equal/unequal sizes; n=3 (blocks 2,3), "
    "k in {1,..,6}",
    "histories": "all sequences of <=2 (thorough <=3) fitting operations "
    "over {fit, fit_transform, fit_transform in place} x 2 (3) data sets "
    "and a save/load step is explored by C08",
    "queries": "2-D, single column, 1-D, C/F/strided layouts, inplace or "
    "not, nine index selections",
}


def battery(c, tf, ref, n, block):
    """All queries in one trained state."""
    for qname, X in (("wide", gen(n, 4, tag=5)),
                     ("big", gen(n, 3, tag=6, scale=300.0, offset=900.0)),
                     ("col", gen(n, 1, tag=7)),
                     ("1d", gen(n, tag=8)),
                     ("zero", np.zeros((n, 2)))):
        a = ref.a if X.ndim == 1 else ref.a[:, None]
        b = ref.b if X.ndim == 1 else ref.b[:, None]
        want = a * X + b
        for lname, Y in layouts(X):
            for inp in (False, True):
                c.op(f"transform({qname},{lname},inplace={inp})")
                Z = tf.transform(Y.copy("K") if lname != "view" else Y,
                                 inplace=inp)
                c.close(Z, want, "transform-value", 1e-8)
                for inp2 in (False, True):
                    c.op(f"inverse_transform(inplace={inp2})")
                    W = tf.inverse_transform(np.array(Z, order="K"),
                                             inplace=inp2)
                    c.close(W, X, "roundtrip", 1e-8,
                            f"{qname} {lname} {inp} {inp2}")
                if lname == "view":
                    Y[...] = X
        # inverse first, then transform
        c.op("inverse_transform o transform")
        c.close(tf.transform(tf.inverse_transform(want.copy())), want,
                "roundtrip-other-way", 1e-8)
        # entry selections
        if block is None:
            continue
        nb = n // block
        for lo, locs in pre.locs_menu(block):
            sel = np.concatenate([
                np.arange(block)[locs] + i * block for i in range(nb)])
            for inp in (False, True):
                c.op(f"inverse_transform(locs={lo},{qname},inplace={inp})")
                Zl = np.array(want[sel])
                W = tf.inverse_transform(Zl, inplace=inp, locs=locs)
                c.close(W, X[sel], "roundtrip-locs", 1e-8, f"{lo} {inp}")
                if inp:
                    c.check(W is Zl, "locs-inplace", "not the same object")


def explore(c, make, n, block, depth, ndata):
    # breadth-first over histories; a state is what was learned last
    frontier = [()]
    seen = set()
    alphabet = [(how, w) for how in pre.FITS for w in range(ndata)]
    for d in range(depth):
        nxt = []
        for hist in frontier:
            for ev in alphabet:
                h = hist + (ev,)
                tf, ref = make()
                for how, w in h:
                    pre.do_fit(c, tf, ref, how, pre.training(n, 4, w),
                               check_result=False)
                key = canon((ev[1], tuple(how[0] for how, _ in h)))
                c.state(h)
                battery(c, tf, ref, n, block)
                c.trace(*h)
                c.outcome(ref.a, ref.b)
                if key not in seen:
                    seen.add(key)
                    nxt.append(h)
        frontier = nxt


def manual(c, centering, scaling, byrow):
    """Learned quantities supplied by hand instead of by fitting."""
    for order in ("mss", "ssm", "sms"):
        tf, ref = pre.ss(centering, scaling, byrow)[1]()
        todo = list(order)
        scl = pre.SC3.copy() if byrow else -0.75
        sft = pre.REF3.copy() * 2 if byrow else 3.5
        mean = np.array([10.0, -4.0, 0.5])
        n_s = 0
        tf.state_dimension = 3
        for ch in todo:
            if ch == "m" and centering:
                c.op("mean_ = ...")
                tf.mean_ = mean
            elif ch == "s" and scaling is not None:
                c.op("scale_/shift_ = ...")
                if n_s == 0:
                    tf.scale_ = scl
                else:
                    tf.shift_ = sft
                n_s += 1
        a, b = np.ones(3), np.zeros(3)
        if centering:
            b = b - mean
        if scaling is not None:
            a, b = a * scl, b * scl + sft
        ref.a, ref.b = a, b
        c.state(order, a, b)
        battery(c, tf, ref, 3, 3)
        c.trace("set by hand", order)


def cases(tier):
    depth = 2 if tier == "quick" else 3
    out = []
    for name, make in pre.singles():
        out.append((name, explore, (make, 3, 3, depth, 2)))
    for name, make in pre.all_ss():
        out.append((name + " n=1", explore, (make, 1, 1, 1, 2)))
        out.append((name + " n=6", explore, (make, 6, 6, 1, 3)))
    for name, make in (pre.scale(2.5), pre.scale(-0.5), pre.null()):
        out.append((name + " n=1", explore, (make, 1, 1, 1, 2)))
        out.append((name + " n=6", explore, (make, 6, 6, 1, 3)))
    for centering in (False, True):
        for scaling in pre.SCALINGS:
            for byrow in (False, True):
                if byrow and (scaling is None
                              or scaling.startswith("maxnorm")):
                    continue
                out.append((f"manual({centering},{scaling},{byrow})", manual,
                            (centering, scaling, byrow)))
    for name, make in pre.pipes(tier):
        blk = None if "Multi" in name else 3
        out.append((name, explore, (make, 3, blk, 1, 2)))
    for name, make in pre.multis(tier):
        n = sum(int(x) for x in name.split("(")[-1].split(")")[0].split(",")
                if x.strip())
        blk = 3 if n % 3 == 0 else None
        out.append((name, explore, (make, n, blk, 1, 2)))
    return out
