"""C04: derivatives are transformed with the linear part of the state
transformation, in every trained state."""

import numpy as np

from mc import pre
from mc.data import gen, layouts

BOUNDS = {
    "configurations": "all transformers of C01 (three state dimensions)",
    "histories": "every fitting history of <=2 steps",
    "queries": "unit vectors (a basis of all derivative vectors), generic "
    "blocks, 1-D and 2-D, C/F/strided, inplace or not; also "
    "transform(x+h)-transform(x) for the same h",
}


def battery(c, tf, ref, n):
    x = gen(n, 4, tag=41)
    for name, H in (("unit", np.eye(n)), ("gen", gen(n, 4, tag=42)),
                    ("col", gen(n, 1, tag=43)), ("1d", gen(n, tag=44)),
                    ("zero", np.zeros((n, 2))),
                    ("large", gen(n, 5, tag=45, scale=1e4, offset=3e4))):
        a = ref.a if H.ndim == 1 else ref.a[:, None]
        for lname, Z in layouts(H):
            for inp in (False, True):
                keep = Z.copy()
                c.op(f"transform_ddts({name},{lname},inplace={inp})")
                out = tf.transform_ddts(Z, inplace=inp)
                c.close(out, a * H, "ddts-value", 1e-9, f"{name} {lname}")
                if not inp:
                    c.same(Z, keep, "ddts-mutates")
                Z[...] = H
        base = x[:, 0] if H.ndim == 1 else np.repeat(
            x[:, :1], H.shape[1], axis=1)
        c.op("difference of transforms")
        diff = tf.transform(base + H) - tf.transform(base)
        c.close(tf.transform_ddts(H.copy(), inplace=False), diff,
                "ddts-vs-states", 1e-8, name)


def explore(c, make, n, depth):
    alphabet = [(how, w) for how in pre.FITS for w in range(3)]
    frontier, seen = [()], set()
    for d in range(depth):
        nxt = []
        for hist in frontier:
            for ev in alphabet:
                h = hist + (ev,)
                tf, ref = make()
                for how, w in h:
                    pre.do_fit(c, tf, ref, how, pre.training(n, 4, w),
                               check_result=False)
                battery(c, tf, ref, n)
                c.state(h)
                c.trace(*h)
                c.outcome(ref.a)
                if ev[1] not in seen:
                    seen.add(ev[1])
                    nxt.append(h)
        frontier = nxt


def cases(tier):
    out = []
    d = 2 if tier == "quick" else 3
    for name, make in pre.singles():
        out.append((name, explore, (make, 3, d)))
    for name, make in pre.all_ss():
        out.append((name + " n=1", explore, (make, 1, 1)))
        out.append((name + " n=6", explore, (make, 6, 1)))
    for name, make in pre.pipes(tier):
        out.append((name, explore, (make, 3, d - 1)))
    for name, make in pre.multis(tier):
        n = sum(int(x) for x in name.split("(")[-1].split(")")[0].split(",")
                if x.strip())
        out.append((name, explore, (make, n, d - 1)))
    return out
