"""Transformers: configurations, reference model and exploration."""

import itertools

import numpy as np

import opinf
from mc.data import gen, layouts

SCALINGS = (None, "standard", "minmax", "minmaxsym", "maxabs", "maxabssym",
            "maxnorm", "maxnormsym")


# Reference model: every transformer is x -> a * x + b, entry by entry --------
class RefShiftScale:
    def __init__(self, centering, scaling, byrow):
        self.cfg = centering, scaling, byrow
        self.a = self.b = None

    def fit(self, Q):
        centering, scaling, byrow = self.cfg
        n, k = Q.shape
        rows = [[float(x) for x in row] for row in Q]
        mean = [sum(r) / k if centering else 0.0 for r in rows]
        Y = [[x - m for x in r] for r, m in zip(rows, mean)]
        groups = [[i] for i in range(n)] if byrow else [list(range(n))]
        scale, shift = [1.0] * n, [0.0] * n
        for g in groups:
            vals = [x for i in g for x in Y[i]]
            mu = sum(vals) / len(vals)
            if scaling is None:
                s, t = 1.0, 0.0
            elif scaling == "standard":
                sd = (sum((v - mu) ** 2 for v in vals) / len(vals)) ** 0.5
                s, t = 1 / sd, -mu / sd
            elif scaling == "minmax":
                w = max(vals) - min(vals)
                s, t = 1 / w, -min(vals) / w
            elif scaling == "minmaxsym":
                w = max(vals) - min(vals)
                s, t = 2 / w, -2 * min(vals) / w - 1
            elif scaling == "maxabs":
                s, t = 1 / max(abs(v) for v in vals), 0.0
            elif scaling == "maxabssym":
                s = 1 / max(abs(v - mu) for v in vals)
                t = -mu * s
            elif scaling == "maxnorm":
                s = 1 / max(sum(Y[i][j] ** 2 for i in g) ** 0.5
                            for j in range(k))
                t = 0.0
            elif scaling == "maxnormsym":
                s = 1 / max(sum((Y[i][j] - mu) ** 2 for i in g) ** 0.5
                            for j in range(k))
                t = -mu * s
            for i in g:
                scale[i], shift[i] = s, t
        self.a = np.array(scale)
        self.b = np.array([t - s * m for s, t, m in zip(scale, shift, mean)])


class RefFixed:
    """Shift by / scale by fixed quantities; identity."""

    def __init__(self, ref=None, scaler=None):
        self.ref, self.scaler = ref, scaler
        self.a = self.b = None

    def fit(self, Q):
        n = Q.shape[0]
        self.a, self.b = np.ones(n), np.zeros(n)
        if self.ref is not None:
            self.b = -np.asarray(self.ref, dtype=float)
        if self.scaler is not None:
            self.a = np.ones(n) * self.scaler


class RefPipe:
    def __init__(self, refs):
        self.refs = refs

    def fit(self, Q):
        a, b = np.ones(Q.shape[0]), np.zeros(Q.shape[0])
        Y = np.array(Q, dtype=float)
        for r in self.refs:
            r.fit(Y)
            Y = r.a[:, None] * Y + r.b[:, None]
            a, b = r.a * a, r.a * b + r.b
        self.a, self.b = a, b


class RefMulti:
    def __init__(self, refs, sizes):
        self.refs, self.sizes = refs, sizes

    def fit(self, Q):
        i, a, b = 0, [], []
        for r, s in zip(self.refs, self.sizes):
            r.fit(Q[i:i + s])
            a.append(r.a)
            b.append(r.b)
            i += s
        self.a, self.b = np.concatenate(a), np.concatenate(b)


# Configurations ------------------------------------------------------------
REF3 = np.array([1.5, -2.0, 0.25])
SC3 = np.array([0.5, -3.0, 2.0])
REF4 = np.array([1.5, -2.0, 0.25, 4.0])
SC4 = np.array([0.5, -3.0, 2.0, 8.0])


def ss(centering, scaling, byrow, n=None):
    name = f"SS({int(centering)},{scaling},{int(byrow)})"

    def make():
        return (
            opinf.pre.ShiftScaleTransformer(
                centering=centering, scaling=scaling, byrow=byrow),
            RefShiftScale(centering, scaling, byrow),
        )
    return name, make


def shift(n=3):
    r = REF3 if n == 3 else REF4
    return f"Shift{n}", lambda: (
        opinf.pre.ShiftTransformer(r.copy()), RefFixed(ref=r))


def scale(s, n=3):
    if np.ndim(s) == 0:
        return f"Scale({s})", lambda: (
            opinf.pre.ScaleTransformer(s), RefFixed(scaler=s))
    return f"ScaleRow{len(s)}", lambda: (
        opinf.pre.ScaleTransformer(s.copy()), RefFixed(scaler=s))


def null():
    return "Null", lambda: (opinf.pre.NullTransformer(), RefFixed())


def all_ss():
    for centering, scaling, byrow in itertools.product(
        (False, True), SCALINGS, (False, True)
    ):
        if byrow and (scaling is None or scaling.startswith("maxnorm")):
            continue
        yield ss(centering, scaling, byrow)


def singles(n=3):
    yield from all_ss()
    yield shift(n)
    yield scale(2.5)
    yield scale(-0.5)
    yield scale(SC3 if n == 3 else SC4)
    yield null()


def pipe(parts):
    name = "Pipe[" + ",".join(p[0] for p in parts) + "]"

    def make():
        pairs = [p[1]() for p in parts]
        return (
            opinf.pre.TransformerPipeline([p[0] for p in pairs]),
            RefPipe([p[1] for p in pairs]),
        )
    return name, make


def multi(parts, sizes, give_sizes):
    name = "Multi[" + ",".join(p[0] if p else "None" for p in parts) + (
        f"]{sizes}" + ("g" if give_sizes else ""))

    def make():
        pairs = [p[1]() if p else (None, RefFixed()) for p in parts]
        return (
            opinf.pre.TransformerMulti(
                [p[0] for p in pairs],
                variable_sizes=list(sizes) if give_sizes else None),
            RefMulti([p[1] for p in pairs], sizes),
        )
    return name, make


def pipes(tier, n=3):
    base = [shift(n), scale(2.5), scale(SC3 if n == 3 else SC4),
            ss(True, None, False), ss(False, "minmax", False),
            ss(True, "maxabs", True), ss(False, "maxnorm", False), null()]
    for a, b in itertools.product(base, repeat=2):
        yield pipe([a, b])
    tri = base[:5] if tier == "quick" else base
    for i, a in enumerate(tri):
        yield pipe([a, tri[(i + 1) % len(tri)], tri[(i + 3) % len(tri)]])
    if tier != "quick":
        for a, b, c in itertools.product(base[:6], repeat=3):
            nm = pipe([a, b, c])
            if (base.index(b) - base.index(a)) % len(tri) == 1 and (
                    base.index(c) - base.index(a)) % len(tri) == 3:
                continue
            yield nm
    yield pipe([multi([shift(1) if False else ss(True, None, False),
                       scale(-0.5)], (1, 2), True), ss(True, "maxabs", False)])


def multis(tier):
    b3 = [ss(True, "standard", False), ss(False, "minmaxsym", True),
          scale(-0.5), shift(3), scale(SC3), None,
          ss(True, None, False), ss(True, "maxnormsym", False)]
    b2 = [ss(True, "minmax", False), ss(False, "maxabssym", True),
          scale(2.5), None, ss(True, "maxnorm", False)]
    # equal sizes, sizes inferred from the data, or given
    for a, b in itertools.product(b3, repeat=2):
        yield multi([a, b], (3, 3), False)
    for i, a in enumerate(b3):
        yield multi([a, b3[(i + 1) % 8], b3[(i + 5) % 8]], (3, 3, 3), True)
        yield multi([a], (3,), False)
    # different sizes
    for a, b in itertools.product(b3, b2):
        yield multi([a, b], (3, 2), True)
        yield multi([b, a], (2, 3), True)
    if tier != "quick":
        for a, b, c in itertools.product(b3, b2, b3):
            yield multi([a, b, c], (3, 2, 3), True)


def training(n, k, which):
    if which == 0:
        return gen(n, k, tag=1)
    if which == 1:
        return gen(n, k + 1, tag=2, scale=20.0, offset=-55.0)
    return gen(n, k + 2, tag=3, scale=1e-3, offset=4e-3)


FITS = [("fit", None), ("fit_transform", False), ("fit_transform", True)]


def do_fit(c, tf, ref, how, Q, check_result=True, tol=1e-9):
    """Apply one fitting operation; compare the returned value."""
    Q = np.array(Q)
    keep = Q.copy()
    kind, inplace = how
    c.op(f"{kind}(k={Q.shape[1]}, inplace={inplace})")
    ref.fit(keep)
    want = ref.a[:, None] * keep + ref.b[:, None]
    if kind == "fit":
        out = tf.fit(Q)
        if check_result:
            c.check(out is tf, "fit-returns-self", "fit() is not self")
            c.same(Q, keep, "fit-mutates", "fit() changed its argument")
    else:
        out = tf.fit_transform(Q, inplace=inplace)
        if check_result:
            c.close(out, want, "fit_transform-value", tol)
    return keep


def locs_menu(n):
    yield "last", np.array([n - 1])
    yield "perm", np.array([n - 1, 0])
    yield "dup", np.array([0, n - 1, n - 1])
    yield "neg", np.array([-1, 0])
    yield "slice1", slice(1, n)
    yield "slice2", slice(None, None, 2)
    yield "slice-", slice(None, None, -1)
    yield "all", np.arange(n)
    yield "none", np.array([], dtype=int)
