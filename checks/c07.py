"""C07: the dimension of a POD basis follows the selection criteria through
every history of fits, dimension changes, copies and save/load steps."""

import collections
import functools

import matplotlib.pyplot as plt
import numpy as np

import opinf
from mc.core import canon
from mc.data import gen

BOUNDS = {
    "initial states": "unfitted basis x 5 criteria x max_vectors in "
    "{none,2,9} x weights {none, diagonal}; basis from a given SVD with "
    "exactly representable energies",
    "alphabet": "fit(2 data sets), set_dimension(14 criterion values, on "
    "and off the exact boundary), reduced_state_dimension=1..6, save/load, "
    "save/load with max_vectors=1,2,4, copy",
    "depth": "breadth-first, all histories to depth 3 (thorough 4) modulo "
    "equal reference states",
}


# Reference model ------------------------------------------------------------
class Model:
    """criterion, stored singular values, number of stored vectors, r."""

    def __init__(self, crit, mv):
        self.crit, self.mv = crit, mv
        self.data = None       # which training set
        self.sv = None         # normalized singular values
        self.avail = None
        self.r = None

    def key(self):
        return (self.crit, self.mv, self.data, self.avail, self.r)

    def select(self):
        kind, v = self.crit
        e = [s * s for s in self.sv]
        tot = sum(e)
        m = len(e)
        if kind == "num_vectors":
            r = v
        elif kind == "svdval_threshold":
            r = sum(1 for s in self.sv if s >= v)
        else:
            def ok(r):
                kept = sum(e[:r]) / tot
                if kind == "cumulative_energy":
                    return kept >= v
                left = sum(e[r:]) / tot
                if kind == "residual_energy":
                    return left <= v
                return left ** 0.5 <= v
            r = next((r for r in range(1, m + 1) if ok(r)), m + 1)
        self.r = min(r, self.avail)


EXACT = np.array([2.0, 1.0, 1.0, 1.0, 1.0])   # energies 4/8, 5/8, ..., 1


def training(which):
    Q = gen(6, 5, tag=101 + which)
    U, s, Vt = np.linalg.svd(Q, full_matrices=False)
    s = (np.array([10, 4, 2, 0.5, 0.05]) if which == 0
         else np.array([7, 6, 5, 1, 0.9]))
    return (U * s) @ Vt, s / s[0]


def nonboundary():
    for r in (1, 2, 4, 7):
        yield ("num_vectors", r)
    for v in (0.04, 0.3, 0.8):
        yield ("svdval_threshold", v)
    for v in (0.6, 0.97, 0.99999):
        yield ("cumulative_energy", v)
    for v in (0.2, 0.002):
        yield ("residual_energy", v)
    for v in (0.5, 0.02):
        yield ("projection_error", v)


def boundary():
    for r in (1, 3, 5, 8):
        yield ("num_vectors", r)
    for v in (0.5, 0.50001, 0.49999, 1.0):
        yield ("svdval_threshold", v)
    for v in (0.5, 0.625, 0.62501, 0.875, 1.0):
        yield ("cumulative_energy", v)
    for v in (0.5, 0.375, 0.25, 0.3749):
        yield ("residual_energy", v)
    for v in (0.5, 0.75, 0.3):
        yield ("projection_error", v)


def observe(c, basis, m, left):
    """Compare every observable of the basis with the model."""
    if m.sv is None:
        c.check(basis.entries is None, "unfitted-entries")
        c.check(basis.svdvals is None, "unfitted-svdvals")
        c.check(basis.leftvecs is None, "unfitted-leftvecs")
        c.check(basis.max_vectors is None, "unfitted-max_vectors")
        if m.r is not None:
            c.same(basis.reduced_state_dimension, m.r, "unfitted-r")
        return
    c.same(basis.reduced_state_dimension, m.r, "r",
           f"criterion {m.crit}, data {m.data}, available {m.avail}")
    c.same(basis.max_vectors, m.avail, "max_vectors")
    c.close(basis.svdvals, m.sv, "svdvals", 1e-10)
    V = basis.entries
    c.same(V.shape, (6, m.r), "entries-shape")
    c.same(tuple(basis.shape), (6, m.r), "shape")
    c.same(basis.full_state_dimension, 6, "n")
    # stored vectors, up to sign
    L = basis.leftvecs
    c.same(L.shape, (6, m.avail), "leftvecs-shape")
    c.same(np.asarray(V), np.asarray(L[:, :m.r]), "entries-are-leading")
    c.close(np.abs(np.sum(L * left[:, :m.avail] if m.w is None else
                          L * m.w[:, None] * left[:, :m.avail], axis=0)),
            np.ones(m.avail), "leftvecs", 1e-8)
    if isinstance(m.data, int):
        R = basis.rightvecs
        right = np.linalg.svd(training(m.data)[0], full_matrices=False)[2].T
        c.same(R.shape, (5, m.avail), "rightvecs-shape")
        c.close(np.abs(np.sum(R * right[:, :m.avail], axis=0)),
                np.ones(m.avail), "rightvecs", 1e-8)
    e = m.sv ** 2
    c.close(basis.cumulative_energy, np.sum(e[:m.r]) / np.sum(e),
            "cumulative_energy", 1e-10)
    c.close(basis.residual_energy, np.sum(e[m.r:]) / np.sum(e),
            "residual_energy", 1e-10)
    X = gen(6, 3, tag=103)
    WX = X if m.w is None else m.w[:, None] * X
    q = basis.compress(X)
    c.close(q, np.asarray(V).T @ WX, "compress", 1e-10)
    c.close(basis.decompress(q), np.asarray(V) @ q, "decompress", 1e-10)


def apply(c, basis, m, ev, i):
    kind = ev[0]
    c.op(ev)
    if kind == "fit":
        Q, sv = training(ev[1])
        if m.w is not None:
            Q = Q / np.sqrt(m.w)[:, None]
        out = basis.fit(Q)
        c.check(out is basis, "fit-self")
        m.data, m.sv = ev[1], sv
        m.avail = min(m.mv or 99, 5)  # (mv=0: none given)
        m.select()
    elif kind == "set":
        basis.set_dimension(**{ev[1][0]: ev[1][1]})
        m.crit = ev[1]
        if m.sv is not None:
            m.select()
    elif kind == "r":
        basis.reduced_state_dimension = ev[1]
        if m.sv is None:
            m.crit = ("num_vectors", ev[1])
            m.r = ev[1]
        else:
            m.r = min(ev[1], m.avail)
    elif kind == "copy":
        basis = basis.copy()
    elif kind == "load":
        f = c.path(f"b{i}.h5")
        basis.save(f, overwrite=True)
        if ev[1] is None:
            basis = opinf.basis.PODBasis.load(f)
        else:
            basis = opinf.basis.PODBasis.load(f, max_vectors=ev[1])
            if m.sv is not None:
                m.avail = min(m.avail, ev[1])
                m.r = min(m.r, m.avail)
                if m.crit[0] == "num_vectors":
                    m.crit = ("num_vectors", min(m.crit[1], m.avail))
        if m.sv is None:
            m.r = None       # remembered through the criterion
    return basis


def events(m, menu):
    yield ("fit", 0)
    yield ("fit", 1)
    for crit in menu:
        yield ("set", crit)
    for r in (1, 3, 5, 6):
        yield ("r", r)
    yield ("copy",)
    yield ("load", None)
    if m.sv is not None:
        for k in (1, 2, 4):
            yield ("load", k)


def left_of(data, w):
    if data == "exact":
        V = np.linalg.qr(gen(6, 5, tag=104))[0]
        return V if w is None else V / np.sqrt(w)[:, None]
    Q, _ = training(data)
    U = np.linalg.svd(Q, full_matrices=False)[0]
    return U if w is None else U / np.sqrt(w)[:, None]


def explore(c, init, crit, mv, wname, depth):
    w = None if wname == "none" else np.array([1, 2, 0.5, 3, 1.5, 0.25])
    menu = list(boundary() if init == "svd" else nonboundary())

    def build(hist):
        m = Model(crit, mv)
        m.w = w
        if init == "svd":
            m.data, m.sv, m.avail = "exact", EXACT / 2, 5
            m.select()
            V = left_of("exact", w)
            basis = opinf.basis.PODBasis.from_svd(
                V.copy(), EXACT.copy(),
                None if mv == 0 else gen(7, 5, tag=105),
                weights=None if w is None else w.copy(),
                **{crit[0]: crit[1]})
        else:
            basis = opinf.basis.PODBasis(
                max_vectors=mv, weights=None if w is None else w.copy(),
                **{crit[0]: crit[1]})
        for i, ev in enumerate(hist):
            basis = apply(c, basis, m, ev, i)
        return basis, m

    basis, m = build(())
    observe(c, basis, m, left_of(m.data, w) if m.sv is not None else None)
    seen = {canon(m.key())}
    c.state(m.key())
    frontier = collections.deque([((), m)])
    while frontier:
        hist, m0 = frontier.popleft()
        if len(hist) == depth:
            continue
        for ev in events(m0, menu):
            h = hist + (ev,)
            with c.sub("; ".join(str(e) for e in h)):
                basis, m = build(h)
                observe(c, basis, m,
                        left_of(m.data, w) if m.sv is not None else None)
                c.trace(*h)
                c.outcome(m.r, m.avail)
                k = canon(m.key())
                c.state(m.key())
                if k not in seen:
                    seen.add(k)
                    frontier.append((h, m))
            if len(c.failures) > 5:
                return


def functional(c):
    """The stand-alone rank-selection functions on the same data."""
    for sv in (EXACT, np.array([10, 4, 2, 0.5, 0.05]),
               np.array([0.5, 3.0, 1.0, 2.0])):
        s = np.sort(sv)[::-1]
        e = s**2 / np.sum(s**2)
        for fn, menu, rule in (
            (opinf.basis.svdval_decay, (0.9, 0.3, 0.04, 1e-6),
             lambda v: sum(1 for x in s / s[0] if x > v)),
            (opinf.basis.cumulative_energy, (0.55, 0.8, 0.9, 0.9999),
             lambda v: next(r for r in range(len(s) + 1)
                            if np.sum(e[:r]) >= v - 1e-15)),
            (opinf.basis.residual_energy, (0.45, 0.2, 0.1, 1e-4),
             lambda v: next(r for r in range(len(s) + 1)
                            if 1 - np.sum(e[:r]) <= v + 1e-15)),
            (functools.partial(opinf.basis.residual_energy, sqrt=True),
             (0.7, 0.4, 0.3, 1e-2),
             lambda v: next(r for r in range(len(s) + 1)
                            if 1 - np.sum(e[:r]) <= v**2 + 1e-15)),
        ):
            name = getattr(fn, "__name__", "projection error")
            keep = sv.copy()
            for v in menu:
                c.op(f"{name}({v})")
                c.same(fn(sv, threshold=v, plot=False), rule(v),
                       name, f"{sv} {v}")
            c.op(name)
            c.same(list(fn(sv, threshold=list(menu), plot=False)),
                   [rule(v) for v in menu], name)
            if len(sv) > 4:     # drawing needs several points
                fig, ax = plt.subplots()
                for right in (None, 3, 9):
                    c.op(f"plot {name}")
                    got = fn(sv, threshold=menu[0], plot=True, ax=ax,
                             right=right)
                    c.same(got, rule(menu[0]), name, "with plot")
                plt.close(fig)
            c.same(sv, keep, "mutates")
            c.state(name, sv)
            c.trace(name, sv)


def shortcut(c):
    """pod_basis() selects like PODBasis, for every criterion."""
    PB = opinf.basis.PODBasis
    w = np.array([1, 2, 0.5, 3, 1.5, 0.25])
    for data in (0, 1):
        Q, sv = training(data)
        for crit in [("none", None), *nonboundary()]:
            for wts in (None, w):
                for sol in ("dense", "method-of-snapshots"):
                    kw = {} if crit[1] is None else {crit[0]: crit[1]}
                    key = f"{data} {crit} {wts is None} {sol}"
                    c.op(f"pod_basis {key}")
                    X = Q if wts is None else Q / np.sqrt(wts)[:, None]
                    V, s, R = opinf.basis.pod_basis(
                        X, weights=wts, svdsolver=sol,
                        return_rightvecs=True, **kw)
                    m = Model(crit, None)
                    m.sv, m.avail = sv, 5
                    if crit[1] is None:
                        m.r = 5
                    else:
                        m.select()
                    c.same(V.shape, (6, m.r), "pod_basis dimension", key)
                    c.same(R.shape, (5, m.r), "pod_basis rightvecs", key)
                    c.close(s, sv, "pod_basis svdvals", 1e-6, key)
                    b = PB(weights=wts, svdsolver=sol, **(
                        kw or dict(num_vectors=5))).fit(X)
                    c.close(V, b.entries, "pod_basis entries", 1e-9, key)
                    # Snapshots as a list of trajectories.
                    c.op("3-D")
                    for states in ([X, X[:, ::-1]],
                                   np.array([X, X[:, ::-1]])):
                        # Reordered copies of the snapshots: the singular
                        # values double squared, the vectors stay.
                        kw3 = dict(num_vectors=m.r)
                        b3 = PB(weights=wts, svdsolver=sol,
                                **kw3).fit(states)
                        P = np.asarray(b.entries) @ b.entries.T
                        P3 = np.asarray(b3.entries) @ b3.entries.T
                        c.close(P3, P, "list of trajectories", 1e-6, key)
                    c.state(key)
        c.trace("pod_basis", data)


def cases(tier):
    out = [("functional", functional, ()), ("pod_basis", shortcut, ())]
    d = 2 if tier == "quick" else 3
    inits = [("num_vectors", 3), ("svdval_threshold", 0.3),
             ("cumulative_energy", 0.97), ("residual_energy", 0.2),
             ("projection_error", 0.5)]
    for crit in inits:
        for mv in (None, 2, 9):
            for w in ("none", "diag"):
                out.append((f"unfitted {crit} max={mv} W={w}", explore,
                            ("new", crit, mv, w, d)))
    for crit in boundary():
        out.append((f"from_svd {crit}", explore,
                    ("svd", crit, None, "none", d)))
        out.append((f"from_svd {crit} without right vectors", explore,
                    ("svd", crit, 0, "none", min(d, 2))))
    for crit in list(boundary())[::3]:
        out.append((f"from_svd {crit} W", explore,
                    ("svd", crit, None, "diag", d)))
    return out
