"""Reference model of the least-squares solvers, and the exploration of their
histories (used by C16 and C17)."""

import collections
import itertools

import numpy as np
import scipy.sparse as sparse

import opinf
from mc.core import canon
from mc.data import gen, spd

L = opinf.lstsq


# Data ------------------------------------------------------------------------
def families():
    """name -> (D, Z); Z = I decides every right-hand side by linearity."""
    out = {
        "tall": (gen(8, 3, tag=401), gen(2, 8, tag=402)),
        "tall r1": (gen(6, 3, tag=403), gen(1, 6, tag=404)),
        "tall r1 flat": (gen(6, 3, tag=403), gen(6, tag=404)),
        "square": (square(5, tag=405) / 5, gen(2, 5, tag=406)),
        "wide": (gen(3, 5, tag=407), gen(2, 3, tag=408)),
        "eye": (gen(5, 3, tag=409), np.eye(5)),
        "d1": (gen(4, 1, tag=410), gen(3, 4, tag=411)),
        "scaled": (gen(9, 3, tag=412) * np.array([1e-3, 1.0, 1e3]),
                   gen(2, 9, tag=413)),
    }
    U, V = (np.linalg.qr(gen(n, 4, tag=416 + n))[0] for n in (9, 4))
    out["graded r5"] = (U * np.array([2.0, 3e-2, 4e-3, 2e-4]) @ V.T,
                        gen(5, 9, tag=417))
    out["r4"] = (gen(14, 6, tag=418), gen(4, 14, tag=419))
    D = gen(8, 4, tag=414)
    D[:, 3] = D[:, 1]
    out["deficient"] = (D, gen(2, 8, tag=415))
    return out


FULL_COLUMN_RANK = ("tall", "tall r1", "tall r1 flat", "square", "eye", "d1",
                    "scaled")


def square(n, tag=0):
    """Well-conditioned, not symmetric."""
    return spd(n, tag=tag) + n * np.triu(gen(n, n, tag=tag + 1), 1)


def asZ(Z):
    return np.atleast_2d(Z)


# Reference solutions ---------------------------------------------------------
def ref_plain(D, Z, cond=None):
    U, s, Vt = np.linalg.svd(D, full_matrices=False)
    cut = (max(D.shape) * np.finfo(float).eps if cond is None else cond) * s[0]
    keep = s > cut
    return asZ(Z) @ U[:, keep] @ np.diag(1 / s[keep]) @ Vt[keep]


def ref_tikhonov(D, Z, Gs):
    """Row i minimizes |D x - z_i|^2 + |G_i x|^2 (smallest norm)."""
    rows = []
    for z, G in zip(asZ(Z), Gs):
        A = np.vstack((D, G))
        b = np.concatenate((z, np.zeros(G.shape[0])))
        rows.append(np.linalg.pinv(A, rcond=1e-13) @ b)
    return np.array(rows)


def ref_tsvd(D, Z, n):
    U, s, Vt = np.linalg.svd(D, full_matrices=False)
    out = 0
    for i in range(n):
        out = out + np.outer(asZ(Z) @ U[:, i], Vt[i]) / s[i]
    return out


def ref_tls(D, Z):
    """(Ohat, norm of the smallest corrections)."""
    d = D.shape[1]
    C = np.hstack((D, asZ(Z).T))
    w, V = np.linalg.eigh(C.T @ C)
    r = asZ(Z).shape[0]
    N = V[:, :r]                       # smallest eigenvalues
    X = -N[:d] @ np.linalg.inv(N[d:])
    return X.T, np.sqrt(np.sum(np.maximum(w[:r], 0)))


# Specifications of the solvers -----------------------------------------------
class Spec:
    """How to make a solver and what its settings mean.

    settings: name -> value for the solver (constructor argument or setter)
    """

    name = None
    needs_reg = True

    def make(self, value):
        raise NotImplementedError

    def assign(self, solver, value):
        solver.regularizer = value

    def gammas(self, value, r, d):
        """Regularization matrices, row by row; None if it does not fit."""
        raise NotImplementedError

    def solution(self, D, Z, value):
        """None: no solution is promised (an exception is expected)."""
        if value is None:
            return None
        Gs = self.gammas(value, asZ(Z).shape[0], D.shape[1])
        return None if Gs is None else ref_tikhonov(D, Z, Gs)


class Plain(Spec):
    name = "PlainSolver"
    needs_reg = False

    def values(self, r, d):
        return {"None": None}

    bad = {}

    def make(self, value):
        return L.PlainSolver()

    def gammas(self, value, r, d):
        return None

    def solution(self, D, Z, value):
        return ref_plain(D, Z)


class L2(Spec):
    name = "L2Solver"

    def values(self, r, d):
        return {"None": None, "l1": 0.5, "l2": 3, "l3": np.float64(1e-3)}

    bad = {"negative": -1.0, "array": np.ones(2), "list": [1.0]}

    def make(self, value):
        return L.L2Solver(value)

    def gammas(self, value, r, d):
        return [value * np.eye(d)] * r


class L2Decoupled(Spec):
    name = "L2DecoupledSolver"

    def values(self, r, d):
        return {"None": None,
                "v1": 0.25 + np.arange(r), "v2": list(3.0 / (1 + np.arange(r))),
                "v3": 0.01 * (r - np.arange(r))}

    bad = {"negative": [-1.0, 1.0], "long": np.ones(17),
           "one negative": np.array([1.0, -1e-3])}

    def make(self, value):
        return L.L2DecoupledSolver(value)

    def gammas(self, value, r, d):
        value = np.asarray(value)
        if value.shape != (r,):
            return None
        return [v * np.eye(d) for v in value]


def dense(G):
    G = G.toarray() if sparse.issparse(G) else np.asarray(G)
    return np.diag(G) if G.ndim == 1 else G


class Tik(Spec):
    name = "TikhonovSolver"

    def __init__(self, method="lstsq"):
        self.method = method

    def values(self, r, d):
        return {"None": None, "diag": np.arange(1, d + 1) / d,
                "full": square(d, tag=420) / d,
                "sparse": sparse.csr_array(
                    np.diag(2.0 + np.arange(d)) + np.eye(d, k=1)),
                "list": [0.3] * d}

    bad = {"shape": np.eye(17), "negative": np.array([1.0, -1.0])}

    def make(self, value):
        return L.TikhonovSolver(value, method=self.method)

    def gammas(self, value, r, d):
        G = dense(value)
        return [G] * r if G.shape == (d, d) else None


class TikDecoupled(Tik):
    name = "TikhonovDecoupledSolver"

    def values(self, r, d):
        return {
            "None": None,
            "diags": [np.arange(1, d + 1) / d + i for i in range(r)],
            "mixed": [square(d, tag=430 + i) / d if i % 2 == 0 else
                      sparse.csc_array(
                          np.diag(1.0 + np.arange(d)) - np.eye(d, k=-1))
                      for i in range(r)],
            "fulls": [square(d, tag=440 + i) / (i + d) for i in range(r)],
        }

    bad = {"number": [np.eye(2)] * 9, "negative": [np.array([1.0, -1.0])]}

    def make(self, value):
        return L.TikhonovDecoupledSolver(value, method=self.method)

    def gammas(self, value, r, d):
        Gs = [dense(G) for G in value]
        if len(Gs) != r or any(G.shape != (d, d) for G in Gs):
            return None
        return Gs


SPECS = {
    "Plain": Plain(), "L2": L2(), "L2Decoupled": L2Decoupled(),
    "Tikhonov": Tik(), "Tikhonov normal": Tik("normal"),
    "TikDecoupled": TikDecoupled(),
    "TikDecoupled normal": TikDecoupled("normal"),
}


# Histories -------------------------------------------------------------------
DATA = {
    "D1": (gen(8, 3, tag=451), gen(2, 8, tag=452)),
    "D2": (gen(8, 3, tag=453), gen(2, 8, tag=454)),     # same shapes as D1
    "D3": (gen(6, 2, tag=455), gen(3, 6, tag=456)),     # other d, r
    "D4": (gen(3, 4, tag=457), gen(2, 3, tag=458)),     # underdetermined
}


def explore(c, spec, depth, verify, datanames=("D1", "D2", "D3")):
    """Breadth-first exploration of all operation sequences.

    The model state is (data or None, setting key and value, method); the
    solver after the history must be a solver with these settings.
    """
    sets = {}
    for dn in datanames:
        D, Z = DATA[dn]
        for key, val in spec.values(asZ(Z).shape[0], D.shape[1]).items():
            if key != "None":
                sets[f"{key}@{asZ(Z).shape[0]},{D.shape[1]}"] = val
    # Two settings per shape are enough for histories.
    byshape = collections.defaultdict(list)
    for k in sets:
        byshape[k.split("@")[1]].append(k)
    keep = [k for ks in byshape.values() for k in ks[:2]]
    acts = [("fit", n) for n in datanames]
    if spec.needs_reg:
        acts += [("set", k) for k in keep] + [("set", "None")]
        acts += [("badset", b) for b in spec.bad]
    if hasattr(spec, "method"):
        acts += [("method", "lstsq"), ("method", "normal"),
                 ("badmethod", "no")]
    acts += [("badfit", "short"), ("badfit", "ndim"), ("copy", ""),
             ("saveload", ""), ("solve", ""), ("reset", "")]
    sets["None"] = None
    nfile = [0]

    def shape_ok(m, value):
        if m["data"] is None or value is None:
            return True
        D, Z = DATA[m["data"]]
        return spec.gammas(value, asZ(Z).shape[0], D.shape[1]) is not None

    def apply(solver, m, act):
        """Execute one action; returns (solver, model)."""
        kind, arg = act
        m = dict(m)
        c.op(f"{kind} {arg}")
        if kind == "fit":
            D, Z = DATA[arg]
            bad = False
            val = sets[m["set"]]
            if spec.needs_reg and val is not None and spec.gammas(
                    val, asZ(Z).shape[0], D.shape[1]) is None:
                bad = True
            if bad:
                c.raises(Exception, lambda: solver.fit(D, Z),
                         "fit with a regularizer that does not fit")
                # The solver is as before, or keeps raising.
                old = None if m["data"] is None else DATA[m["data"]][0]
                now = solver.data_matrix
                if (old is None) != (now is None) or (
                        old is not None and not np.array_equal(old, now)):
                    m["data"] = arg
                    m["unfit"] = True
            else:
                c.check(solver.fit(D, Z) is solver, "fit returns self")
                m["data"], m["unfit"] = arg, False
        elif kind == "set":
            val = sets[arg]
            if shape_ok(m, val):
                spec.assign(solver, val)
                m["set"] = arg
                m["unfit"] = False
            else:
                c.raises(Exception, lambda: spec.assign(solver, val),
                         "regularizer of another shape")
        elif kind == "badset":
            val = spec.bad[arg]
            # A wrong shape can be recognized only after training.
            if arg in ("long", "shape", "number") and m["data"] is None:
                return None, None
            c.raises(Exception, lambda: spec.assign(solver, val),
                     "bad regularizer", arg)
        elif kind == "method":
            solver.method = arg
            m["method"] = arg
        elif kind == "badmethod":
            c.raises(ValueError, lambda: setattr(solver, "method", arg),
                     "bad method")
        elif kind == "badfit":
            D, Z = DATA["D1"]
            if arg == "short":
                c.raises(ValueError, lambda: solver.fit(D, Z[:, :-1]),
                         "misaligned data")
            else:
                c.raises(ValueError, lambda: solver.fit(D[:, 0], Z),
                         "one-dimensional data matrix")
        elif kind == "copy":
            new = solver.copy()
            c.check(type(new) is type(solver), "copy type")
            solver = new
        elif kind == "saveload":
            nfile[0] += 1
            f = c.path(f"s{nfile[0]}.h5")
            solver.save(f)
            new = type(solver).load(f)
            c.check(type(new) is type(solver), "load type")
            solver = new
        elif kind == "solve":
            sol = None
            try:
                sol = solver.solve()
            except Exception:
                pass
            if sol is not None:
                sol2 = solver.solve()
                c.same(sol, sol2, "solve twice")
        elif kind == "reset":
            solver.reset()
            m["data"], m["unfit"] = None, False
            if spec.needs_reg:
                m["set"] = "None"
        return solver, m

    start = dict(data=None, set="None", unfit=False,
                 method=getattr(spec, "method", None))

    def build(history):
        solver, m = spec.make(None), start
        c.trail = []
        for act in history:
            solver, m = apply(solver, m, act)
            if solver is None:
                return None, None
        return solver, m

    seen = set()
    frontier = collections.deque([()])
    while frontier:
        hist = frontier.popleft()
        solver, m = build(hist)
        if solver is None:
            continue
        key = canon((m, {k: v for k, v in vars(solver).items()
                         if not k.endswith("options")}))
        if key in seen:
            continue
        seen.add(key)
        c.state(key)
        verify(c, spec, solver, m, sets[m["set"]])
        c.trace(*hist)
        if len(hist) < depth:
            for act in acts:
                frontier.append(hist + (act,))
