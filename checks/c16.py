"""C16: every least-squares solver returns the minimizer it documents, for
every data shape and rank, method and driver, and after any history."""

import collections
import warnings

import numpy as np
import scipy.sparse as sparse

import opinf
from mc import lsq
from mc.core import canon
from mc.data import gen, layouts, spd

BOUNDS = {
    "data": "9 families: tall, r=1 (2-D and 1-D), square, underdetermined, "
    "rank deficient, badly scaled, d=1, Z=I (decides all right-hand sides)",
    "settings": "all solvers x regularizers (scalar, row vector, diagonal, "
    "dense, sparse, per row) x method x LAPACK driver x cond, every number "
    "of SVD modes",
    "histories": "breadth-first depth 4 (thorough 6) over {fit three data "
    "sets, set regularizer, rejected set, rejected fit, method, number of "
    "modes, solve, copy, save/load, reset}",
}
L = opinf.lstsq


def tol_for(fam):
    return 1e-6 if fam in ("scaled", "square") else 1e-9


def check_solution(c, solver, want, tag, tol=1e-8):
    c.op(f"solve {tag}")
    got = solver.solve()
    c.close(got, want, "minimizer", tol, tag)
    c.same(solver.solve(), got, "solve twice", tag)
    c.state(tag, want)


def reg_case(c, sname, fam):
    """All settings of one solver on one data family."""
    spec = lsq.SPECS[sname]
    D, Z = lsq.families()[fam]
    r, d = lsq.asZ(Z).shape[0], D.shape[1]
    for vname, value in spec.values(r, d).items():
        for lay, Dl in layouts(D):
            with c.sub(f"{vname}/{lay}"):
                s = spec.make(value)
                c.raises(Exception, s.solve, "solve before fit")
                D0, Z0 = Dl.copy(), Z.copy()
                c.check(s.fit(Dl, Z) is s, "fit returns self")
                want = spec.solution(D, Z, value)
                if want is None:
                    c.raises(AttributeError, s.solve, "no regularizer")
                    continue
                check_solution(c, s, want, f"{sname} {vname}",
                               tol_for(fam))
                c.same(Dl, D0, "data changed")
                c.same(Z, Z0, "data changed")
                # Rows are independent of the other rows.
                if r > 1 and sname in ("Plain", "L2", "Tikhonov",
                                       "Tikhonov normal"):
                    for i in range(r):
                        one = spec.make(value).fit(D, Z[i])
                        c.op("row")
                        c.close(one.solve(), want[i:i + 1], "row",
                                tol_for(fam))
        c.trace(sname, vname, fam)


def zero_reg_case(c, fam):
    """No regularization = the plain problem (full column rank)."""
    D, Z = lsq.families()[fam]
    r, d = lsq.asZ(Z).shape[0], D.shape[1]
    want = lsq.ref_plain(D, Z)
    zeros = {
        "L2": L.L2Solver(0), "L2 float": L.L2Solver(0.0),
        "L2D": L.L2DecoupledSolver(np.zeros(r)),
        "T": L.TikhonovSolver(np.zeros(d)),
        "TD": L.TikhonovDecoupledSolver([np.zeros((d, d))] * r),
        "TSVD": L.TruncatedSVDSolver(None),
        "TSVD0": L.TruncatedSVDSolver(0),
    }
    if fam in lsq.FULL_COLUMN_RANK:
        zeros["Tn"] = L.TikhonovSolver(np.zeros(d), method="normal")
        zeros["TDn"] = L.TikhonovDecoupledSolver(
            [np.zeros(d)] * r, method="normal")
    for name, s in zeros.items():
        with c.sub(name):
            check_solution(c, s.fit(D, Z), want, f"{name} {fam}", 1e-6)
            c.trace(name, fam)


def plain_case(c, fam):
    D, Z = lsq.families()[fam]
    s = np.linalg.svd(D, compute_uv=False)
    conds = [None]
    rank = np.sum(s > 1e-12 * s[0])
    for i in range(rank - 1):                  # cut after mode i
        conds.append(np.sqrt(s[i] * s[i + 1]) / s[0])
    for cond in conds:
        for driver in (None, "gelsd", "gelss", "gelsy"):
            if driver == "gelsy" and cond is not None:
                continue                       # another notion of rank
            with c.sub(f"{driver}/{cond}"):
                s_ = L.PlainSolver(cond=cond, lapack_driver=driver)
                s_.fit(D, Z)
                check_solution(c, s_, lsq.ref_plain(D, Z, cond),
                               f"{fam} {driver} {cond}", 1e-6)
                two = s_.copy()
                check_solution(c, two, lsq.ref_plain(D, Z, cond), "copy",
                               1e-6)
        c.trace(fam, cond)


def options_case(c, fam):
    """LAPACK drivers and cut-offs of the regularized solvers."""
    D, Z = lsq.families()[fam]
    r, d = lsq.asZ(Z).shape[0], D.shape[1]
    G = np.diag(0.5 + np.arange(d))
    for drv in ("gesdd", "gesvd"):
        for name, s, want in (
            ("L2", L.L2Solver(0.7, lapack_driver=drv),
             lsq.ref_tikhonov(D, Z, [0.7 * np.eye(d)] * r)),
            ("L2D", L.L2DecoupledSolver([0.7] * r, lapack_driver=drv),
             lsq.ref_tikhonov(D, Z, [0.7 * np.eye(d)] * r)),
        ):
            with c.sub(f"{name}/{drv}"):
                check_solution(c, s.fit(D, Z), want, f"{name} {drv}",
                               tol_for(fam))
    A = np.vstack((D, G))
    sv = np.linalg.svd(A, compute_uv=False)
    cuts = [None] + [np.sqrt(sv[i] * sv[i + 1]) / sv[0]
                     for i in range(d - 1) if sv[i + 1] < 0.9 * sv[i]]
    for cond in cuts:
        for drv in (None, "gelsd", "gelss"):
            Zp = np.hstack((lsq.asZ(Z), np.zeros((r, d))))
            want = lsq.ref_plain(A, Zp, cond)
            for name, s in (
                ("T", L.TikhonovSolver(G, cond=cond, lapack_driver=drv)),
                ("TD", L.TikhonovDecoupledSolver(
                    [G] * r, cond=cond, lapack_driver=drv)),
            ):
                with c.sub(f"{name}/{drv}/{cond}"):
                    check_solution(c, s.fit(D, Z), want,
                                   f"{name} {drv} {cond}", 1e-6)
    c.trace(fam)


def tsvd_case(c, fam):
    D, Z = lsq.families()[fam]
    nmax = min(D.shape)
    s = np.linalg.svd(D, compute_uv=False)
    rank = int(np.sum(s > 1e-12 * s[0]))
    for drv in ("gesdd", "gesvd"):
        for req in [None] + list(range(-nmax + 1, nmax + 3)):
            n = nmax if req is None else min(
                nmax, req if req > 0 else nmax + req)
            with c.sub(f"{drv}/{req}"):
                sol = L.TruncatedSVDSolver(req, lapack_driver=drv)
                sol.fit(D, Z)
                c.same(sol.num_svdmodes, n, "num_svdmodes", str(req))
                c.same(sol.max_modes, nmax, "max_modes")
                if n <= rank:
                    check_solution(c, sol, lsq.ref_tsvd(D, Z, n),
                                   f"{fam} {req}", 1e-6)
                # Change afterwards, in both directions.
                for k in list(range(-nmax + 1, nmax + 1)):
                    sol.num_svdmodes = k
                    want = k if k > 0 else nmax + k
                    c.same(sol.num_svdmodes, want, "set num_svdmodes")
                    if want <= rank:
                        check_solution(c, sol, lsq.ref_tsvd(D, Z, want),
                                       f"{fam} {req}->{k}", 1e-6)
                c.raises(ValueError,
                         lambda: setattr(sol, "num_svdmodes", nmax + 1),
                         "too many modes")
                c.raises(TypeError,
                         lambda: setattr(sol, "num_svdmodes", 1.5),
                         "non-integer")
                c.same(sol.num_svdmodes, nmax, "rejected set")
            c.trace(fam, req)


TSVD_DATA = {
    "D1": lsq.DATA["D1"], "D2": lsq.DATA["D2"],
    "D5": (gen(9, 5, tag=461), gen(2, 9, tag=462)),
    "D4": lsq.DATA["D4"],
}


def tsvd_history(c, depth):
    """The number of modes is a request relative to each data set."""
    acts = ([("fit", n) for n in TSVD_DATA]
            + [("set", n) for n in (None, 2, -1, 0, 4)]
            + [("badfit", ""), ("copy", ""), ("saveload", ""), ("reset", "")])
    nfile = [0]
    for first in (None, 2, -1, 4):
        seen, queue = set(), collections.deque([()])
        while queue:
            hist = queue.popleft()
            s = L.TruncatedSVDSolver(first)
            data, req = None, first
            ok = True
            for kind, arg in hist:
                c.op(f"{kind} {arg}")
                nmax = None if data is None else min(
                    TSVD_DATA[data][0].shape)
                if kind == "fit":
                    s.fit(*TSVD_DATA[arg])
                    data = arg
                elif kind == "set":
                    if nmax is not None and arg is not None and arg > nmax:
                        c.raises(ValueError, lambda: setattr(
                            s, "num_svdmodes", arg), "too many modes")
                    else:
                        s.num_svdmodes = arg
                        req = arg
                elif kind == "badfit":
                    D, Z = TSVD_DATA["D1"]
                    c.raises(ValueError, lambda: s.fit(D[:-1], Z), "badfit")
                elif kind == "copy":
                    s = s.copy()
                elif kind == "saveload":
                    nfile[0] += 1
                    f = c.path(f"t{nfile[0]}.h5")
                    s.save(f)
                    s = L.TruncatedSVDSolver.load(f)
                else:
                    s.reset()
                    data = None
            key = canon((data, req, {k: v for k, v in vars(s).items()
                                     if not k.endswith("options")}))
            if key in seen:
                continue
            seen.add(key)
            c.state(first, key)
            if data is None:
                c.raises(Exception, s.solve, "untrained")
            else:
                D, Z = TSVD_DATA[data]
                nmax = min(D.shape)
                n = nmax if req is None else min(
                    nmax, req if req > 0 else nmax + req)
                c.same(s.num_svdmodes, n, "num_svdmodes", f"{req} {data}")
                check_solution(c, s, lsq.ref_tsvd(D, Z, n), "history")
                c.close(s.tcond(), (lambda sv: sv[0] / sv[n - 1])(
                    np.linalg.svd(D, compute_uv=False)), "tcond", 1e-8)
            c.trace(first, *hist)
            if len(hist) < depth:
                queue += [hist + (a,) for a in acts]


def tls_case(c, fam):
    D, Z = lsq.families()[fam]
    r, d = lsq.asZ(Z).shape[0], D.shape[1]
    for drv in ("gesdd", "gesvd"):
        with c.sub(drv):
            s = L.TotalLeastSquaresSolver(lapack_driver=drv)
            if D.shape[0] < d + r:
                c.raises(ValueError, lambda: s.fit(D, Z), "underdetermined")
                c.raises(Exception, s.solve, "untrained")
                continue
            s.fit(D, Z)
            want, err = lsq.ref_tls(D, Z)
            check_solution(c, s, want, f"{fam} {drv}", 1e-7)
            c.close(s.error, err, "error", 1e-7)
            # The documented objective: the smallest corrections [dD dZ]
            # with (D + dD) O^T = Z^T + dZ^T.
            O = s.solve()
            R = D @ O.T - lsq.asZ(Z).T
            corr = R @ np.linalg.inv(np.eye(r) + O @ O.T)
            c.close(np.sqrt(np.trace(corr @ R.T)), err, "objective", 1e-7)
            C = np.hstack((D, lsq.asZ(Z).T))
            c.close(s.augcond, np.linalg.cond(C), "augcond", 1e-7)
        c.trace(fam, drv)


class TLS(lsq.Spec):
    name = "TotalLeastSquaresSolver"
    needs_reg = False
    bad = {}

    def values(self, r, d):
        return {"None": None}

    def make(self, value):
        return L.TotalLeastSquaresSolver()

    def solution(self, D, Z, value):
        return lsq.ref_tls(D, Z)[0]


def verify(c, spec, s, m, value):
    if m["data"] is None:
        for f in (s.solve, s.cond):
            c.raises(Exception, f, "untrained")
        c.same((s.k, s.d, s.r), (None,) * 3, "dimensions")
        return
    D, Z = lsq.DATA[m["data"]]
    if m["unfit"]:
        # A training was rejected: no numbers from mixed data.
        c.raises(Exception, s.solve, "solve after a rejected fit")
        return
    want = spec.solution(D, Z, value)
    if want is None:
        c.raises(AttributeError, s.solve, "no regularizer")
        return
    check_solution(c, s, want, "history", 1e-7)
    c.same((s.k, s.d, s.r), (*D.shape, lsq.asZ(Z).shape[0]), "dimensions")
    c.same(s.data_matrix, D, "data_matrix")
    c.same(s.lhs_matrix, lsq.asZ(Z), "lhs_matrix")


def history_case(c, sname, depth):
    spec = TLS() if sname == "TLS" else lsq.SPECS[sname]
    lsq.explore(c, spec, depth, verify)


def rejected_reg_case(c):
    """A rejected regularizer of each solver leaves the solver as it was."""
    D, Z = lsq.DATA["D1"]
    for sname, spec in lsq.SPECS.items():
        if not spec.needs_reg:
            continue
        r, d = Z.shape[0], D.shape[1]
        for vname, value in spec.values(r, d).items():
            if value is None:
                continue
            for bname, bad in spec.bad.items():
                with c.sub(f"{sname}/{vname}/{bname}"):
                    s = spec.make(value).fit(D, Z)
                    before = s.solve()
                    c.raises(Exception, lambda: spec.assign(s, bad), "bad")
                    c.same(s.solve(), before, "solution after a rejected set")
                    c.state(sname, vname, bname)
                    c.trace(sname, vname, bname)


def size_case(c):
    """lstsq_size counts the columns of the data matrix."""
    from itertools import product

    for flags in product((0, 1), repeat=5):
        form = "".join(ch for ch, f in zip("cAHGB", flags) if f)
        for r in range(1, 6):
            for m in (0, 1, 2, 5):
                c.op()
                if ("B" in form) != (m > 0):
                    c.raises(ValueError, lambda: L.lstsq_size(form, r, m),
                             "inputs", f"{form} {m}")
                    continue
                counts = {
                    "c": 1, "A": r, "B": m,
                    "H": sum(1 for i in range(r) for j in range(i + 1)),
                    "G": sum(1 for i in range(r) for j in range(i + 1)
                             for k in range(j + 1)),
                }
                c.same(L.lstsq_size(form, r, m),
                       sum(counts[ch] for ch in form), "size", form)
                aff = {ch: [None] * (i + 2) for i, ch in enumerate("cAHGB")}
                c.same(L.lstsq_size(form, r, m, affines=aff),
                       sum(counts[ch] * len(aff[ch]) for ch in form),
                       "affine size", form)
                c.state(form, r, m)
    c.trace("lstsq_size")


def opreg_case(c):
    """One regularization value per operator, in the order of the blocks."""
    from mc import ops
    from itertools import permutations

    names = ("ConstantOperator", "LinearOperator", "QuadraticOperator",
             "CubicOperator", "InputOperator", "StateInputOperator")
    for n in (1, 2, 3):
        for combo in permutations(names, n):
            for r, m in ((1, 1), (2, 3), (3, 2)):
                c.op()
                objs = [ops.cls(x)() for x in combo]
                vals = [0.5 + i for i in range(n)]
                has = any(x in ops.HAS_INPUT for x in combo)
                got = L.TikhonovSolver.get_operator_regularizer(
                    objs, vals, r, m if has else 0)
                want = np.concatenate([
                    np.full(ops.columns(x, r, m), v)
                    for x, v in zip(combo, vals)])
                c.same(got, want, "operator regularizer", str(combo))
                if has:
                    c.raises(ValueError, lambda: (
                        L.TikhonovSolver.get_operator_regularizer(
                            objs, vals, r)), "inputs needed")
                c.raises(ValueError, lambda: (
                    L.TikhonovSolver.get_operator_regularizer(
                        objs, vals + [1.0], r, m if has else 0)), "length")
            c.state(combo)
    for nt in (2, 3):
        for A in ("Linear", "Input"):
            op = getattr(opinf.operators, f"Affine{A}Operator")(nt)
            c.op()
            got = L.TikhonovSolver.get_operator_regularizer(
                [op, opinf.operators.LinearOperator()], [2.0, 3.0], 2,
                3 if A == "Input" else 0)
            w = nt * (2 if A == "Linear" else 3)
            c.same(got, np.r_[np.full(w, 2.0), np.full(2, 3.0)], "affine")
    c.trace("get_operator_regularizer")


def cases(tier):
    deep = tier == "thorough"
    out = []
    fams = list(lsq.families())
    for s in lsq.SPECS:
        for f in fams:
            out.append((f"reg/{s}/{f}".replace(" ", "_"), reg_case, (s, f)))
    for f in fams:
        k = f.replace(" ", "_")
        out.append((f"plain/{k}", plain_case, (f,)))
        if f != "deficient":
            out.append((f"zero/{k}", zero_reg_case, (f,)))
        out.append((f"options/{k}", options_case, (f,)))
        out.append((f"tsvd/{k}", tsvd_case, (f,)))
        if f != "deficient":
            out.append((f"tls/{k}", tls_case, (f,)))
    for s in list(lsq.SPECS) + ["TLS"]:
        out.append((f"history/{s}".replace(" ", "_"), history_case,
                    (s, 6 if deep else 4)))
    out.append(("history/tsvd", tsvd_history, (6 if deep else 4,)))
    out.append(("rejected", rejected_reg_case, ()))
    out.append(("size", size_case, ()))
    out.append(("opreg", opreg_case, ()))
    return out
