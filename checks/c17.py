"""C17: residuals, condition numbers, dimensions and posteriors of a trained
solver are those of the training data and the current settings."""

import numpy as np

import opinf
from mc import lsq
from mc.data import gen

BOUNDS = {
    "data": "9 families (see C16); candidate solutions: the solution, zero, "
    "generic, and every unit matrix (the residual is a quadratic polynomial "
    "of the candidate, determined with sums of two unit matrices)",
    "settings": "all solvers x regularizers x methods, every number of modes",
    "histories": "all reachable solver states of C16 (breadth-first, depth 4, "
    "thorough 6) with every diagnostic compared in each state",
}
L = opinf.lstsq


def candidates(r, d):
    yield "zero", np.zeros((r, d))
    yield "generic", gen(r, d, tag=470)
    units = []
    for i in range(r):
        for j in range(d):
            E = np.zeros((r, d))
            E[i, j] = 1.0
            units.append(E)
            yield f"unit {i},{j}", E
    for a in range(len(units)):
        for b in range(a + 1, len(units)):
            yield f"units {a},{b}", units[a] + units[b]


def ref_res(D, Z, O):
    return np.array([np.sum((D @ o - z) ** 2)
                     for o, z in zip(O, lsq.asZ(Z))])


def check_residuals(c, s, D, Z, Gs, r, d, tag, everything=True):
    for name, O in candidates(r, d):
        if not everything and name.startswith("unit"):
            continue
        c.op(f"residual {name}")
        want = ref_res(D, Z, O)
        c.close(s.residual(O), want, "residual", 1e-9, f"{tag} {name}")
        if r == 1:
            c.close(s.residual(O[0]), want, "residual 1-D", 1e-9, tag)
        if Gs is not None:
            wantg = want + np.array([np.sum((G @ o) ** 2)
                                     for G, o in zip(Gs, O)])
            c.close(s.regresidual(O), wantg, "regresidual", 1e-9,
                    f"{tag} {name}")
            if r == 1:
                c.close(s.regresidual(O[0]), wantg, "regresidual 1-D", 1e-9)
    for bad in ((r + 1, d), (r, d + 1), (d, r) if d != r else (r, d + 2)):
        c.raises(ValueError, lambda: s.residual(np.ones(bad)),
                 "misfit of another shape", str(bad))
        if Gs is not None:
            c.raises(ValueError, lambda: s.regresidual(np.ones(bad)),
                     "misfit of another shape", str(bad))


def same_cond(c, got, want, label, tag):
    """Condition numbers; a singular matrix has any huge number."""
    got, want = np.atleast_1d(got), np.atleast_1d(want)
    c.same(got.shape, want.shape, label)
    for g, w in zip(got, want):
        if w > 1e13:
            c.check(not g < 1e12, label, f"{tag}: {g}, expected {w}")
        else:
            c.close(g / w, 1.0, label, 1e-6, f"{tag}: {g}, expected {w}")


def check_reg(c, spec, s, D, Z, value, tag, everything=True):
    r, d = lsq.asZ(Z).shape[0], D.shape[1]
    Gs = None
    if spec.needs_reg and value is not None:
        Gs = spec.gammas(value, r, d)
    c.op("dimensions")
    c.same((s.k, s.d, s.r), (D.shape[0], d, r), "dimensions")
    c.op("cond")
    same_cond(c, s.cond(), np.linalg.cond(D), "cond", tag)
    check_residuals(c, s, D, Z, Gs, r, d, tag, everything)
    if Gs is None:
        if spec.needs_reg:
            c.raises(AttributeError, s.regcond, "no regularizer")
            c.raises(AttributeError, lambda: s.regresidual(np.ones((r, d))),
                     "no regularizer")
            c.raises(AttributeError, s.posterior, "no regularizer")
        return
    c.op("regcond")
    want = np.array([np.linalg.cond(np.vstack((D, G))) for G in Gs])
    same_cond(c, s.regcond(), want if "Decoupled" in spec.name else want[0],
              "regcond", tag)
    # Posterior.
    mean = lsq.ref_tikhonov(D, Z, Gs)
    k = D.shape[0]
    sig = np.array([np.sum((D @ o - z) ** 2) + np.sum((G @ o) ** 2)
                    for o, z, G in zip(mean, lsq.asZ(Z), Gs)]) / k
    if np.min(sig) < 1e-10:
        return
    c.op("posterior")
    got_mean, precs = s.posterior()
    c.close(got_mean, mean, "posterior mean", 1e-6, tag)
    c.close(got_mean, s.solve(), "posterior mean = solution", 1e-12, tag)
    c.same(len(precs), r, "number of precisions")
    for i in range(r):
        P = (D.T @ D + Gs[i].T @ Gs[i]) / sig[i]
        c.close(precs[i] / np.max(np.abs(P)), P / np.max(np.abs(P)),
                "posterior precision", 1e-6, f"{tag} row {i}")
        c.same(precs[i], precs[i].T, "symmetric precision")
    c.close(s.solve(), mean, "solution after posterior", 1e-6)


def diag_case(c, sname, fam):
    spec = lsq.SPECS[sname]
    D, Z = lsq.families()[fam]
    r, d = lsq.asZ(Z).shape[0], D.shape[1]
    for vname, value in spec.values(r, d).items():
        with c.sub(vname):
            s = spec.make(value)
            for f in ([s.cond, lambda: s.residual(np.ones((r, d)))] + (
                [s.regcond, s.posterior,
                 lambda: s.regresidual(np.ones((r, d)))]
                    if spec.needs_reg else [])):
                c.raises(Exception, f, "diagnostics before fit")
            D0, Z0 = D.copy(), Z.copy()
            s.fit(D, Z)
            check_reg(c, spec, s, D, Z, value, f"{sname} {vname} {fam}")
            c.check("not trained" not in str(s), "str")
            c.same(D, D0, "data changed")
            c.same(Z, Z0, "data changed")
            c.state(sname, vname, fam)
            c.trace(sname, vname, fam)


def perfect_case(c, sname):
    """A perfect fit has no posterior distribution."""
    spec = lsq.SPECS[sname]
    D = gen(6, 3, tag=475)
    for rows in ((0,), (1,), (0, 1)):
        Z = gen(2, 6, tag=476)
        Z[list(rows)] = 0.0
        for vname, value in spec.values(2, 3).items():
            if value is None:
                continue
            s = spec.make(value).fit(D, Z)
            c.raises(RuntimeError, s.posterior, "perfect regression")
            c.state(sname, rows, vname)
            c.trace(sname, rows, vname)


def tsvd_case(c, fam):
    D, Z = lsq.families()[fam]
    r, d = lsq.asZ(Z).shape[0], D.shape[1]
    sv = np.linalg.svd(D, compute_uv=False)
    rank = int(np.sum(sv > 1e-12 * sv[0]))
    s = L.TruncatedSVDSolver(None)
    c.raises(Exception, s.tcond, "tcond before fit")
    s.fit(D, Z)
    for n in list(range(1, rank + 1)) + list(range(rank, 0, -1)):
        s.num_svdmodes = n
        c.op()
        c.close(s.tcond() / (sv[0] / sv[n - 1]), 1.0, "tcond", 1e-6)
        same_cond(c, s.cond(), np.linalg.cond(D), "cond", fam)
        check_residuals(c, s, D, Z, None, r, d, f"{fam} {n}", n == 1)
        c.state(fam, n)
    c.trace(fam)


def tls_case(c, fam):
    D, Z = lsq.families()[fam]
    r, d = lsq.asZ(Z).shape[0], D.shape[1]
    if D.shape[0] < d + r:
        s = L.TotalLeastSquaresSolver()
        c.raises(ValueError, lambda: s.fit(D, Z), "underdetermined")
        for f in (lambda: s.error, lambda: s.augcond, s.cond):
            c.raises(Exception, f, "diagnostics of an untrained solver")
        c.state(fam)
        return
    s = L.TotalLeastSquaresSolver()
    for f in (lambda: s.error, lambda: s.augcond):
        c.raises(Exception, f, "diagnostics before fit")
    s.fit(D, Z)
    check_residuals(c, s, D, Z, None, r, d, fam)
    same_cond(c, s.augcond, np.linalg.cond(np.hstack((D, lsq.asZ(Z).T))),
              "augcond", fam)
    c.close(s.error, lsq.ref_tls(D, Z)[1], "error", 1e-7)
    c.state(fam)
    c.trace(fam)


def verify(c, spec, s, m, value):
    if m["data"] is None:
        c.raises(Exception, s.cond, "untrained")
        return
    D, Z = lsq.DATA[m["data"]]
    if m["unfit"]:
        c.raises(Exception, s.posterior, "posterior after a rejected fit")
        c.raises(Exception, lambda: s.regresidual(
            np.ones((s.r, s.d))), "regresidual after a rejected fit")
        return
    check_reg(c, spec, s, D, Z, value, "history", False)


def history_case(c, sname, depth):
    lsq.explore(c, lsq.SPECS[sname], depth, verify)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for f in lsq.families():
        k = f.replace(" ", "_")
        for s in lsq.SPECS:
            out.append((f"diag/{s}/{k}".replace(" ", "_"), diag_case, (s, f)))
        out.append((f"tsvd/{k}", tsvd_case, (f,)))
        if f != "deficient":
            out.append((f"tls/{k}", tls_case, (f,)))
    for s in lsq.SPECS:
        k = s.replace(" ", "_")
        if s != "Plain":
            out.append((f"perfect/{k}", perfect_case, (s,)))
        out.append((f"history/{k}", history_case, (s, 6 if deep else 4)))
    return out
