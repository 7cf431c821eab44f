"""C25: Bayesian posteriors and sampled models are consistent."""

import itertools
import warnings

import numpy as np

import opinf
from checks import c21
from mc import ops
from mc.data import gen, spd

L = opinf.lstsq
R = opinf.roms
U = opinf.utils

BOUNDS = {
    "posteriors": "r in 1..3, d in 1..4, rows of equal and of different "
    "size, given by precisions or covariances, saved and loaded",
    "random draws": "stand-in generator: every unit vector in every row (a "
    "draw is an affine map of the normal variates, so these determine its "
    "distribution)",
    "models": "continuous / discrete x operator subsets and orders, known "
    "operators x 4 solvers x stages",
    "histories": "all sequences up to length 3 (thorough 4) over {fit on two "
    "datasets, new regularizer, draw, predict, rvs}",
    "selection": "all outcomes of every draw over {+-.1, .3, nan, over the "
    "limit of either sign, failed integration} for 2 candidates x draws x "
    "trajectories; all sets "
    "of candidates without a posterior",
}
ASSUMPTIONS = ["The variates of NumPy's generators are independent standard "
               "normal."]


class Stub(np.random.RandomState):
    """Random generator whose standard normal variates are prescribed."""

    def __init__(self, script=None):
        super().__init__(0)
        self.script = script        # call -> vector of variates or scalar
        self.calls = 0

    def _next(self, d):
        z = np.zeros(d)
        if self.script is not None:
            z = z + self.script(self.calls, d)
        self.calls += 1
        return z

    def standard_normal(self, size=None, **kw):
        shape = (1,) if size is None else np.atleast_1d(size)
        out = self._next(int(np.prod(shape))).reshape(shape)
        return out[0] if size is None else out

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def multivariate_normal(self, mean, cov, size=None, **kw):
        d = len(mean)
        w, V = np.linalg.eigh(np.atleast_2d(cov))
        F = V * np.sqrt(np.maximum(w, 0))
        n = 1 if size is None else int(np.prod(np.atleast_1d(size)))
        out = np.array([mean + F @ self._next(d) for _ in range(n)])
        return out[0] if size is None else out.reshape(
            tuple(np.atleast_1d(size)) + (d,))


def unit_draw(post, i, j, scale=1.0):
    """Draw with the j-th variate of row i equal to one."""
    for k, rv in enumerate(post.randomvariables):
        d = np.size(rv.mean)
        z = np.zeros(d)
        if k == i:
            z[j] = scale
        rv.random_state = Stub(lambda n, m, z=z: z)
    return post.rvs()


def check_posterior(c, post, means, covs, tol=1e-8):
    r = len(means)
    c.check(post.nrows == r, "number of rows")
    c.check(len(post.means) == r and len(post.covs) == r, "rows")
    equal = len({m.size for m in means}) == 1
    for i in range(r):
        c.close(post.means[i], means[i], "mean", 1e-12 if tol < 1e-7 else tol,
                f"row {i}")
        c.close(post.covs[i], covs[i], "covariance", tol, f"row {i}")
        S = np.zeros((means[i].size,) * 2)
        for j in range(means[i].size):
            got = unit_draw(post, i, j)
            c.op("rvs")
            c.check(isinstance(got, np.ndarray) == equal, "type of the draw")
            if equal:
                c.check(got.shape == (r, means[0].size), "shape of the draw",
                        f"{got.shape}")
            c.check(len(got) == r, "rows of the draw")
            for k in range(r):
                c.check(np.shape(got[k]) == means[k].shape, "shape of a row")
                if k != i:
                    c.close(got[k], means[k], "other row", tol)
            e = got[i] - means[i]
            S += np.outer(e, e)
            neg = unit_draw(post, i, j, -2.0)[i] - means[i]
            c.close(neg, -2 * e, "linear in the variates", 1e-6)
        c.close(S / max(1, np.abs(covs[i]).max()), covs[i] / max(
            1, np.abs(covs[i]).max()), "covariance of the draws", tol,
            f"row {i}")


def posterior_case(c, dims, inverted):
    r = len(dims)
    means = [gen(d, tag=40 + i) for i, d in enumerate(dims)]
    covs = [spd(d, tag=50 + i) * 10.0**(i - 1) for i, d in enumerate(dims)]
    mats = [C if inverted else np.linalg.inv(C) for C in covs]
    keep = [m.copy() for m in means], [m.copy() for m in mats]

    def make(me=means, ma=mats):
        if inverted:
            return R.OperatorPosterior(me, ma, alreadyinverted=True)
        return R.OperatorPosterior(me, ma)

    post = make()
    check_posterior(c, post, means, covs)
    c.state(dims, inverted)
    f = c.path("post.h5")
    post.save(f)
    new = R.OperatorPosterior.load(f)
    c.op("save/load")
    check_posterior(c, new, means, covs)
    c.check(new == post and post == new, "loaded posterior differs")
    new.save(f, overwrite=True)
    again = R.OperatorPosterior.load(f)
    check_posterior(c, again, means, covs)
    c.check(again == post, "loaded posterior differs")
    c.raises(FileExistsError, lambda: post.save(f, overwrite=False),
             "overwrite=False")
    c.check(make() == post, "equal posteriors")
    # a change of any single entry matters
    for i in range(r):
        for j in range(dims[i]):
            me = [m.copy() for m in means]
            me[i][j] += 1e-6
            c.check(not (make(me) == post), "different mean")
            ma = [m.copy() for m in mats]
            ma[i][j, j] *= 1 + 1e-6
            c.check(not (make(means, ma) == post), "different covariance")
            c.op("==", 2)
    if r > 1:
        c.check(not (make(means[1:], mats[1:]) == post), "different rows")
        c.check(not (post == make(means[1:], mats[1:])), "different rows")
        if dims[0] != dims[1] or True:
            c.check(not (make(means[::-1], mats[::-1]) == post), "row order")
    for i in range(r):
        c.same(means[i], keep[0][i], "argument changed")
        c.same(mats[i], keep[1][i], "argument changed")
    # invalid arguments
    bad = [lambda: make(means[:-1], mats), lambda: make(means, mats[:-1])]
    for i in range(r):
        d = dims[i]
        for wrong in (np.ones((d, 1)), list(means[i]), np.ones(d + 1)):
            me = list(means)
            me[i] = wrong
            bad.append(lambda me=me: make(me, mats))
        for wrong in (np.ones(d), np.eye(d + 1), np.ones((d, d + 1)), "x"):
            ma = list(mats)
            ma[i] = wrong
            bad.append(lambda ma=ma: make(means, ma))
    for b in bad:
        c.raises(ValueError, b, "invalid argument")
    c.trace(dims, inverted)


# Bayesian reduced-order models -----------------------------------------------
SOLVERS = {
    "L2": lambda r, d: L.L2Solver(0.3),
    "L2Dec": lambda r, d: L.L2DecoupledSolver(0.2 + 0.1 * np.arange(r)),
    "Tik": lambda r, d: L.TikhonovSolver(0.2 + 0.05 * np.arange(d)),
    "TikDec": lambda r, d: L.TikhonovDecoupledSolver(
        [0.2 + 0.05 * np.arange(d) * (i + 1) for i in range(r)]),
}
SIZES = {"c": lambda r, m: 1, "A": lambda r, m: r,
         "H": lambda r, m: r * (r + 1) // 2, "B": lambda r, m: m,
         "N": lambda r, m: r * m,
         "G": lambda r, m: r * (r + 1) * (r + 2) // 6}
CLASSES = {"c": "Constant", "A": "Linear", "H": "Quadratic", "B": "Input",
           "N": "StateInput", "G": "Cubic"}


def gamma(solver, r, d):
    """Regularization matrices of the rows."""
    reg = solver.regularizer
    if isinstance(solver, L.L2DecoupledSolver):
        return [x * np.eye(d) for x in np.asarray(reg)]
    if isinstance(solver, L.L2Solver):
        return [reg * np.eye(d)] * r
    if isinstance(solver, L.TikhonovDecoupledSolver):
        return [np.diag(x) if np.ndim(x) == 1 else np.asarray(x) for x in reg]
    return [np.diag(reg) if np.ndim(reg) == 1 else np.asarray(reg)] * r


def build(kind, oplist, known, stages, sname, r, m, bayes=True):
    free = [o for o in oplist if o not in known]
    d = sum(SIZES[o](r, m) for o in free)
    operators = []
    for o in oplist:
        op = getattr(opinf.operators, CLASSES[o] + "Operator")()
        if o in known:
            op.set_entries(0.1 * gen(r, SIZES[o](r, m), tag=ord(o)))
        operators.append(op)
    Model = getattr(opinf.models, "ContinuousModel" if kind == "continuous"
                    else "DiscreteModel")
    model = Model(operators, solver=SOLVERS[sname](r, d))
    kw = {}
    if "t" in stages:
        kw["transformer"] = opinf.pre.ShiftScaleTransformer(
            centering=True, scaling="maxabs")
    if "b" in stages:
        kw["basis"] = opinf.basis.PODBasis(num_vectors=r)
    rom = (R.BayesianROM if bayes else R.ROM)(model, **kw)
    return rom, free, d


def dataset(kind, which, m):
    n, k = 3, 25
    out = []
    for i in range(2):
        Q = gen(n, k, tag=300 + 10 * which + i) + 0.5
        Y = gen(n, k, tag=400 + 10 * which + i)
        Uu = gen(m, k, tag=500 + 10 * which + i) if m else None
        out.append((Q, Y, Uu))
    Q, Y, Uu = map(list, zip(*out))
    return Q, (Y if kind == "continuous" else None), (Uu if m else None)


def reference_posterior(rom, kind, oplist, known, solver, r, m, data):
    """Definition of the posterior from the encoded data."""
    Q, Y, Uu = data
    rows, rhs = [], []
    for i in range(len(Q)):
        if kind == "continuous":
            q, z = rom.encode(Q[i], lhs=Y[i])
        else:
            q = rom.encode(Q[i])
            q, z = q[:, :-1], q[:, 1:]
        u = None if Uu is None else Uu[i][:, :q.shape[1]]
        blocks = []
        z = z.copy()
        for o in oplist:
            cols = [ops.data_vector(
                CLASSES[o] + "Operator", q[:, j],
                None if u is None else u[:, j]) for j in range(q.shape[1])]
            M = np.array(cols).T
            if o in known:
                z -= 0.1 * gen(r, SIZES[o](r, m), tag=ord(o)) @ M
            else:
                blocks.append(M)
        rows.append(np.vstack(blocks))
        rhs.append(z)
    D, Z = np.hstack(rows).T, np.hstack(rhs)
    means, covs = [], []
    for i, G in enumerate(gamma(solver, r, D.shape[1])):
        P = D.T @ D + G.T @ G
        mu = np.linalg.solve(P, D.T @ Z[i])
        s2 = (np.sum((D @ mu - Z[i])**2) + np.sum((G @ mu)**2)) / D.shape[0]
        means.append(mu)
        covs.append(s2 * np.linalg.inv(P))
    return means, covs


def check_draw(c, rom, free, oplist, known, Ohat, r, m):
    """The operators of the model are the blocks of the drawn matrix."""
    at = 0
    for o, op in zip(oplist, rom.model.operators):
        w = SIZES[o](r, m)
        got = ops.entries2d(op.entries)
        if o in known:
            c.close(got, 0.1 * gen(r, w, tag=ord(o)), "known operator", 1e-12)
            continue
        c.close(got, Ohat[:, at:at + w], "entries of a draw", 1e-12, o)
        at += w
    c.check(at == Ohat.shape[1], "columns of the draw")


def rom_case(c, kind, oplist, known, stages, sname):
    m = 2 if set(oplist) & set("BN") else 0
    r = 2 if "b" in stages else 3
    data = dataset(kind, 0, m)
    Q, Y, Uu = data
    rom, free, d = build(kind, oplist, known, stages, sname, r, m)
    det, _, _ = build(kind, oplist, known, stages, sname, r, m, bayes=False)
    c.check(rom.posterior is None, "posterior before training")
    c.check(rom.fit(Q, lhs=Y, inputs=Uu) is rom, "fit returns self")
    det.fit(Q, lhs=Y, inputs=Uu)
    c.op("fit")
    post = rom.posterior
    means, covs = reference_posterior(rom, kind, oplist, known,
                                      rom.model.solver, r, m, data)
    check_posterior(c, post, means, covs, 1e-6)
    for a, b in zip(rom.model.operators, det.model.operators):
        c.close(ops.entries2d(a.entries), ops.entries2d(b.entries),
                "deterministic training", 1e-9)
    c.state(kind, oplist, known, stages, sname)
    q0 = Q[0][:, 0]
    t = np.linspace(0, 0.02, 4)
    if kind == "continuous":
        pargs = (q0, t) + ((lambda s: np.array([s, 1 - s]),) if m else ())
    else:
        pargs = (q0, 4) + ((gen(m, 4, tag=3),) if m else ())
    for i in range(r):
        for j in range(d):
            Ohat = unit_draw(post, i, j).copy()
            rom.draw_operators()
            c.op("draw_operators")
            check_draw(c, rom, free, oplist, known, Ohat, r, m)
            if j % 3 == 0:
                # every prediction draws anew
                Ohat = unit_draw(post, i, j, -2.0).copy()
                got = rom.predict(*pargs)
                c.op("predict")
                check_draw(c, rom, free, oplist, known, Ohat, r, m)
                # the deterministic model with these entries
                for a, b in zip(det.model.operators, rom.model.operators):
                    a.set_entries(np.array(ops.entries2d(b.entries)))
                c.close(got, det.predict(*pargs), "prediction", 1e-9)
            c.check(rom.posterior is post, "posterior replaced")
    for k in range(r):
        c.close(post.means[k], means[k], "mean after draws", 1e-6)
        c.close(post.covs[k], covs[k], "covariance after draws", 1e-6)
    c.trace(kind, oplist, known, stages, sname)


def history_case(c, kind, sname, h):
    """fit / new regularizer / draws in any order."""
    oplist, m, r = "cAB", 2, 2
    rom, free, d = build(kind, oplist, "", "b", sname, r, m)
    current = None
    for step, ev in enumerate(h):
        c.op(ev)
        if ev[:3] == "fit":
            data = dataset(kind, int(ev[3]), m)
            rom.fit(data[0], lhs=data[1], inputs=data[2])
            current = reference_posterior(rom, kind, oplist, "",
                                          rom.model.solver, r, m, data)
        elif ev == "reg":
            s = rom.model.solver
            s.regularizer = (s.regularizer * 2 if np.ndim(s.regularizer) < 2
                             and not isinstance(s.regularizer, list)
                             else [2 * np.asarray(x) for x in s.regularizer])
        elif current is None:
            c.raises(Exception, {
                "draw": rom.draw_operators,
                "predict": lambda: rom.predict(np.ones(3), 3),
                "rvs": lambda: rom.posterior.rvs()}[ev], "untrained")
        elif ev == "draw":
            Ohat = unit_draw(rom.posterior, step % r, step % d)
            rom.draw_operators()
            check_draw(c, rom, free, oplist, "", Ohat, r, m)
        elif ev == "predict":
            unit_draw(rom.posterior, 0, 0)
            if kind == "continuous":
                rom.predict(np.ones(3), np.linspace(0, .02, 3),
                            lambda s: np.ones(2))
            else:
                rom.predict(np.ones(3), 3, np.ones((2, 3)))
        elif ev == "rvs":
            before = [np.array(ops.entries2d(o.entries))
                      for o in rom.model.operators]
            unit_draw(rom.posterior, 0, 0)
            for a, o in zip(before, rom.model.operators):
                c.same(np.array(ops.entries2d(o.entries)), a,
                       "rvs() changes the model")
        if current is not None:
            for k in range(r):
                c.close(rom.posterior.means[k], current[0][k], "mean", 1e-6)
                c.close(rom.posterior.covs[k], current[1][k], "covariance",
                        1e-6)
        c.state(kind, sname, h[:step + 1], None if current is None
                else current[0])
    c.trace(kind, sname, *h)


def invalid_case(c):
    for name in ("ContinuousModel", "DiscreteModel"):
        Model = getattr(opinf.models, name)
        for solver in (L.PlainSolver(), L.TotalLeastSquaresSolver(),
                       L.TruncatedSVDSolver(1)):
            with c.sub(f"{name}/{type(solver).__name__}"):
                c.raises(AttributeError, lambda: R.BayesianROM(
                    Model("cA", solver=solver)), "solver")
        rom = R.BayesianROM(Model("cA", solver=L.L2Solver(1.0)))
        c.check(rom.posterior is None, "posterior")
        c.raises(Exception, rom.draw_operators, "untrained")
        c.state(name)
    c.trace("invalid")


# Regularization selection ----------------------------------------------------
K, TRAIN = c21.K, c21.TRAIN
OUT = ("+.1", "-.1", "+.3", "nan", "big", "gib", "fail")
BAD = ("nan", "big", "gib", "fail")


class Plan:
    table, count, now = {}, 0, None
    testcalls = 0


def planned(Base, continuous, ntraj, ndraws):
    class Planned(Base):
        def predict(self, *args, **kwargs):
            reg = float(np.ravel(self.solver.regularizer)[0])
            if reg != Plan.now:
                Plan.now, Plan.count = reg, 0
            q0 = args[0]
            k = args[1].size if continuous else args[1]
            if np.abs(q0 - TRAIN[:, 0]).max() > 1e-12:      # test case
                Plan.testcalls += 1
                o = Plan.table.get((reg, "test", Plan.testcalls - 1), "ok")
                out = np.zeros((2, k)) + q0[:, None]
                if o == "bad":
                    out[1, -1] += 100.0
                return out
            seq = Plan.table[reg]
            o = seq[Plan.count % len(seq)]
            Plan.count += 1
            if o == "fail":
                if continuous:
                    raise ValueError("array must not contain infs or NaNs")
                o = "nan"
            base = np.hstack((TRAIN, np.tile(TRAIN[:, -1:], (1, 50))))[:, :k]
            e = float(o) if o[0] in "+-" else 0.01
            out = base * (1 + e)
            if o == "nan":
                out[0, -1] = np.nan
            if o == "big":
                out[1, -1] = 1e6
            if o == "gib":      # opposite: the mean of both is small
                out[1, -1] = -1e6
            return out
    Planned.__name__ = Base.__name__
    return Planned


def select_case(c, kind, ntraj, ndraws, first):
    """All outcomes of the draws of two candidates."""
    cont = kind == "continuous"
    Model = planned(getattr(opinf.models, "ContinuousModel" if cont else
                            "DiscreteModel"), cont, ntraj, ndraws)
    regs = (0.1, 10.0)
    n = ntraj * ndraws
    noise = [TRAIN.copy() for _ in range(ntraj)]
    lhs = [gen(2, K, tag=60 + i) for i in range(ntraj)]
    t = 0.1 * np.arange(K)

    def error(seq):
        if any(o in BAD for o in seq):
            return None
        e = 0.0
        for i in range(ntraj):
            e += abs(np.mean([float(o) for o in
                              seq[i * ndraws:(i + 1) * ndraws]]))
        return e / ntraj

    seqs = [s for s in itertools.product(OUT, repeat=n)
            if n <= 2 or sum(o in BAD for o in s) <= 1]
    for second in seqs:
        a = first
        with c.sub("".join(second)):
            model = Model("A", solver=L.L2Solver(1.0))
            rom = R.BayesianROM(model)
            Plan.table = {regs[0]: a, regs[1]: second}
            Plan.now = None
            errs = {regs[0]: error(a), regs[1]: error(second)}
            fine = {g: e for g, e in errs.items() if e is not None}
            kw = dict(candidates=list(regs), states=noise,
                      gridsearch_only=True, num_posterior_draws=ndraws,
                      stability_margin=50.0)
            if cont:
                kw.update(train_time_domains=t, ddts=lhs,
                          test_time_length=0.25)
                call = rom.fit_regselect_continuous
            else:
                kw.update(num_test_iters=2)
                call = rom.fit_regselect_discrete
            c.op("select")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if not fine:
                    c.raises(RuntimeError, lambda: call(**kw), "all fail")
                    continue
                c.check(call(**kw) is rom, "returns self")
            best = min(fine.values())
            g = float(model.solver.regularizer)
            c.check(g in fine, "unstable candidate selected", f"{g} {errs}")
            c.check(fine[g] <= best + 1e-12, "not the best candidate",
                    f"{g} {errs}")
            s = L.L2Solver(g)
            s.fit(model.solver.data_matrix, model.solver.lhs_matrix)
            means, precs = s.posterior()
            for i in range(2):
                c.close(rom.posterior.means[i], means[i],
                        "posterior of the selected candidate", 1e-9)
                c.close(rom.posterior.covs[i], np.linalg.inv(precs[i]),
                        "posterior of the selected candidate", 1e-9)
            c.outcome(kind, g, best == fine[g], len(fine))
            c.state(kind, ntraj, ndraws, a, second)
    c.trace(kind, ntraj, ndraws, first)


class Singular(L.L2Solver):
    """The posterior cannot be formed for some regularizers."""
    singular = ()

    def posterior(self):
        if float(self.regularizer) in self.singular:
            raise np.linalg.LinAlgError("singular matrix")
        return super().posterior()


def singular_case(c, kind):
    """Candidates without a posterior are never selected."""
    cont = kind == "continuous"
    Model = planned(getattr(opinf.models, "ContinuousModel" if cont else
                            "DiscreteModel"), cont, 1, 2)
    t = 0.1 * np.arange(K)
    regs = (0.1, 1.0, 10.0)
    noise, lhs = [TRAIN.copy()], [gen(2, K, tag=60)]
    for table in itertools.permutations(("+.1", "+.2", "+.3")):
        errs = dict(zip(regs, map(float, table)))
        for nbad in range(4):
            for bad in itertools.combinations(regs, nbad):
                for start in (0.5, regs[0]):
                    with c.sub(f"{table}/{bad}/{start}".replace(" ", "")):
                        s = Singular(start)
                        s.singular = bad
                        rom = R.BayesianROM(Model("A", solver=s))
                        Plan.table = {g: (o, o) for g, o in zip(regs, table)}
                        Plan.table[start] = Plan.table.get(
                            start, ("+.4", "+.4"))
                        Plan.now = None
                        rom.fit(noise, lhs if cont else None)
                        c.check((rom.posterior is None) == (start in bad),
                                "posterior of a singular regression")
                        kw = dict(candidates=list(regs), states=noise,
                                  gridsearch_only=True,
                                  num_posterior_draws=2,
                                  stability_margin=50.0)
                        if cont:
                            kw.update(train_time_domains=t, ddts=lhs)
                            call = rom.fit_regselect_continuous
                        else:
                            call = rom.fit_regselect_discrete
                        c.op("fit", 2)
                        fine = {g: e for g, e in errs.items()
                                if g not in bad}
                        if not fine:
                            c.raises(RuntimeError, lambda: call(**kw),
                                     "all fail")
                            continue
                        call(**kw)
                        g = float(rom.model.solver.regularizer)
                        c.check(g == min(fine, key=fine.get),
                                "singular candidate", f"{g} {fine}")
                        means, precs = rom.model.solver.posterior()
                        for i in range(2):
                            c.close(rom.posterior.covs[i], np.linalg.inv(
                                precs[i]), "posterior of the selected "
                                "candidate", 1e-9)
                        # then a fit without a posterior
                        s.singular = (g,)
                        rom.fit(noise, lhs if cont else None)
                        c.check(rom.posterior is None,
                                "posterior of a singular regression")
                        c.state(kind, table, bad, start)
    c.trace(kind)


def testcase_case(c, kind):
    """A single bad draw on a test case disqualifies the candidate."""
    cont = kind == "continuous"
    Model = planned(getattr(opinf.models, "ContinuousModel" if cont else
                            "DiscreteModel"), cont, 1, 3)
    t = 0.1 * np.arange(K)
    tcls = U.ContinuousRegTest if cont else U.DiscreteRegTest
    for ntests in (1, 2):
        tests = [tcls(np.array([3.0 + i, -2.0]), t[:4] if cont else 4,
                      bound=10.0) for i in range(ntests)]
        for bad in [None] + list(range(3 * ntests)):
            model = Model("A", solver=L.L2Solver(1.0))
            rom = R.BayesianROM(model)
            Plan.table = {0.1: ("+.1",), 10.0: ("+.3",)}
            if bad is not None:
                Plan.table[(0.1, "test", bad)] = "bad"
            Plan.now, Plan.testcalls = None, 0
            kw = dict(candidates=[0.1, 10.0], states=[TRAIN],
                      gridsearch_only=True, num_posterior_draws=3,
                      test_cases=tests, stability_margin=50.0)
            if cont:
                kw.update(train_time_domains=t, ddts=[gen(2, K, tag=60)])
                rom.fit_regselect_continuous(**kw)
            else:
                rom.fit_regselect_discrete(**kw)
            c.op("select")
            c.check(model.solver.regularizer == (0.1 if bad is None else
                                                 10.0), "winner", f"{bad}")
            c.state(kind, ntests, bad)
    c.trace(kind)


def real_select_case(c, kind, sname, m, ntraj, stages):
    """Draws replaced by the mean: the selection is the deterministic one."""
    cont = kind == "continuous"
    t, Q, dQ, us = c21.real_data(0, cont, m, ntraj)
    r = 2 if "b" in stages else 3
    make, factory, cands = c21.SOLVERS[sname]
    d = r + (1 if m else 0)
    cands = list(cands(r, d))
    fac = (lambda x: factory(x, d)) if factory else None

    def build_(bayes):
        model = getattr(opinf.models, c21.MODELS[kind][0])(
            "AB" if m else "A", solver=make(r, d))
        return (R.BayesianROM if bayes else R.ROM)(
            model, **c21.stage_kwargs(stages))

    for perm in itertools.permutations(range(3)):
        roms = []
        for bayes in (True, False):
            rom = build_(bayes)
            kw = dict(candidates=[cands[i] for i in perm],
                      states=[X.copy() for X in Q], gridsearch_only=True,
                      regularizer_factory=fac, stability_margin=50.0)
            if bayes:
                kw["num_posterior_draws"] = 2
            if cont:
                kw.update(train_time_domains=t, ddts=dQ,
                          input_functions=c21.funcs(m, ntraj))
                call = rom.fit_regselect_continuous
            else:
                kw.update(inputs=us if m else None)
                call = rom.fit_regselect_discrete
            old = np.random.mtrand._rand
            np.random.mtrand._rand = Stub()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    call(**kw)
            finally:
                np.random.mtrand._rand = old
            roms.append(rom)
            c.op("select")
        a, b = roms
        with c.sub("".join(map(str, perm))):
            ra = np.asarray(a.model.solver.regularizer)
            rb = np.asarray(b.model.solver.regularizer)
            c.close(ra, rb, "selected regularization", 1e-12)
            c.close(np.array(a.posterior.means), np.hstack(
                [ops.entries2d(o.entries) for o in b.model.operators]),
                "posterior mean", 1e-8)
        c.state(kind, sname, m, ntraj, stages, perm)
    c.trace(kind, sname, m)


def cases(tier):
    deep = tier == "thorough"
    out = []
    dims = [(d,) * r for r in (1, 2, 3) for d in (1, 2, 3, 4)]
    dims += [(1, 2), (2, 1), (3, 1, 2), (2, 2, 3)]
    for x in dims:
        for inv in (False, True):
            out.append((f"posterior/{x}/{int(inv)}".replace(" ", ""),
                        posterior_case, (x, inv)))
    lists = ["A", "cA", "Ac", "AB", "BA", "cAB", "BcA", "AH", "cAHB", "HNA"]
    if deep:
        lists += ["N", "H", "c", "AG", "GcH", "NBHAc"]
    for kind in ("continuous", "discrete"):
        for i, ol in enumerate(lists):
            for known in [""] + list(ol if len(ol) > 1 else ""):
                for j, sname in enumerate(SOLVERS):
                    for k, stages in enumerate(("", "b", "tb")):
                        if not deep and (i + j + k + len(known)) % 2:
                            continue
                        if known and "b" in stages and not deep and k == 1:
                            continue
                        out.append((f"rom/{kind}/{ol}/{known}/{stages}/"
                                    f"{sname}", rom_case,
                                    (kind, ol, known, stages, sname)))
        alpha = ("fit0", "fit1", "reg", "draw", "predict", "rvs")
        for sname in SOLVERS:
            for n in range(1, 5 if deep else 4):
                for h in itertools.product(alpha, repeat=n):
                    if n > 2 and h[0][:3] != "fit":
                        continue
                    if not deep and n == 3 and sname != "L2" and (
                            h[-1] in ("fit0", "reg")):
                        continue
                    out.append((f"history/{kind}/{sname}/{'-'.join(h)}",
                                history_case, (kind, sname, h)))
        for ntraj, ndraws in ((1, 1), (1, 2), (2, 1)) + (
                ((1, 3), (2, 2)) if deep else ()):
            for first in itertools.product(OUT, repeat=ntraj * ndraws):
                if ntraj * ndraws > 2 and sum(
                        o in BAD for o in first) > 1:
                    continue
                if kind == "discrete" and "fail" in first:
                    continue
                out.append((f"select/{kind}/{ntraj}/{ndraws}/"
                            f"{''.join(first)}", select_case,
                            (kind, ntraj, ndraws, first)))
        out.append((f"testcases/{kind}", testcase_case, (kind,)))
        out.append((f"singular/{kind}", singular_case, (kind,)))
        for sname in c21.SOLVERS:
            for m in (0, 1):
                for ntraj in (1, 2):
                    for stages in ("", "b") + (("tb",) if deep else ()):
                        out.append((f"real/{kind}/{sname}/{m}/{ntraj}/"
                                    f"{stages}", real_select_case,
                                    (kind, sname, m, ntraj, stages)))
    out.append(("invalid", invalid_case, ()))
    return out
