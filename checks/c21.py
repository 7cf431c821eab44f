"""C21: regularization selection picks the best candidate and keeps it."""

import itertools
import warnings

import numpy as np

import opinf
from mc.data import gen

L = opinf.lstsq
R = opinf.roms
U = opinf.utils

BOUNDS = {
    "grid search": "all error landscapes over {0.5, 1, 2, 1e30, inf, nan} on "
    "1..4 (thorough 5) scalar or vector candidates, in every order, with "
    "duplicates and zero, with and without optimization; 5 behaviours of the "
    "error between the candidates",
    "selection logic": "scripted models: all triples (thorough: "
    "quadruples on the discrete model) over 11 outcomes {error .1, .2, "
    "a tie, short, nan, nan after the training interval, infinite, over the "
    "stability limit, failing training, failing prediction, unstable test "
    "case} x continuous / discrete / parametric / interpolated",
    "real reduced-order models": "solvers x model kinds x stages x data "
    "forms x all orders of three candidates, compared with training one "
    "fresh model per candidate",
    "histories": "all sequences of {fit, select} on two datasets of "
    "different rank up to length 3",
}
ASSUMPTIONS = ["The relative error measures are the subject of C23."]

INF, NAN = float("inf"), float("nan")


# Grid search -----------------------------------------------------------------
VALUES = (0.5, 1.0, 2.0, 1e30, INF, NAN)
BETWEEN = {
    "worse": lambda x, best: best * (2 + abs(np.log10(
        abs(np.sum(x)) + 1e-300))),
    "better": lambda x, best: best / 2,
    "inf": lambda x, best: INF,
    "nan": lambda x, best: NAN,
    "slope": lambda x, best: best * (0.9 + 0.01 * abs(float(np.sum(np.log10(
        np.abs(x) + 1e-300))))),
}


def gs_case(c, cands, only, vector, between):
    """All landscapes on these candidates."""
    n = len(cands)
    uniq = sorted(set(cands))
    for land in itertools.product(VALUES, repeat=len(uniq)):
        table = dict(zip(uniq, land))
        finite = [v for v in land if np.isfinite(v)]
        best = min(finite) if finite else None
        seen = []

        def func(x):
            x = np.asarray(x, dtype=float)
            key = None
            for u in uniq:
                target = np.array([u, 3 * u + 1]) if vector else np.array(u)
                if vector:
                    hit = x.shape == (2,) and np.array_equal(x, target)
                else:
                    hit = x.shape == () and float(x) == float(u)
                if hit:
                    key = u
            seen.append(key)
            if key is not None:
                return table[key]
            return BETWEEN[between](x, best)

        arg = [[u, 3 * u + 1] for u in cands] if vector else list(cands)
        if vector == "column":
            arg = [[u] for u in cands]
        with c.sub(f"{land}".replace(" ", "")):
            c.op(f"gridsearch({cands}, {land})")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if best is None:
                    c.raises(RuntimeError, lambda: U.gridsearch(
                        func, arg, gridsearch_only=only), "all fail")
                    continue
                out = U.gridsearch(func, arg, gridsearch_only=only)
            c.check(set(uniq) <= set(seen), "candidates not evaluated")
            n0 = len(seen)
            val = func(out)
            c.check(val <= best, "not the best", f"{out} has error {val}")
            if only:
                c.check(seen[-1] is not None, "not a candidate", f"{out}")
                c.check(n0 == n, "more evaluations than candidates")
            elif between in ("worse", "inf", "nan"):
                c.check(val == best, "not the grid winner", f"{out}")
            c.state(cands, land, only, vector, between, np.asarray(out) + 0)
    c.trace(cands, only, vector, between)


def gs_misc_case(c):
    """Exceptions of the function are not swallowed; (n, 1) candidates."""
    def bad(x):
        raise KeyError("mine")
    c.raises(KeyError, lambda: U.gridsearch(bad, [1.0, 2.0]), "exception")
    f = {1.0: 3.0, 2.0: 1.0, 4.0: 2.0}
    for only in (True, False):
        for arg in ([[1.0], [2.0], [4.0]], np.array([[4.0], [2.0], [1.0]]),
                    (4.0, 1.0, 2.0), np.array([2.0, 4.0, 1.0]), [4, 1, 2]):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = U.gridsearch(
                    lambda x: f.get(float(np.ravel(x)[0]), 9.0), arg,
                    gridsearch_only=only, verbose=True)
            c.op("gridsearch")
            c.check(np.ravel(out)[0] == 2.0, "winner", f"{arg} {out}")
            c.state(str(arg), only)
    for single in (3.0, [3.0], np.array(3.0)):
        c.check(float(np.ravel(U.gridsearch(
            lambda x: abs(float(np.ravel(x)[0]) - 3), single,
            gridsearch_only=True))[0]) == 3.0, "single candidate")
    # smooth functions: better than the grid
    for x0 in (0.02, 0.7, 30.0):
        def g(x):
            return float(np.sum((np.log10(x) - np.log10(x0)) ** 2))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = U.gridsearch(g, [0.01, 0.1, 1.0, 10.0, 100.0])
            c.check(g(out) < 1e-3, "optimization", f"{out}")
            out = U.gridsearch(g, [[0.01, 1.0], [1.0, 0.1], [10.0, 100.0]])
            c.check(g(out) < 1e-2, "optimization", f"{out}")
        c.op("gridsearch", 2)
    c.trace("misc")


# Scripted models -------------------------------------------------------------
K, EXTRA = 9, 3
TRAIN = 1.0 + 0.5 * np.array([np.sin(np.arange(K)), np.cos(np.arange(K))])
OUTCOMES = ("ok.1", "ok.2", "ok.1b", "short", "nan", "nantail", "inf", "big",
            "refit", "predict", "testcase")
STABLE = ("ok.1", "ok.2", "ok.1b", "ok.05", "ok.4")


class Script:
    """Outcome of every regularization value."""
    table, default = {}, "ok.4"
    log = []

    @classmethod
    def get(cls, reg):
        reg = float(np.ravel(reg)[0])
        return cls.table.get(reg, cls.default)


def solution(outcome, x0, k):
    if np.abs(x0 - TRAIN[:, 0]).max() > 1e-12:      # a test case
        out = np.zeros((2, k)) + x0[:, None]
        if outcome == "testcase":
            out[0, -1] += 50.0
        return out
    if outcome == "predict":
        raise ValueError("array must not contain infs or NaNs")
    base = np.hstack((TRAIN, np.tile(TRAIN[:, -1:], (1, 50))))[:, :k]
    e = {"ok.1": .1, "ok.2": .2, "ok.1b": .1, "ok.05": .05,
         "ok.4": .4}.get(outcome, 0.01)
    out = base * (1 + e)
    if outcome == "short":
        return out[:, :-1]
    if outcome == "nan":
        out[0, 2] = NAN
    if outcome == "nantail":
        out[1, -1] = NAN
    if outcome == "inf":
        out[1, 3] = INF
    if outcome == "big":
        out[0, -1] = 1e6
    return out


def scripted(Base, parametric, interp, continuous):
    class Scripted(Base):
        def refit(self):
            if interp:
                regs = {float(np.ravel(s.regularizer)[0])
                        for s in self.solvers}
                if len(regs) != 1:
                    raise AssertionError("solvers differ")
                self.now = regs.pop()
            else:
                self.now = float(np.ravel(self.solver.regularizer)[0])
            Script.log.append(self.now)
            if Script.get(self.now) == "refit":
                raise np.linalg.LinAlgError("singular")
            return self

        def predict(self, *args, **kwargs):
            if parametric:
                args = args[1:]
            k = args[1].size if continuous else args[1]
            outcome = Script.get(self.now)
            if outcome == "predict" and not continuous:
                outcome = "nan"             # iterating does not raise
            out = solution(outcome, args[0], k)
            if not continuous and out.shape[1] < k:
                out = np.hstack((out, np.full((2, k - out.shape[1]), INF)))
            return out
    Scripted.__name__ = Base.__name__
    return Scripted


MODELS = {
    "continuous": ("ContinuousModel", 0, 0, 1),
    "discrete": ("DiscreteModel", 0, 0, 0),
    "paramcont": ("ParametricContinuousModel", 1, 0, 1),
    "paramdisc": ("ParametricDiscreteModel", 1, 0, 0),
    "interpcont": ("InterpContinuousModel", 1, 1, 1),
    "interpdisc": ("InterpDiscreteModel", 1, 1, 0),
}
MUS = [1.0, 2.0, 3.0]


def operators(kind):
    name, par, interp, _ = MODELS[kind]
    if not par or interp:
        return "A"
    return [opinf.operators.AffineLinearOperator(
        lambda mu: np.array([1.0, float(np.ravel(mu)[0])]), 2)]


def script_case(c, kind, outcomes, only, default, vector, ntraj):
    name, par, interp, cont = MODELS[kind]
    Model = scripted(getattr(opinf.models, name), par, interp, cont)
    solver = (L.L2DecoupledSolver(np.ones(2)) if vector
              else L.L2Solver(1.0))
    model = Model(operators(kind), solver=solver)
    rom = (R.ParametricROM if par else R.ROM)(model)
    regs = [10.0**(i - 2) for i in range(len(outcomes))]
    regs = regs[1:] + regs[:1]
    Script.table = dict(zip(regs, outcomes))
    Script.default, Script.log = default, []
    cands = [[g, 1.0] for g in regs] if vector else list(regs)
    n = 3 if par else ntraj
    Q = [TRAIN.copy() for _ in range(n)]
    tcls = U.ContinuousRegTest if cont else U.DiscreteRegTest
    tc = tcls(np.array([3.0, -2.0]),
              np.linspace(0, 1, 5) if cont else 5,
              parameters=2.0 if par else None, bound=10.0)
    errs = [{"ok.1": .1, "ok.1b": .1, "ok.2": .2}.get(o) for o in outcomes]
    fine = [e for e in errs if e is not None]
    kw = dict(candidates=cands, states=Q, gridsearch_only=only,
              test_cases=[tc] if len(outcomes) % 2 else tc)
    if cont:
        t = np.arange(K) * 0.1
        kw.update(train_time_domains=[t] * n, test_time_length=0.1 * EXTRA,
                  ddts=[gen(2, K) for _ in range(n)])
        call = rom.fit_regselect_continuous
    else:
        kw.update(num_test_iters=EXTRA)
        call = rom.fit_regselect_discrete
    if par:
        kw["parameters"] = MUS
    c.op(f"select {outcomes}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if not fine:
            c.raises(RuntimeError, lambda: call(**kw), "all candidates fail")
            c.check(set(regs) <= set(Script.log), "candidates skipped")
            return
        out = call(**kw)
    c.check(out is rom, "returns self")
    c.check(set(regs) <= set(Script.log), "candidates skipped",
            f"{Script.log}")
    final = model.now
    o = Script.get(final)
    c.check(o in STABLE, "an unstable or failing candidate was selected",
            f"{final}: {o}")
    value = float(o[2:].rstrip("b"))
    c.check(value <= min(fine), "not the smallest training error",
            f"{final}: {o} in {Script.table}")
    if only:
        c.check(final in regs, "not a candidate", f"{final}")
    solvers = model.solvers if interp else [model.solver]
    for s in solvers:
        c.check(float(np.ravel(s.regularizer)[0]) == final,
                "solver keeps another regularizer")
    c.outcome(kind, o, final in regs)
    c.state(kind, outcomes, only, default, vector, round(np.log10(final), 3))


def script_all(c, kind, first, only, default, vector, ntraj, n):
    for rest in itertools.product(OUTCOMES, repeat=n - 1):
        with c.sub("-".join(rest)):
            script_case(c, kind, (first,) + rest, only, default, vector,
                        ntraj)
    c.trace(kind, first)


# Real reduced-order models ---------------------------------------------------
A3 = np.array([[-0.4, 1.0, 0.2], [-1.0, -0.3, 0.1], [0.0, -0.3, -0.8]])
B3 = np.array([[0.5], [-0.2], [1.0]])


def real_data(which, cont, m, ntraj):
    """Trajectories with a small disturbance; dataset 1 has rank 1."""
    k = 31
    dt = 0.1
    t = dt * np.arange(k)
    out, lhs, us = [], [], []
    for i in range(ntraj):
        q = gen(3, tag=200 + 10 * which + i) + 1.5
        Q = [q]
        Phi = np.linalg.inv(np.eye(3) - dt / 2 * A3) @ (
            np.eye(3) + dt / 2 * A3)
        for j in range(k - 1):
            u = np.sin(2 * t[j] + i)
            q = Phi @ q + (dt * B3[:, 0] * u if m else 0)
            Q.append(q)
        Q = np.array(Q).T
        if which == 1:
            Q = np.outer([1.0, 2.0, -1.0], Q[0]) + 1e-9 * gen(3, k, tag=3)
        else:
            Q = Q + 1e-2 * gen(3, k, tag=230 + i)
        out.append(Q)
        lhs.append(np.gradient(Q, t, axis=1, edge_order=2))
        us.append(np.array([[np.sin(2 * s + i) for s in t]]))
    return t, out, lhs, us


def funcs(m, ntraj):
    if not m:
        return None
    return [lambda s, i=i: np.array([np.sin(2 * s + i)])
            for i in range(ntraj)]


SOLVERS = {
    "L2": (lambda r, d: L.L2Solver(1.0), None, lambda r, d: (1e-6, 1.0, 50.0)),
    "L2d": (lambda r, d: L.L2DecoupledSolver(np.ones(r)), None,
            lambda r, d: [list(x * np.linspace(1, 2, r))
                          for x in (1e-6, 2.0, 40.0)]),
    "Tik": (lambda r, d: L.TikhonovSolver(np.ones(d)),
            lambda x, d: np.full(d, x), lambda r, d: (1e-5, 1.5, 60.0)),
    "Tik2": (lambda r, d: L.TikhonovSolver(np.ones(d)),
             lambda x, d: np.concatenate((np.full(d - 1, x[0]), [x[1]])),
             lambda r, d: [[1e-6, 5.0], [3.0, 1e-2], [30.0, 30.0]]),
}


def stage_kwargs(stages):
    kw = {}
    if "t" in stages:
        kw["transformer"] = opinf.pre.ShiftScaleTransformer(
            centering=True, scaling="maxabs")
    if "b" in stages:
        kw["basis"] = opinf.basis.PODBasis(num_vectors=2)
    if "l" in stages:
        kw["lifter"] = opinf.lift.PolynomialLifter((1,))
    return kw


def build_rom(kind, stages, sname, m, cont, est, t, solver):
    name, par, interp, _ = MODELS[kind]
    ops_ = operators(kind)
    if m:
        ops_ = "AB" if isinstance(ops_, str) else ops_ + [
            opinf.operators.InputOperator()]
    model = getattr(opinf.models, name)(ops_, solver=solver)
    kw = stage_kwargs(stages)
    if est:
        kw["ddt_estimator"] = opinf.ddt.UniformFiniteDifferencer(t, "ord2")
    return (R.ParametricROM if par else R.ROM)(model, **kw)


def entries(model):
    if hasattr(model, "evaluate"):
        return [op.entries for mu in (1.0, 1.5, 2.5)
                for op in model.evaluate(mu).operators]
    return [op.entries for op in model.operators]


def train_error(rom, kind, Q, t, m, ntraj, limits, extra):
    """Mean relative error of the training trajectories; None = unstable."""
    name, par, interp, cont = MODELS[kind]
    err = 0.0
    for i in range(len(Q)):
        x = rom.encode(Q[i])
        if not cont:
            x = x[:, :-1]
        k = x.shape[1]
        args = [MUS[i]] if par else []
        if cont:
            dt = t[1] - t[0]
            tt = t if not extra else np.concatenate((t, t[-1] + np.linspace(
                dt, dt + extra, int(extra / dt))))
            args += [x[:, 0], tt]
            if m:
                args.append(lambda s, i=i: np.array([np.sin(2 * s + i)]))
        else:
            args += [x[:, 0], k + extra]
            if m:
                args.append(np.array([[np.sin(2 * 0.1 * j + i)
                                       for j in range(k + 1 + extra)]]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            y = rom.model.predict(*args)
        dev = np.abs(y - x.mean(axis=1)[:, None]).max()
        lim = limits * np.abs(x - x.mean(axis=1)[:, None]).max()
        if not np.isfinite(y).all() or dev > lim:
            return None
        y = y[:, :k]
        if cont:
            num = np.trapezoid(np.sum((x - y) ** 2, axis=0), t) ** 0.5
            err += num / np.trapezoid(np.sum(x**2, axis=0), t) ** 0.5
        else:
            err += np.linalg.norm(x - y) / np.linalg.norm(x)
    return err / len(Q)


def real_case(c, kind, stages, sname, m, ntraj, margin, extra, est, only):
    name, par, interp, cont = MODELS[kind]
    if par:
        ntraj = 3
    t, Q, dQ, us = real_data(0, cont, m, ntraj)
    r = 2 if "b" in stages else 3
    d = (r if not par or interp else 2 * r) + (1 if m else 0)
    make, factory, cands = SOLVERS[sname]
    cands = list(cands(r, d))
    fac = (lambda x: factory(x, d)) if factory else None
    lhs = dQ if cont and not est else None
    fitkw = dict(lhs=lhs, inputs=us if m else None)
    if not cont:
        fitkw["inputs"] = [u[:, :] for u in us] if m else None

    def fresh(cand):
        s = make(r, d)
        s.regularizer = fac(cand) if fac else cand
        rom = build_rom(kind, stages, sname, m, cont, est, t, s)
        a = [MUS] if par else []
        return rom.fit(*a, [X.copy() for X in Q], **fitkw)

    refs = {i: fresh(x) for i, x in enumerate(cands)}
    errs = {i: train_error(rom, kind, Q, t, m, ntraj, margin, extra)
            for i, rom in refs.items()}
    fine = {i: e for i, e in errs.items() if e is not None}
    c.outcome("stable candidates", tuple(sorted(fine)),
              min(fine, key=fine.get) if fine else None)
    for perm in itertools.permutations(range(3)):
        with c.sub("".join(map(str, perm))):
            rom = build_rom(kind, stages, sname, m, cont, est, t, make(r, d))
            kw = dict(candidates=[cands[i] for i in perm],
                      states=[X.copy() for X in Q],
                      gridsearch_only=only, stability_margin=margin,
                      regularizer_factory=fac)
            one = ntraj == 1 and perm[0] == 0
            if one:
                kw["states"] = kw["states"][0]
            if cont:
                kw.update(train_time_domains=t, test_time_length=extra,
                          ddts=lhs, input_functions=funcs(m, ntraj))
                if one:
                    kw["ddts"] = None if lhs is None else lhs[0]
                    if m:
                        kw["input_functions"] = kw["input_functions"][0]
                call = rom.fit_regselect_continuous
            else:
                inp = None
                if m:
                    inp = [np.array([[np.sin(2 * 0.1 * j + i) for j in range(
                        t.size + extra)]]) for i in range(len(Q))]
                    if one:
                        inp = inp[0]
                kw.update(inputs=inp, num_test_iters=extra)
                call = rom.fit_regselect_discrete
            if par:
                kw["parameters"] = MUS
            c.op(f"select {perm}")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if not fine:
                    c.raises(RuntimeError, lambda: call(**kw), "all fail")
                    continue
                call(**kw)
            s = rom.model.solvers[0] if interp else rom.model.solver
            best = min(fine.values())
            if only:
                got = entries(rom.model)
                which = [i for i, ref in refs.items() if all(
                    np.allclose(a, b, rtol=1e-6, atol=1e-8)
                    for a, b in zip(got, entries(ref.model)))]
                c.check(which, "model is not that of a candidate")
                c.check(any(errs[i] is not None and errs[i] <= best * (
                    1 + 1e-6) for i in which), "not the best candidate",
                    f"{which} {errs}")
                want = cands[which[0]]
                want = fac(want) if fac else want
                reg = np.asarray(s.regularizer)
                if sname.startswith("Tik") and reg.ndim == 2:
                    reg = np.diag(reg)
                c.close(reg, np.asarray(want), "regularizer", 1e-9)
            else:
                err = train_error(rom, kind, Q, t, m, ntraj, margin, extra)
                c.check(err is not None and err <= best * (1 + 1e-6),
                        "worse than the grid", f"{err} {errs}")
                # the model belongs to the solver's regularizer
                f = make(r, d)
                f.regularizer = s.regularizer
                ref = build_rom(kind, stages, sname, m, cont, est, t, f)
                a = [MUS] if par else []
                ref.fit(*a, [X.copy() for X in Q], **fitkw)
                for x, y in zip(entries(rom.model), entries(ref.model)):
                    c.close(x, y, "model of another regularizer", 1e-6)
            c.close(rom.encode(Q[0]), refs[0].encode(Q[0]), "encode", 1e-9)
            c.state(kind, stages, sname, m, perm, margin, extra, est, only)
    c.trace(kind, stages, sname)


def history_case(c, kind, h):
    """fit / select on datasets with different reduced dimensions."""
    name, par, interp, cont = MODELS[kind]
    solver = L.L2Solver(0.3)
    if kind.endswith("T"):
        raise NotImplementedError

    def make(s):
        model = getattr(opinf.models, name)(operators(kind), solver=s)
        return (R.ParametricROM if par else R.ROM)(
            model, basis=opinf.basis.PODBasis(residual_energy=1e-7))

    tik = L.TikhonovSolver(np.ones(1))
    rom = make(tik)
    state = {"r": None}
    for what, which in h:
        t, Q, dQ, _ = real_data(which, cont, 0, 3 if par else 2)
        c.op(f"{what}({which})")
        a = [MUS] if par else []
        probe = make(L.L2Solver(0.3))
        probe.fit(*a, Q, lhs=dQ if cont else None)
        r = probe.basis.reduced_state_dimension
        d = 2 * r if par and not interp else r
        if what == "fit":
            rom.model.solver.reset()
            rom.model.solver.regularizer = np.full(d, 0.3)
            rom.fit(*a, Q, lhs=dQ if cont else None)
        else:
            call = (rom.fit_regselect_continuous if cont else
                    rom.fit_regselect_discrete)
            kw = dict(candidates=[0.3], states=Q, gridsearch_only=True,
                      stability_margin=1e3,
                      regularizer_factory=lambda x: np.full(d, x))
            if par:
                kw["parameters"] = MUS
            if cont:
                kw.update(train_time_domains=t, ddts=dQ)
            call(**kw)
        for x, y in zip(entries(rom.model), entries(probe.model)):
            c.close(x, y, f"after {what}", 1e-6)
        c.close(rom.encode(Q[0]), probe.encode(Q[0]), "encode", 1e-9)
        state["r"] = r
        c.state(kind, h, r, entries(rom.model))
    c.trace(kind, *h)


def args_case(c, kind):
    """Misaligned arguments are rejected."""
    name, par, interp, cont = MODELS[kind]
    t, Q, dQ, us = real_data(0, cont, 1, 2)
    rom = build_rom(kind, "", "L2", 1, cont, False, t, L.L2Solver(1.0))
    if cont:
        f = funcs(1, 2)
        base = dict(candidates=[1.0], train_time_domains=t, states=Q,
                    ddts=dQ, input_functions=f, gridsearch_only=True)
        bads = [dict(train_time_domains=t[1:]),
                dict(train_time_domains=[t, t[1:]]),
                dict(input_functions=[1, 2]), dict(test_time_length=-1),
                dict(input_functions=None), dict(ddts=None),
                dict(test_cases=[3]), dict(test_cases=U.DiscreteRegTest(
                    np.ones(3), 4))]
        call = rom.fit_regselect_continuous
        c.raises(AttributeError, lambda: rom.fit_regselect_discrete(
            [1.0], Q), "wrong kind")
        # a single global input function
        rom.fit_regselect_continuous(**dict(base, input_functions=f[0]))
        rom.fit_regselect_continuous(**dict(
            base, input_functions=lambda s: np.sin(s)))
        c.op("global input", 2)
    else:
        base = dict(candidates=[1.0], states=Q, inputs=us,
                    gridsearch_only=True)
        bads = [dict(inputs=us[:1]), dict(inputs=[u[:, :-1] for u in us]),
                dict(num_test_iters=1), dict(num_test_iters=-1),
                dict(inputs=None), dict(test_cases=[3]),
                dict(test_cases=U.ContinuousRegTest(np.ones(3), t))]
        call = rom.fit_regselect_discrete
        c.raises(AttributeError, lambda: rom.fit_regselect_continuous(
            [1.0], t, Q), "wrong kind")
    for bad in bads:
        with c.sub(str(list(bad))):
            c.raises(Exception, lambda: call(**dict(base, **bad)),
                     "misaligned argument accepted", f"{bad}")
    call(**base)
    nosolver = R.ROM(getattr(opinf.models, name)(
        "AB", solver=L.PlainSolver()))
    with c.sub("no regularizer"):
        c.raises(AttributeError, lambda: getattr(
            nosolver, call.__name__)(**base), "solver without regularizer")
    c.state(kind)
    c.trace(kind)


def regtest_case(c):
    """Bounds of the additional test cases."""
    q0 = np.array([1.0, -2.0])
    for k in (1, 4):
        for bound in (None, 0.5, 3.0):
            for bad in (None, "nan", "inf", "short", "over", "edge"):
                Q = np.tile(q0[:, None], (1, k))
                stable = True
                if bad in ("nan", "inf"):
                    Q[1, -1] = NAN if bad == "nan" else -INF
                    stable = False
                if bad == "over" and bound:
                    Q[0, -1] -= bound * 1.01
                    stable = False
                if bad == "edge" and bound:
                    Q[1, -1] += bound * 0.99
                for cls, arg in ((U.ContinuousRegTest, np.arange(k) * 1.0),
                                 (U.DiscreteRegTest, k)):
                    tc = cls(q0, arg, bound=bound)
                    X, ok = Q, stable
                    if bad == "short":
                        if cls is U.DiscreteRegTest or k == 1:
                            continue
                        X, ok = Q[:, :-1], False
                    c.check(bool(tc.unstable(X)) != ok, "unstable",
                            f"{cls.__name__} {bound} {bad}")
                    c.op("unstable")

                    class Model:
                        def predict(self, *a, **k):
                            self.args = a, k
                            return X
                    mdl = Model()
                    c.check(tc.evaluate(mdl) == ok, "evaluate")
                    c.check(mdl.args[0][0] is q0, "arguments")
                    new = tc.copy(q0 + 1)
                    c.check(new.bound == bound and np.array_equal(
                        new.initial_conditions, q0 + 1), "copy")
                    c.same(new.predict_args[0], q0 + 1, "copy arguments")
                    p = cls(q0, arg, 7.0, None, bound)
                    c.check(p.predict_args[0] == 7.0 and p.predict_args[
                        1] is q0, "parameter first")
                    c.check(p.copy(q0).predict_args[0] == 7.0, "copy param")
                    c.state(cls.__name__, k, bound, bad)
    c.trace("tests")


def cases(tier):
    deep = tier == "thorough"
    out = []
    sets = [(1.0,), (0.0,), (1.0, 10.0), (10.0, 0.1), (0.0, 1.0), (1.0, 1.0),
            (0.01, 1.0, 100.0), (100.0, 0.01, 1.0), (1.0, 0.0, 5.0),
            (1.0, 2.0, 1.0)]
    sets += [s for s in itertools.permutations((0.01, 1.0, 100.0))
             if s not in sets]
    sets.append((0.1, 1.0, 10.0, 100.0))
    if deep:
        sets.append((10.0, 1e-3, 0.1, 100.0))
        sets.append((10.0, 1e-3, 0.1, 1e5, 100.0))
    for s in sets:
        for vector in (False, True):
            out.append((f"grid/{s}/{int(vector)}/only".replace(" ", ""),
                        gs_case, (s, True, vector, "worse")))
            if len(s) > 3 and (vector or not deep):
                continue
            if vector and len(s) == 3 and not deep and s != sets[6]:
                continue
            for b in BETWEEN:
                out.append((f"grid/{s}/{int(vector)}/{b}".replace(" ", ""),
                            gs_case, (s, False, vector, b)))
    out.append(("gridmisc", gs_misc_case, ()))
    for kind in MODELS:
        for o in OUTCOMES:
            n = 4 if deep and kind == "discrete" else 3
            out.append((f"script/{kind}/{o}/only", script_all,
                        (kind, o, True, "ok.4", False, 2, n)))
            for default in ("ok.05", "ok.4", "big", "refit", "predict"):
                if kind not in ("continuous", "discrete") and not deep and (
                        default not in ("ok.05", "refit")):
                    continue
                out.append((f"script/{kind}/{o}/opt-{default}", script_all,
                            (kind, o, False, default, False, 1, 2)))
            if not kind.startswith("interp"):
                out.append((f"script/{kind}/{o}/vector", script_all,
                            (kind, o, True, "ok.4", True, 1, 2)))
    i = 0
    for kind in MODELS:
        cont = MODELS[kind][3]
        for stages in ("", "b", "tb", "ltb", "t"):
            for sname in SOLVERS:
                if MODELS[kind][2] and sname == "Tik2":
                    pass
                for m in (0, 1):
                    i += 1
                    for ntraj in ((1, 2) if not MODELS[kind][1] else (3,)):
                        for margin, extra in (
                                (50.0, 0), (50.0, 0.35 if cont else 4),
                                (1.2, 0), (1e-3, 0)):
                            if not deep and (margin, extra > 0) != [
                                    (50.0, False), (50.0, True),
                                    (1.2, False), (1e-3, False)
                                    ][(i + ntraj) % 4]:
                                continue
                            est = bool(cont and (i // 2) % 2)
                            only = (i + ntraj) % 5 != 0
                            key = (f"real/{kind}/{stages or '-'}/{sname}/m{m}"
                                   f"/{ntraj}/{margin}/{extra}")
                            out.append((key, real_case, (
                                kind, stages, sname, m, ntraj, margin, extra,
                                est, only)))
    alpha = [(w, d) for w in ("fit", "select") for d in (0, 1)]
    for kind in MODELS:
        for n in (1, 2, 3):
            for h in itertools.product(alpha, repeat=n):
                if h[-1][0] == "fit" and n > 1 and h[0][0] == "fit":
                    continue
                if not deep and n == 3 and MODELS[kind][1]:
                    continue
                key = "-".join(f"{a}{b}" for a, b in h)
                out.append((f"history/{kind}/{key}", history_case,
                            (kind, h)))
    for kind in ("continuous", "discrete"):
        out.append((f"args/{kind}", args_case, (kind,)))
    out.append(("regtest", regtest_case, ()))
    return out
