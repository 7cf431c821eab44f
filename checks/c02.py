"""C02: no operation changes the caller's data or, unless it is meant to, the
object; operations give the same result when repeated."""

import numpy as np
import scipy.sparse as sparse

import opinf
from checks.c08 import explore
from mc import align, objs, ops
from mc.align import Call
from mc.data import gen, layouts, spd

BOUNDS = {
    "objects": "every class of mc/objs.py (transformers, bases, operators, "
    "solvers, models, reduced-order models, derivative estimators, lifting "
    "maps)",
    "states": "breadth-first over all histories of events up to length 1 "
    "(thorough 2), distinct states once",
    "uses": "every ordered pair of probes: the second result is the same as "
    "in a fresh object, and the same when repeated; all arguments bitwise "
    "unchanged after every event and probe; changing the results of "
    "transformers, bases, and solvers changes neither arguments nor object, "
    "however the arguments are stored",
    "functions": "every public operation and function (mc/align.py and "
    "functions below), all arguments in C, Fortran, and strided layout, "
    "writeable and read-only: same result, arguments bitwise unchanged, "
    "repeated call bitwise the same",
    "stages": "reduced-order models whose lifting map, transformer, or basis "
    "return their argument, with all pairs of uses, and decoding at slices and "
    "arrays of locations: arguments unchanged",
}


# Objects ---------------------------------------------------------------------
def arrays(x):
    if isinstance(x, np.ndarray) and x.dtype != object:
        yield x
    elif sparse.issparse(x) and hasattr(x, "data"):
        yield x.data
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from arrays(y)


def owns_results(spec, label):
    """Are the results documented to be new arrays?"""
    kinds = ("compress", "decompress", "locs", "project", "solve", "residual",
             "regresidual", "transform", "transform 1-D", "inverse", "lift",
             "lift_ddts")
    if label == "ddts":     # documented default: in place
        return not spec.name.startswith(("Shift", "Null"))
    return label in kinds and not spec.name.startswith(("ROM", "ParROM",
                                                        "BayesROM"))


def state(c, spec, hist, before, n):
    V = spec.vault()
    o, _ = spec.build(hist, V)
    fresh = spec.observe(o, V)
    for i, (lab1, fn1) in enumerate(spec.probes):
        res = objs.attempt(fn1, o, V)
        c.check(not V.changed(), "arguments changed", f"{lab1}: "
                f"{V.changed()}")
        for j, (lab2, fn2) in enumerate(spec.probes):
            c.op()
            got = objs.norm(objs.attempt(fn2, o, V), o)
            if (m := objs.same(got, fresh[j][1], 0)):
                c.fail("use changes the object", f"{lab2} after {lab1}: {m}")
        c.check(not V.changed(), "arguments changed", f"{V.changed()}")
        if owns_results(spec, lab1):
            for a in arrays(res):
                if a.flags.writeable:
                    a += 1
            c.op(f"change result of {lab1}")
            c.check(not V.changed(), "result shares memory with an argument",
                    f"{lab1}: {V.changed()}")
            for (lab2, fn2), (_, want) in zip(spec.probes, fresh):
                got = objs.norm(objs.attempt(fn2, o, V), o)
                if (m := objs.same(got, want, 0)):
                    c.fail("result shares memory with the object",
                           f"{lab2} after changing the result of {lab1}: {m}")
    sharing(c, spec, hist)
    c.trace(objs.hist_name(hist))


def sharing(c, spec, hist):
    """Changing results changes no argument, however arguments are stored."""
    for kind in ("F", "view"):
        V = objs.Vault(**{k: relayout(x, kind, False)
                          for k, x in spec.vault().items()})
        o, _ = spec.build(hist, V)
        for lab, fn in spec.probes:
            if not owns_results(spec, lab):
                continue
            c.op(f"change result of {lab} ({kind})")
            for a in arrays(objs.attempt(fn, o, V)):
                if a.flags.writeable:
                    a += 1
            c.check(not V.changed(), "result shares memory with an argument",
                    f"{lab} ({kind}): {V.changed()}")


def case(c, spec, depth):
    explore(c, spec, depth, state)


# Functions -------------------------------------------------------------------
def relayout(x, kind, readonly):
    if isinstance(x, list):
        return [relayout(y, kind, readonly) for y in x]
    if not (isinstance(x, np.ndarray) and x.ndim <= 2):
        return x
    y = None
    if x.dtype == float:
        y = dict(layouts(x)).get(kind)
    if y is None:
        y = np.array(x)
    if readonly:
        y.flags.writeable = False
    return y


def result(call, o, a):
    return objs.norm(objs.attempt(call.fn, o, a), o)


def function(c, call):
    inplace = "inplace=True" in call.name or "ScaleTransformer" == call.name
    ref = result(call, call.make(), call.arguments())
    for kind in ("C", "F", "view"):
        for readonly in ((False,) if inplace else (False, True)):
            with c.sub(f"{kind},{'r' if readonly else 'rw'}"):
                a = {k: relayout(x, kind, readonly)
                     for k, x in call.arguments().items()}
                V = objs.Vault(**a)
                o = call.make()
                c.op(f"{kind},{readonly}")
                c.state(kind, readonly)
                got = result(call, o, a)
                if (m := objs.same(got, ref, 1e-8)):
                    c.fail("depends on the memory layout", m)
                if inplace:
                    continue
                c.check(not V.changed(), "arguments changed",
                        f"{V.changed()}")
                # Randomized or training calls start from a new object.
                o2 = o if call.pure else call.make()
                if (m := objs.same(result(call, o2, a), got, 0)):
                    c.fail("repeated call differs", m)
                c.check(not V.changed(), "arguments changed",
                        f"{V.changed()}")
    c.trace(call.name)


def functions():
    B, D, P = opinf.basis, opinf.ddt, opinf.pre
    w = np.array([1.0, 2.0, 0.5, 4.0, 3.0])
    W = spd(5, tag=2)
    nk = dict(Q=("n", "k"))
    for sol in ("dense", "randomized", "method-of-snapshots", "eigh"):
        for wn, wt in (("-", None), ("1-D", w), ("2-D", W)):
            kw = dict(random_state=1) if sol == "randomized" else {}
            yield Call(f"pod_basis({sol},{wn})", object,
                       lambda o, a, sol=sol, wt=wt, kw=kw: B.pod_basis(
                           a["Q"], num_vectors=2, svdsolver=sol, weights=wt,
                           **kw), nk)
            yield Call(f"PODBasis({sol},{wn}).fit", lambda sol=sol, wt=wt,
                       kw=kw: B.PODBasis(num_vectors=2, svdsolver=sol,
                                         weights=wt, **kw),
                       lambda o, a: [o.fit(a["Q"]).entries, o.svdvals,
                                     o.rightvecs], nk, pure=False)
    for dims in (("n",), ("n", "n2")):
        yield Call(f"pod_basis(weights {dims})", object,
                   lambda o, a: B.pod_basis(a["Q"], num_vectors=2,
                                            weights=a["w"]),
                   dict(Q=("n", "k"), w=dims), sizes=dict(n2=5),
                   maker=dict(w=lambda *s: abs(gen(*s)) + 1 if len(s) == 1
                              else spd(s[0])))
    yield Call("method_of_snapshots", object,
               lambda o, a: B.method_of_snapshots(a["Q"]), nk)
    yield Call("method_of_snapshots(W)", object,
               lambda o, a: B.method_of_snapshots(a["Q"], a["W"]),
               dict(Q=("n", "k"), W=("n", "n")),
               maker=dict(W=lambda i, j: spd(i)))
    ones = dict(s=("k",))
    sv = dict(s=lambda k: np.array([4.0, 2.0, 1.0, 0.25]))
    for fname in ("svdval_decay", "cumulative_energy", "residual_energy"):
        for thr in (0.5, (0.1, 0.9), None):
            yield Call(f"{fname}({thr})", object,
                       lambda o, a, f=fname, thr=thr: getattr(B, f)(
                           a["s"], thr, plot=False), ones, maker=sv)
    yield Call("shift", object, lambda o, a: P.shift(a["Q"]), nk)
    for to in ((-1, 1), (0, 3)):
        yield Call(f"scale({to})", object,
                   lambda o, a, to=to: P.scale(a["Q"], to), nk)
        yield Call(f"scale({to},from)", object,
                   lambda o, a, to=to: P.scale(a["Q"], to, (-2, 4)), nk)
    for sch in ("fwd1", "fwd2", "fwd3", "fwd4", "fwd5", "fwd6", "bwd1",
                "bwd2", "bwd3", "bwd4", "bwd5", "bwd6", "ctr2", "ctr4",
                "ctr6", "ord2", "ord4", "ord6"):
        yield Call(sch, object, lambda o, a, s=sch: getattr(D, s)(
            a["Q"], 0.1), nk, sizes=dict(k=9))
    for order in (2, 4, 6):
        yield Call(f"ddt_uniform({order})", object,
                   lambda o, a, p=order: D.ddt_uniform(a["Q"], 0.1, p), nk,
                   sizes=dict(k=9))
        yield Call(f"ddt({order})", object,
                   lambda o, a, p=order: D.ddt(a["Q"], 0.1, order=p), nk,
                   sizes=dict(k=9))
    for nm, lf in (("Quadratic", opinf.lift.QuadraticLifter),
                   ("Poly", lambda: opinf.lift.PolynomialLifter((1, 2, 3))),
                   ("Poly1", lambda: opinf.lift.PolynomialLifter((1,))),
                   ("Poly/odd", lambda: opinf.lift.PolynomialLifter((3,)))):
        yield Call(f"{nm}.lift", lf, lambda o, a: o.lift(a["Q"]), nk)
        yield Call(f"{nm}.unlift", lf, lambda o, a: o.unlift(a["Q"]), nk,
                   sizes=dict(n=6))
    # Operators: static methods and construction
    for nm in ops.NONPAR:
        cl = ops.cls(nm)
        yield Call(f"{nm}.datablock", object,
                   lambda o, a, cl=cl: cl.datablock(a["Q"], a["U"]),
                   dict(Q=("r", "k"), U=("m", "k")))
        if hasattr(cl, "ckron"):
            yield Call(f"{nm}.ckron", object,
                       lambda o, a, cl=cl: cl.ckron(a["Q"]),
                       dict(Q=("r", "k")))
            full = 3 ** ops.DEGREE[nm]
            comp = len(ops.multi_indices(3, ops.DEGREE[nm]))
            yield Call(f"{nm}.compress_entries", object,
                       lambda o, a, cl=cl: cl.compress_entries(a["E"]),
                       dict(E=("r", "D")), sizes=dict(D=full))
            yield Call(f"{nm}.expand_entries", object,
                       lambda o, a, cl=cl: cl.expand_entries(a["E"]),
                       dict(E=("r", "D")), sizes=dict(D=comp))
            for d in (full, comp):
                yield Call(f"{nm}({d} columns)", object,
                           lambda o, a, cl=cl: cl(a["E"]).apply(a["q"]),
                           dict(E=("r", "D"), q=("r",)), sizes=dict(D=d))
    L = opinf.lstsq
    for nm, dims in (("vector", ("d",)), ("matrix", ("d", "d"))):
        yield Call(f"TikhonovSolver({nm})", object,
                   lambda o, a: L.TikhonovSolver(abs(a["G"])).fit(
                       a["D"], a["Z"]).solve(),
                   dict(G=dims, D=("k", "d"), Z=("r", "k")),
                   sizes=dict(k=8))
        yield Call(f"TikhonovSolver({nm}, given array)", object,
                   lambda o, a: L.TikhonovSolver(a["G"]).fit(
                       a["D"], a["Z"]).regresidual(a["X"]),
                   dict(G=dims, D=("k", "d"), Z=("r", "k"), X=("r", "d")),
                   sizes=dict(k=8),
                   maker=dict(G=lambda *s: abs(gen(*s)) + 1))
    yield Call("stack_trajectories", object,
               lambda o, a: opinf.models.DiscreteModel.stack_trajectories(
                   a["Q"], a["U"]),
               dict(Q=[("r", "k0"), ("r", "k1")],
                    U=[("m", "k0"), ("m", "k1")]),
               sizes=dict(k0=4, k1=5))


class PassLifter(opinf.lift.LifterTemplate):
    """A user's lifter that has nothing to do."""

    @staticmethod
    def lift(states):
        return states

    @staticmethod
    def unlift(states):
        return states

    @staticmethod
    def lift_ddts(states, ddts):
        return ddts


class PassTransformer(opinf.pre.TransformerTemplate):
    def fit_transform(self, states, inplace=False):
        self.state_dimension = len(states)
        return states

    def transform(self, states, inplace=False):
        return states

    def inverse_transform(self, states, inplace=False, locs=None):
        return states

    def transform_ddts(self, ddts, inplace=False):
        return ddts


class PassBasis(opinf.basis.BasisTemplate):
    def fit(self, states):
        self.full_state_dimension = len(states)
        self.reduced_state_dimension = len(states)
        return self

    def compress(self, states):
        return states

    def decompress(self, states, locs=None):
        return states


def passing(c, model, lifter, transformer, basis):
    """Stages (defined by a user) that return their arguments."""
    P = opinf.pre
    tfs = {
        "none": lambda: None, "pass": PassTransformer,
        "SS": lambda: P.ShiftScaleTransformer(centering=True,
                                              scaling="maxabs"),
        "shift": lambda: P.ShiftTransformer(gen(3, tag=75)),
        "multi": lambda: P.TransformerMulti(
            [P.ShiftScaleTransformer(centering=True), P.ScaleTransformer(2.)],
            variable_sizes=[1, 2]),
    }
    bss = {"none": lambda: None, "pass": PassBasis,
           "pod": lambda: opinf.basis.PODBasis(num_vectors=2)}
    cont = model == "ContinuousModel"
    t = np.linspace(0, 0.1, 12)

    def vault():
        return objs.Vault(
            Q=gen(3, 12, tag=71), Z=gen(3, 12, tag=72), U=gen(1, 12, tag=73),
            q=gen(3, tag=71), Q2=gen(3, 12, tag=74),
            L=[gen(3, 12, tag=71), gen(3, 12, tag=74)],
            LZ=[gen(3, 12, tag=72), gen(3, 12, tag=76)],
            LU=[gen(1, 12, tag=73), gen(1, 12, tag=77)])

    def make():
        return opinf.roms.ROM(
            getattr(opinf.models, model)(
                "AB", solver=opinf.lstsq.L2Solver(0.5)),
            lifter=PassLifter() if lifter else None,
            transformer=tfs[transformer](), basis=bss[basis](),
            ddt_estimator=opinf.ddt.UniformFiniteDifferencer(t, "ord4")
            if cont else None)

    def u(s):
        return np.cos(np.atleast_1d(s))

    uses = {
        "encode": lambda o, V: o.encode(V["Q"]),
        "encode 1-D": lambda o, V: o.encode(V["q"]),
        "encode both": lambda o, V: o.encode(V["Q"], lhs=V["Z"]),
        "decode": lambda o, V: o.decode(o.encode(V["Q"])),
        "project": lambda o, V: o.project(V["Q2"]),
        "fit lhs": lambda o, V: o.fit(V["L"], lhs=V["LZ"], inputs=V["LU"]),
        "fit one": lambda o, V: o.fit(V["Q"], inputs=V["U"]),
        "predict": lambda o, V: o.predict(
            V["q"], *((t, u) if cont else (5, V["U"]))),
    }
    if not cont:
        for k in ("encode both", "fit lhs"):
            del uses[k]
    # Decoding of given data.
    o = make()
    W = vault()
    o.fit(W["L"], inputs=W["LU"])
    r = len(objs.attempt(lambda o, V: o.encode(V["q"]), o, W))
    for locs in (None, slice(0, 2), slice(None), np.array([2, 0])):
        if locs is not None and transformer == "multi" or basis == "pass":
            continue
        for dims in ((r,), (r, 4)):
            for kind in ("C", "F", "view"):
                V = objs.Vault(Y=relayout(gen(*dims, tag=78), kind, False))
                c.op("decode")
                with c.sub(f"decode/{locs}/{dims}/{kind}"):
                    out = objs.attempt(
                        lambda o, V: o.decode(V["Y"], locs=locs), o, V)
                    c.check(not isinstance(out, objs.Raised), "rejected",
                            f"{out!r}")
                    c.check(not V.changed(), "arguments changed", "decode()")
                    c.check(not W.changed(), "arguments changed",
                            "fit(), by decode()")
    for first, one in uses.items():
        for second, two in uses.items():
            with c.sub(f"{first}/{second}"):
                V = vault()
                o = make()
                # Train with arrays of its own.
                W = vault()
                o.fit(W["L"], inputs=W["LU"])
                c.check(not W.changed(), "arguments changed", "fit()")
                for lab, use in ((first, one), (second, two)):
                    out = objs.attempt(use, o, V)
                    c.op(lab)
                    c.check(not isinstance(out, objs.Raised), "rejected",
                            f"{lab}: {out!r}")
                    c.check(not V.changed(), "arguments changed",
                            f"{lab}: {V.changed()}")
                    c.check(not W.changed(), "arguments changed",
                            f"fit(), by {lab}")
                c.trace(first, second)
    c.state(model, lifter, transformer, basis)


def cases(tier):
    depth = 1 if tier == "quick" else 2
    fn = {}
    for x in [*align.calls(tier), *functions()]:
        fn.setdefault("function/" + x.name, x)
    return [(s.name, case, (s, depth)) for s in [
        *objs.menu(tier), *objs.others(tier)]] + [
        (k, function, (x,)) for k, x in fn.items()] + [
        (f"passing/{m[0]}/{lf}/{tf}/{bs}", passing, (m, lf, tf, bs))
        for m in ("ContinuousModel", "DiscreteModel") for lf in (False, True)
        for tf in ("none", "pass", "SS", "shift", "multi")
        for bs in ("none", "pass", "pod")]
