"""Aligned calls: which sizes of which arguments have to agree.

Each entry is a public operation with named sizes.  A size is determined if it
belongs to the trained object ("fixed") or occurs in more than one place of
the call; changing it in one place alone is a misalignment.
"""

import warnings

import numpy as np

import opinf
from mc import ops, pre
from mc.data import gen

OP = opinf.operators
L = opinf.lstsq
M = opinf.models
P = opinf.pre
B = opinf.basis


class Call:
    """One public operation.

    make   : () -> object
    fn     : (object, arguments) -> result
    args   : {name: tuple of size symbols}; a list of tuples is a list of
             arrays, a callable makes the argument from the sizes
    fixed  : sizes that belong to the object
    sizes  : {symbol: int}
    skip   : places (argument, axis) that need not be checked
    longer : arguments that may be longer in the last axis (the rest is
             documented or known to be ignored)
    single : sizes one are broadcast by the elementwise formula
    """

    def __init__(self, name, make, fn, args, fixed="", sizes=None, skip=(),
                 maker=None, pure=True, longer=(), single=False):
        self.name, self.make, self.fn = name, make, fn
        self.args, self.fixed = args, fixed
        self.sizes = dict(n=5, k=4, l=2, r=3, m=2, d=3, s=3, p=2)
        self.sizes.update(sizes or {})
        self.skip = set(skip)
        self.maker = maker or {}
        self.pure = pure
        self.longer, self.single = longer, single

    def array(self, name, dims, tag=0):
        if name in self.maker:
            return self.maker[name](*dims)
        return gen(*dims, tag=300 + sum(map(ord, name)) + tag)

    def arguments(self, where=None, size=None):
        """Arguments; one size may be changed."""
        out = {}
        for name, dims in self.args.items():
            if isinstance(dims, list):
                arrays = []
                for i, dd in enumerate(dims):
                    sz = [size if where == (name, i, j) else self.sizes[s]
                          for j, s in enumerate(dd)]
                    arrays.append(self.array(name, sz, i))
                if where == (name, "len"):
                    arrays = (arrays + arrays)[:size]
                out[name] = arrays
            else:
                sz = [size if where == (name, j) else self.sizes[s]
                      for j, s in enumerate(dims)]
                out[name] = self.array(name, sz)
        return out

    def places(self):
        """[(place, symbol)] of all sizes."""
        for name, dims in self.args.items():
            if isinstance(dims, list):
                yield (name, "len"), "s"
                for i, dd in enumerate(dims):
                    for j, s in enumerate(dd):
                        # Sizes ending with a digit belong to one list item.
                        yield (name, i, j), s
            else:
                for j, s in enumerate(dims):
                    yield (name, j), s

    def misalignments(self):
        pl = list(self.places())
        for where, sym in pl:
            if where in self.skip or (where[0], where[-1]) in self.skip:
                continue
            if sym not in self.fixed.split() and sum(
                    s == sym for _, s in pl) < 2:
                continue
            old = self.sizes[sym] if where[-1] != "len" else len(
                self.args[where[0]])
            for new in sorted({old + 1, old - 1, 1, 2 * old} - {old, 0}):
                if new > old and where[0] in self.longer and (
                        sym.startswith("k")):
                    continue
                if new == 1 and self.single:
                    continue
                yield where, new


def calls(tier):
    yield from transformer_calls(tier)
    yield from basis_calls()
    yield from operator_calls()
    yield from solver_calls()
    yield from model_calls()
    yield from ddt_calls()
    yield from other_calls()


def index(l):
    return np.arange(l)


def transformer_calls(tier):
    menu = [(nm, mk, 3) for nm, mk in pre.all_ss()]
    menu += [(*pre.shift(3), 3), (*pre.scale(2.5), 3), (*pre.scale(pre.SC3),
             3), (*pre.null(), 3)]
    pipes = [p for p in pre.pipes("quick") if "Multi" not in p[0]]
    multis = list(pre.multis("quick"))
    if tier == "quick":
        pipes, multis = pipes[::6], multis[::9]
    menu += [(nm, mk, 3) for nm, mk in pipes]
    menu += [(nm, mk, int(sum(eval(nm.split("]")[-1].rstrip("g")))))
             for nm, mk in multis]
    for nm, mk, n in menu:
        def make(mk=mk, n=n):
            t = mk()[0]
            t.fit(pre.training(n, 5, 0))
            return t

        sz = dict(n=n)
        multi = "]" in nm and nm.startswith("Multi")
        for inplace in (False, True):
            for op in ("transform", "inverse_transform", "transform_ddts"):
                for dims in (("n", "k"), ("n",)):
                    yield Call(
                        f"{nm}.{op}({','.join(dims)},inplace={inplace})",
                        make, lambda o, a, op=op, ip=inplace: getattr(
                            o, op)(a["X"], inplace=ip),
                        dict(X=dims), "n", sz)
            if multi:
                continue
            yield Call(
                f"{nm}.inverse_transform(locs,inplace={inplace})", make,
                lambda o, a, ip=inplace: o.inverse_transform(
                    a["X"], inplace=ip, locs=a["locs"]),
                dict(X=("l", "k"), locs=("l",)), "", sz,
                maker=dict(locs=lambda l, n=n: np.arange(l) % n))
    # constants of the wrong size
    SS = P.ShiftScaleTransformer
    for attr, byrow in (("mean_", False), ("scale_", True),
                        ("shift_", True)):
        def setit(o, a, attr=attr):
            setattr(o, attr, a["X"])

        def make(byrow=byrow):
            t = SS(centering=True, scaling="minmax", byrow=byrow)
            t.fit(pre.training(5, 4, 0))
            return t
        yield Call(f"SS.{attr}=", make, setit, dict(X=("n",)), "n")
    for fixed, mk in (("n", lambda: P.ShiftTransformer(gen(5, tag=1))),
                      ("n", lambda: P.ScaleTransformer(gen(5, tag=2)))):
        for op in ("fit", "fit_transform", "transform", "transform_ddts",
                   "inverse_transform"):
            yield Call(f"{type(mk()).__name__}/new.{op}", mk,
                       lambda o, a, op=op: getattr(o, op)(a["X"]),
                       dict(X=("n", "k")), fixed)
    yield Call("shift", object, lambda o, a: P.shift(a["X"], a["by"]),
               dict(X=("n", "k"), by=("n",)))


def basis_calls():
    E = np.linalg.qr(gen(5, 3, tag=9))[0]
    wd = np.array([1.0, 2.0, 0.5, 4.0, 3.0])
    W = np.diag(wd) + 0.1
    Q = gen(5, 7, tag=10)
    menu = {"Linear": lambda: B.LinearBasis(E),
            "POD": lambda: B.PODBasis(num_vectors=3).fit(Q)}
    for wn, w in (("1-D", wd), ("2-D", W)):
        menu[f"Linear/{wn}"] = lambda w=w: B.LinearBasis(
            E, weights=w, check_orthogonality=False)
        menu[f"POD/{wn}"] = lambda w=w: B.PODBasis(
            num_vectors=3, weights=w).fit(Q)
    menu["Multi"] = lambda: B.BasisMulti(
        [B.PODBasis(num_vectors=1), B.LinearBasis(np.eye(3)[:, :2])],
        [2, 3]).fit(Q)
    for nm, mk in menu.items():
        for op in ("compress", "project", "projection_error"):
            for dims in (("n", "k"), ("n",)):
                yield Call(f"{nm}.{op}({','.join(dims)})", mk,
                           lambda o, a, op=op: getattr(o, op)(a["X"]),
                           dict(X=dims), "n",
                           # project() takes either form for BasisMulti
                           )
        for dims in (("r", "k"), ("r",)):
            yield Call(f"{nm}.decompress({','.join(dims)})", mk,
                       lambda o, a: o.decompress(a["Y"]), dict(Y=dims), "r")
            if nm != "Multi":
                yield Call(f"{nm}.decompress({','.join(dims)},locs)", mk,
                           lambda o, a: o.decompress(
                               a["Y"], locs=np.array([4, 1])),
                           dict(Y=dims), "r")
        if nm.startswith("POD/"):
            yield Call(f"{nm}.fit", mk, lambda o, a: o.fit(a["X"]),
                       dict(X=("n", "k")), "n", pure=False)
    yield Call("LinearBasis(weights 1-D)", object, lambda o, a: B.LinearBasis(
        a["E"], weights=a["w"], check_orthogonality=False),
        dict(E=("n", "r"), w=("n",)))
    yield Call("LinearBasis(weights 2-D)", object, lambda o, a: B.LinearBasis(
        a["E"], weights=a["w"] @ a["w"].T, check_orthogonality=True),
        dict(E=("n", "r"), w=("n", "n2")), sizes=dict(n2=5))
    yield Call("BasisMulti.fit", lambda: B.BasisMulti(
        [B.PODBasis(num_vectors=1), B.PODBasis(num_vectors=1)], [2, 3]),
        lambda o, a: o.fit(a["X"]), dict(X=("n", "k")), "n", pure=False)
    yield Call("BasisMulti(sizes)", object, lambda o, a: B.BasisMulti(
        [B.PODBasis(num_vectors=1)] * 3, list(map(int, a["s"]))),
        dict(s=("s",)), "s", maker=dict(s=lambda s: np.full(s, 2)))
    for dec in (False, True):
        def get(o, a, dec=dec):
            return o.split(a["X"]), o.get_var(0, a["X"])
        yield Call(f"BasisMulti.split({dec})", menu["Multi"], get,
                   dict(X=("r" if dec else "n", "k")), "r n",
                   # 3 and 5 rows are both valid
                   sizes=dict(r=3, n=5))


def operator_calls():
    r, m = 3, 2
    for nm in ops.NONPAR:
        E = ops.entries_of(nm, r, m)

        def make(nm=nm, E=E):
            return ops.cls(nm)(E.copy())
        q = nm not in ("ConstantOperator", "InputOperator")
        u = nm in ops.HAS_INPUT
        skip = []
        for batch in ((), ("k",)):
            args = {}
            if q:
                args["Q"] = ("r", *batch)
            if u:
                args["U"] = ("m", *batch)
            if not args:
                continue
            yield Call(
                f"{nm}.apply{batch}", make,
                lambda o, a: o.apply(a.get("Q"), a.get("U")), args, "r m",
                skip=skip)
        if q and nm != "LinearOperator":
            args = dict(Q=("r",))
            if u:
                args["U"] = ("m",)
            yield Call(f"{nm}.jacobian", make,
                       lambda o, a: o.jacobian(a.get("Q"), a.get("U")), args,
                       "r m", skip=[("Q", 0)] if u else [])
        if q and u:
            yield Call(f"{nm}.datablock", object,
                       lambda o, a, nm=nm: ops.cls(nm).datablock(
                           a["Q"], a["U"]), dict(Q=("r", "k"), U=("m", "k")))
        yield Call(f"{nm}.galerkin", make,
                   lambda o, a: o.galerkin(a["V"], a["W"]),
                   dict(V=("r", "p"), W=("r", "p")), "r")
        if nm not in ("ConstantOperator", "InputOperator"):
            d = E.shape[1]
            if nm == "StateInputOperator":
                continue
            yield Call(f"{nm}.set_entries", lambda nm=nm: ops.cls(nm)(),
                       lambda o, a: o.set_entries(a["E"]),
                       dict(E=("r", "D")), "r D",
                       sizes=dict(D=d), skip=[("E", 0), ("E", 1)]
                       if nm not in ("LinearOperator",) else [])
    # parametric
    for nm in ("LinearOperator", "QuadraticOperator", "InputOperator"):
        hasin = nm == "InputOperator"
        Es = [ops.entries_of(nm, r, m, tag=k) for k in range(3)]
        D = Es[0].shape[1]
        for fam in ("Affine", "Interp"):
            def make(fam=fam, nm=nm, Es=Es):
                if fam == "Affine":
                    return ops.cls("Affine" + nm)(3, entries=Es)
                return ops.cls("Interp" + nm)([0.0, 1.0, 2.0], entries=Es)

            def empty(fam=fam, nm=nm):
                if fam == "Affine":
                    return ops.cls("Affine" + nm)(3)
                return ops.cls("Interp" + nm)([0.0, 1.0, 2.0])
            if fam == "Affine":
                yield Call(f"{fam}{nm}.evaluate", make,
                           lambda o, a: o.evaluate(a["mu"]).entries,
                           dict(mu=("s",)), "s")
            yield Call(f"{fam}{nm}.set_entries", empty,
                       lambda o, a: o.set_entries(a["E"]),
                       dict(E=[("r", "D")] * 3), "s", sizes=dict(D=D))
            args = dict(U=("m",)) if hasin else dict(Q=("r",))
            mu = np.array([0.5, 0.2, 1.0]) if fam == "Affine" else 0.5
            yield Call(f"{fam}{nm}.apply", make,
                       lambda o, a, mu=mu: o.apply(mu, a.get("Q"),
                                                   a.get("U")),
                       args, "r m")
            yield Call(f"{fam}{nm}.galerkin", make,
                       lambda o, a: o.galerkin(a["V"], a["W"]),
                       dict(V=("r", "p"), W=("r", "p")), "r")
        yield Call(f"Interp{nm}(points, entries)", object,
                   lambda o, a, nm=nm: ops.cls("Interp" + nm)(
                       np.sort(a["mu"]), entries=a["E"]),
                   dict(mu=("s",), E=[("r", "D")] * 3), "s",
                   sizes=dict(D=D))


def solver_calls():
    kw = dict(k=8, d=3, r=2)
    menu = {
        "Plain": L.PlainSolver, "L2": lambda: L.L2Solver(0.5),
        "L2D": lambda: L.L2DecoupledSolver([0.5, 1.0]),
        "Tik": lambda: L.TikhonovSolver(np.array([1.0, 2.0, 3.0])),
        "TikG": lambda: L.TikhonovSolver(np.eye(3) + 0.1),
        "TikN": lambda: L.TikhonovSolver(np.array([1.0, 2.0, 3.0]),
                                         method="normal"),
        "TikD": lambda: L.TikhonovDecoupledSolver(gen(2, 3, tag=1, offset=2)),
        "TSVD": lambda: L.TruncatedSVDSolver(2),
        "Total": lambda: L.TotalLeastSquaresSolver(),
    }
    for nm, mk in menu.items():
        def trained(mk=mk):
            s = mk()
            s.fit(gen(8, 3, tag=2), gen(2, 8, tag=3))
            return s
        fixed = {"L2D": "r", "Tik": "d", "TikG": "d", "TikN": "d",
                 "TikD": "r d"}.get(nm, "")
        yield Call(f"{nm}.fit", mk, lambda o, a: o.fit(a["D"], a["Z"]).solve(),
                   dict(D=("k", "d"), Z=("r", "k")), fixed, kw, pure=False)
        yield Call(f"{nm}.residual", trained,
                   lambda o, a: o.residual(a["X"]), dict(X=("r", "d")),
                   "r d", kw)
        if hasattr(L.L2Solver, "regresidual") and hasattr(
                mk(), "regresidual"):
            yield Call(f"{nm}.regresidual", trained,
                       lambda o, a: o.regresidual(a["X"]),
                       dict(X=("r", "d")), "r d", kw)
        dims = {"L2D": ("r",), "Tik": ("d",), "TikG": ("d", "d"),
                "TikN": ("d", "d"), "TikD": ("r", "d")}.get(nm)
        if dims:
            def assign(o, a):
                o.regularizer = abs(a["G"])
            yield Call(f"{nm}.regularizer=", trained, assign, dict(G=dims),
                       "r d", kw)
    yield Call("TikD.regularizer=[...]", lambda: L.TikhonovDecoupledSolver(
        gen(2, 3, tag=1, offset=2)).fit(gen(8, 3, tag=2), gen(2, 8, tag=3)),
        lambda o, a: setattr(o, "regularizer", [
            abs(g) for g in a["G"]]),
        dict(G=[("d", "d")] * 2), "d s", dict(s=2, **kw))


def model_calls():
    r, m = 3, 2
    for kind, cl in (("C", M.ContinuousModel), ("D", M.DiscreteModel)):
        for form in ("A", "cA", "AB", "cAHBN"):
            hasin = set("BN") & set(form)
            args = dict(Q=("r", "k"), Z=("r", "k"))
            if hasin:
                args["U"] = ("m", "k")
            kw = dict(r=r, m=m, k=30)
            yield Call(f"{kind}/{form}.fit", lambda cl=cl, form=form: cl(form),
                       lambda o, a: o.fit(a["Q"], a["Z"], a.get("U")), args,
                       "", kw, pure=False, longer="U" if kind == "D" else "")

            def known(cl=cl, form=form):
                return cl([ops.cls({"A": "LinearOperator", "c":
                                    "ConstantOperator", "H":
                                    "QuadraticOperator", "B":
                                    "InputOperator", "N":
                                    "StateInputOperator"}[k])(
                    ops.entries_of("LinearOperator", r, m) if k == "A"
                    else ops.entries_of("InputOperator", r, m)
                    if k == "B" else None) for k in form])
            if form not in ("A", "AB"):
                yield Call(f"{kind}/{form}.fit(known A, B)", known,
                           lambda o, a: o.fit(a["Q"], a["Z"], a.get("U")),
                           args, "r m", kw, pure=False,
                           longer="U" if kind == "D" else "")

            def trained(cl=cl, form=form, hasin=hasin):
                o = cl(form)
                o.fit(gen(r, 30, tag=1), gen(r, 30, tag=2),
                      gen(m, 30, tag=3) if hasin else None)
                return o
            if kind == "C":
                yield Call(f"{kind}/{form}.rhs", trained,
                           lambda o, a: o.rhs(0, a["q"], (
                               lambda t: a["u"]) if "u" in a else None),
                           dict(q=("r",), **(dict(u=("m",)) if hasin
                                             else {})), "r m", kw)
                yield Call(f"{kind}/{form}.predict", trained,
                           lambda o, a: o.predict(
                               a["q"], np.linspace(0, 0.01, a["T"].size),
                               a.get("U"), method="RK23"),
                           dict(q=("r",), T=("k",), **(
                               dict(U=("m", "k")) if hasin else {})),
                           "r m", dict(r=r, m=m, k=6))
            else:
                yield Call(f"{kind}/{form}.rhs", trained,
                           lambda o, a: o.rhs(a["q"], a.get("u")),
                           dict(q=("r",), **(dict(u=("m",)) if hasin
                                             else {})), "r m", kw)
                yield Call(f"{kind}/{form}.predict", trained,
                           lambda o, a: o.predict(a["q"], 3, a.get("U")),
                           dict(q=("r",), **(dict(U=("m", "k")) if hasin
                                             else {})), "r m",
                           dict(r=r, m=m, k=6))
                for k in (1, 2, 5) if hasin else ():
                    yield Call(f"{kind}/{form}.predict({k + 1} steps)",
                               trained, lambda o, a, k=k: o.predict(
                                   a["q"], k + 1, a["U"]),
                               dict(q=("r",), U=("m", "k")), "r m k",
                               dict(r=r, m=m, k=k), longer="U")
            yield Call(f"{kind}/{form}.galerkin", trained,
                       lambda o, a: o.galerkin(a["V"], a["W"]),
                       dict(V=("r", "p"), W=("r", "p")), "r", kw)
    for fam in ("Affine", "Interp"):
        for kind in ("Continuous", "Discrete"):
            for form in ("A", "cAB"):
                hasin = "B" in form

                def make(fam=fam, kind=kind, form=form):
                    names = dict(A="LinearOperator", c="ConstantOperator",
                                 B="InputOperator")
                    if fam == "Affine":
                        coeffs = [lambda mu: 1.0, lambda mu: mu]
                        return getattr(M, f"Parametric{kind}Model")(
                            [ops.cls("Affine" + names[k])(coeffs)
                             for k in form])
                    return getattr(M, f"Interp{kind}Model")(form)
                args = dict(mu=("s",),
                            Q=[("r", "k0"), ("r", "k1"), ("r", "k2")],
                            Z=[("r", "k0"), ("r", "k1"), ("r", "k2")])
                if hasin:
                    args["U"] = [("m", "k0"), ("m", "k1"), ("m", "k2")]
                yield Call(
                    f"{fam}{kind}/{form}.fit", make,
                    lambda o, a: o.fit(np.sort(a["mu"]), a["Q"], a["Z"],
                                       a.get("U")),
                    args, "s", dict(r=2, m=1, k0=9, k1=10, k2=12),
                    pure=False, longer="U" if kind == "Discrete" else "")


def ddt_calls():
    D = opinf.ddt
    k = 12
    t = np.linspace(0, 1, k)
    tn = t ** 1.5 + t
    ests = {"NonuniformFiniteDifferencer":
            lambda: D.NonuniformFiniteDifferencer(tn),
            "InterpDerivativeEstimator": lambda: D.InterpDerivativeEstimator(
                t, "cubic"),
            "InterpDerivativeEstimator/new":
            lambda: D.InterpDerivativeEstimator(
                t, "akima", new_time_domain=np.linspace(0.1, 0.9, 5))}
    for sch in ("fwd1", "bwd3", "ctr4", "ord2", "ord4", "ord6"):
        ests[f"UniformFiniteDifferencer/{sch}"] = (
            lambda sch=sch: D.UniformFiniteDifferencer(t, sch))
    kw = dict(k=k)
    for nm, mk in ests.items():
        # Uniform differences only need the time step.
        fixed = "" if nm.startswith("Uniform") else "k"
        yield Call(f"{nm}.estimate", mk, lambda o, a: o.estimate(a["Q"]),
                   dict(Q=("r", "k")), fixed, kw)
        yield Call(f"{nm}.estimate(inputs)", mk,
                   lambda o, a: o.estimate(a["Q"], a["U"]),
                   dict(Q=("r", "k"), U=("m", "k")), fixed, kw)
    for sch in ("fwd1", "fwd2", "fwd3", "fwd4", "fwd5", "fwd6", "bwd1",
                "bwd2", "bwd3", "bwd4", "bwd5", "bwd6", "ctr2", "ctr4",
                "ctr6", "ord2", "ord4", "ord6"):
        yield Call(f"{sch}(inputs)", object,
                   lambda o, a, s=sch: getattr(D, s)(a["Q"], 0.1, a["U"]),
                   dict(Q=("r", "k"), U=("m", "k")), "", kw)
    yield Call("ddt_nonuniform", object,
               lambda o, a: D.ddt_nonuniform(a["Q"], np.sort(a["t"])),
               dict(Q=("r", "k"), t=("k",)), "", kw)
    yield Call("ddt", object, lambda o, a: D.ddt(a["Q"], np.sort(a["t"])),
               dict(Q=("r", "k"), t=("k",)), "", kw)


def other_calls():
    for dims in (("n", "k"), ("n",)):
        for fname in ("lp_error", "Lp_error"):
            if fname == "Lp_error":
                def fn(o, a, d=dims):
                    return opinf.post.Lp_error(
                        a["A"], a["B"], np.sort(a["t"]))
                args = dict(A=dims, B=dims, t=(dims[-1],))
            else:
                def fn(o, a):
                    return opinf.post.lp_error(a["A"], a["B"])
                args = dict(A=dims, B=dims)
            yield Call(f"{fname}({','.join(dims)})", object, fn, args)
        if len(dims) == 2:
            yield Call("frobenius_error", object,
                       lambda o, a: opinf.post.frobenius_error(
                           a["A"], a["B"]), dict(A=dims, B=dims))
    yield Call("Lp_error(inf)", object, lambda o, a: opinf.post.Lp_error(
        a["A"], a["B"], p=np.inf), dict(A=("n", "k"), B=("n", "k")))
    yield Call("post.projection_error", object,
               lambda o, a: opinf.post.projection_error(a["A"], a["V"]),
               dict(A=("n", "k"), V=("n", "r")))
    for nm, lf in (("Quadratic", opinf.lift.QuadraticLifter),
                   ("Poly", lambda: opinf.lift.PolynomialLifter((1, 2, 3)))):
        yield Call(f"{nm}.lift_ddts", lf,
                   lambda o, a: o.lift_ddts(a["Q"] + 2, a["Z"]),
                   dict(Q=("n", "k"), Z=("n", "k")), single=True)
    yield Call("OperatorPosterior", object,
               lambda o, a: opinf.roms.OperatorPosterior(
                   a["m"], [x @ x.T + np.eye(len(x)) for x in a["P"]]),
               dict(m=[("d0",), ("d1",)], P=[("d0", "e"), ("d1", "e")]), "s",
               dict(d0=3, d1=4, e=9, s=2), skip=[("P", 1)])
    # Reduced-order models
    n, k = 6, 30

    def rom(kind="C", form="A"):
        cl = M.ContinuousModel if kind == "C" else M.DiscreteModel
        return opinf.ROM(
            cl(form), transformer=P.ShiftScaleTransformer(True, "maxabs"),
            basis=B.PODBasis(num_vectors=2))

    def trained(kind="C", form="A"):
        o = rom(kind, form)
        o.fit(gen(n, k, tag=1), gen(n, k, tag=2),
              gen(2, k, tag=3) if "B" in form else None)
        return o
    kw = dict(n=n, k=k, r=2, m=2)
    for kind in "CD":
        for form in ("A", "AB"):
            args = dict(Q=("n", "k"), Z=("n", "k"))
            if "B" in form:
                args["U"] = ("m", "k")
            yield Call(
                f"ROM/{kind}/{form}.fit",
                lambda kd=kind, f=form: rom(kd, f), lambda o, a: o.fit(
                    a["Q"], a["Z"], a.get("U")), args, "", kw, pure=False,
                longer="U" if kind == "D" else "")
        mk = (lambda kd=kind: trained(kd, "A"))
        for op in ("encode", "project"):
            for dims in (("n", "k"), ("n",)):
                yield Call(f"ROM/{kind}.{op}({','.join(dims)})", mk,
                           lambda o, a, op=op: getattr(o, op)(a["Q"]),
                           dict(Q=dims), "n", kw)
        yield Call(f"ROM/{kind}.encode(lhs)", mk,
                   lambda o, a: o.encode(a["Q"], a["Z"]),
                   dict(Q=("n", "k"), Z=("n", "k")), "n", kw,
                   # encoded independently
                   skip=[("Q", 1), ("Z", 1)])
        yield Call(f"ROM/{kind}.decode", mk, lambda o, a: o.decode(a["Y"]),
                   dict(Y=("r", "k")), "r", kw)
        yield Call(f"ROM/{kind}.predict", mk,
                   (lambda o, a: o.predict(a["q"], np.linspace(0, .01, 3)))
                   if kind == "C" else (lambda o, a: o.predict(a["q"], 3)),
                   dict(q=("n",)), "n", kw)
    yield Call(
        "ROM.fit([...])", lambda: rom("C", "AB"), lambda o, a: o.fit(
            a["Q"], a["Z"], a["U"]),
        dict(Q=[("n", "k0"), ("n", "k1")], Z=[("n", "k0"), ("n", "k1")],
             U=[("m", "k0"), ("m", "k1")]), "s",
        dict(n=6, m=2, k0=20, k1=22, s=2), pure=False,
        )
    warnings.filterwarnings("ignore")
