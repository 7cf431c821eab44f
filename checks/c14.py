"""C14: training a model solves exactly the stated least-squares problem."""

import collections
import itertools

import numpy as np

import opinf
from mc import models as mm
from mc import ops
from mc.core import canon
from mc.data import gen

BOUNDS = {
    "nonparametric": "every subset of {c,A,H,G,B,N} in every order up to 3 "
    "operators (thorough 4; rotations of larger ones), every known/unknown "
    "pattern, plus quartic and PolynomialOperator; discrete and continuous; "
    "r<=3, m<=2; noise-free and noisy data; 3 solvers",
    "parametric": "every pair (thorough triple) of {c,A,H,B,N} in every "
    "combination of {plain, affine, interpolated}, every known pattern, data "
    "sets of different lengths in every order of 3 parameters (4 in "
    "thorough), datasets split in two",
    "histories": "breadth-first depth 4 (thorough 6) over {fit two data sets, "
    "rejected fit, refit, set solver, set regularizer, evaluate, copy, "
    "save/load}",
}
M = opinf.models
FORMS = "cAHGBN"


def Model(kind):
    return getattr(M, kind)


def solver_of(name, form, known, r, m):
    """(solver argument, diagonal regularization or None)."""
    unknown = [k for k, E in zip(form, known) if E is None]
    cols = [ops.columns(mm.ABBR[k], r, m) for k in unknown]
    if name == "None":
        return None, None
    if name == "scalar":
        return 0.3, np.full(sum(cols), 0.3)
    reg = np.concatenate([np.full(n, 0.1 + i) for i, n in enumerate(cols)])
    return opinf.lstsq.TikhonovSolver(reg, method="normal"), reg


def check_entries(c, model, form, want, label, tol=1e-7):
    for k, op, E in zip(form, model.operators, want):
        c.close(ops.entries2d(op.entries), E, label, tol, f"operator {k}")


def one_fit(c, kind, form, known_pattern, r, m, noisy, solver):
    mi = m if mm.has_inputs(form) else 0
    tru = [mm.truth(k, r, mi, i) for i, k in enumerate(form)]
    known = [tru[i] if known_pattern[i] else None for i in range(len(form))]
    ncols = sum(ops.columns(mm.ABBR[k], r, mi)
                for k, E in zip(form, known) if E is None)
    K = ncols + 6
    Q = gen(r, K, tag=501, scale=1.5)
    U = gen(mi, K, tag=502, scale=1.5) if mi else None
    Z = mm.evaluate(form, tru, Q, U)
    if noisy:
        Z = Z + gen(r, K, tag=503, scale=0.5)
    sol, reg = solver_of(solver, form, known, r, mi)
    model = Model(kind)([
        mm.make_op(k, None if E is None else mm.flat(k, E))
        for k, E in zip(form, known)], solver=sol)
    keep = [x.copy() if x is not None else None for x in (Q, Z, U)]
    want = mm.ref_fit(form, known, Q, Z, U, reg)
    c.op(f"fit {kind} {form} {known_pattern}")
    c.check(model.fit(Q, Z, U) is model, "fit returns self")
    check_entries(c, model, form, want, "entries")
    if not noisy and solver == "None":
        check_entries(c, model, form, tru, "exact recovery")
    c.same(model.state_dimension, r, "state_dimension")
    c.same(model.input_dimension, mi, "input_dimension")
    c.close(model.operator_matrix, np.hstack(
        [E for E, kn in zip(want, known) if kn is None]),
        "operator_matrix", 1e-7)
    for x, y, lab in zip((Q, Z, U), keep, "QZU"):
        if x is not None:
            c.same(x, y, "training data changed", lab)
    c.op("refit")
    model.refit()
    check_entries(c, model, form, want, "entries after refit")
    # Properties find the operators.
    for k, nm in zip("cAHGBN", ("c_", "A_", "H_", "G_", "B_", "N_")):
        if k in form:
            c.check(getattr(model, nm) is model.operators[form.index(k)],
                    "operator property", nm)
        else:
            c.check(getattr(model, nm) is None or "P" in form,
                    "operator property", nm)
    c.state(form, known_pattern, r, mi, noisy, solver, want)
    if kind == "DiscreteModel" and not any(known_pattern) and noisy:
        # Consecutive states; inputs may be longer.
        S = gen(r, K + 1, tag=504)
        Ul = gen(mi, K + 4, tag=505) if mi else None
        w = mm.ref_fit(form, known, S[:, :-1], S[:, 1:],
                       Ul[:, :K] if mi else None, reg)
        c.op("fit nextstates=None")
        model.fit(S, inputs=Ul)
        check_entries(c, model, form, w, "nextstates=None")
        model.fit(S[:, :-1], S[:, 1:], Ul)
        check_entries(c, model, form, w, "longer inputs")
        T = [S[:, :4], S[:, 2:], gen(r, 2, tag=506)]
        Us = None
        if mi:
            Us = [Ul[:, :3], Ul[:, 3:], gen(mi, 5, tag=507)]
        c.op("stack_trajectories")
        stacked = model.stack_trajectories(T, Us)
        c.same(len(stacked), 3 if mi else 2, "stack")
        c.same(stacked[0], np.hstack([q[:, :-1] for q in T]), "stack states")
        c.same(stacked[1], np.hstack([q[:, 1:] for q in T]), "stack next")
        if mi:
            c.same(stacked[2], np.hstack(
                [u[:, :q.shape[1] - 1] for q, u in zip(T, Us)]),
                "stack inputs")
    if (r == 1 or mi == 1) and not any(known_pattern):
        c.op("flat data")
        fl = r == 1 and kind == "ContinuousModel"
        model.fit(Q[0] if fl else Q, Z[0] if fl else Z,
                  U[0] if mi == 1 else U)
        check_entries(c, model, form, want, "one-dimensional data")


def nonpar_case(c, kind, forms, dims):
    for form in forms:
        for pat in itertools.product((0, 1), repeat=len(form)):
            if all(pat):
                continue
            for r, m in dims:
                for noisy in (False, True):
                    for sol in ("None", "scalar", "tik"):
                        if sol != "None" and not noisy:
                            continue
                        with c.sub(f"{form}/{pat}/{r}{m}{noisy}{sol}"):
                            one_fit(c, kind, form, pat, r, m, noisy, sol)
            c.trace(kind, form, pat)


def intrusive_case(c, kind):
    """Nothing to learn: training changes nothing."""
    for n in (1, 2, 3):
        for form in itertools.combinations(FORMS, n):
            mi = 2 if mm.has_inputs(form) else 0
            tru = [mm.truth(k, 2, mi, i) for i, k in enumerate(form)]
            model = Model(kind)([mm.make_op(k, mm.flat(k, E))
                                 for k, E in zip(form, tru)])
            c.op(f"fit {form}")
            c.check(model.solver is None, "solver of an intrusive model")
            model.fit(gen(2, 9), gen(2, 9), gen(2, 9) if mi else None)
            model.refit()
            for k, op, E in zip(form, model.operators, tru):
                c.same(ops.entries2d(op.entries), E, "known entries")
            c.state(form)
    c.trace(kind)


# Parametric models -----------------------------------------------------------
MUS = [1.0, -0.5, 2.0, 0.25]
NTERMS = 2


def theta(mu):
    return np.array([1.0, np.asarray(mu).ravel()[0] ** 2])


def par_op(k, typ, entries=None, mus=None):
    name = mm.ABBR[k]
    if typ == "plain":
        return ops.cls(name)(None if entries is None
                             else mm.flat(k, entries))
    if typ == "affine":
        return ops.cls("Affine" + name)(
            theta, NTERMS, None if entries is None
            else [mm.flat(k, E) for E in entries])
    if entries is None:
        return ops.cls("Interp" + name)()
    order = np.argsort(mus)
    return ops.cls("Interp" + name)(
        [mus[i] for i in order], [mm.flat(k, entries[i]) for i in order])


def at(typ, entries, i, mu):
    """2-D entries at the i-th training parameter."""
    if typ == "plain":
        return entries
    if typ == "affine":
        return sum(t * E for t, E in zip(theta(mu), entries))
    return entries[i]


def par_truth(k, typ, r, m, s, tag):
    if typ == "plain":
        return mm.truth(k, r, m, tag)
    n = NTERMS if typ == "affine" else s
    return [mm.truth(k, r, m, 10 * tag + j + 1) for j in range(n)]


def par_ref(form, types, known, mus, Qs, Zs, Us, reg=None):
    """One block of columns per unknown (term)."""
    s = len(mus)
    rows = []
    for i in range(s):
        row = []
        for k, t, E in zip(form, types, known):
            if E is not None:
                continue
            d = mm.data(k, Qs[i], Us[i]).T
            if t == "plain":
                row.append(d)
            elif t == "affine":
                row += [th * d for th in theta(mus[i])]
            else:
                row += [d if j == i else 0 * d for j in range(s)]
        rows.append(np.hstack(row))
    Zk = []
    for i in range(s):
        Z = np.array(Zs[i])
        for k, t, E in zip(form, types, known):
            if E is not None:
                Z = Z - at(t, E, i, mus[i]) @ mm.data(k, Qs[i], Us[i])
        Zk.append(Z)
    O = mm.lstsq(np.vstack(rows), np.hstack(Zk), reg)
    out, pos = [], 0
    for k, t, E in zip(form, types, known):
        if E is not None:
            out.append(E)
            continue
        n = ops.columns(mm.ABBR[k], Qs[0].shape[0],
                        0 if Us[0] is None else Us[0].shape[0])
        if t == "plain":
            out.append(O[:, pos:pos + n])
            pos += n
        else:
            num = NTERMS if t == "affine" else s
            out.append([O[:, pos + j * n:pos + (j + 1) * n]
                        for j in range(num)])
            pos += num * n
    return out


def check_par(c, model, form, types, want, mus, label):
    for k, t, op, E in zip(form, types, model.operators, want):
        for i, mu in enumerate(mus):
            got = op.entries if t == "plain" else op.evaluate(mu).entries
            c.close(ops.entries2d(got), at(t, E, i, mu), label, 1e-6,
                    f"{t} operator {k} at parameter {mu}")


def par_fit(c, kind, form, types, pat, r, m, s, noisy, reg, order, vector):
    mi = m if mm.has_inputs(form) else 0
    mus = [MUS[i] for i in order]
    tru = [par_truth(k, t, r, mi, s, j)
           for j, (k, t) in enumerate(zip(form, types))]
    # Interpolated truths follow the parameters.
    tru = [[E[i] for i in order] if t == "interp" else E
           for t, E in zip(types, tru)]
    known = [E if p else None for E, p in zip(tru, pat)]
    ncols = sum(ops.columns(mm.ABBR[k], r, mi) for k, p in zip(form, pat)
                if not p)
    Qs = [gen(r, ncols + 3 + i, tag=510 + i, scale=1.5) for i in order]
    Us = [gen(mi, Q.shape[1], tag=520 + i) if mi else None
          for i, Q in zip(order, Qs)]
    Zs = []
    for i in range(s):
        Z = sum(at(t, E, i, mus[i]) @ mm.data(k, Qs[i], Us[i])
                for k, t, E in zip(form, types, tru))
        if noisy:
            Z = Z + gen(*Z.shape, tag=530 + order[i], scale=0.5)
        Zs.append(Z)
    interp_model = kind.startswith("Interp")
    if interp_model:
        want_at = []
        for i in range(s):
            want_at.append(mm.ref_fit(
                form, [None if E is None else E[i] for E in known],
                Qs[i], Zs[i], Us[i], reg))
        want = [[want_at[i][j] for i in range(s)] for j in range(len(form))]
    else:
        want = par_ref(form, types, known, mus, Qs, Zs, Us, reg)

    def fresh():
        return Model(kind)([par_op(k, t, E, mus) for k, t, E in
                            zip(form, types, known)], solver=reg)

    pars = [np.array([mu]) for mu in mus] if vector else mus
    Uarg = Us if mi else None
    model = fresh()
    c.op(f"fit {kind} {form} {types} {pat} {order}")
    model.fit(pars, Qs, Zs, Uarg)
    check_par(c, model, form, types, want, mus, "entries")
    if not noisy and reg is None:
        check_par(c, model, form, types, tru, mus, "exact recovery")
    c.same(model.state_dimension, r, "state_dimension")
    c.same(model.input_dimension, mi, "input_dimension")
    c.same(model.parameter_dimension, 1, "parameter_dimension")
    c.op("refit")
    model.refit()
    check_par(c, model, form, types, want, mus, "entries after refit")
    c.op("fit again")
    model.fit(pars, Qs, Zs, Uarg)
    check_par(c, model, form, types, want, mus, "entries after fitting again")
    c.state(form, types, pat, s, order, noisy, reg, vector)
    if "interp" not in types and not vector:
        # The same data, split differently over (repeated) parameters.
        P2, Q2, Z2, U2 = [], [], [], []
        for i in range(s):
            for sl in (slice(0, 2), slice(2, None)):
                P2.append(pars[i])
                Q2.append(Qs[i][:, sl])
                Z2.append(Zs[i][:, sl])
                U2.append(Us[i][:, sl] if mi else None)
        model = fresh()
        c.op("split")
        model.fit(P2, Q2, Z2, U2 if mi else None)
        check_par(c, model, form, types, want, mus, "split data")
    if kind.endswith("DiscreteModel") and noisy and reg is None and not any(
            pat):
        Ss = [gen(r, Q.shape[1] + 1, tag=540 + i)
              for i, Q in enumerate(Qs)]
        Ul = [gen(mi, Q.shape[1] + 3, tag=545 + i) if mi else None
              for i, Q in enumerate(Qs)]
        m1, m2 = fresh(), fresh()
        c.op("nextstates=None")
        m1.fit(pars, Ss, inputs=Ul if mi else None)
        m2.fit(pars, [S[:, :-1] for S in Ss], [S[:, 1:] for S in Ss],
               [U[:, :S.shape[1] - 1] for U, S in zip(Ul, Ss)]
               if mi else None)
        for mu in mus:
            for o1, o2 in zip(m1.operators, m2.operators):
                e1, e2 = (o.entries if t == "plain" else
                          o.evaluate(mu).entries
                          for o, t in ((o1, types[0]), (o2, types[0]))
                          ) if len(types) == 1 else (
                    x.evaluate(mu).entries if hasattr(x, "evaluate")
                    else x.entries for x in (o1, o2))
                c.close(ops.entries2d(e1), ops.entries2d(e2),
                        "nextstates=None", 1e-9)


def par_case(c, kind, form, types, s):
    orders = list(itertools.permutations(range(s)))
    for pat in itertools.product((0, 1), repeat=len(form)):
        if all(pat):
            continue
        for oi, order in enumerate(orders):
            for noisy, reg, vector in (
                    (False, None, False), (True, None, False),
                    (True, 0.4, False), (True, None, True)):
                if vector and "interp" in types:
                    continue
                if oi and not noisy:
                    continue
                with c.sub(f"{pat}/{order}/{noisy}{reg}{vector}"):
                    par_fit(c, kind, form, types, pat, 2, 2, s, noisy, reg,
                            order, vector)
        c.trace(kind, form, types, pat)


def par_known_case(c, kind, form, typess, s):
    """All but one of the operators are known."""
    for types in typess:
        for j in range(len(form)):
            pat = tuple(int(i != j) for i in range(len(form)))
            for order in ((0, 1, 2), (2, 0, 1)):
                with c.sub(f"{types}/{pat}/{order}"):
                    par_fit(c, kind, form, types, pat, 2, 2, s, True, None,
                            order, False)
        c.trace(kind, form, types)


# Histories -------------------------------------------------------------------
def hist_data(form, r, m, tag):
    K = 20
    Q = gen(r, K, tag=550 + tag, scale=1.5)
    U = gen(m, K, tag=555 + tag) if mm.has_inputs(form) else None
    Z = gen(r, K, tag=557 + tag)
    return Q, Z, U


def history_case(c, kind, form, pat, depth):
    parametric = kind.startswith(("Par", "Interp"))
    r, m = 2, 2
    mi = m if mm.has_inputs(form) else 0
    sets = {}
    mus = [0.5, 1.0, 2.0]
    types = {"cA": ("interp", "plain"), "AB": ("affine", "plain")}.get(
        form, ("plain", "affine", "interp"))[:len(form)]
    if not kind.startswith("Par"):
        types = ("interp" if parametric else "plain",) * len(form)
    s = 3
    # Training data of other sizes (parameters; states if nothing is known).
    sizes = [(mus, r), (mus, r)]
    if not any(p and t == "interp" for p, t in zip(pat, types)):
        free = not any(pat)
        sizes += [([1.5, 0.25], 1 if free else r),
                  ([0.5, 1.0, 2.0, 3.0], 3 if free else r)]
    for tag, (pts, rr) in enumerate(sizes):
        if parametric:
            data = [hist_data(form, rr, m, 5 * tag + i + 3)
                    for i in range(len(pts))]
            sets[f"D{tag}"] = (pts, *(list(x) for x in zip(*data)))
        else:
            sets[f"D{tag}"] = (None, *hist_data(form, rr, m, tag))
    tru = [par_truth(k, t, r, mi, s, j)
           for j, (k, t) in enumerate(zip(form, types))]
    known = [E if p else None for E, p in zip(tru, pat)]

    def fresh():
        return Model(kind)([par_op(k, t, E, mus) for k, t, E in
                            zip(form, types, known)])

    cache = {}

    def want(dname, reg):
        if (dname, reg) not in cache:
            mus, Q, Z, U = sets[dname]
            s = len(Q)
            if not parametric:
                cache[dname, reg] = mm.ref_fit(form, known, Q, Z, U, reg)
            elif kind.startswith("Interp"):
                w = [mm.ref_fit(form, [None if E is None else E[i]
                                       for E in known],
                                Q[i], Z[i], U[i], reg) for i in range(s)]
                cache[dname, reg] = [[w[i][j] for i in range(s)]
                                     for j in range(len(form))]
            else:
                cache[dname, reg] = par_ref(form, types, known, mus, Q, Z,
                                            U, reg)
        return cache[dname, reg]

    def fit(model, dname):
        mus, Q, Z, U = sets[dname]
        if not mi:
            U = None
        args = (mus, Q, Z, U) if parametric else (Q, Z, U)
        return model.fit(*args)

    acts = [("fit", D) for D in sets]
    acts += [("refit", ""), ("solver", None),
            ("solver", 0.2), ("solver", 0.9), ("setreg", 0.5), ("copy", ""),
            ("use", ""), ("badfit", "")]
    if not parametric or kind.startswith("Interp"):
        acts.append(("saveload", ""))
    nfile = [0]

    def build(hist):
        """Model state: data the solver has seen, its setting, what the
        operators hold (data, reg) or None."""
        model = fresh()
        c.trail = []
        st = {"solved": None, "reg": None, "ops": None}
        for kd, arg in hist:
            c.op(f"{kd} {arg}")
            if kd == "fit":
                fit(model, arg)
                st = {"solved": arg, "reg": st["reg"],
                      "ops": (arg, st["reg"])}
                st["sreg"] = st["reg"]
            elif kd == "refit":
                if st["solved"] is None:
                    c.raises(Exception, model.refit, "refit before fit")
                elif st["ops"] is None:
                    return None, None      # see C24 (rejected training)
                else:
                    model.refit()
                    st["ops"] = (st["solved"], st["sreg"])
            elif kd == "solver":
                model.solver = arg
                st["reg"] = arg
                if not kind.startswith("Interp"):
                    st["solved"] = None
            elif kd == "setreg":
                if st["reg"] is None:
                    return None, None
                if kind.startswith("Interp"):
                    # The solvers of the individual problems are copies.
                    if st["solved"] is None:
                        return None, None
                    for sol in model.solvers:
                        if not hasattr(sol, "regularizer"):
                            return None, None
                        sol.regularizer = arg
                    if st["sreg"] is None:
                        return None, None
                    st["sreg"] = arg
                else:
                    model.solver.regularizer = arg
                    st["reg"] = st["sreg"] = arg
            elif kd == "copy":
                old = model
                model = model.copy()
                if "affine" not in types:      # no equality for these
                    c.check(model == old, "copy is equal")
                c.check(type(model) is type(old), "copy type")
            elif kd == "saveload":
                nfile[0] += 1
                f = c.path(f"m{nfile[0]}.h5")
                model.save(f)
                old = model
                model = type(model).load(f)
                c.check(model == old, "loaded is equal")
                if kind.startswith("Interp"):
                    st["solved"] = None
            elif kd == "use":
                rr = model.state_dimension or r
                q, u = gen(rr, tag=570), gen(m, tag=571) if mi else None
                try:
                    if "Discrete" in kind:
                        a = (0.7, q, u) if parametric else (q, u)
                    else:
                        fu = None if u is None else (lambda t: u)
                        a = (0.0, 0.7, q, fu) if parametric else (0., q, fu)
                    model.rhs(*a)
                except Exception as ex:
                    c.check(st["ops"] is None, "evaluation of a trained "
                            "model", str(ex))
                else:
                    c.check(st["ops"] is not None,
                            "evaluation of an untrained model")
            else:
                mus, Q, Z, U = sets["D0"]
                if parametric:
                    bad = (mus, Q, [z[:, :-1] for z in Z], U if mi else None)
                else:
                    bad = (Q, Z[:, :-1], U)
                c.raises(ValueError, lambda: model.fit(*bad), "misaligned")
                st["ops"] = None
        return model, st

    seen, queue = set(), collections.deque([()])
    while queue:
        hist = queue.popleft()
        model, st = build(hist)
        if model is None:
            continue
        entries = [None if op.entries is None else
                   [ops.entries2d(E) for E in op.entries]
                   if isinstance(op.entries, (list, tuple)) else
                   np.asarray(op.entries) for op in model.operators]
        sol = model.solver
        key = canon((st, entries, type(sol).__name__,
                     getattr(sol, "regularizer", None),
                     getattr(sol, "data_matrix", None),
                     getattr(model, "_indices_of_operators_to_infer", None),
                     model.state_dimension, model.input_dimension))
        if key in seen:
            continue
        seen.add(key)
        c.state(key)
        if st["ops"] is None:
            for op, E in zip(model.operators, known):
                if E is None:
                    c.check(op.entries is None, "entries of an untrained "
                            "operator")
        else:
            w = want(*st["ops"])
            if parametric:
                check_par(c, model, form, types, w, sets[st["ops"][0]][0],
                          "history")
            else:
                check_entries(c, model, form, w, "history")
        c.trace(*hist)
        if len(hist) < depth:
            queue += [hist + (a,) for a in acts]


def cases(tier):
    deep = tier == "thorough"
    out = []
    small = 4 if deep else 3
    groups = collections.defaultdict(list)
    for n in range(1, 7):
        for sub in itertools.combinations(FORMS, n):
            if n <= small:
                forms = ["".join(p) for p in itertools.permutations(sub)]
            else:
                s = "".join(sub)
                forms = [s[i:] + s[:i] for i in range(
                    0, n, 1 if deep else 3)]
            groups["".join(sub)] += forms
    for extra in ("Q", "AQ", "QcB", "P", "AP", "PHc", "cPN"):
        groups[extra] = [extra]
    for sub, forms in groups.items():
        n = len(sub)
        dims = [(2, 2)] if n > 3 else [(2, 2), (1, 1)] + (
            [(3, 2), (2, 1), (1, 3)] if n < 3 or deep else [])
        for kind in ("ContinuousModel", "DiscreteModel"):
            if n > 3 and not deep and kind == "ContinuousModel":
                continue
            out.append((f"{kind}/{sub}", nonpar_case, (kind, forms, dims)))
    for kind in ("ContinuousModel", "DiscreteModel"):
        out.append((f"intrusive/{kind}", intrusive_case, (kind,)))
    TY = ("plain", "affine", "interp")
    letters = "cAHBN"
    for n in (1, 2, 3) if deep else (1, 2):
        for sub in itertools.combinations(letters, n):
            for form in ([sub] if n == 3 else itertools.permutations(sub)):
                f = "".join(form)
                for types in itertools.product(TY, repeat=n):
                    kinds = ["ParametricContinuousModel",
                             "ParametricDiscreteModel"]
                    for kind in kinds:
                        if kind.endswith("DiscreteModel") and not deep and (
                                n > 1 and f[0] not in "AB"):
                            continue
                        out.append((f"{kind}/{f}/{'-'.join(types)}",
                                    par_case, (kind, f, types, 3)))
                for kind in ("InterpContinuousModel", "InterpDiscreteModel"):
                    out.append((f"{kind}/{f}", par_case,
                                (kind, f, ("interp",) * n,
                                 4 if deep and n < 3 else 3)))
    for i, sub in enumerate(itertools.combinations(letters, 3)):
        f = "".join(sub[i % 3:] + sub[:i % 3])
        for j, kind in enumerate(("ParametricContinuousModel",
                                  "ParametricDiscreteModel")):
            for t in TY:
                if deep or (i + TY.index(t)) % 2 == j:
                    out.append((f"{kind}/known/{f}/{t}", par_known_case, (
                        kind, f, [(t, *x) for x in itertools.product(
                            TY, repeat=2)], 3)))
    d = 6 if deep else 4
    for kind in ("ContinuousModel", "DiscreteModel",
                 "ParametricContinuousModel", "ParametricDiscreteModel",
                 "InterpContinuousModel", "InterpDiscreteModel"):
        for form, pat in (("cA", (0, 0)), ("AB", (0, 1)), ("BHc", (0, 0, 1)),
                          ("cAN", (1, 0, 0))):
            out.append((f"history/{kind}/{form}", history_case,
                        (kind, form, pat, d)))
    return out
