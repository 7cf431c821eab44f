"""C08: saving and loading preserves every object, in every reachable state."""

import numpy as np
import scipy.sparse as sparse

import opinf
from mc import objs
from mc.core import canon
from mc.data import gen, spd

BOUNDS = {
    "objects": "every savable class x option combinations (see mc/objs.py)",
    "states": "breadth-first over all histories up to length 2 (thorough 3) "
    "of the events of the object (fit on two data sets, set / delete entries, "
    "set regularizer / interpolator / dimension / solver, reset, refit), "
    "states with the same observation are explored once",
    "oracle": "every probe (attributes, str, evaluation, prediction, "
    "projection ...) gives the same result on the loaded object, also after "
    "each further event applied to both, and after a second save / load",
    "large": "objects with up to 70000 rows and with 9, 10, 11, 13, and 101 "
    "parts (variables, bases, operators, parameters, regularizers)",
}


def save_load(c, spec, V, o, name):
    path = c.path(name)
    c.op("save")
    o.save(path)
    c.check(not V.changed(), "arguments changed", f"{V.changed()}")
    c.op("load")
    p = spec.load(path)
    c.check(type(p) is type(o), "type", f"{type(p)} / {type(o)}")
    return p


def equal(c, spec, o, p, tag):
    if objs.has_eq(o):
        c.check(p == o and o == p, "compares equal", tag)
        c.check(not (p != o), "compares different", tag)


def state(c, spec, hist, before, n):
    V = spec.vault()
    o, _ = spec.build(hist, V)
    p = save_load(c, spec, V, o, f"a{n}.h5")
    # Saving changes nothing, loading restores everything.
    for who, x in (("saved", o), ("loaded", p)):
        now = spec.observe(x, V)
        c.op(n=len(now))
        if (m := objs.diff(now, before, spec.tol)):
            c.fail(f"{who} object differs", m)
    equal(c, spec, o, p, "after load")
    # Continued use.
    for lab, fn in spec.events:
        c.op(f"load, {lab}")
        V1, V2 = spec.vault(), spec.vault()
        a, _ = spec.build(hist, V1)
        b = spec.load(c.path(f"a{n}.h5"))
        ra = objs.norm(objs.attempt(fn, a, V1), a)
        rb = objs.norm(objs.attempt(fn, b, V2), b)
        if (lab == "refit" and spec.load.__name__ == "interp" and
                isinstance(rb, objs.Raised) and rb.type == "RuntimeError"):
            continue    # training data are not stored: fit() is required
        if (m := objs.same(ra, rb, spec.tol)):
            c.fail("later event differs", f"{lab}: {m}")
        if isinstance(ra, objs.Raised):
            continue
        m = objs.diff(spec.observe(a, V1), spec.observe(b, V2), spec.tol)
        if m:
            c.fail("later behaviour differs", f"after {lab}: {m}")
        equal(c, spec, a, b, f"after {lab}")
    # Once more.
    before = spec.observe(p, V)
    q = save_load(c, spec, V, p, f"b{n}.h5")
    m = objs.diff(spec.observe(q, V), before, spec.tol)
    if m:
        c.fail("second save/load", m)
    c.trace(objs.hist_name(hist))


def case(c, spec, depth):
    explore(c, spec, depth, state)


def explore(c, spec, depth, visit):
    """Breadth-first over the histories; visit each distinct state once."""
    seen, frontier, n = set(), [()], 0
    for level in range(depth + 1):
        nxt = []
        for hist in frontier:
            V = spec.vault()
            o, outs = spec.build(hist, V)
            c.op(n=len(hist))
            if outs and isinstance(outs[-1], objs.Raised):
                continue    # a rejected event is the business of C24
            before = spec.observe(o, V)
            c.check(not V.changed(), "arguments changed",
                    f"{objs.hist_name(hist)}: {V.changed()}")
            key = canon([(a, repr(b) if isinstance(b, objs.Raised) else
                          strip(b)) for a, b in before])
            if key in seen:
                continue
            seen.add(key)
            c.state(key)
            n += 1
            with c.sub(objs.hist_name(hist)):
                visit(c, spec, hist, before, n)
            nxt += [hist + (e,) for e in spec.events]
        frontier = nxt


def strip(x):
    if isinstance(x, tuple):
        return tuple(strip(y) for y in x)
    if isinstance(x, objs.Raised):
        return repr(x)
    return x


ROWS = (127, 129, 255, 257, 300, 40000, 70000)
PARTS = (9, 10, 11, 13, 101)


def large(rows, parts):
    """Objects of many rows or parts: (label, make, load, uses)."""
    P, B, L = opinf.pre, opinf.basis, opinf.lstsq
    OP, M = opinf.operators, opinf.models
    SS = P.ShiftScaleTransformer
    for n in rows:
        A = sparse.random_array((n, n), density=min(1, 3 / n),
                                rng=np.random.default_rng(n))
        A = A + sparse.diags_array(np.arange(1.0, n + 1))
        q = gen(n, tag=80)
        for fmt in ("csr", "csc", "coo", "dia"):
            if fmt == "dia":
                A = sparse.diags_array(np.arange(1.0, n + 1))
            E = getattr(A, "to" + fmt)()
            yield (f"Linear {fmt} {n}", lambda E=E: OP.LinearOperator(E),
                   OP.LinearOperator.load,
                   [lambda o, q=q: o.apply(q), lambda o: o.entries.nnz])
        Bs = sparse.csr_array(A.tocsr()[:, [0, n // 2, n - 1]])
        yield (f"Input {n}", lambda Bs=Bs: OP.InputOperator(Bs),
               OP.InputOperator.load, [lambda o: o.apply(None, np.ones(3))])
        V = np.linalg.qr(gen(n, 2, tag=81))[0]
        w = 1 + np.abs(gen(n, tag=82))
        yield (f"LinearBasis {n}", lambda V=V, w=w: B.LinearBasis(
            V, weights=w, check_orthogonality=False), B.LinearBasis.load,
            [lambda o, q=q: o.compress(q), lambda o: o.decompress([1, 2.]),
             lambda o: o.entries])
        Q = gen(n, 12, tag=83)
        for byrow in (False, True):
            yield (f"SS {n} {byrow}", lambda Q=Q, b=byrow: SS(
                True, "standard", b).fit(Q), SS.load,
                [lambda o, Q=Q: o.transform(Q)])
        yield (f"POD {n}", lambda Q=Q: B.PODBasis(num_vectors=11).fit(Q),
               B.PODBasis.load, [
                   lambda o, q=q: o.compress(q), lambda o: o.svdvals,
                   lambda o: o.rightvecs, lambda o: o.leftvecs])
    for k in parts:
        Q = gen(2 * k, 6, tag=84)

        def multi(k=k, Q=Q):
            return P.TransformerMulti(
                [[SS(True, "maxabs"), P.ScaleTransformer(1.0 + i)][i % 2]
                 for i in range(k)]).fit(Q)
        yield (f"TransformerMulti {k}", multi,
               lambda p, k=k: P.TransformerMulti.load(
                   p, [[SS, P.ScaleTransformer][i % 2] for i in range(k)]),
               [lambda o, Q=Q: o.transform(Q),
                lambda o: o.variable_sizes,
                lambda o: [t.name for t in o.transformers]])

        def pipe(k=k, Q=Q):
            return P.TransformerPipeline(
                [P.ShiftTransformer(gen(2 * k, tag=i)) if i % 2 else
                 P.ScaleTransformer(1 + 0.1 * i) for i in range(k)]).fit(Q)
        yield (f"Pipeline {k}", pipe, lambda p, k=k: P.TransformerPipeline.load(
            p, [[P.ScaleTransformer, P.ShiftTransformer][i % 2]
                for i in range(k)]), [lambda o, Q=Q: o.transform(Q)])
        yield (f"BasisMulti {k}", lambda k=k, Q=Q: B.BasisMulti(
            [B.PODBasis(num_vectors=1 + i % 2) for i in range(k)]).fit(Q),
            lambda p, k=k: B.BasisMulti.load(p, [B.PODBasis] * k),
            [lambda o, Q=Q: o.compress(Q), lambda o, Q=Q: o.project(Q),
             lambda o: o.reduced_variable_sizes])
        mus = np.linspace(0, 1, k) ** 2
        Es = [gen(2, 2, tag=200 + i) for i in range(k)]
        yield (f"Interp {k}", lambda m=mus, Es=Es: OP.InterpLinearOperator(
            m, Es), OP.InterpLinearOperator.load,
            [lambda o: o.evaluate(0.33).entries, lambda o: list(o.entries),
             lambda o: o.training_parameters])

        def coeffs(mu, k=k):
            return [np.cos(i * mu) for i in range(k)]
        yield (f"Affine {k}", lambda f=coeffs, Es=Es: OP.AffineLinearOperator(
            f, nterms=len(Es), entries=Es), lambda p, f=coeffs: OP.AffineLinearOperator.load(
                p, f), [lambda o: o.evaluate(0.3).entries,
                        lambda o: list(o.entries)])

        ops = [OP.LinearOperator(gen(3, 3, tag=i)) if i % 3 else
               OP.ConstantOperator(gen(3, tag=300 + i)) for i in range(k)]
        uses = [lambda o: o.rhs(0, np.ones(3)),
                lambda o: [op.entries for op in o.operators]]
        m = M.ContinuousModel(ops)
        yield (f"model {k}", lambda m=m: m, M.ContinuousModel.load, uses)
        D, Z = gen(12, 3, tag=85), gen(k, 12, tag=86)
        for nm, mk in (
                ("L2D", lambda k=k: L.L2DecoupledSolver(
                    np.arange(1.0, k + 1))),
                ("TikD", lambda k=k: L.TikhonovDecoupledSolver(
                    [np.full(3, 1.0 + i) for i in range(k)])),
                ("TikD G", lambda k=k: L.TikhonovDecoupledSolver(
                    [np.diag([1, 2.0, 1 + i]) for i in range(k)]))):
            yield (f"{nm} {k}", lambda mk=mk, D=D, Z=Z: mk().fit(D, Z),
                   type(mk()).load, [lambda o: o.solve(),
                                     lambda o: list(np.array(
                                         o.regularizer))])
        post = opinf.roms.OperatorPosterior
        yield (f"posterior {k}", lambda k=k, Z=Z: post(
            list(Z[:, :3]), [spd(3, tag=400 + i) for i in range(k)]),
            post.load, [lambda o: list(o.means), lambda o: list(o.covs)])


def big(c, rows, parts):
    for label, make, load, uses in large(rows, parts):
        with c.sub(label):
            one(c, label, make, load, uses)


def one(c, label, make, load, uses):
    o = make()
    want = [objs.norm(objs.attempt(u, o), o) for u in uses]
    path = c.path(label.replace(" ", "-") + ".h5")
    o.save(path)
    p = load(path)
    c.op("save, load", n=2)
    for k, u in enumerate(uses):
        for who, x in (("saved", o), ("loaded", p)):
            if (m := objs.same(objs.norm(objs.attempt(u, x), x), want[k],
                               1e-12)):
                c.fail(f"{who} object differs", f"{label} {k}: {m}")
            c.op("use")
    if objs.has_eq(o):
        c.check(p == o and o == p, "compares equal", label)
    c.state(label)
    c.trace(label)


def cases(tier):
    depth = 2 if tier == "quick" else 3
    return [(s.name, case, (s, depth)) for s in objs.menu(tier)
            if s.load is not None] + [
        (f"rows/{n}", big, ((n,), ())) for n in ROWS] + [
        (f"parts/{n}", big, ((), (n,))) for n in PARTS]
