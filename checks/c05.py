"""C05: multi-variable transformers and bases act block by block; pipelines
act as the composition of their parts."""

import itertools

import numpy as np

import opinf
from mc import pre
from mc.data import gen, layouts

BOUNDS = {
    "configurations": "1-3 variables, block sizes 2/3 equal and unequal, "
    "sizes inferred or given, every ordered pair of 8 transformer kinds "
    "(and None), pipelines of 2-3 transformers, pipelines inside a "
    "multi-variable transformer, bases linear/weighted/POD",
    "histories": "fit / fit_transform / in place, refit, then every query",
    "queries": "unit impulses per entry (no cross-talk), per-variable "
    "access by index, name, split; entry selections",
}


# Multi-variable transformers ----------------------------------------------
def multi_case(c, parts, sizes, given, how2):
    """The multi-variable transformer against separately fit transformers."""
    n = sum(sizes)
    edges = np.concatenate([[0], np.cumsum(sizes)])
    for how in pre.FITS:
        solo = [(p[1]()[0] if p else opinf.pre.NullTransformer())
                for p in parts]
        inner = [(p[1]()[0] if p else None) for p in parts]
        multi = opinf.pre.TransformerMulti(
            inner, variable_sizes=list(sizes) if given else None)
        c.same(len(multi), len(parts), "len")
        c.same(multi.num_variables, len(parts), "num_variables")
        names = [f"variable {i}" for i in range(len(parts))]
        c.same(tuple(multi.variable_names), tuple(names), "names")
        for i, p in enumerate(parts):
            if p:
                c.check(multi[i] is inner[i], "getitem")
            c.check(multi[names[i]] is multi[i], "getitem-name")
            c.check(multi.transformers[i] is multi[i], "transformers")
        def other_rows(when):
            # other data must not be cut at other places
            for extra in (len(parts), n, -len(parts)):
                Q = gen(n + extra, 4, tag=58)
                for lab, fn in (("fit", multi.fit),
                                ("fit_transform", multi.fit_transform)):
                    c.op(f"{lab} other rows")
                    c.raises((Exception,), lambda: fn(Q.copy()),
                             label=f"{lab} with {n + extra} rows {when}")

        if given:
            other_rows("before training")
        hist = [(how, 0)] + ([(how2, 1)] if how2 else [])
        for (hw, w) in hist:
            Q = pre.training(n, 4, w)
            Qf = Q.copy()
            c.op(f"{hw[0]}({w})")
            if hw[0] == "fit":
                multi.fit(Qf)
                got = multi.transform(Q)
            else:
                got = multi.fit_transform(Qf, inplace=hw[1])
            want = [tf.fit_transform(Q[a:b].copy(), inplace=False)
                    for tf, a, b in zip(solo, edges[:-1], edges[1:])]
            c.close(got, np.concatenate(want), "fit_transform-blocks", 1e-11)
            c.state(hist, hw, w)
        other_rows("after training")
        c.same(tuple(multi.variable_sizes), tuple(sizes), "sizes")
        c.same(multi.state_dimension, n, "state_dimension")
        for X in (gen(n, 5, tag=51), gen(n, tag=52), np.eye(n),
                  gen(n, 1, tag=53)):
            for lname, Y in layouts(X):
                for method in ("transform", "inverse_transform",
                               "transform_ddts"):
                    for inp in (False, True):
                        c.op(method)
                        want = np.concatenate([
                            getattr(tf, method)(X[a:b].copy(), inplace=False)
                            for tf, a, b in zip(solo, edges[:-1], edges[1:])
                        ])
                        arg = Y if lname == "view" else np.array(
                            Y, order="K")
                        got = getattr(multi, method)(arg, inplace=inp)
                        c.close(got, want, f"{method}-blocks", 1e-11)
                        if inp:
                            c.close(arg, want, f"{method}-inplace", 1e-11)
                        else:
                            c.same(arg, X, f"{method}-mutates")
                        Y[...] = X
            blocks = multi.split(X)
            c.same(len(blocks), len(parts), "split-len")
            for i, (a, b) in enumerate(zip(edges[:-1], edges[1:])):
                c.op("get_var")
                c.same(blocks[i], X[a:b], "split")
                c.same(multi.get_var(i, X), X[a:b], "get_var")
                c.same(multi.get_var(names[i], X), X[a:b], "get_var-name")
                from_end = multi.get_var(i - len(names), X)
                c.same(from_end, X[a:b], "get_var-from-end")
            if len(set(sizes)) == 1:
                m = sizes[0]
                for lo, locs in pre.locs_menu(m):
                    sel = np.arange(m)[locs]
                    c.op("inverse_transform(locs)")
                    arg = np.concatenate([X[a:b][sel] for a, b in zip(
                        edges[:-1], edges[1:])])
                    want = np.concatenate([
                        tf.inverse_transform(X[a:b][sel].copy(), locs=locs)
                        for tf, a, b in zip(solo, edges[:-1], edges[1:])])
                    got = multi.inverse_transform(arg, locs=locs)
                    c.close(got, want, "locs-blocks", 1e-11, lo)
        # an impulse in one variable does not move another
        c.op("cross-talk")
        base = multi.transform(np.zeros((n, 1)))
        for j in range(n):
            e = np.zeros((n, 1))
            e[j] = 1.0
            d = multi.transform(e) - base
            off = [i for i in range(n) if i != j]
            c.check(np.all(d[off] == 0), "cross-talk", f"entry {j}")
        c.trace(*hist)
        c.outcome(base)


def mixed_names(c):
    for names in (("a", None), (None, "b"), ("x", "y"), ("p", None)):
        tfs = [opinf.pre.ShiftScaleTransformer(centering=True, name=nm)
               for nm in names]
        multi = opinf.pre.TransformerMulti(tfs)
        want = tuple(nm or f"variable {i}" for i, nm in enumerate(names))
        c.op("names")
        c.same(tuple(multi.variable_names), want, "names")
        X = gen(6, 3, tag=54)
        multi.fit(X)
        for i, nm in enumerate(want):
            c.check(multi[nm] is tfs[i], "getitem-name")
            c.same(multi.get_var(nm, X), X[3 * i:3 * i + 3], "get_var-name")
        c.state(names)
        c.trace("names", names)


# Pipelines -----------------------------------------------------------------
def pipe_case(c, parts, n):
    for how in pre.FITS:
        for refit in (False, True):
            solo = [p[1]()[0] for p in parts]
            inner = [p[1]()[0] for p in parts]
            tf = opinf.pre.TransformerPipeline(inner)
            c.same(len(tf), len(parts), "len")
            for w in ((1, 0) if refit else (0,)):
                Q = pre.training(n, 4, w)
                keep = Q.copy()
                c.op(how[0])
                if how[0] == "fit":
                    tf.fit(Q)
                    got = tf.transform(keep)
                else:
                    got = tf.fit_transform(Q, inplace=how[1])
                Y = keep
                for s in solo:
                    Y = s.fit_transform(Y.copy(), inplace=False)
                c.close(got, Y, "pipeline-fit", 1e-10)
            c.same(tf.state_dimension, n, "state_dimension")
            for X in (gen(n, 3, tag=55), gen(n, tag=56), np.eye(n)):
                for inp in (False, True):
                    c.op("pipeline queries")
                    T, D, V = X.copy(), X.copy(), X.copy()
                    for s in solo:
                        T = s.transform(T.copy())
                        D = s.transform_ddts(D.copy(), inplace=False)
                    for s in reversed(solo):
                        V = s.inverse_transform(V.copy())
                    for method, want in (("transform", T),
                                         ("transform_ddts", D),
                                         ("inverse_transform", V)):
                        arg = X.copy()
                        got = getattr(tf, method)(arg, inplace=inp)
                        c.close(got, want, f"pipeline-{method}", 1e-10)
                        c.close(arg, want if inp else X,
                                f"pipeline-{method}-arg", 1e-10)
                for lo, locs in pre.locs_menu(n):
                    sel = np.arange(n)[locs]
                    V = X[sel].copy()
                    for s in reversed(solo):
                        V = s.inverse_transform(V.copy(), locs=locs)
                    c.op("pipeline locs")
                    c.close(tf.inverse_transform(X[sel].copy(), locs=locs),
                            V, "pipeline-locs", 1e-10, lo)
            c.state(how, refit)
            c.trace(how, refit)


def pipe_in_multi(c, given):
    parts = [pre.pipe([pre.ss(True, None, False), pre.scale(-0.5)]),
             pre.ss(False, "minmax", True),
             pre.pipe([pre.scale(2.5), pre.ss(True, "maxabs", False)])]
    multi_case(c, parts, (3, 3, 3), given, None)
    if given:
        multi_case(c, parts, (3, 2, 4), given, pre.FITS[1])


# Multi-variable bases --------------------------------------------------------
def _basis(kind, n, i):
    if kind == "lin":
        V = np.linalg.qr(gen(n, n - 1, tag=60 + i))[0]
        return lambda: opinf.basis.LinearBasis(V.copy())
    if kind == "linw":
        w = np.abs(gen(n, tag=61 + i)) + 0.5
        V = np.linalg.qr(gen(n, n - 1, tag=62 + i))[0] / np.sqrt(w)[:, None]
        return lambda: opinf.basis.LinearBasis(V.copy(), weights=w.copy())
    if kind == "pod1":
        return lambda: opinf.basis.PODBasis(num_vectors=1)
    return lambda: opinf.basis.PODBasis(num_vectors=2)


def basis_case(c, kinds, sizes, given, refit):
    n = sum(sizes)
    edges = np.concatenate([[0], np.cumsum(sizes)])
    makers = [_basis(k, s, i) for i, (k, s) in enumerate(zip(kinds, sizes))]
    solo = [m() for m in makers]
    inner = [m() for m in makers]
    multi = opinf.basis.BasisMulti(
        inner, full_variable_sizes=list(sizes) if given else None)
    for w in ((1, 0) if refit else (0,)):
        Q = gen(n, 6, tag=70 + w)
        keep = Q.copy()
        c.op("fit")
        out = multi.fit(Q)
        c.check(out is multi, "fit-returns-self")
        c.same(Q, keep, "fit-mutates")
        for b, a0, a1 in zip(solo, edges[:-1], edges[1:]):
            b.fit(keep[a0:a1])
        c.state(w)
    rs = tuple(b.reduced_state_dimension for b in solo)
    redges = np.concatenate([[0], np.cumsum(rs)])
    c.same(tuple(multi.full_variable_sizes), tuple(sizes), "full-sizes")
    c.same(tuple(multi.reduced_variable_sizes), rs, "reduced-sizes")
    c.same(tuple(multi.shape), (n, sum(rs)), "shape")
    c.same(len(multi), len(kinds), "len")
    for X in (gen(n, 5, tag=72), gen(n, tag=73), np.eye(n)):
        want = np.concatenate([b.compress(X[a0:a1]) for b, a0, a1 in zip(
            solo, edges[:-1], edges[1:])])
        c.op("compress/decompress/project")
        got = multi.compress(X)
        c.close(got, want, "compress-blocks", 1e-12)
        pr = np.concatenate([b.project(X[a0:a1]) for b, a0, a1 in zip(
            solo, edges[:-1], edges[1:])])
        c.close(multi.project(X), pr, "project-blocks", 1e-12)
        err = np.linalg.norm(X - pr)
        c.close(multi.projection_error(X, relative=False), err, "proj-err")
        c.close(multi.projection_error(X), err / np.linalg.norm(X),
                "proj-err-rel")
        for i, (a0, a1) in enumerate(zip(edges[:-1], edges[1:])):
            c.same(multi.get_var(i, X), X[a0:a1], "get_var")
            c.same(multi.get_var(f"variable {i}", X), X[a0:a1], "get_var")
            from_end = multi.get_var(i - multi.num_variables, X)
            c.same(from_end, X[a0:a1], "get_var-from-end")
            c.same(multi.split(X)[i], X[a0:a1], "split")
            r0, r1 = redges[i], redges[i + 1]
            c.same(multi.get_var(i, got), got[r0:r1], "get_var-reduced")
            c.same(multi.split(got)[i], got[r0:r1], "split-reduced")
            c.check(multi[i] is inner[i], "getitem")
    for Y in (gen(sum(rs), 4, tag=74), gen(sum(rs), tag=75),
              np.eye(sum(rs))):
        want = np.concatenate([b.decompress(Y[r0:r1]) for b, r0, r1 in zip(
            solo, redges[:-1], redges[1:])])
        c.op("decompress")
        c.close(multi.decompress(Y), want, "decompress-blocks", 1e-12)
        if len(set(sizes)) == 1:
            for lo, locs in pre.locs_menu(sizes[0]):
                want = np.concatenate([
                    b.decompress(Y[r0:r1])[locs] for b, r0, r1 in zip(
                        solo, redges[:-1], redges[1:])])
                c.op("decompress(locs)")
                c.close(multi.decompress(Y, locs=locs), want,
                        "decompress-locs", 1e-12, lo)
    c.trace(kinds, sizes, given, refit)
    c.outcome(want)


def cases(tier):
    out = [("names", mixed_names, ()),
           ("pipe-in-multi", pipe_in_multi, (False,)),
           ("pipe-in-multi-given", pipe_in_multi, (True,))]
    b3 = [pre.ss(True, "standard", False), pre.ss(False, "minmaxsym", True),
          pre.scale(-0.5), pre.shift(3), pre.scale(pre.SC3), None,
          pre.ss(True, None, False), pre.ss(True, "maxnormsym", False)]
    b2 = [pre.ss(True, "minmax", False), pre.ss(False, "maxabssym", True),
          pre.scale(2.5), None, pre.ss(True, "maxnorm", False)]
    hows = (None, pre.FITS[0]) if tier == "quick" else (None, *pre.FITS)

    def nm(ps):
        return ",".join(p[0] if p else "None" for p in ps)

    for h in hows:
        for a, b in itertools.product(b3, repeat=2):
            out.append((f"multi {nm([a, b])} =33 {h}", multi_case,
                        ([a, b], (3, 3), False, h)))
        for a, b in itertools.product(b3, b2):
            out.append((f"multi {nm([a, b])} =32 {h}", multi_case,
                        ([a, b], (3, 2), True, h)))
            out.append((f"multi {nm([b, a])} =23 {h}", multi_case,
                        ([b, a], (2, 3), True, h)))
        for i, a in enumerate(b3):
            ps = [a, b2[i % 5], b3[(i + 3) % 8]]
            out.append((f"multi {nm(ps)} =323 {h}", multi_case,
                        (ps, (3, 2, 3), True, h)))
            out.append((f"multi {nm([a])} {h}", multi_case,
                        ([a], (3,), False, h)))
            ps = [a, b3[(i + 1) % 8], b3[(i + 6) % 8]]
            out.append((f"multi {nm(ps)} =333 {h}", multi_case,
                        (ps, (3, 3, 3), False, h)))
    base = [pre.shift(3), pre.scale(2.5), pre.scale(pre.SC3),
            pre.ss(True, None, False), pre.ss(False, "minmax", False),
            pre.ss(True, "maxabs", True), pre.null()]
    for a, b in itertools.product(base, repeat=2):
        out.append((f"pipe {nm([a, b])}", pipe_case, ([a, b], 3)))
    for a in base:
        out.append((f"pipe {nm([a])}", pipe_case, ([a], 3)))
    for i, a in enumerate(base):
        for j in (1, 2, 3):
            ps = [a, base[(i + j) % 7], base[(i + 2 * j + 1) % 7]]
            out.append((f"pipe3 {nm(ps)}", pipe_case, (ps, 3)))
    kinds = ("lin", "linw", "pod1", "pod2")
    for ks in itertools.product(kinds, repeat=2):
        for sizes in ((3, 3), (3, 4)):
            for given in (False, True):
                if not given and len(set(sizes)) > 1 and any(
                        k.startswith("pod") for k in ks):
                    continue
                for refit in (False, True):
                    out.append((f"basis {ks} {sizes} {given} {refit}",
                                basis_case, (ks, sizes, given, refit)))
    for ks in itertools.product(kinds, repeat=3):
        out.append((f"basis {ks} given", basis_case,
                    (ks, (3, 2, 4), True, False)))
        if tier != "quick":
            out.append((f"basis {ks} eq", basis_case,
                        (ks, (3, 3, 3), True, True)))
    for k in kinds:
        out.append((f"basis {k} single", basis_case, ((k,), (4,), True,
                                                       False)))
    return out
