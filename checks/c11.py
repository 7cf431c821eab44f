"""C11: operators evaluate their entries exactly; batches are columnwise; the
Jacobian is the derivative; nothing stale survives a change of entries."""

import collections
import itertools

import numpy as np
import scipy.sparse as sparse

import opinf
from mc import ops
from mc.core import canon
from mc.data import gen, layouts

BOUNDS = {
    "values": "every unit entry (entries enter linearly) on a lattice that "
    "determines all polynomials of the degree (exact for the given r), plus "
    "generic entries; r<=3 (thorough 4), m<=3",
    "shapes": "vector, batch, single-column batch, scalars and row vectors "
    "for r=1 / m=1, integer data, C/F/strided",
    "histories": "breadth-first depth 3 (thorough 4) over {set entries A, "
    "set entries B (other dimension), assign, delete, evaluate, jacobian, "
    "copy, save/load}",
}


def check_point(c, op, name, E, q, u, tag):
    d = ops.data_vector(name, q, u)
    want = E @ d
    c.op()
    c.close(op.apply(q, u), want, "apply", 1e-11, tag)
    c.op()
    J = op.jacobian(q, u)
    wantJ = E @ ops.data_gradient(name, q, u)
    c.close(np.zeros_like(wantJ) + J, wantJ, "jacobian", 1e-11, tag)
    if not np.isscalar(J) and name != "ConstantOperator":
        c.same(np.shape(J), wantJ.shape, "jacobian-shape", tag)


def value_case(c, name, r, m):
    """Exact evaluation for fixed dimensions."""
    Op = ops.cls(name)
    d = ops.columns(name, r, m)
    c.same(Op.operator_dimension(r, m), d, "operator_dimension")
    p = ops.DEGREE.get(name, 1)
    pts = ops.lattice(r, max(p, 1)) + [gen(r, tag=210)]
    us = [None] if name not in ops.HAS_INPUT else (
        [np.eye(m)[j] for j in range(m)] + [np.zeros(m), gen(m, tag=211)])
    units = [(i, j) for i in range(r) for j in range(d)]
    for i, j in units + [None] if False else units:
        E = np.zeros((r, d))
        E[i, j] = 1.0
        op = Op(E[:, 0].copy() if name == "ConstantOperator" else E.copy())
        for q in pts:
            for u in us:
                check_point(c, op, name, E, q, u, f"unit {i},{j} at {q},{u}")
        c.state(i, j)
    E = ops.entries2d(ops.entries_of(name, r, m))
    op = Op(ops.entries_of(name, r, m))
    for q in pts:
        for u in us:
            check_point(c, op, name, E, q, u, f"generic at {q},{u}")
    c.same(op.state_dimension, r, "state_dimension")
    if name in ops.HAS_INPUT:
        c.same(op.input_dimension, m, "input_dimension")
    c.same(tuple(op.shape), np.shape(op.entries), "shape")
    c.state("generic")
    c.trace(name, r, m, f"{len(units)} unit entries x {len(pts)} points")
    c.outcome(E)


def batch_case(c, name, r, m):
    """Batches, data blocks, accepted shapes, layouts, integer data."""
    Op = ops.cls(name)
    E = ops.entries2d(ops.entries_of(name, r, m, 1))
    op = Op(ops.entries_of(name, r, m, 1))
    inp = name in ops.HAS_INPUT
    for k in (1, 2, 5):
        for Qbase, Ubase, kind in (
            (gen(r, k, tag=220), gen(m, k, tag=221), "float"),
            (np.arange(r * k).reshape(r, k) - 2,
             np.arange(m * k).reshape(m, k) - 1, "int"),
            (np.zeros((r, k)), np.zeros((m, k)), "zero"),
        ):
            want = np.column_stack([
                E @ ops.data_vector(name, Qbase[:, j], Ubase[:, j])
                for j in range(k)])
            block = np.column_stack([
                ops.data_vector(name, Qbase[:, j], Ubase[:, j])
                for j in range(k)])
            for (ql, Q), (ul, U) in itertools.product(
                layouts(Qbase) if kind == "float" else [("C", Qbase)],
                layouts(Ubase) if kind == "float" else [("C", Ubase)],
            ):
                if ql != ul and ql != "C":
                    continue
                c.op("apply batch")
                keep, keepu = Q.copy(), U.copy()
                got = op.apply(Q, U if inp else None)
                c.close(np.asarray(got), want, "batch", 1e-11,
                        f"{kind} k={k} {ql}/{ul}")
                c.op("datablock")
                got = Op.datablock(Q, U if inp else None)
                c.close(np.asarray(got), block, "datablock", 1e-11,
                        f"{kind} k={k}")
                c.close(E @ got, want, "entries@datablock", 1e-11)
                c.same(Q, keep, "mutates")
                c.same(U, keepu, "mutates")
            # single snapshots
            for j in range(k):
                c.op("apply single")
                got = op.apply(Qbase[:, j], Ubase[:, j] if inp else None)
                c.close(np.asarray(got), want[:, j], "single", 1e-11, kind)
            # one-dimensional shorthands
            if r == 1:
                for q1 in ([Qbase[0]] if k > 1 else [Qbase[0], ]):
                    if not inp:
                        c.op("apply (k,)")
                        c.close(np.asarray(op.apply(q1)), want[0],
                                "r=1 shorthand", 1e-11, kind)
                        c.close(np.asarray(Op.datablock(q1)), block,
                                "r=1 datablock", 1e-11, kind)
                    elif m == 1:
                        c.op("apply (k,),(k,)")
                        c.close(np.asarray(op.apply(q1, Ubase[0])), want[0],
                                "r=m=1 shorthand", 1e-11, kind)
                    if inp:
                        c.close(np.asarray(Op.datablock(
                            q1, Ubase[0] if m == 1 else Ubase)), block,
                            "r=1 datablock", 1e-11, kind)
                x, uu = Qbase[0, 0], Ubase[0, 0]
                c.op("apply scalar")
                got = op.apply(x, uu if m == 1 else Ubase[:, 0]) if inp \
                    else op.apply(x)
                c.close(np.ravel(got), want[:, 0], "scalar", 1e-11, kind)
            elif m == 1 and inp:
                c.op("apply m=1 shorthand")
                got = op.apply(Qbase, Ubase[0])
                c.close(np.asarray(got), want, "m=1 shorthand", 1e-11,
                        f"{kind} k={k}") if k > 1 else None
                c.close(np.asarray(op.apply(Qbase[:, 0], Ubase[0, 0])),
                        want[:, 0], "m=1 scalar input", 1e-11)
                c.close(np.asarray(Op.datablock(Qbase, Ubase[0])), block,
                        "m=1 datablock", 1e-11)
            c.state(k, kind)
            c.trace(name, r, m, k, kind)


def sparse_case(c, name, r, m):
    Op = ops.cls(name)
    E = ops.entries2d(ops.entries_of(name, r, m, 2)).copy()
    E[0, -1] = 0
    forms = [sparse.csr_array, sparse.csc_array, sparse.coo_array,
             sparse.csr_matrix, sparse.dok_array]
    for form in forms:
        c.op(form.__name__)
        op = Op(form(E))
        for k in (1, 3):
            Q, U = gen(r, k, tag=222), gen(m, k, tag=223)
            u = U if name in ops.HAS_INPUT else None
            want = np.column_stack([E @ ops.data_vector(
                name, Q[:, j], U[:, j]) for j in range(k)])
            c.close(np.asarray(op.apply(Q, u)), want, "sparse-batch", 1e-11)
            c.close(np.asarray(op.apply(
                Q[:, 0], None if u is None else U[:, 0])), want[:, 0],
                "sparse-single", 1e-11)
        if name == "LinearOperator":
            J = op.jacobian(gen(r, tag=224))
            J = J.toarray() if sparse.issparse(J) else J
            c.close(J, E, "sparse-jacobian")
        c.state(form.__name__)
        c.trace(form.__name__)


def full_tensor_case(c, name, r):
    """Entries given on the full Kronecker product; compress / expand."""
    Op, p = ops.cls(name), ops.DEGREE[name]
    full = list(itertools.product(range(r), repeat=p))
    comp = ops.multi_indices(r, p)
    # every unit column of the full matrix
    for col in range(len(full)):
        H = np.zeros((r, len(full)))
        H[col % r, col] = 1.0
        c.op("compress_entries")
        Hc = Op.compress_entries(H)
        want = np.zeros((r, len(comp)))
        want[col % r, comp.index(tuple(sorted(full[col], reverse=True)))] = 1
        c.close(Hc, want, "compress")
        c.close(Op.expand_entries(Hc) @ np.ones(len(full)),
                H @ np.ones(len(full)), "expand-sum")
        c.state("full", col)
    for col in range(len(comp)):
        Hc = np.zeros((1, len(comp)))
        Hc[0, col] = 1.0
        c.op("expand_entries")
        H = Op.expand_entries(Hc)
        perms = [f for f in full
                 if tuple(sorted(f, reverse=True)) == comp[col]]
        want = np.zeros((1, len(full)))
        for f in perms:
            want[0, full.index(f)] = 1 / len(perms)
        c.close(H, want, "expand")
        c.close(Op.compress_entries(H), Hc, "compress(expand)")
        c.state("comp", col)
    c.same(np.array(Op.ckron_indices(r)).tolist(), [list(x) for x in comp],
           "ckron_indices")
    H = gen(r, len(full), tag=230)
    keep = H.copy()
    Q = gen(r, 3, tag=231)
    for form in (H, H.reshape((r,) * (p + 1))):
        c.op("set full entries")
        op = Op(form)
        for j in range(3):
            q = Q[:, j]
            kron = np.array([np.prod([q[i] for i in f]) for f in full])
            c.close(op.apply(q), H @ kron, "full-apply", 1e-11)
            c.close(op.apply(Q)[:, j], H @ kron, "full-apply-batch", 1e-11)
            c.close(Op.ckron(q), [ops.monomial(q, i) for i in comp],
                    "ckron", 1e-12)
        c.same(tuple(op.shape), (r, len(comp)), "full-shape")
    c.same(H, keep, "entries-mutated")
    # rows of another height (as used by data fitting)
    G = gen(2, len(full), tag=232)
    q = Q[:, 0]
    kron = np.array([np.prod([q[i] for i in f]) for f in full])
    c.close(Op.compress_entries(G) @ Op.ckron(q), G @ kron, "compress-rect",
            1e-11)
    c.trace(name, r)


def dims_case(c, name):
    """expand/compress agree on the dimension for larger r."""
    Op, p = ops.cls(name), ops.DEGREE[name]
    top = {2: 12, 3: 8, 4: 6}[p]
    for r in range(1, top + 1):
        c.op("compress(expand) r")
        comp = len(ops.multi_indices(r, p))
        c.same(Op.operator_dimension(r), comp, "operator_dimension")
        Hc = gen(1, comp, tag=233)
        H = Op.expand_entries(Hc)
        c.same(H.shape, (1, r**p), "expand-shape")
        c.close(Op.compress_entries(H), Hc, "compress(expand)", 1e-12)
        q = gen(r, tag=234)
        c.close(Op.ckron(q), [ops.monomial(q, i)
                              for i in ops.multi_indices(r, p)], "ckron")
        c.state(r)
    c.trace(name, "r up to", top)


def polynomial_case(c, p, r):
    """The operator of arbitrary polynomial order."""
    comp = ops.multi_indices(r, p)
    P = opinf.operators.PolynomialOperator
    c.same(P(p).operator_dimension(r), len(comp), "operator_dimension")
    for i in range(len(comp)):
        E = np.zeros((r, len(comp)))
        E[i % r, i] = 1.0
        op = P(p)
        op.set_entries(E)
        for q in ops.lattice(r, max(p, 1)) + [gen(r, tag=240)]:
            c.op("apply")
            want = E @ np.array([ops.monomial(q, x) for x in comp])
            c.close(op.apply(q), want, "poly-apply", 1e-11)
            grad = np.array([[sum(
                ops.monomial(q, x[:s] + x[s + 1:])
                for s in range(p) if x[s] == ell) for ell in range(r)]
                for x in comp]).reshape((len(comp), r))
            c.op("jacobian")
            c.close(np.zeros((r, r)) + op.jacobian(q), E @ grad,
                    "poly-jacobian", 1e-11)
        c.state(i)
    E = gen(r, len(comp), tag=241)
    op = P(p, E)
    Q = gen(r, 4, tag=242)
    want = np.column_stack([E @ [ops.monomial(Q[:, j], x) for x in comp]
                            for j in range(4)])
    c.op("batch")
    c.close(op.apply(Q), want, "poly-batch", 1e-11)
    c.close(E @ op.datablock(Q), want, "poly-datablock", 1e-11)
    twin = op.copy()
    c.op("copy, save, load")
    c.close(twin.apply(Q), want, "poly-copy", 1e-11)
    f = c.path("p.h5")
    op.save(f, overwrite=True)
    c.close(P.load(f).apply(Q), want, "poly-load", 1e-11)
    c.trace("polynomial", p, r)


def history_case(c, name, depth):
    """Stale intermediate data: breadth-first over entry changes."""
    Op = ops.cls(name)
    dims = {"A": (2, 1), "B": (3, 2), "C": (2, 1)}
    tags = {"A": 5, "B": 6, "C": 7}
    alphabet = ["setA", "setB", "setC", "assignB", "assignC", "del",
                "eval", "jac", "copy", "load"]

    def build(hist):
        op, cur = Op(), None
        for i, ev in enumerate(hist):
            c.op(ev)
            if ev[:3] == "set":
                cur = ev[3]
                op.set_entries(ops.entries_of(name, *dims[cur], tags[cur]))
            elif ev[:6] == "assign":
                cur = ev[6]
                op.entries = ops.entries_of(name, *dims[cur], tags[cur])
            elif ev == "del":
                cur = None
                del op.entries
            elif ev == "copy":
                op = op.copy()
            elif ev == "load":
                f = c.path(f"op{i}.h5")
                op.save(f, overwrite=True)
                op = Op.load(f)
            elif cur is not None:
                r, m = dims[cur]
                q, u = gen(r, tag=250), gen(m, tag=251)
                (op.apply if ev == "eval" else op.jacobian)(q, u)
        return op, cur

    frontier = collections.deque([()])
    seen = set()
    while frontier:
        hist = frontier.popleft()
        for ev in alphabet:
            h = hist + (ev,)
            with c.sub(";".join(h)):
                op, cur = build(h)
                if cur is None:
                    c.check(op.entries is None, "deleted", str(h))
                    c.check(op.state_dimension is None, "deleted")
                    c.check(op.shape is None, "deleted")
                    c.raises(AttributeError,
                             lambda: op.apply(np.ones(2), np.ones(1)),
                             "apply-without-entries", str(h))
                    c.raises(AttributeError,
                             lambda: op.jacobian(np.ones(2), np.ones(1)),
                             "jacobian-without-entries", str(h))
                else:
                    r, m = dims[cur]
                    raw = ops.entries_of(name, r, m, tags[cur])
                    E = ops.entries2d(raw)
                    c.close(op.entries, raw, "entries", 1e-14)
                    for j in range(2):
                        check_point(c, op, name, E, gen(r, tag=252 + j),
                                    gen(m, tag=254 + j), str(h))
                    check_point(c, op, name, E, np.ones(r), np.ones(m), "")
                    c.same(op.state_dimension, r, "state_dimension")
                c.trace(*h)
                c.state(h)
                c.outcome(cur)
            # states: current entries, entries of the last evaluation
            key = canon((cur, tuple(h[-2:])))
            if len(h) < depth and key not in seen:
                seen.add(key)
                frontier.append(h)


def add_case(c, name):
    Op = ops.cls(name)
    for r, m in ((1, 1), (2, 2), (3, 1)):
        A, B = (ops.entries_of(name, r, m, t) for t in (8, 9))
        c.op("+")
        s = Op(A.copy()) + Op(B.copy())
        c.check(type(s) is Op, "sum-type")
        c.close(s.entries, A + B, "sum-entries", 1e-14)
        c.check(Op(A.copy()) == Op(A.copy()), "eq")
        c.check(not (Op(A.copy()) == Op(B.copy())), "eq")
        q, u = gen(r, tag=260), gen(m, tag=261)
        c.close(s.apply(q, u), Op(A).apply(q, u) + Op(B).apply(q, u),
                "sum-apply", 1e-12)
        c.same(np.asarray(s[0]), s.entries[0], "getitem")
        c.state(r, m)
        c.trace(name, r, m)


def cases(tier):
    out = []
    quick = tier == "quick"
    for name in ops.NONPAR:
        rs = (1, 2, 3) if quick else (1, 2, 3, 4)
        ms = (1, 2, 3) if name in ops.HAS_INPUT else (1,)
        for r in rs:
            for m in ms:
                out.append((f"value {name} r={r} m={m}", value_case,
                            (name, r, m)))
                out.append((f"batch {name} r={r} m={m}", batch_case,
                            (name, r, m)))
        out.append((f"history {name}", history_case,
                    (name, 3 if quick else 4)))
        out.append((f"sum {name}", add_case, (name,)))
    for r in (2, 3):
        for name in ("ConstantOperator", "LinearOperator"):
            out.append((f"sparse {name} {r}", sparse_case, (name, r, 1)))
        for m in (2, 3):
            out.append((f"sparse InputOperator {r} {m}", sparse_case,
                        ("InputOperator", r, m)))
    for name in ("QuadraticOperator", "CubicOperator", "QuarticOperator"):
        for r in ((1, 2, 3) if quick else (1, 2, 3, 4)):
            out.append((f"full {name} r={r}", full_tensor_case, (name, r)))
        out.append((f"dims {name}", dims_case, (name,)))
    for p in range(0, 5 if quick else 6):
        for r in (1, 2, 3):
            out.append((f"poly p={p} r={r}", polynomial_case, (p, r)))
    return out
