"""Reference model of operator inference with monolithic models."""

import numpy as np

import opinf
from mc import ops
from mc.data import gen

ABBR = {"c": "ConstantOperator", "A": "LinearOperator",
        "H": "QuadraticOperator", "G": "CubicOperator",
        "B": "InputOperator", "N": "StateInputOperator",
        "Q": "QuarticOperator", "P": "CubicOperator"}


def has_inputs(form):
    return any(ABBR[k] in ops.HAS_INPUT for k in form)


def make_op(k, entries=None):
    """Operator of abbreviation k; P is the cubic PolynomialOperator."""
    if k == "P":
        op = opinf.operators.PolynomialOperator(3)
        if entries is not None:
            op.set_entries(entries)
        return op
    return ops.cls(ABBR[k])(entries)


def data(k, Q, U):
    """Columns d(q_j, u_j)."""
    Q = np.atleast_2d(Q)
    Us = np.atleast_2d(U).T if U is not None else [None] * Q.shape[1]
    return np.column_stack([ops.data_vector(ABBR[k], q, u)
                            for q, u in zip(Q.T, Us)])


def truth(k, r, m, tag=0):
    """2-D entries."""
    return ops.entries2d(ops.entries_of(ABBR[k], r, m, tag))


def flat(k, E):
    """Entries in the form they are passed to an operator."""
    return E[:, 0].copy() if k == "c" else E.copy()


def evaluate(form, entries, Q, U):
    """Sum of the operators at the columns of Q, U."""
    return sum(E @ data(k, Q, U) for k, E in zip(form, entries))


def jac(form, entries, q, u):
    return sum(E @ ops.data_gradient(ABBR[k], q, u)
               for k, E in zip(form, entries))


def lstsq(D, Z, reg=None):
    """Rows minimize |D x - z|^2 + |diag(reg) x|^2."""
    d = D.shape[1]
    if reg is not None:
        D = np.vstack((D, np.diag(np.broadcast_to(reg, (d,)))))
        Z = np.hstack((Z, np.zeros((Z.shape[0], d))))
    return np.linalg.lstsq(D, Z.T, rcond=None)[0].T


def ref_fit(form, known, Q, Z, U, reg=None):
    """Entries of every operator: known[k] is None for the unknown ones."""
    D = []
    Z = np.array(Z, dtype=float)
    for k, E in zip(form, known):
        if E is None:
            D.append(data(k, Q, U).T)
        else:
            Z = Z - E @ data(k, Q, U)
    O = lstsq(np.hstack(D), Z, reg)
    out, i = [], 0
    for k, E in zip(form, known):
        if E is None:
            n = ops.columns(ABBR[k], Q.shape[0], 0 if U is None
                            else U.shape[0])
            out.append(O[:, i:i + n])
            i += n
        else:
            out.append(E)
    return out
