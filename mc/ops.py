"""Operators: enumerations and an independent reference evaluation."""

import itertools

import numpy as np

import opinf
from mc.data import gen

NONPAR = ("ConstantOperator", "LinearOperator", "QuadraticOperator",
          "CubicOperator", "QuarticOperator", "InputOperator",
          "StateInputOperator")
DEGREE = {"ConstantOperator": 0, "LinearOperator": 1, "QuadraticOperator": 2,
          "CubicOperator": 3, "QuarticOperator": 4}
HAS_INPUT = ("InputOperator", "StateInputOperator")


def cls(name):
    return getattr(opinf.operators, name)


def multi_indices(r, p):
    """Monomials of degree p in the documented (nested) order."""
    if p == 0:
        return [()]
    return [(i, *rest) for i in range(r) for rest in multi_indices(i + 1,
                                                                   p - 1)]


def monomial(q, idx):
    out = 1.0
    for i in idx:
        out = out * q[i]
    return out


def columns(name, r, m):
    """Number of columns of the (compressed) entries."""
    if name in DEGREE:
        return len(multi_indices(r, DEGREE[name]))
    return m if name == "InputOperator" else r * m


def data_vector(name, q, u):
    """The vector d(q, u) with operator(q, u) = entries @ d(q, u)."""
    q = np.atleast_1d(np.asarray(q, dtype=float))
    if name in DEGREE:
        return np.array([monomial(q, idx)
                         for idx in multi_indices(len(q), DEGREE[name])])
    u = np.atleast_1d(np.asarray(u, dtype=float))
    if name == "InputOperator":
        return u
    return np.array([um * qi for um in u for qi in q])


def data_gradient(name, q, u):
    """d/dq of data_vector: (columns, r)."""
    q = np.atleast_1d(np.asarray(q, dtype=float))
    r = len(q)
    if name in DEGREE:
        rows = []
        for idx in multi_indices(r, DEGREE[name]):
            row = []
            for ell in range(r):
                s = 0.0
                for pos, i in enumerate(idx):
                    if i == ell:
                        s += monomial(q, idx[:pos] + idx[pos + 1:])
                row.append(s)
            rows.append(row)
        return np.array(rows).reshape((len(rows), r))
    u = np.atleast_1d(np.asarray(u, dtype=float))
    if name == "InputOperator":
        return np.zeros((len(u), r))
    return np.array([[um * (i == ell) for ell in range(r)]
                     for um in u for i in range(r)])


def entries_of(name, r, m, tag=0):
    d = columns(name, r, m)
    E = gen(r, d, tag=200 + tag)
    return E[:, 0].copy() if name == "ConstantOperator" else E


def entries2d(E):
    E = np.asarray(E.toarray() if hasattr(E, "toarray") else E)
    return E.reshape((-1, 1)) if E.ndim == 1 else E


def lattice(r, p):
    """Points that determine every polynomial of total degree <= p."""
    return [np.array(x, dtype=float)
            for x in itertools.product(range(p + 1), repeat=r)
            if sum(x) <= p]
