"""Fixed, generic data (constants of the harness, independent of the seed)."""

import numpy as np


def gen(*shape, tag=0, scale=1.0, offset=0.0):
    """Generic entries of order one; the same on every run."""
    rng = np.random.default_rng(90210 + 7919 * tag + sum(
        (i + 1) * 101 * s for i, s in enumerate(shape)))
    return offset + scale * rng.uniform(-1, 1, size=shape)


def spd(n, tag=0):
    A = gen(n, n, tag=tag)
    return A @ A.T + n * np.eye(n)


def layouts(A):
    """The same array in different memory layouts (name, array)."""
    yield "C", np.array(A, order="C")
    if A.ndim == 2:
        yield "F", np.array(A, order="F")
        big = np.full((2 * A.shape[0], A.shape[1] + 2), 7.5)
        view = big[::2, 1:-1]
        view[...] = A
        yield "view", view
    else:
        big = np.full(2 * A.shape[0], 7.5)
        view = big[::2]
        view[...] = A
        yield "view", view
