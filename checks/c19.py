"""C19: lifting maps are inverted and differentiated consistently."""

import itertools

import numpy as np

import opinf
from mc.data import gen, layouts

L = opinf.lift
ORDERS = (-2, -1, 0, 0.5, 1, 1.5, 2, 3)

BOUNDS = {
    "orders": "all sequences over (-3), -2, -1, 0, 0.5, 1, 1.5, 2, 3, (5) of "
              "length 1..3 (thorough 4), with repetitions",
    "states": "n in 1..3, k in 1..4; positive, negative where an odd power "
              "determines the state, zero where no order is negative; "
              "integer states; memory layouts; one-dimensional states",
    "ddts": "unit directions (linear) and generic data",
    "histories": "all sequences of <= 3 assignments of the orders, some of "
                 "them rejected, each followed by every operation",
}
ASSUMPTIONS = ["Entries are lifted one by one, so a set of state values "
               "covering signs, zero and magnitudes is used in every row."]

POS = np.array([[0.25, 1.0, 2.0, 7.5], [3.0, 0.5, 1e-2, 1.25],
                [1.0, 4.0, 0.75, 20.0]])
SIGN = np.array([[-1.0, 1.0, -1.0, -1.0], [1.0, -1.0, -1.0, 1.0],
                 [-1.0, -1.0, 1.0, -1.0]])


def power(q, p):
    return np.array([[float(x) ** p for x in row] for row in q])


def slope(q, dq, p):
    if p == 0:
        return np.zeros(np.shape(q))
    out = np.zeros(np.shape(q))
    for i, row in enumerate(q):
        for j, x in enumerate(row):
            x = float(x)
            if p == 1:
                out[i, j] = dq[i, j]
            else:
                out[i, j] = p * x ** (p - 1) * dq[i, j]
    return out


def isint(p):
    return float(p) == int(p)


def odd(p):
    return isint(p) and int(p) % 2 == 1


def domains(orders):
    yield "positive", POS
    if all(isint(p) for p in orders) and any(odd(p) for p in orders):
        yield "signed", POS * SIGN
        if 1 in orders and min(orders) >= 0:
            Z = POS * SIGN
            Z[0, 0] = Z[1, 2] = Z[2, 3] = 0.0
            yield "zero", Z
    if min(orders) >= 1 or (
            min(orders) >= 0 and max(orders) >= 1 and 0.5 not in orders):
        Z = POS.copy()
        Z[0, 0] = Z[1, 1] = 0.0
        yield "nonneg", Z


def check_lifter(c, lifter, orders, n, k, Q):
    Q = np.array(Q[:n, :k])
    lifted = np.concatenate([power(Q, p) for p in orders])
    got = lifter.lift(Q)
    c.op("lift")
    c.close(got, lifted, "lift", 1e-12)
    c.check(lifter.num_variables == len(orders), "num_variables")
    dQ = gen(n, k, tag=4)
    want = np.concatenate([slope(Q, dQ, p) for p in orders])
    c.close(lifter.lift_ddts(Q, dQ), want, "chain rule", 1e-12)
    c.op("lift_ddts")
    for i in range(n):
        e = np.zeros((n, k))
        e[i, :] = 1
        want = np.concatenate([slope(Q, e, p) for p in orders])
        c.close(lifter.lift_ddts(Q, e), want, "chain rule (unit)", 1e-12)
        c.op("lift_ddts")
    if not any(orders):
        c.raises(ZeroDivisionError, lambda: lifter.unlift(got),
                 "not invertible")
        return
    back = lifter.unlift(got)
    c.op("unlift")
    c.close(back / np.maximum(np.abs(Q), 1e-3),
            Q / np.maximum(np.abs(Q), 1e-3), "unlift(lift(q))", 1e-10)
    if 1 in orders:
        c.same(back, Q, "unlift(lift(q)) exactly")
    c.state(orders, n, k, Q)


def orders_case(c, first, length):
    for rest in itertools.product(ORDERS, repeat=length - 1):
        orders = (first,) + rest
        with c.sub(str(orders).replace(" ", "")):
            lifter = L.PolynomialLifter(orders)
            c.check(tuple(lifter.orders) == orders, "orders")
            for dname, Q in domains(orders):
                for n, k in (((1, 4), (2, 1), (3, 4)) if length <= 2
                             else ((2, 4),)):
                    check_lifter(c, lifter, orders, n, k, Q)
            # layouts and one-dimensional states
            Q, dQ = POS[:2], gen(2, 4)
            want = lifter.lift(Q), lifter.lift_ddts(Q, dQ)
            for lname, A in layouts(Q):
                c.close(lifter.lift(A), want[0], f"lift {lname}", 1e-14)
                c.close(lifter.lift_ddts(A, dQ), want[1],
                        f"lift_ddts {lname}", 1e-14)
                c.op(lname, 2)
            for j in range(2):
                c.close(lifter.lift(Q[:, j]), want[0][:, j], "1-D", 1e-14)
                c.close(lifter.lift_ddts(Q[:, j], dQ[:, j]),
                        want[1][:, j], "1-D ddts", 1e-14)
                if any(orders):
                    c.close(lifter.unlift(want[0][:, j]), Q[:, j],
                            "1-D unlift", 1e-10)
                c.op("1-D", 3)
            # integer states
            if all(isint(p) and p >= 0 for p in orders):
                Qi = np.array([[1, 2, 5], [3, 7, 4]])
                c.close(lifter.lift(Qi), np.concatenate(
                    [power(Qi, p) for p in orders]), "integers", 1e-12)
                d = gen(2, 3)
                c.close(lifter.lift_ddts(Qi, d), np.concatenate(
                    [slope(Qi, d, p) for p in orders]), "integer ddts",
                    1e-12)
                if any(orders):
                    c.close(lifter.unlift(lifter.lift(Qi)), Qi * 1.0,
                            "integer unlift", 1e-10)
                c.op("integers", 3)
            c.trace(orders)


FORMS = {
    "list": lambda o: list(o),
    "array": lambda o: np.array(o),
    "tuple": lambda o: tuple(o),
    "floats": lambda o: tuple(float(p) for p in o),
}


def forms_case(c):
    for length in (1, 2):
        for orders in itertools.product(ORDERS, repeat=length):
            if not any(orders):
                continue
            for fname, form in FORMS.items():
                with c.sub(f"{orders}/{fname}".replace(" ", "")):
                    lifter = L.PolynomialLifter(form(orders))
                    check_lifter(c, lifter, orders, 2, 3, POS)
                    c.trace(fname, orders)
    for p in ORDERS + (-3, 4, 5, 1 / 3, -0.5, np.int64(2), np.float64(0.5)):
        if p == 0:
            continue
        with c.sub(f"scalar/{p}"):
            lifter = L.PolynomialLifter(p)
            check_lifter(c, lifter, (p,), 2, 3, POS)
            c.trace("scalar", p)
    for bad in ("ab", (1, "2"), (None, 1), [(1, 2)]):
        with c.sub(f"bad/{bad}".replace(" ", "")):
            c.raises(TypeError, lambda: L.PolynomialLifter(bad), "bad orders")


def history_case(c, h):
    """Assigning new orders; rejected assignments change nothing."""
    lifter = L.PolynomialLifter((1, 2))
    cur = (1, 2)
    for a in h:
        c.op(f"orders={a}")
        if a in ("bad", (2, "x")):
            c.raises(TypeError, lambda: setattr(lifter, "orders", a), "bad")
        else:
            lifter.orders = a
            cur = a if isinstance(a, tuple) else (a,)
        check_lifter(c, lifter, cur, 2, 3, POS)
        for _ in range(2):        # repeated use changes nothing
            check_lifter(c, lifter, cur, 3, 4, POS)
    c.trace(*h)


def quadratic_case(c, n, k):
    for Q in (POS[:n, :k], (POS * SIGN)[:n, :k], np.zeros((n, k))):
        lifter = L.QuadraticLifter()
        got = lifter.lift(Q)
        c.close(got, np.concatenate((Q, power(Q, 2))), "lift", 1e-13)
        c.same(lifter.unlift(got), Q, "unlift")
        for dQ in [gen(n, k)] + [np.eye(n, k, i) for i in range(-n + 1, k)]:
            c.close(lifter.lift_ddts(Q, dQ), np.concatenate(
                (dQ, slope(Q, dQ, 2))), "chain rule", 1e-13)
            c.op("lift_ddts")
        c.close(L.QuadraticLifter.lift(Q), got, "static", 0)
        c.close(lifter.lift(Q[:, 0]), got[:, 0], "1-D", 1e-14)
        c.same(lifter.unlift(got[:, 0]), Q[:, 0], "1-D unlift")
        p = L.PolynomialLifter((1, 2))
        c.close(p.lift(Q), got, "same as polynomial", 1e-13)
        c.close(p.lift_ddts(Q, Q + 1), lifter.lift_ddts(Q, Q + 1),
                "same ddts as polynomial", 1e-13)
        Qi = (Q * 4).astype(int)
        c.close(lifter.unlift(lifter.lift(Qi)), Qi, "integers", 0)
        c.close(lifter.lift_ddts(Qi, gen(n, k)), np.concatenate(
            (gen(n, k), 2 * Qi * gen(n, k))), "integer ddts", 1e-13)
        c.op("quadratic", 8)
        c.state(n, k, Q)
    c.trace("quadratic", n, k)


class Broken(L.LifterTemplate):
    """A user lifter with one selectable defect."""

    def __init__(self, what):
        self.what = what

    def lift(self, q):
        if self.what == "columns":
            return np.concatenate((q, q**3))[:, 1:]
        return np.concatenate((q, q**3))

    def lift_ddts(self, q, dq):
        if self.what == "no ddts":
            return NotImplemented
        if self.what == "ddts":
            return np.concatenate((dq, 2 * q**2 * dq))
        if self.what == "ddts shape":
            return dq
        return np.concatenate((dq, 3 * q**2 * dq))

    def unlift(self, x):
        q = x[:x.shape[0] // 2]
        if self.what == "unlift":
            return q + 1e-2
        if self.what == "unlift shape":
            return x
        return q


def verify_case(c, what, n):
    t = np.linspace(0, 1, 1500)
    Q = np.array([1.5 + np.sin((i + 1) * t) for i in range(n)])
    lifter = Broken(what)
    c.op(f"verify {what}")
    if what in ("", "no ddts"):
        lifter.verify(Q, t)
        if what == "":
            c.raises(ValueError, lambda: lifter.verify(Q), "no t")
        else:
            lifter.verify(Q)
    else:
        c.raises(opinf.errors.VerificationError, lambda: lifter.verify(Q, t),
                 "defect not reported", what)
    c.state(what, n)
    c.trace(what)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for length in range(1, 5 if deep else 4):
        for p in ORDERS:
            out.append((f"orders/{length}/{p}", orders_case, (p, length)))
    out.append(("forms", forms_case, ()))
    alpha = [2, 0.5, (1, 2), (2, 1, 3), (-1, 3), "bad", (2, "x")]
    for n in range(1, 5 if deep else 4):
        for h in itertools.product(alpha, repeat=n):
            out.append((f"history/{'-'.join(map(str, h))}".replace(" ", ""),
                        history_case, (h,)))
    for n in (1, 2, 3):
        for k in (1, 2, 4):
            out.append((f"quadratic/{n}/{k}", quadratic_case, (n, k)))
    for what in ("", "no ddts", "columns", "unlift", "unlift shape", "ddts",
                 "ddts shape"):
        for n in (1, 3):
            out.append((f"verify/{what or 'ok'}/{n}".replace(" ", "_"),
                        verify_case, (what, n)))
    return out
