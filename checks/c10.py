"""C10: copies are equivalent to the original and independent of it."""

import numpy as np
import scipy.sparse as sparse

from checks.c08 import explore
from mc import objs

BOUNDS = {
    "objects": "every operator, model, solver and basis of mc/objs.py",
    "states": "breadth-first over all histories up to length 2 (thorough 3) "
    "of the events of the object, distinct states once",
    "two-object histories": "after copying: every event and every in-place "
    "change of stored entries, options and lists on either twin, then every event on the other; "
    "the observation of the twin that was not changed stays bitwise the same",
}


def arrays_of(o, depth=0):
    """Arrays stored in the public attributes of an object."""
    if depth > 3:
        return
    for name in ("entries", "regularizer", "weights", "leftvecs",
                 "training_parameters"):
        x = objs.attempt(getattr, o, name)
        for a in (x if isinstance(x, (list, tuple)) else [x]):
            if isinstance(a, np.ndarray) or sparse.issparse(a):
                yield a
    inner = list(getattr(o, "operators", ()) or ())
    inner += list(getattr(o, "bases", ()) or ())
    s = getattr(o, "solver", None)
    inner += [s] if s is not None else []
    for i in inner:
        yield from arrays_of(i, depth + 1)


def containers_of(o, path="", depth=0):
    """Dictionaries and lists of numbers in the public attributes."""
    if depth > 3:
        return
    for name in sorted(dir(type(o))):
        if name.startswith("_") or not isinstance(
                getattr(type(o), name, None), property):
            continue
        x = objs.attempt(getattr, o, name)
        if isinstance(x, dict):
            yield f"{path}.{name}", x
        elif isinstance(x, list) and x and all(
                np.isscalar(v) or v is None for v in x):
            yield f"{path}.{name}", x
    for i, op in enumerate(getattr(o, "operators", ()) or ()):
        yield from containers_of(op, f"{path}.operators[{i}]", depth + 1)
    for i, b in enumerate(getattr(o, "bases", ()) or ()):
        yield from containers_of(b, f"{path}.bases[{i}]", depth + 1)
    if getattr(o, "solver", None) is not None:
        yield from containers_of(o.solver, path + ".solver", depth + 1)


def contents(o):
    return [(p, repr(x)) for p, x in containers_of(o)]


def spoil_containers(o):
    for _, x in containers_of(o):
        if isinstance(x, dict):
            for k, v in list(x.items()):
                x[k] = v + 0.125 if isinstance(v, float) else "other"
            x["new"] = 1
        else:
            x.append(x[0])


def spoil(o, V):
    n = 0
    for a in arrays_of(o):
        try:
            a = a.data if sparse.issparse(a) else a
            if a.dtype.kind == "f" and a.flags.writeable:
                a += 0.125
                n += 1
        except (ValueError, AttributeError):
            pass
    return n


def state(c, spec, hist, before, n):
    events = list(spec.events) + [("in place", spoil)]

    def pair():
        V = spec.vault()
        o, _ = spec.build(hist, V)
        t = o.copy()
        c.op("copy")
        return V, o, t

    V, o, t = pair()
    c.check(t is not o and type(t) is type(o), "type of the copy",
            f"{type(t)} / {type(o)}")
    if objs.has_eq(o):
        c.check(t == o and o == t and not (t != o), "compares equal")
    for who, x in (("copied", t), ("original", o)):
        now = spec.observe(x, V)
        c.op(n=len(now))
        if (m := objs.diff(now, before, spec.tol)):
            c.fail(f"{who} object differs", m)
    for side in ("copy", "original"):
        V, o, t = pair()
        x, y = (t, o) if side == "copy" else (o, t)
        ref, lists = spec.observe(y, V), contents(y)
        spoil_containers(x)
        c.op(f"containers of the {side} changed", n=len(lists))
        c.check(contents(y) == lists, "not independent",
                f"containers of the {side}: {contents(y)}, not {lists}")
        if (m := objs.diff(spec.observe(y, V), ref, 0)):
            c.fail("not independent", f"containers of the {side}: {m}")
    for lab, fn in events:
        for side in ("copy", "original"):
            V, o, t = pair()
            x, y = (t, o) if side == "copy" else (o, t)
            ref = spec.observe(y, V)
            ref = spec.observe(y, V)
            c.op(f"{lab} on the {side}")
            rx = objs.norm(objs.attempt(fn, x, V), x)
            if (m := objs.diff(spec.observe(y, V), ref, 0)):
                c.fail("not independent", f"{lab} on the {side}: {m}")
            if lab == "in place":
                continue
            # The same event on the twin has the same effect.
            ry = objs.norm(objs.attempt(fn, y, V), y)
            m = objs.same(rx, ry, spec.tol)
            if not m and not isinstance(rx, objs.Raised):
                m = objs.diff(spec.observe(x, V), spec.observe(y, V),
                              spec.tol)
            if m:
                c.fail("later behaviour differs", f"{lab}: {m}")
            # ... and another event on the first does not change the twin.
            ref = spec.observe(y, V)
            for lab2, fn2 in spec.events:
                c.op(f"{lab}, {lab}, {lab2}")
                objs.attempt(fn2, x, V)
                if (m := objs.diff(spec.observe(y, V), ref, 0)):
                    c.fail("not independent", f"{lab2} after {lab}: {m}")
    c.trace(objs.hist_name(hist))


def case(c, spec, depth):
    explore(c, spec, depth, state)


def cases(tier):
    depth = 1 if tier == "quick" else 2
    return [(s.name, case, (s, depth)) for s in objs.menu(tier) if s.copy]
