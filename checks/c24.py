"""C24: out-of-order use and misaligned data are rejected."""

import numpy as np

from checks.c08 import explore
from mc import align, objs

BOUNDS = {
    "objects": "every class of mc/objs.py",
    "states": "breadth-first over all histories up to length 1 (thorough 2) "
    "of training, changing and resetting events, distinct states once",
    "misuse": "every use before training or after reset / deletion; every "
    "misuse of the object's menu and every event that the state rejects, "
    "followed by every use and every further event",
    "training data": "each argument of each training with NaN in the first / "
    "last variable, without columns, transposed, with one or three "
    "dimensions, of twice / one more / one less variable, of integers; values "
    "of each setting and entries of operators that may not fit; selections of "
    "the regularization that fail; in all states after at most one event",
    "alignment": "every public operation of mc/align.py x every size of "
    "every argument that has to agree with the object or with another "
    "argument x {one more, one less, one, twice as many}, and both sizes of an "
    "argument exchanged",
}


REJECTED = ("ValueError", "DimensionalityError")


def misaligned(c, call):
    o = call.make()
    ok = objs.attempt(call.fn, o, call.arguments())
    c.op("aligned")
    c.check(not isinstance(ok, objs.Raised), "aligned call rejected", f"{ok}")
    if not call.pure:
        o = call.make()
    for where, size in call.misalignments():
        c.op(f"{where} -> {size}")
        c.state(where, size)
        a = call.arguments(where, size)
        V = objs.Vault(**a)
        x = objs.attempt(call.fn, o, a)
        with c.sub(f"{where}->{size}"):
            c.check(isinstance(x, objs.Raised), "misaligned data accepted",
                    f"result {objs.norm(x)!r:.200}")
            c.check(not isinstance(x, objs.Raised) or x.type in REJECTED,
                    "kind of error", f"{x}")
            c.check(not V.changed(), "arguments changed", f"{V.changed()}")
    # Both sizes of an argument exchanged.
    for name, dims in call.args.items():
        if isinstance(dims, list) or len(dims) != 2 or name in call.longer:
            continue
        wrong = {(w, n) for w, n in call.misalignments()}
        a, b = (call.sizes[s] for s in dims)
        if a == b or not any(w[:1] == (name,) for w, _ in wrong):
            continue
        args = call.arguments()
        if not hasattr(args[name], "T") or np.shape(args[name]) != (a, b):
            continue
        fixed = [j for j in (0, 1) if any(w == (name, j) for w, _ in wrong)]
        if 1 in (a, b) and call.single or not fixed:
            continue
        if not call.pure:
            o = call.make()
        args[name] = np.ascontiguousarray(args[name].T)
        V = objs.Vault(**args)
        c.op(f"{name} transposed")
        c.state(name, "transposed")
        x = objs.attempt(call.fn, o, args)
        with c.sub(f"{name} transposed"):
            c.check(isinstance(x, objs.Raised), "misaligned data accepted",
                    f"result {objs.norm(x)!r:.200}")
            c.check(not isinstance(x, objs.Raised) or x.type in REJECTED,
                    "kind of error", f"{x}")
            c.check(not V.changed(), "arguments changed", f"{V.changed()}")
    if call.pure:
        again = objs.attempt(call.fn, o, call.arguments())
        m = objs.same(objs.norm(again, o), objs.norm(ok, o), 0)
        c.check(m is None, "a rejected call changes the object", f"{m}")
    c.trace(call.name)


TRAIN = ("fit0", "fit1", "set0", "set1")
UNTRAIN = ("reset", "del")


def is_trained(spec, hist):
    trained = spec.name.endswith("/full") or "/sparse" in spec.name
    stages = False
    for lab, _ in hist:
        stages = stages or lab in ("train", *TRAIN)
        trained = lab in TRAIN or (lab == "keep" and stages) or (
            trained and lab not in UNTRAIN)
    return trained


def same_or_raises(c, spec, now, ref, tag):
    model = "operators" in dict(now) or "model" in dict(now)
    if "model" in dict(now) and not isinstance(
            dict(now)["predict"], objs.Raised):
        model = False   # a reduced-order model that predicts is as before
    unfit = isinstance(dict(now).get("solve"), objs.Raised)
    for (lab, a), (_, b) in zip(now, ref):
        if isinstance(a, objs.Raised) or (
                unfit and lab in ("attributes", "str")):
            continue    # (a solver that keeps raising may show the data)
        if model and (lab not in spec.untrained or "encode" in lab
                      or lab == "project"):
            continue    # rejected training may clear a model, stages are
            #             trained one after another
        if (m := objs.same(a, b, spec.tol)):
            c.fail("a rejected call changes the object", f"{tag}: {lab}: {m}")


def state(c, spec, hist, before, n):
    if not is_trained(spec, hist):
        for lab, x in before:
            if lab in spec.untrained and (lab == "predict" or "train" not in
                                          [lab2 for lab2, _ in hist]):
                c.check(isinstance(x, objs.Raised), "use before training",
                        f"{lab} returned {x!r:.300}")
    misuse = [(lab, fn, True) for lab, fn in spec.bad]
    misuse += [(lab, fn, False) for lab, fn in spec.events]
    if len(hist) < 2:
        misuse += [(lab, fn, False) for lab, fn in spec.tries]
    for lab, fn, must in misuse:
        V = spec.vault()
        o, _ = spec.build(hist, V)
        ref = spec.observe(o, V)
        c.op(lab)
        x = objs.attempt(fn, o, V)
        if must and (spec.untrained or is_trained(spec, hist)
                     or not spec.events):
            c.check(isinstance(x, objs.Raised), "misuse accepted",
                    f"{lab} returned {objs.norm(x, o)!r:.300}")
        if not isinstance(x, objs.Raised):
            continue
        if f"'{type(o).__name__}' object has no " in x.text:
            continue    # this class has no such operation
        c.check(not V.changed(), "arguments changed", f"{lab}: {V.changed()}")
        same_or_raises(c, spec, spec.observe(o, V), ref, lab)
        # Further events have the same effect as without the misuse.
        for lab2, fn2 in spec.events:
            if lab2 == "keep":
                continue    # continues with partly retrained stages
            V1, V2 = spec.vault(), spec.vault()
            a, _ = spec.build(hist, V1)
            b, _ = spec.build(hist, V2)
            objs.attempt(fn, a, V1)
            ra = objs.norm(objs.attempt(fn2, a, V1), a)
            rb = objs.norm(objs.attempt(fn2, b, V2), b)
            c.op(f"{lab}, {lab2}")
            if isinstance(ra, objs.Raised) and lab2 not in TRAIN:
                continue
            if (m := objs.same(ra, rb, spec.tol)):
                c.fail("later event differs", f"{lab2} after {lab}: {m}")
            if isinstance(ra, objs.Raised):
                continue
            compare = same_or_raises if lab2 not in TRAIN else exactly
            compare(c, spec, spec.observe(a, V1), spec.observe(b, V2),
                    f"{lab}, {lab2}")
    c.trace(objs.hist_name(hist))


def exactly(c, spec, now, ref, tag):
    if (m := objs.diff(now, ref, spec.tol)):
        c.fail("training after a rejected call differs", f"{tag}: {m}")


def use(c, spec, depth):
    explore(c, spec, depth, state)


def cases(tier):
    depth = 1 if tier == "quick" else 2
    specs = list(objs.menu(tier)) + list(objs.others(tier))
    return [("use/" + s.name, use, (s, depth)) for s in specs] + [("align/" + x.name, misaligned, (x,)) for x in align.calls(tier)]
