"""C09: save files are protected and damaged files are reported."""

import contextlib
import gc
import os
import shutil
import warnings

import h5py
import numpy as np

import opinf
from mc import objs
from mc.core import canon

from checks import c08

BOUNDS = {
    "objects": "every savable class x option combinations (see mc/objs.py), "
    "in every state reachable with one event (thorough: two)",
    "protection": "overwrite=False/True/default x existing file (not HDF5, "
    "empty, the same object, an object of another class, a second state of "
    "the same object), files and groups of an open file",
    "faults": "deletion of every single dataset, group, and attribute "
    "(thorough: every pair); an OSError at every single write or read "
    "operation of a save or load; every class x file of every other class",
    "oracle": "FileExistsError and identical bytes; file with overwrite=True "
    "has exactly the items of a new file and loads to an equivalent object; "
    "loading a damaged file raises an error, warns, or gives an object for "
    "which every operation gives the original result, raises, or is None "
    "(items that are settings of later trainings excepted); no file handle "
    "is left open; loading changes no byte",
}

# Settings whose absence means the documented default.
SETTINGS = ("name", "weights", "num_svdmodes", "options", "svdsolver",
            "svdsolver_options", "max_vectors")


def content(path):
    with open(path, "rb") as f:
        return f.read()


def items(path):
    """All the datasets, groups, and attributes of a file."""
    out = []
    with h5py.File(path, "r") as hf:
        out += [("/", a) for a in hf.attrs]

        def visit(name, obj):
            out.append((name, None))
            out.extend((name, a) for a in obj.attrs)

        hf.visititems(visit)
    return sorted(out, key=str)


def delete(path, item):
    with h5py.File(path, "a") as hf:
        if item[0] != "/" and item[0] not in hf:
            return
        if item[1] is None:
            del hf[item[0]]
        elif item[1] in hf[item[0]].attrs:
            del hf[item[0]].attrs[item[1]]


def settings(its):
    """Items (and groups of nothing but items) with documented defaults."""
    out = {i for i in its
           if any(p in SETTINGS for p in i[0].split("/") + [i[1]])}
    for i in its:
        inside = [j for j in its if j != i and (
            j[0] == i[0] or j[0].startswith(i[0] + "/"))]
        if i[1] is None and inside and all(j in out for j in inside):
            out.add(i)
    return out


def named(x):
    return isinstance(x, tuple) and x and all(
        isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str)
        for y in x)


def weaker(a, b, tol):
    """Is every part of `a` missing, an error, or the same as in `b`?"""
    if a is None or isinstance(a, objs.Raised):
        return None
    if named(a) and named(b):
        a, b = dict(a), dict(b)
        if a.get("entries", 1) is None:
            a.pop("weights", None)      # untrained basis: weights as given
        return "; ".join(m for k in a if k in b
                         for m in [weaker(a[k], b[k], tol)] if m)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if (m := weaker(x, y, tol)):
                return m
        return None
    return objs.same(a, b, tol)


def open_handles():
    """Files that are still open."""
    n = h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)
    if n:
        gc.collect()    # exceptions may keep handles alive for a while
    return [f.name for f in h5py.h5f.get_obj_ids(
        h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)]


def closed(c, path, tag):
    left = open_handles()
    c.check(not left, "file left open", f"{tag}: {left}")


def load(spec, path):
    """(object, warned) or (Raised, warned)"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        p = objs.attempt(spec.load, path)
    return p, any(issubclass(w.category, opinf.errors.OpInfWarning)
                  for w in rec)


# Faults ----------------------------------------------------------------------
class Fault(OSError):
    pass


@contextlib.contextmanager
def failing(k, names):
    """Raise an error in the k-th call of any of the h5py functions."""
    count = [0]
    saved = []

    def wrap(cls, name):
        fn = getattr(cls, name)

        def inner(*args, **kwargs):
            count[0] += 1
            if count[0] == k:
                raise Fault(f"no space left: {name}")
            return fn(*args, **kwargs)

        saved.append((cls, name, cls.__dict__.get(name)))
        setattr(cls, name, inner)

    for cls, name in names:
        wrap(cls, name)
    try:
        yield count
    finally:
        for cls, name, fn in saved:
            if fn is None:
                delattr(cls, name)
            else:
                setattr(cls, name, fn)


WRITES = [(h5py.Group, "create_dataset"), (h5py.Group, "create_group"),
          (h5py.AttributeManager, "__setitem__")]
READS = [(h5py.Group, "__getitem__"), (h5py.AttributeManager, "__getitem__"),
         (h5py.Dataset, "__getitem__")]


# One state -------------------------------------------------------------------
def equivalent(c, spec, path, ref, V, label, msg=""):
    p, _ = load(spec, path)
    if isinstance(p, objs.Raised):
        c.fail(label, f"{msg} {p}")
    if (m := objs.diff(spec.observe(p, V), ref, spec.tol)):
        c.fail(label, f"{msg} {m}")


def protection(c, spec, hist, before, n, V, o, fresh, ref):
    existing = {
        "text": b"this is not an HDF5 file\n" * 3,
        "empty": b"",
        "self": content(fresh),
    }
    other = c.path("other.h5")
    with h5py.File(other, "w") as hf:
        hf.create_dataset("entries", data=[[1.0, 2.0]])
        hf.create_dataset("unrelated/stuff", data=[1.0])
        hf.create_group("meta").attrs["name"] = "zzz"
        hf.create_group("transformer_07")
    existing["other"] = content(other)
    if spec.events:
        V2 = spec.vault()
        o2, outs = spec.build(hist + (spec.events[0],), V2)
        if not isinstance(outs[-1], objs.Raised):
            path = c.path(f"second{n}.h5")
            o2.save(path, overwrite=True)
            existing["second state"] = content(path)
    names = items(fresh)
    for kind, data in existing.items():
        path = c.path("protect.h5")
        with open(path, "wb") as f:
            f.write(data)
        with c.sub(f"existing {kind}"):
            c.op("save, no overwrite")
            c.raises(FileExistsError, lambda: o.save(path, overwrite=False),
                     "not protected")
            c.check(content(path) == data, "existing file altered", kind)
            closed(c, path, kind)
            c.op("save, overwrite")
            o.save(path, overwrite=True)
            closed(c, path, kind)
            c.check(items(path) == names, "overwritten file has other items",
                    f"{set(items(path)) ^ set(names)}")
            equivalent(c, spec, path, ref, V, "overwritten file differs")
            c.state(kind)
    # Open file handles are used and stay open.
    path = c.path("group.h5")
    with c.sub("open file"):
        c.op("save to group")
        with h5py.File(path, "w") as hf:
            hf.create_dataset("sibling", data=[1.0, 2.0])
            g = hf.create_group("g")
            o.save(g)
            c.check(bool(hf) and bool(g), "group closed by save()")
            got = []
            g.visit(got.append)
            want = sorted({i[0] for i in names if i[0] != "/"})
            c.check(sorted(got) == want, "items in group", f"{got} / {want}")
            c.check(sorted(hf) == ["g", "sibling"], "siblings", f"{list(hf)}")
        with h5py.File(path, "r") as hf:
            p = spec.load(hf["g"])
            c.check(bool(hf), "group closed by load()")
        if (m := objs.diff(spec.observe(p, V), ref, spec.tol)):
            c.fail("object in a group differs", m)
        os.remove(path)


def damaged(c, spec, path, ref, V, default, tag):
    """Load the damaged file."""
    data = content(path)
    c.op("load damaged")
    p, warned = load(spec, path)
    c.check(content(path) == data, "file changed by load()", tag)
    closed(c, path, tag)
    if isinstance(p, objs.Raised):
        c.outcome("error")
        c.check(p.type == "LoadfileFormatError", "error type", f"{tag}: {p}")
        return
    if warned:
        c.outcome("warning")
        return
    worse = False
    for (lab, a), (_, b) in zip(spec.observe(p, V), ref):
        if lab == "str":
            continue
        if (m := weaker(a, b, spec.tol)):
            if default:
                c.outcome("default setting")
                return
            c.fail("silently different", f"{tag}: {lab}: {m}")
        if objs.same(a, b, spec.tol):
            worse = True
    c.outcome("unset" if worse else "equal")


def state(c, spec, hist, before, n, pairs):
    V = spec.vault()
    o, _ = spec.build(hist, V)
    spec.observe(o, V)      # may determine dimensions, which are then saved
    fresh = c.path(f"f{n}.h5")
    o.save(fresh)
    closed(c, fresh, "save")
    data = content(fresh)
    loaded = spec.load(fresh)
    closed(c, fresh, "load")
    c.check(content(fresh) == data, "file changed by load()")
    ref = spec.observe(loaded, V)
    protection(c, spec, hist, before, n, V, o, fresh, ref)
    # Deletions.
    its = items(fresh)
    default = settings(its)
    if isinstance(o, opinf.pre.ScaleTransformer) and np.size(o.scaler) == 1:
        default.add(("meta", "byrow"))   # older files: number, not array
    if isinstance(o, opinf.basis.PODBasis):
        # older files: the dimension follows from the criterion
        default.add(("meta", "reduced_state_dimension"))
    faults = [(i,) for i in its]
    if pairs:
        faults += [(i, j) for a, i in enumerate(its) for j in its[:a]
                   if not i[0].startswith(j[0] + "/")]
    path = c.path("damaged.h5")
    for f in faults:
        shutil.copy(fresh, path)
        for i in f:
            delete(path, i)
        c.state("delete", f)
        damaged(c, spec, path, ref, V, not default.isdisjoint(f), f"without {f}")
    # Write errors: every prefix of the save.
    with failing(0, WRITES) as count:
        o.save(path, overwrite=True)
    total = count[0]
    for k in range(1, total + 1):
        c.state("write error", k)
        c.op("save with error")
        with failing(k, WRITES):
            c.raises(Fault, lambda: o.save(path, overwrite=True),
                     "write error not reported", f"operation {k}")
        closed(c, path, f"write error {k}")
        there = items(path)
        missing = [i for i in its if i not in there]
        damaged(c, spec, path, ref, V, default.issuperset(missing),
                f"write error {k}")
        c.raises(FileExistsError, lambda: o.save(path, overwrite=False),
                 "not protected")
    # The interrupted object is not affected.
    if (m := objs.diff(spec.observe(o, V), before, spec.tol)):
        c.fail("changed by interrupted saves", m)
    o.save(path, overwrite=True)
    c.check(items(path) == its, "items after interrupted saves",
            f"{set(items(path)) ^ set(its)}")
    equivalent(c, spec, path, ref, V, "saved after interrupted saves")
    # Read errors.
    with failing(0, READS) as count:
        spec.load(path)
    total = count[0]
    data = content(path)
    for k in range(1, total + 1):
        c.state("read error", k)
        c.op("load with error")
        with failing(k, READS):
            p, warned = load(spec, path)
        c.check(isinstance(p, objs.Raised), "read error not reported",
                f"operation {k}")
        c.check(p.type in ("LoadfileFormatError", "Fault"),
                "read error not reported", f"operation {k}: {p}")
        closed(c, path, f"read error {k}")
        c.check(content(path) == data, "file changed by load()")
    equivalent(c, spec, path, ref, V, "load after interrupted loads")
    c.trace(objs.hist_name(hist))


def case(c, spec, depth, pairs):
    def visit(c, spec, hist, before, n):
        state(c, spec, hist, before, n, pairs)
    c08.explore(c, spec, depth, visit)


# Files of other classes ------------------------------------------------------
FAMILIES = [
    {"PlainSolver", "L2Solver", "L2DecoupledSolver", "TikhonovSolver",
     "TikhonovDecoupledSolver", "TotalLeastSquaresSolver",
     "TruncatedSVDSolver"},
    {"ContinuousModel", "DiscreteModel"},
    {"InterpContinuousModel", "InterpDiscreteModel"},
]


def others(c, tier):
    specs = {}
    files = {}
    for s in objs.menu("quick"):
        if s.load is None:
            continue
        for hist in [()] + [(e,) for e in s.events[:1]]:
            V = s.vault()
            o, _ = s.build(hist, V)
            cls = type(o).__name__
            specs.setdefault(cls, s)
            if (cls, len(hist)) in files:
                continue
            path = c.path(f"{cls}{len(hist)}.h5")
            if isinstance(objs.attempt(o.save, path), objs.Raised):
                continue
            files[cls, len(hist)] = path
    for cls, s in specs.items():
        for (fcls, h), path in files.items():
            same = fcls == cls or any(cls in f and fcls in f
                                      for f in FAMILIES)
            if same or cls == "NullTransformer":
                continue
            with c.sub(f"{cls} <- {fcls}/{h}"):
                c.op("load")
                c.state(cls, fcls, h)
                data = content(path)
                p, _ = load(s, path)
                c.check(isinstance(p, objs.Raised), "wrong type loaded")
                c.check(p.type == "LoadfileFormatError", "error type",
                        f"{p}")
                c.check(content(path) == data, "file changed by load()")
                closed(c, path, "wrong type")
    # No file, not a file, no HDF5 file, truncated files.
    for cls, s in specs.items():
        with c.sub(f"{cls}, no file"):
            c.op("load")
            path = c.path("missing.h5")
            c.raises(FileNotFoundError, lambda: s.load(path), "missing file")
            c.check(not os.path.exists(path), "file created by load()")
            data = content(files[max(k for k in files if k[0] == cls)])
            cut = c.path("cut.h5")
            step = max(1, len(data) // (12 if tier == "quick" else 300))
            for size in list(range(0, len(data), step)) + [len(data) - 1]:
                c.op("load truncated")
                c.state(cls, size)
                with open(cut, "wb") as f:
                    f.write(data[:size])
                p, _ = load(s, cut)
                c.check(isinstance(p, objs.Raised), "truncated file loaded",
                        f"{size} of {len(data)} bytes")
                c.check(content(cut) == data[:size], "file changed by load()")
                closed(c, cut, "truncated")


# Handles ---------------------------------------------------------------------
def handles(c):
    """Every kind of exception leaves the handle closed."""
    U = opinf.utils
    E = opinf.errors
    excs = [ValueError("x"), KeyError("key"), AssertionError(), ValueError(),
            TypeError("a", 1), OSError(28, "No space"), Fault(),
            E.LoadfileFormatError("bad"), E.VerificationError("v"),
            KeyboardInterrupt(), SystemExit(2), KeyError()]
    path = c.path("h.h5")
    for ex in excs:
        with c.sub(repr(ex)):
            c.op("save handle")
            c.state("save", repr(ex))
            err = None
            try:
                with U.hdf5_savehandle(path, True) as hf:
                    hf.create_dataset("a", data=[1.0])
                    raise ex
            except BaseException as e:
                err = e
            c.check(err is ex, "exception replaced", f"{err!r}")
            closed(c, path, "save handle")
            c.check(items(path) == [("a", None)], "items")
            data = content(path)
            for old in (True, False):
                err, hf0 = None, None
                try:
                    if old:
                        with U.hdf5_loadhandle(path) as hf:
                            raise ex
                    else:
                        with h5py.File(path) as hf0:
                            try:
                                with U.hdf5_loadhandle(hf0) as hf:
                                    c.check(hf is hf0, "handle")
                                    raise ex
                            finally:
                                c.check(bool(hf0), "handle closed")
                except BaseException as e:
                    err = e
                if isinstance(ex, Exception) and not isinstance(
                        ex, E.LoadfileFormatError):
                    c.check(type(err) is E.LoadfileFormatError,
                            "not reported as a file format error",
                            f"{err!r}")
                else:
                    c.check(err is ex, "exception replaced", f"{err!r}")
                closed(c, path, "load handle")
                c.check(content(path) == data, "file changed")
    with c.sub("plain"):
        for over in (True, False):
            new = c.path(f"n{over}.h5")
            with U.hdf5_savehandle(new, over) as hf:
                hf.create_dataset("b", data=[2.0])
            closed(c, new, "save")
            data = content(new)
            c.raises(FileExistsError, lambda: U.hdf5_savehandle(new, False),
                     "not protected")
            c.check(content(new) == data, "existing file altered")
            with U.hdf5_loadhandle(new) as hf:
                c.check(list(hf) == ["b"], "content")
                c.raises((OSError, ValueError, RuntimeError, KeyError),
                         lambda: hf.create_dataset("c", data=[1.0]),
                         "writable load handle")
            closed(c, new, "load")
            c.check(content(new) == data, "file changed")
            with U.hdf5_savehandle(new, True) as hf:
                hf.create_dataset("z", data=[2.0])
            c.check(items(new) == [("z", None)], "overwrite keeps items")
        # A file name without the usual extension gives a warning.
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            with U.hdf5_savehandle(c.path("noext"), False) as hf:
                pass
        c.check(len(rec) == 1, "extension warning", f"{len(rec)}")
    c.trace(canon(len(excs)))


def cases(tier):
    out = [("handles", handles, ()), ("other types", others, (tier,))]
    depth, pairs = (1, False) if tier == "quick" else (2, True)
    count = {}
    for s in objs.menu("quick"):
        if s.load is None:
            continue
        # Quick: every third of similar configurations.
        kind = s.name[:3]
        count[kind] = k = count.get(kind, -1) + 1
        if tier == "quick" and k % 3 and kind not in ("POD", "Lin"):
            continue
        out.append((s.name, case, (s, depth, pairs)))
    return out
