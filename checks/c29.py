"""C29: separate objects are independent; the process is left as it was."""

import contextlib
import gc
import logging
import multiprocessing
import os
import signal
import sys
import threading
import types
import warnings

import matplotlib
import numpy as np

import opinf
from checks import c27
from checks.c10 import contents, spoil, spoil_containers
from mc import align, objs
from mc.core import canon

BOUNDS = {
    "objects": "every class of mc/objs.py, two objects per history: of the "
    "same configuration, and of the next configuration of the menu",
    "histories": "all pairs of events of the two objects (thorough: all "
    "pairs of histories of lengths up to 2, together 3), after both were made "
    "and made in between; arrays, options and lists of one object changed in "
    "place; every operation of one object is then used before the other one "
    "is observed; in fresh processes: the first event of the process, seen by "
    "an object made before and one made after",
    "process": "before and after every constructor, event and use, and every "
    "call of mc/align.py: random state, floating-point error handling, print "
    "options, warning filters, streams, working directory and its files, "
    "environment, signal handler and timer, figures, loggers, threads, path; "
    "per case also module and class attributes of opinf, Matplotlib settings",
    "plots": "all ordered pairs of the plotting operations on one basis, on "
    "new figures and on axes of the caller: Matplotlib settings, figures, "
    "process and basis after each one, the data drawn",
    "oracle": "the observations of the object alone; the process unchanged",
}

RANDOM = ("Bayes", "posterior", "random", "OperatorPosterior")


def digest(x, depth=0, seen=()):
    """Content of a plain (nested) value; identity of everything else."""
    if isinstance(x, np.ndarray):
        return canon(x) if x.dtype != object else id(x)
    if isinstance(x, (dict, types.MappingProxyType)) and depth < 4:
        return {str(k): digest(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)) and depth < 4:
        y = sorted(x, key=repr) if isinstance(x, (set, frozenset)) else x
        return [digest(v, depth + 1) for v in y]
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return repr(x)
    if hasattr(x, "cache_info"):
        return "cache"      # a cache may be filled
    return id(x)


def library():
    """Attributes of the modules and classes of opinf."""
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if name != "opinf" and not name.startswith("opinf."):
            continue
        for key, val in vars(mod).items():
            if key.startswith("__") and key != "__all__":
                continue
            out[f"{name}.{key}"] = digest(val)
            if isinstance(val, type) and val.__module__.startswith("opinf"):
                for k, v in vars(val).items():
                    if not k.startswith(("__", "_abc")):
                        out[f"{name}.{key}.{k}"] = digest(v)
                    if k in ("__init__",) and hasattr(v, "__defaults__"):
                        out[f"{name}.{key}.{k}()"] = digest(
                            [v.__defaults__, v.__kwdefaults__])
    return out


def process():
    """State of the process that no operation may change."""
    kind, keys, pos, has, gauss = np.random.get_state()
    root = logging.getLogger()
    plt = sys.modules.get("matplotlib.pyplot")
    return dict(
        random=(keys[:3].tobytes(), int(keys.sum()), pos, has, gauss),
        errors=tuple(sorted(np.geterr().items())), call=np.geterrcall(),
        printing=repr(sorted(np.get_printoptions().items(), key=str)),
        filters=[tuple(map(str, f)) for f in warnings.filters],
        showwarning=warnings.showwarning,
        streams=(sys.stdout, sys.stderr, sys.stdin),
        cwd=os.getcwd(), files=sorted(os.listdir(".")),
        environ=dict(os.environ),
        alarm=(signal.getsignal(signal.SIGALRM),
               signal.getsignal(signal.SIGINT),
               signal.getitimer(signal.ITIMER_REAL)),
        figures=plt.get_fignums() if plt else [],
        logging=(root.level, list(root.handlers), logging.root.disabled,
                 logging.root.manager.disable),
        threads=threading.active_count(), path=list(sys.path),
        recursion=sys.getrecursionlimit(), gc=gc.isenabled(),
        trace=sys.gettrace(), umask=None)


class Watch:
    """Compares the process before and after each operation."""

    def __init__(self, c, random):
        self.c, self.random = c, random
        self.now = process()

    def __call__(self, label, fn, *args):
        x = objs.attempt(fn, *args)
        new = process()
        for key, val in new.items():
            if key == "random" and (self.random or "verify" in label):
                continue    # documented to draw random data
            if val != self.now[key]:
                self.c.fail(f"process changed: {key}",
                            f"{label}: {self.now[key]!r:.150} -> {val!r:.150}")
        self.now = new
        return x


def use(spec, o, V, watch, tag):
    return [(lab, objs.norm(watch(f"{tag} {lab}", fn, o, V), o))
            for lab, fn in spec.probes]


def single(c, spec, hists, watch):
    """Every history of one object alone: {history: observation}."""
    ref = {}
    for hist in hists:
        V = spec.vault()
        o = watch("constructor", spec.make, V)
        for lab, fn in hist:
            watch(f"event {lab}", fn, o, V)
        ref[objs.hist_name(hist)] = use(spec, o, V, watch,
                                        objs.hist_name(hist))
        c.op(n=1 + len(hist))
        c.state(objs.hist_name(hist))
    return ref


def compare(c, spec, got, want, tag):
    random = any(w in spec.name for w in RANDOM)
    m = objs.diff(got, want, spec.tol)
    if m and not (random and m.split(":")[0] in ("predict", "draw")):
        c.fail("objects are not independent", f"{tag}: {m}")


@contextlib.contextmanager
def inside(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def pair(c, spec, other, depth):
    zygote()        # before this process uses the library
    with inside(c.tmp):
        pair_inside(c, spec, other, depth)


def pair_inside(c, spec, other, depth):
    lib = library()
    rc = dict(matplotlib.rcParams)
    random = any(w in s.name for s in (spec, other) for w in RANDOM)
    watch = Watch(c, random)
    hists = list(spec.histories(depth))
    ref = single(c, spec, hists, watch)
    other_hists = hists if other is spec else list(other.histories(1))
    ref2 = ref if other is spec else single(c, other, other_hists, watch)
    for ha in hists:
        for hb in other_hists:
            if len(ha) + len(hb) > 3:
                continue
            na, nb = objs.hist_name(ha), objs.hist_name(hb)
            orders = [[0] * len(ha) + [1] * len(hb)]
            if len(ha) == 1 and len(hb) == 1:
                orders.append([1, 0])
            elif len(ha) == 2 and len(hb) == 1:
                orders += [[0, 1, 0], [1, 0, 0]]
            for late, order in [(True, orders[0])] + [
                    (False, x) for x in orders]:
                Va, Vb = spec.vault(), other.vault()
                a = spec.make(Va)
                b = None if late else other.make(Vb)
                left = [list(ha), list(hb)]
                for who in order:
                    if who and b is None:
                        b = other.make(Vb)
                    lab, fn = left[who].pop(0)
                    objs.attempt(fn, b if who else a, Vb if who else Va)
                if b is None:
                    b = other.make(Vb)
                tag = f"[{na}|{nb}|{late}|{''.join(map(str, order))}]"
                c.op(tag, n=2 + len(order))
                c.state(tag)
                compare(c, other, other.observe(b, Vb), ref2[nb],
                        tag + " second object")
                compare(c, spec, spec.observe(a, Va), ref[na],
                        tag + " first object")
                c.check(not Va.changed() and not Vb.changed(),
                        "arguments changed", tag)
    if other is spec:
        reseeding(c, spec, hists)
        in_place(c, spec, hists, ref)
    new = library()
    changed = sorted(k for k in {*lib, *new} if lib.get(k) != new.get(k))
    c.check(not changed, "library attributes changed", f"{changed[:5]}")
    now = dict(matplotlib.rcParams)
    c.check(now == rc, "Matplotlib settings changed", "")
    c.trace(spec.name)


class Zygote:
    """A process in which the library has not been used yet.

    run(fn) evaluates fn() in a copy of that process.
    """

    def __init__(self):
        self.conn, conn = multiprocessing.Pipe()
        if os.fork() == 0:
            self.conn.close()
            try:
                while True:
                    self.serve(conn, *conn.recv())
            except (EOFError, OSError):
                pass
            finally:
                os._exit(0)
        conn.close()

    @staticmethod
    def serve(conn, *job):
        pid = os.fork()
        if pid == 0:
            try:
                conn.send(pristine(*job))
            except BaseException as ex:
                conn.send(ex)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)

    def run(self, *job):
        self.conn.send(job)
        if not self.conn.poll(60):
            raise RuntimeError("no answer from a fresh process")
        out = self.conn.recv()
        if isinstance(out, BaseException):
            raise out
        return out


ZYGOTE = None
SPECS = []


def zygote():
    global ZYGOTE
    if ZYGOTE is None or ZYGOTE[0] != os.getpid():
        ZYGOTE = os.getpid(), Zygote()
    return ZYGOTE[1]


def pristine(path, i, j, event):
    """First use of the library: two objects, an event of the first one.

    Returns the observation of the second one, made before and made after.
    """
    os.chdir(path)
    a, b = SPECS[i], SPECS[j]
    Va, Vb = a.vault(), b.vault()
    x, y = a.make(Va), b.make(Vb)
    if event is not None:
        objs.attempt(a.events[event][1], x, Va)
    out = [b.observe(y, Vb)]
    Vb = b.vault()
    return out + [b.observe(b.make(Vb), Vb)]


def first(c, i, j):
    """The first event of a process does not change other objects."""
    a, b = SPECS[i], SPECS[j]
    z = zygote()
    with inside(c.tmp):
        want = z.run(c.tmp, i, j, None)
        compare(c, b, want[1], want[0], "second object")
        for k, (lab, _) in enumerate(a.events):
            got = z.run(c.tmp, i, j, k)
            c.op(f"first {lab}", n=2)
            c.state(lab)
            for when, x in zip(("before", "after"), got):
                compare(c, b, x, want[0],
                        f"object made {when} the first {lab} of another one")
    c.trace(a.name, b.name)


def reseeding(c, spec, hists):
    """Operations that draw random data do not choose the random state."""
    acts = [("verify", lambda o, V: o.verify(*c27.verify_args(o)))]
    if any(w in spec.name for w in RANDOM):
        acts += list(spec.probes) + list(spec.events)
    for hist in hists:
        if len(hist) > 1 or not hasattr(spec.make(spec.vault()), "verify"):
            continue
        name = objs.hist_name(hist)
        for lab, fn in acts:
            ends, starts = [], []
            for seed in (1, 2):
                V = spec.vault()
                o, _ = spec.build(hist, V)
                np.random.seed(seed)
                starts.append(process()["random"])
                before = process()
                objs.attempt(fn, o, V)
                now = process()
                ends.append(now["random"])
                c.op(f"[{name}] {lab}")
                for key in before:
                    if key != "random" and now[key] != before[key]:
                        c.fail(f"process changed: {key}", f"[{name}] {lab}")
            c.check(ends[0] != ends[1], "random state replaced",
                    f"[{name}] {lab}")


def in_place(c, spec, hists, ref):
    """Arrays, options and lists of one object changed in place."""
    for hist in hists:
        if len(hist) > 1:
            continue
        name = objs.hist_name(hist)
        Va, Vb, Vc = spec.vault(), spec.vault(), spec.vault()
        a, _ = spec.build(hist, Va)
        b, _ = spec.build(hist, Vb)
        before = contents(b)
        spoil_containers(a)
        spoil(a, Va)
        d, _ = spec.build(hist, Vc)
        c.op(f"[{name}] in place")
        for which, x, V in (("object made before", b, Vb),
                            ("object made after", d, Vc)):
            c.check(contents(x) == before, "objects are not independent",
                    f"[{name}] {which}: {contents(x)}, not {before}")
            compare(c, spec, spec.observe(x, V), ref[name],
                    f"[{name}] {which}")


def calls(c, menu):
    """Single operations, twice on one object and on two objects."""
    zygote()
    with inside(c.tmp):
        calls_inside(c, menu)


def calls_inside(c, menu):
    lib = library()
    for call in menu:
        with c.sub(call.name.replace(" ", "")):
            watch = Watch(c, "OperatorPosterior" in call.name)
            res = []
            for i in range(2):
                o = watch("constructor", call.make)
                x = watch(call.name, call.fn, o, call.arguments())
                res.append(objs.norm(x, o))
                c.op(call.name)
            m = objs.same(*res, 1e-12)
            c.check(m is None, "second object differs", f"{m}")
    new = library()
    changed = sorted(k for k in {*lib, *new} if lib.get(k) != new.get(k))
    c.check(not changed, "library attributes changed", f"{changed[:5]}")
    c.trace("calls")


def plot_menu():
    """Plotting operations: name -> (function of (basis, axes), draws)."""
    sv = np.array([4.0, 2.0, 1.0, 0.25, 0.125, 1e-3])
    out = {}

    def add(name, fn, where):
        out[name] = (fn, where)

    for thr in (None, 1e-1, [1e-1, 1e-2]):
        for right in (None, 3):
            tag = f"{thr}/{right}"
            kw = dict(threshold=thr, right=right)
            for m in ("plot_svdval_decay", "plot_cumulative_energy",
                      "plot_residual_energy", "plot_projection_error"):
                add(f"{m}/{tag}", lambda o, ax, m=m, kw=kw:
                    getattr(o, m)(ax=ax, **kw), "axes")
    for f in ("svdval_decay", "cumulative_energy", "residual_energy"):
        fn = getattr(opinf.basis, f)
        add(f, lambda o, ax, fn=fn: fn(sv, [0.5, 0.9], plot=True, ax=ax),
            "axes")
        add(f"{f}/options", lambda o, ax, fn=fn: fn(
            sv, 0.5, plot=True, ax=ax, color="C3", linewidth=2), "axes")
    add("plot1D", lambda o, ax: o.plot1D(ax=ax), "axes")
    add("plot1D/some", lambda o, ax: o.plot1D(
        np.linspace(2, 3, 6), num_vectors=2, ax=ax, color="C1"), "axes")
    add("plot_energy", lambda o, ax: o.plot_energy(), "new")
    add("plot_energy/right", lambda o, ax: o.plot_energy(right=3), "new")
    t = np.linspace(0, 1, 60)
    ddt = opinf.ddt
    add("ddt verify", lambda o, ax: ddt.UniformFiniteDifferencer(
        t, "ord2").verify(plot=True, return_errors=True), "new")
    add("ddt verify/interp", lambda o, ax: ddt.InterpDerivativeEstimator(
        t).verify(plot=True, return_errors=True), "new")
    return out


def drawn(ax):
    """Everything plotted on some axes."""
    return [(np.array(x.get_xdata(), float).tolist(),
             np.array(x.get_ydata(), float).tolist(),
             str(x.get_color()), x.get_marker(), x.get_linewidth())
            for x in ax.lines] + [x.get_text() for x in ax.texts] + [
        ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale(),
        ax.get_title(), list(ax.get_xlim()), list(ax.get_ylim())]


def plots(c, names):
    """Pairs of plotting operations: settings, figures and data unchanged."""
    with inside(c.tmp):
        plots_inside(c, names)


def plots_inside(c, names):
    import matplotlib.pyplot as plt
    menu = plot_menu()
    Q = np.diag([4.0, 2.0, 1.0, 0.25, 0.125, 1e-3]) + 0.0625 * np.eye(6)[::-1]
    plt.close(plt.figure())
    start = {k: v for k, v in matplotlib.rcParams.items()}

    def settings():
        rc = matplotlib.rcParams
        return sorted(k for k in rc if rc[k] != start[k])

    def one(o, name, own):
        """Evaluate one operation, on own axes or as it pleases."""
        fn, where = menu[name]
        ax = None
        if own and where == "axes":
            ax = matplotlib.figure.Figure().add_subplot(111)
        before, lib = process(), contents(o)
        got = fn(o, ax)
        now = process()
        tag = f"{name} own={own}"
        c.op(name)
        for key in before:
            if key == "random" and "verify" in name:
                continue
            if key == "figures":
                new = set(now[key]) - set(before[key])
                c.check(set(before[key]) <= set(now[key])
                        and len(new) == (ax is None), "figures",
                        f"{tag}: {before[key]} -> {now[key]}")
                continue
            c.check(now[key] == before[key], f"process changed: {key}",
                    f"{tag}: {before[key]!r:.150} -> {now[key]!r:.150}")
        c.check(not settings(), "Matplotlib settings changed",
                f"{tag}: {settings()}")
        for key in settings():
            matplotlib.rcParams[key] = start[key]
        c.check(contents(o) == lib, "basis changed", tag)
        fig = ax.figure if ax is not None else plt.gcf()
        axes = [drawn(a) for a in fig.axes]
        if name.startswith(("plot_", "plot1D")) and where == "axes":
            c.check(got is fig.axes[0], "returned axes", tag)
        if isinstance(got, matplotlib.axes.Axes):
            got = None
        return objs.norm([got, axes, list(fig.get_size_inches())])

    def fresh():
        plt.close("all")
        return opinf.basis.PODBasis(num_vectors=3).fit(Q)

    try:
        for own in (False, True):
            ref = {b: one(fresh(), b, own) for b in menu}
            for a in names:
                for b in menu:
                    o = fresh()
                    c.state(f"{a}|{b}|{own}")
                    for x in (a, b):
                        m = objs.same(one(o, x, own), ref[x], 1e-12)
                        c.check(m is None, "another plot after a plot",
                                f"{a} then {b} own={own}: {x}: {m}")
    finally:
        plt.close("all")
    c.trace(*names)


def cases(tier):
    specs = list(objs.menu(tier)) + list(objs.others(tier))
    SPECS[:] = specs
    depth = 1 if tier == "quick" else 2
    out = []
    for i, s in enumerate(specs):
        out.append((f"same/{s.name}", pair, (s, s, depth)))
        out.append((f"next/{s.name}", pair, (s, specs[i - 1], 1)))
        out.append((f"first/{s.name}", first, (i, i)))
        if tier != "quick":
            out.append((f"firstnext/{s.name}", first, (i, i - 1)))
    menu = list(align.calls(tier))
    names = list(plot_menu())
    for i in range(0, len(names), 2):
        out.append((f"plots/{i}", plots, (names[i:i + 2],)))
    for i in range(0, len(menu), 40):
        out.append((f"calls/{i}", calls, (menu[i:i + 40],)))
    return out
