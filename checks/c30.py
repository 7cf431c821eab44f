"""C30: trained objects can be used, and separate objects trained, concurrently."""

import os
import sys
import threading

import numpy as np

import opinf
from mc import objs

SRC = os.path.dirname(os.path.abspath(opinf.__file__)) + os.sep

BOUNDS = {
    "objects": "every class of mc/objs.py after its first training event "
    "(quick: the configurations thinned out within each family, thorough for separate objects)",
    "threads": "two threads under a controlled scheduler that hands over only "
    "at the lines of the library",
    "schedules": "all schedules with one preemption of the first thread at "
    "each line that it executes (visits of a line: the first, thorough the "
    "first two), thorough also a second preemption at each line of the "
    "second thread for operations of up to 25 lines",
    "operations": "all ordered pairs of uses of one shared trained object "
    "with different data (quick: each use with itself and with the next); "
    "all ordered pairs of training and saving on two separate objects (quick: "
    "each with the next)",
    "oracle": "the results of the same operations on their own",
}

SKIP = ("str", "attributes", "inner", "solver", "draw")
MAX_POINTS = 400


# Scheduler --------------------------------------------------------------------
class Two:
    """Runs two functions in two threads, one at a time.

    switch[i]: number of the line event of thread i at which it hands over
    (None: never); every thread hands over when it is finished.
    """

    def __init__(self, fns, switch, record=False):
        self.fns, self.switch = fns, switch
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.out = [None, None]
        self.lines = [[], []]
        self.record = record

    def hand_over(self, me):
        other = 1 - me
        if not self.done[other]:
            self.sem[other].release()
            self.sem[me].acquire()

    def body(self, me):
        self.sem[me].acquire()
        count = 0

        def local(frame, event, arg):
            nonlocal count
            if event == "line":
                if self.record:
                    self.lines[me].append((frame.f_code.co_filename,
                                           frame.f_lineno))
                if count == self.switch[me]:
                    count += 1
                    self.hand_over(me)
                else:
                    count += 1
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(SRC):
                return local
            return None

        sys.settrace(trace)
        try:
            self.out[me] = objs.attempt(self.fns[me])
        finally:
            sys.settrace(None)
            self.done[me] = True
            if not self.done[1 - me]:
                self.sem[1 - me].release()

    def run(self):
        ths = [threading.Thread(target=self.body, args=(i,), daemon=True)
               for i in (0, 1)]
        for t in ths:
            t.start()
        self.sem[0].release()
        for t in ths:
            t.join(60)
            if t.is_alive():
                raise RuntimeError("the threads wait for each other")
        return self.out


def points(fn, visits):
    """Line events of `fn` worth preempting: first visits of every line."""
    two = Two([fn, lambda: None], [None, None], record=True)
    two.run()
    seen, out = {}, []
    for i, loc in enumerate(two.lines[0]):
        seen[loc] = seen.get(loc, 0) + 1
        if seen[loc] <= visits:
            out.append(i)
    return out


def schedules(c, ps, g=None):
    """Switch points of the first thread (and of the second)."""
    if len(ps) > MAX_POINTS:
        c.capped = True
    for p in ps[:MAX_POINTS]:
        yield p, None
    if c.tier != "quick" and g is not None and len(ps) <= 25:
        qs = points(g, 1)
        if len(qs) <= 25:
            for p in ps:
                for q in qs:
                    yield p, q


def trained(spec):
    """History that trains the object."""
    for lab, fn in spec.events:
        if lab in ("fit0", "set0", "fit"):
            return ((lab, fn),)
    return ()


def visits(c):
    return 1 if c.tier == "quick" else 2


def shared(c, spec):
    """Two uses of one trained object."""
    hist = trained(spec)
    V0 = spec.vault()
    o, _ = spec.build(hist, V0)
    uses = [(lab, fn) for lab, fn in spec.probes if lab not in SKIP
            and "verify" not in lab and not (
                "Bayes" in spec.name and "predict" in lab)]
    V = [spec.vault(), spec.vault()]
    for key, A in V[1].items():     # other data in the second thread
        if isinstance(A, np.ndarray) and A.dtype.kind == "f":
            A *= 0.75
    want = {(lab, k): objs.norm(objs.attempt(fn, o, V[k]), o)
            for lab, fn in uses for k in (0, 1)}
    uses = [[u for u in uses if not isinstance(want[u[0], k], objs.Raised)]
            for k in (0, 1)]
    for i, (la, fa) in enumerate(uses[0]):
        others = uses[1]
        if c.tier == "quick" and others:
            same = [u for u in uses[1] if u[0] == la]
            others = same + [others[(i + 1) % len(others)]]

        def f():
            return fa(o, V[0])

        ps = points(f, visits(c))
        for lb, fb in others:
            def g():
                return fb(o, V[1])

            for sw in schedules(c, ps, g):
                out = Two([f, g], sw).run()
                c.op(f"{la}|{lb}", n=2)
                c.state(la, lb, sw)
                # Both once more on their own, the preempting one first.
                later = (objs.attempt(g), objs.attempt(f))
                for lab, x, k in ((la, out[0], 0), (lb, out[1], 1),
                                  (lb, later[0], 1), (la, later[1], 0)):
                    m = objs.same(objs.norm(x, o), want[lab, k], spec.tol)
                    if m:
                        c.fail("concurrent uses disturb each other",
                               f"{la} preempted at line event {sw} by {lb}: "
                               f"{lab}: {m}")
    for k in (0, 1):
        for lab, fn in uses[k]:
            m = objs.same(objs.norm(objs.attempt(fn, o, V[k]), o),
                          want[lab, k], spec.tol)
            c.check(m is None, "the object has changed", f"{lab}: {m}")
    c.trace(f"shared {spec.name}")


def separate(c, spec):
    """Training, use and saving of two objects."""
    n = [0]

    def saving(o, V):
        n[0] += 1
        path = c.path(f"{n[0]}.h5")
        o.save(path)
        x = spec.load(path)
        os.remove(path)
        return objs.diff(spec.observe(x, V), spec.observe(o, V), spec.tol)

    # The other thread uses its own object, which is trained differently.
    train = [e for e in spec.events if e[0].startswith(("fit", "set"))][:2]
    if not train:
        return
    first = train[0]
    acts = [(lab, (), fn) for lab, fn in train]
    if spec.load and not any("verify" in lab for lab, _ in spec.probes):
        acts.append(("save", (first,), saving))
    want = {}
    usable = [lab for lab, _ in spec.probes if lab not in SKIP
              and "verify" not in lab and "predict" not in lab]
    usable = usable[:2 if c.tier == "quick" else 6]

    def after(o, V):
        return spec.observe(o, V, only=usable)

    def fresh(act):
        V = spec.vault()
        o, _ = spec.build(act[1], V)
        return o, V

    for act in acts:
        o, V = fresh(act)
        x = objs.norm(objs.attempt(act[2], o, V), o)
        want[act[0]] = x, after(o, V)
    for a in acts:
        if isinstance(want[a[0]][0], objs.Raised):
            continue
        oa, Va = fresh(a)
        ps = list(schedules(c, points(lambda: a[2](oa, Va), visits(c))))
        others = acts
        if c.tier == "quick":
            others = [acts[(acts.index(a) + 1) % len(acts)]]
        for b in others:
            if isinstance(want[b[0]][0], objs.Raised):
                continue
            for sw in ps:
                oa, Va = fresh(a)
                ob, Vb = fresh(b)
                out = Two([lambda: a[2](oa, Va), lambda: b[2](ob, Vb)],
                          sw).run()
                c.op(f"{a[0]}|{b[0]}", n=2)
                c.state(a[0], b[0], sw)
                for (lab, _, _), x, o, V in ((a, out[0], oa, Va),
                                             (b, out[1], ob, Vb)):
                    m = objs.same(objs.norm(x, o), want[lab][0], spec.tol)
                    m = m or objs.diff(after(o, V), want[lab][1], spec.tol)
                    if m:
                        c.fail("separate objects disturb each other",
                               f"{a[0]} preempted at line event {sw[0]} by "
                               f"{b[0]}: {lab}: {m}")
    c.trace(f"separate {spec.name}")


def family(name):
    return name.split("(")[0].split("[")[0].split("/")[0]


def cases(tier):
    specs = list(objs.menu(tier)) + list(objs.others(tier))
    out = []
    for kind, fn, most in (("shared", shared, 3), ("separate", separate, 1)):
        if tier != "quick":
            most = 10 ** 6 if kind == "shared" else 8
        groups = {}
        for s in specs:
            groups.setdefault(family(s.name), []).append(s)
        out += [(f"{kind}/{s.name}", fn, (s,)) for g in groups.values()
                for s in g[::max(1, -(-len(g) // most))]]
    return out
