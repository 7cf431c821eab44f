"""C22: timed blocks report time, restore handlers and limit runs."""

import contextlib
import io
import itertools
import logging
import os
import signal
import sys
import time

import opinf
from mc.vtime import clock, Killed, _real

TB = opinf.utils.TimedBlock

BOUNDS = {
    "programs": "all bodies of up to 2 (thorough 3) steps over {sleep, "
    "compute, raise (own, TimeoutError, interrupt, exit), return}, limits "
    "{none, 1, 2, 2.9}; all two-level nestings with a step before, inside and "
    "after the inner block, the inner error caught or not; three levels",
    "environment": "previous handler {default, ignored, a function} x "
    "pending alarm {none, earlier, later, periodic; it waits for the end of a "
    "limited block} x verbose x rebuffer x "
    "messages",
    "time": "virtual clock and alarm, delivered exactly when due; and a few "
    "runs with the real ones",
}
ASSUMPTIONS = ["The alarm is delivered while the body of a block runs (limits "
               "are at least one second, entering and leaving take "
               "microseconds)."]


class Mine(Exception):
    pass


class UserAlarm(Exception):
    pass


class Return(Exception):
    """Reference: the body returns."""


class RefTimeout(Exception):
    def __init__(self, owner):
        self.owner = owner


ERRORS = {"mine": Mine, "timeout": TimeoutError, "int": KeyboardInterrupt,
          "exit": SystemExit, "gen": GeneratorExit, "os": OSError}


# A program is a tuple of steps:
#   ("sleep", d), ("cpu", d), ("raise", name), ("return",),
#   ("block", limit, body, caught)      caught: "", "timeout", "all"


# Reference -------------------------------------------------------------------
class Ref:
    def __init__(self, alarm):
        self.now = 0.0
        self.alarms = []                    # [deadline, owner, interval]
        self.elapsed = {}
        self.fired = set()
        self.swallowed = False
        self.limited = 0                    # the user's alarm has to wait
        if alarm:
            self.alarms.append([alarm[0], "user", alarm[1]])

    def advance(self, d):
        end = self.now + d
        active = [j for j, a in enumerate(self.alarms)
                  if a[1] != "user" or not self.limited]
        if active:
            # equal deadlines: the innermost goes first
            i = min(active,
                    key=lambda j: (round(self.alarms[j][0], 5), -j))
            at, owner, interval = self.alarms[i]
            if at <= end + 1e-9:
                self.now = max(self.now, at)
                if interval:
                    self.alarms[i][0] = self.now + interval
                else:
                    del self.alarms[i]
                self.fired.add(owner)
                raise RefTimeout(owner)
        self.now = end

    def run(self, program, path=()):
        for i, step in enumerate(program):
            if step[0] in ("sleep", "cpu"):
                self.advance(step[1])
            elif step[0] == "raise":
                raise ERRORS[step[1]](path + (i,))
            elif step[0] == "return":
                raise Return
            else:
                _, limit, body, caught = step
                try:
                    self.block(limit, body, path + (i,))
                except Return:
                    pass
                except RefTimeout as ex:
                    if not caught or (ex.owner == "user"
                                      and caught == "timeout"):
                        raise
                    if len(path) >= len(ex.owner) and ex.owner == path[
                            :len(ex.owner)]:
                        self.swallowed = True
                except TimeoutError:
                    if not caught:
                        raise
                except Exception:
                    if caught != "all":
                        raise

    def block(self, limit, body, path):
        t0 = self.now
        if limit is not None:
            self.limited += 1
            self.alarms.append([t0 + max(int(limit), 1), path, 0])
        try:
            self.run(body, path)
        finally:
            self.alarms = [a for a in self.alarms if a[1] != path]
            self.limited -= limit is not None
            self.elapsed[path] = self.now - t0


# Implementation --------------------------------------------------------------
class Impl:
    def __init__(self, message):
        self.elapsed = {}
        self.blocks = {}
        self.raised = None
        self.message = message

    def run(self, program, path=()):
        for i, step in enumerate(program):
            if step[0] in ("sleep", "cpu"):
                clock.advance(step[1], step[0] == "cpu")
            elif step[0] == "raise":
                self.raised = ERRORS[step[1]](path + (i,))
                raise self.raised
            elif step[0] == "return":
                return
            else:
                _, limit, body, caught = step
                excs = {"": (), "timeout": TimeoutError,
                        "all": Exception}[caught]
                try:
                    self.block(limit, body, path + (i,))
                except excs:
                    pass

    def block(self, limit, body, path):
        args = () if self.message == "default" else (self.message,)
        block = TB(*args) if limit is None else TB(*args, timelimit=limit)
        self.blocks[path] = block
        with block as b:
            if b is not block:
                raise AssertionError("__enter__ does not return the block")
            self.run(body, path)


def user_handler(signum, frame):
    raise UserAlarm


HANDLERS = {"dfl": signal.SIG_DFL, "ign": signal.SIG_IGN,
            "user": user_handler}


def one(c, program, handler="user", alarm=None, verbose=True, rebuffer=False,
        message="default"):
    """Execute the program and compare with the reference."""
    ref = Ref(alarm)
    want = None
    try:
        ref.run(program)
    except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as ex:
        want = ex
    impl = Impl(message)
    old_handler = signal.getsignal(signal.SIGALRM)
    out = io.StringIO()
    old_stdout, old_flags = sys.stdout, (TB.verbose, TB.rebuffer)
    level = logging.getLogger().manager.disable
    try:
        logging.disable(logging.CRITICAL)
        TB.verbose, TB.rebuffer = verbose, rebuffer
        signal.signal(signal.SIGALRM, HANDLERS[handler])
        clock.reset()
        t0 = clock.now
        clock.running = True
        if alarm:
            clock.set_alarm(*alarm)
        sys.stdout = out
        got = None
        try:
            impl.run(program)
        except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit,
                Killed) as ex:
            got = ex
        stdout_after = sys.stdout
        sys.stdout = old_stdout
        t1 = clock.now
        left = clock.alarm
        after = signal.getsignal(signal.SIGALRM)
        stray = None
        if not alarm:
            try:
                clock.advance(1000)
            except BaseException as ex:
                stray = ex
    finally:
        clock.running = False
        sys.stdout = old_stdout
        signal.signal(signal.SIGALRM, old_handler)
        TB.verbose, TB.rebuffer = old_flags
        logging.disable(level)
    c.op(f"{program}", len(impl.blocks))
    c.check(not isinstance(got, Killed), "process killed by the alarm")
    if ref.swallowed:
        # A block went on after it swallowed its own timeout; enclosing
        # alarms may be late.
        c.check(after is HANDLERS[handler] or after == HANDLERS[handler],
                "signal handler is not restored", f"{after}")
        c.check(stdout_after is out, "sys.stdout is not restored")
        c.check(alarm or left is None, "alarm is still pending", f"{left}")
        return "", impl, ref
    if want is None:
        c.check(got is None, "exception", f"{got!r}")
    elif isinstance(want, RefTimeout):
        if want.owner == "user":
            c.check(type(got) is UserAlarm, "alarm of the user",
                    f"got {got!r}")
        else:
            c.check(type(got) is TimeoutError, "no TimeoutError",
                    f"got {got!r}")
            c.check(str(got).startswith(
                f"TIMED OUT after {ref.elapsed[want.owner]:.2f}"),
                "report of the timeout", f"{got}")
    else:
        c.check(type(got) is type(want), "exception type",
                f"{got!r} instead of {want!r}")
        if not (ref.fired and isinstance(want, TimeoutError)):
            c.check(got is impl.raised, "not the exception of the block",
                    f"{got!r}")
    c.close(t1 - t0, ref.now, "time of the end", 1e-4)
    for path, e in ref.elapsed.items():
        b = impl.blocks[path]
        c.check(b.elapsed is not None, "elapsed is missing")
        c.close(b.elapsed, e, "elapsed", 1e-4)
    c.check(set(ref.elapsed) == set(impl.blocks), "blocks executed")
    c.check(after is HANDLERS[handler] or after == HANDLERS[handler],
            "signal handler is not restored", f"{after}")
    users = [a for a in ref.alarms if a[1] == "user"]
    if users:
        c.check(left is not None, "alarm of the user is lost")
        c.close(left[0] - t0, max(users[0][0], ref.now), "alarm of the user",
                1e-4)
        c.close(left[1], users[0][2], "interval", 1e-9)
    else:
        c.check(left is None, "alarm is still pending", f"{left}")
    c.check(stray is None, "stray alarm", f"{stray!r}")
    c.check(stdout_after is out, "sys.stdout is not restored")
    text = out.getvalue()
    if not verbose and want is None and not ref.fired and (
            "raise" not in repr(program)):
        c.check(text == "", "printed although not verbose", repr(text))
    c.state(repr(program), handler, alarm, verbose, rebuffer, message,
            round(ref.now, 6), repr(want), bool(ref.fired))
    c.outcome(type(want).__name__, len(ref.fired), len(impl.blocks))
    return text, impl, ref


STEPS = [("sleep", 0.413), ("sleep", 1.531), ("cpu", 0.717), ("raise", "mine"),
         ("raise", "timeout"), ("return",)]
LIMITS = (None, 1, 2, 2.9)
PRE = [(), (("sleep", 0.413),), (("cpu", 1.531),), (("sleep", 0.757),)]
POST = PRE + [(("sleep", 4.07),), (("raise", "timeout"),),
              (("raise", "mine"),)]


def flat_case(c, limit, n):
    steps = STEPS + [("raise", e) for e in ("int", "exit", "gen", "os")]
    steps += [("sleep", 0.25), ("sleep", 12.0), ("sleep", 0.999),
              ("sleep", 1.001)]
    for k in range(n + 1):
        for body in itertools.product(steps, repeat=k):
            if any(b[0] in ("raise", "return") for b in body[:-1]):
                continue
            for after in ((), (("sleep", 5.09),)):
                program = (("block", limit, body, ""),) + after
                with c.sub(repr(program)):
                    one(c, program)
    c.trace("flat", limit)


def nested_case(c, limit, pre, ilimit, caught, alarm):
    for inner in STEPS:
        for inner2 in ((), (("sleep", 0.757),)):
            for post in POST:
                body = pre + (("block", ilimit, (inner,) + inner2, caught),
                              ) + post
                program = (("block", limit, body, ""), ("sleep", 0.1))
                with c.sub(repr(program)):
                    one(c, program, alarm=alarm)
    c.trace("nested", limit, pre, ilimit, caught, alarm)


def deep_case(c, limits, caught):
    """Three levels, two blocks in sequence."""
    for a, b in itertools.product((0.413, 0.757, 1.531), repeat=2):
        for inner in (("sleep", 0.413), ("cpu", 2.5), ("raise", "mine")):
            l3 = ("block", limits[2], (inner,), caught[1])
            l2 = ("block", limits[1], (("sleep", a), l3, ("sleep", b)),
                  caught[0])
            for body in ((l2, ("sleep", 0.413)), (l3, l3, l2), (l2, l2)):
                with c.sub(repr(body)):
                    one(c, (("block", limits[0], body, ""),))
    c.trace("deep", limits, caught)


def env_case(c, handler, alarm, verbose, rebuffer, message):
    inner = ("block", 1, (("sleep", 1.531),), "timeout")
    for body in ((), (("sleep", 0.413),), (("cpu", 1.531),), (("raise", "mine"),),
                 (("sleep", 5.09),), (inner,), (inner, ("raise", "os")),
                 (("raise", "timeout"),)):
        for limit in LIMITS:
            program = (("block", limit, body, ""),)
            if handler == "dfl" and alarm:
                continue
            with c.sub(repr(program)):
                text, impl, ref = one(c, program, handler, alarm, verbose,
                                      rebuffer, message)
                if verbose and message in ("default", "hello") and (
                        ref.fired == set() and "raise" not in repr(body)
                        and inner not in body):
                    m = ("Running code block" if message == "default"
                         else message)
                    c.check(text == f"{m}...done in "
                            f"{ref.elapsed[(0,)]:.2f} s.\n", "printed text",
                            repr(text))
    c.trace("env", handler, alarm, verbose, rebuffer, message)


def reuse_case(c):
    """The same object used again, also after errors and timeouts."""
    for limit in LIMITS:
        for seq in itertools.product((0.4, 0.75, 5.0, "mine", "timeout"),
                                     repeat=3):
            b = TB("again", timelimit=limit)
            c.check(b.elapsed is None, "elapsed before use")
            old = signal.signal(signal.SIGALRM, user_handler)
            level = logging.getLogger().manager.disable
            logging.disable(logging.CRITICAL)
            clock.reset()
            clock.running = True
            lim = None if limit is None else max(int(limit), 1)
            c.check(b.timelimit == lim, "timelimit", f"{b.timelimit}")
            try:
                for s in seq:
                    got = None
                    try:
                        with contextlib.redirect_stdout(io.StringIO()), b:
                            clock.advance(0.25)
                            if isinstance(s, str):
                                raise ERRORS[s](s)
                            clock.advance(s)
                    except Exception as ex:
                        got = ex
                    e = 0.25 + (0 if isinstance(s, str) else s)
                    late = lim is not None and e >= lim
                    c.op("reuse")
                    if isinstance(s, str):
                        c.check(type(got) is ERRORS[s] and got.args == (s,),
                                "exception", f"{got!r}")
                    elif late:
                        c.check(type(got) is TimeoutError, "timeout",
                                f"{got!r}")
                    else:
                        c.check(got is None, "exception", f"{got!r}")
                    c.close(b.elapsed, lim if late else e, "elapsed", 1e-6)
                    c.check(clock.alarm is None, "alarm pending")
                    c.check(signal.getsignal(signal.SIGALRM) is user_handler,
                            "handler")
                    c.state(limit, seq)
            finally:
                clock.running = False
                signal.signal(signal.SIGALRM, old)
                logging.disable(level)
    c.trace("reuse")


def stdout_case(c):
    """sys.stdout replaced between construction, entry and exit."""
    logging.disable(logging.CRITICAL)
    try:
        stdout_body(c)
    finally:
        logging.disable(logging.NOTSET)


def stdout_body(c):
    for rebuffer in (False, True):
        for body in ("ok", "raise", "toggle"):
            old = TB.rebuffer
            a, b = io.StringIO(), io.StringIO()
            try:
                TB.rebuffer = rebuffer
                with contextlib.redirect_stdout(a):
                    block = TB("text")
                with contextlib.redirect_stdout(b):
                    try:
                        with block:
                            print("inside")
                            if body == "raise":
                                raise Mine
                            if body == "toggle":
                                TB.rebuffer = not rebuffer
                    except Mine:
                        pass
                    c.check(sys.stdout is b, "sys.stdout")
                    print("after")
            finally:
                TB.rebuffer = old
            c.check(a.getvalue() == "", "written to the old stdout")
            c.check("inside" in b.getvalue() and "after" in b.getvalue(),
                    "text is lost", repr(b.getvalue()))
            c.op("stdout")
            c.state(rebuffer, body)
    # the text of a re-buffered block is written at its end, in one piece
    old = TB.rebuffer
    try:
        TB.rebuffer = True
        with contextlib.redirect_stdout(io.StringIO()) as out:
            with TB("outer"):
                with TB("inner"):
                    print("x")
                c.check(out.getvalue() == "", "not buffered")
        text = out.getvalue()
        c.check(text.index("outer") < text.index("inner") < text.index("x")
                < text.index("done"), "order", repr(text))
        c.check(text.count("done in") == 2, "reports", repr(text))
    finally:
        TB.rebuffer = old
    c.trace("stdout")


def log_case(c):
    """Log files: every block is recorded once in every file."""
    root = logging.getLogger()
    handlers, level = list(root.handlers), root.level
    f, g = c.path("a.log"), c.path("b.log")
    root.addHandler(logging.NullHandler())
    try:
        TB.add_logfile(f)
        TB.add_logfile(f)
        TB.add_logfile(os.path.join(os.path.dirname(f), ".", "a.log"))
        for verbose in (True, False):
            old = TB.verbose
            TB.verbose = verbose
            try:
                for i, body in enumerate(("ok", "raise", "limit", "user")):
                    msg = f"message{int(verbose)}{i}"
                    clock.reset()
                    clock.running = True
                    try:
                        with TB(msg, timelimit=2):
                            clock.advance(0.5)
                            if body == "raise":
                                raise Mine("some text")
                            if body == "limit":
                                clock.advance(5)
                            if body == "user":
                                raise TimeoutError("of mine")
                    except (Mine, TimeoutError):
                        pass
                    finally:
                        clock.running = False
                    with open(f) as fh:
                        text = fh.read()
                    c.op("log")
                    c.check(text.count(msg) == 1, "records", text)
                    tail = text[text.index(msg):]
                    c.check({"ok": "done in 0.5", "raise": "some text",
                             "limit": "TIMED OUT after 2.00 s",
                             "user": "of mine"}[body] in tail, "record", tail)
                    c.state(verbose, body)
            finally:
                TB.verbose = old
        TB.add_logfile(g)
        with TB("both"):
            pass
        for name in (f, g):
            with open(name) as fh:
                c.check(fh.read().count("both") == 1, "both files")
    finally:
        for h in list(root.handlers):
            if h not in handlers:
                root.removeHandler(h)
                h.close()
        root.setLevel(level)
    c.trace("log")


def real_case(c, which):
    """The real clock and the real alarm."""
    old = signal.signal(signal.SIGALRM, user_handler)
    level = logging.getLogger().manager.disable
    logging.disable(logging.CRITICAL)
    now = _real["perf_counter"]

    def nap(s):
        end = now() + s
        while now() < end:
            time.sleep(0.01)
    try:
        t0 = now()
        b = TB("real", timelimit=None if which == "plain" else 1)
        got = None
        t = []
        try:
            if which == "outer":        # the outer limit is shorter
                with TB("a", timelimit=1):
                    with TB("b", timelimit=60):
                        nap(5)
            elif which == "inner":      # ... and still holds afterwards
                with TB("a", timelimit=2):
                    try:
                        with TB("b", timelimit=1):
                            nap(5)
                    except TimeoutError:
                        t.append(now() - t0)
                    nap(5)
            else:
                with b:
                    t.append(now())
                    nap({"plain": 0.05, "fast": 0.05, "slow": 5}[which])
        except TimeoutError as ex:
            got = ex
        t1 = now()
        c.op(which)
        c.check((got is None) == (which in ("plain", "fast")), "timeout",
                f"{got!r}")
        if which in ("plain", "fast", "slow"):
            lo = {"slow": 0.9}.get(which, 0.05)
            c.check(lo <= b.elapsed <= t1 - t0 + 1e-6, "elapsed",
                    f"{b.elapsed} in {t1 - t0}")
        c.check(t1 - t0 < 4.5, "limit has no effect", f"{t1 - t0}")
        if which == "inner":
            c.check(0.9 < t[0] < t1 - t0, "order of the timeouts")
        c.check(signal.getitimer(signal.ITIMER_REAL)[0] == 0,
                "pending alarm")
        c.check(signal.getsignal(signal.SIGALRM) is user_handler, "handler")
        c.state(which)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        logging.disable(level)
    c.trace(which)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for limit in LIMITS + ((0, 0.5, 3, 10) if deep else (0.5,)):
        out.append((f"flat/{limit}", flat_case, (limit, 3 if deep else 2)))
    for limit, ilimit in itertools.product(LIMITS, LIMITS):
        for i, pre in enumerate(PRE):
            for caught in ("", "timeout", "all"):
                for alarm in (None, (1.2, 0), (3.0, 0)):
                    if alarm and not deep and (i not in (0, 1)
                                               or caught == "all"):
                        continue
                    out.append((f"nest/{limit}/{ilimit}/{i}/{caught}/{alarm}",
                                nested_case, (limit, pre, ilimit, caught,
                                              alarm)))
    for limits in itertools.product((None, 1, 2, 3) if deep else (None, 1, 2),
                                    repeat=3):
        for caught in itertools.product(("", "timeout"), repeat=2):
            out.append((f"deep/{limits}/{caught}", deep_case,
                        (limits, caught)))
    for handler in HANDLERS:
        for alarm in (None, (0.6, 0), (30.0, 0), (30.0, 7.0)):
            if handler == "ign" and alarm and alarm[0] < 1:
                continue
            for verbose in (True, False):
                for rebuffer in (True, False):
                    for m in ("default", "hello", "", None, "x\n", "x\r"):
                        out.append((
                            f"env/{handler}/{alarm}/{verbose}/{rebuffer}/"
                            f"{m!r}", env_case, (handler, alarm, verbose,
                                                 rebuffer, m)))
    out.append(("reuse", reuse_case, ()))
    out.append(("stdout", stdout_case, ()))
    out.append(("log", log_case, ()))
    for which in ("plain", "fast", "slow", "outer", "inner"):
        out.append((f"real/{which}", real_case, (which,)))
    return out
