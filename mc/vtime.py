"""Controlled clock and alarm: stand-ins for the functions of ``time`` and
``signal``, installed before opinf is imported (so ``from time import ...``
gets them as well).  Unless the clock is running they call the originals.
"""

import signal
import threading
import time

_CLOCKS = ("time", "perf_counter", "monotonic", "process_time",
           "thread_time")
_real = {}


class Killed(BaseException):
    """SIGALRM would have ended the process."""


class Clock:
    def __init__(self):
        self._on = False
        self.reset()

    @property
    def running(self):
        """On, for the main thread only."""
        return self._on and (
            threading.current_thread() is threading.main_thread())

    @running.setter
    def running(self, on):
        self._on = on

    def reset(self):
        self.now = 1000.0       # wall clock
        self.cpu = 10.0         # processor clock
        self.alarm = None       # (time, interval)
        self.log = []

    def pending(self):
        return 0.0 if self.alarm is None else max(
            self.alarm[0] - self.now, 1e-9)

    def set_alarm(self, delay, interval=0.0):
        old = (self.pending(), 0.0 if self.alarm is None else self.alarm[1])
        self.alarm = (self.now + delay, interval) if delay > 0 else None
        self.log.append(("set", delay, interval))
        return old

    def advance(self, d, cpu=False):
        """Time passes; the alarm goes off at its time."""
        end = self.now + d
        while self.alarm is not None and self.alarm[0] <= end:
            at, interval = self.alarm
            step = max(at - self.now, 0.0)
            self.now += step
            if cpu:
                self.cpu += step
            self.alarm = (self.now + interval, interval) if interval else None
            self.log.append(("fired", self.now))
            handler = signal.getsignal(signal.SIGALRM)
            if handler in (signal.SIG_DFL, None):
                raise Killed("alarm clock")
            signal.raise_signal(signal.SIGALRM)
        if cpu:
            self.cpu += end - self.now
        self.now = end


clock = Clock()


def install():
    if _real:
        return
    for name in _CLOCKS:
        for ns in ("", "_ns"):
            f = getattr(time, name + ns, None)
            if f is None:
                continue
            _real[name + ns] = f

            def fake(f=f, ns=ns, cpu=name in ("process_time",
                                              "thread_time")):
                if not clock.running:
                    return f()
                t = clock.cpu if cpu else clock.now
                return int(t * 1e9) if ns else t
            setattr(time, name + ns, fake)
    _real["sleep"] = time.sleep

    def sleep(s):
        if clock.running:
            clock.advance(s)
        else:
            _real["sleep"](s)
    time.sleep = sleep
    for name in ("alarm", "setitimer", "getitimer"):
        _real[name] = getattr(signal, name)

    def alarm(n):
        if not clock.running:
            return _real["alarm"](n)
        left = clock.set_alarm(n)[0]
        return 0 if left == 0 else max(1, int(left + 0.5))

    def setitimer(which, seconds, interval=0.0):
        if not clock.running:
            return _real["setitimer"](which, seconds, interval)
        if which != signal.ITIMER_REAL:
            raise NotImplementedError
        return clock.set_alarm(seconds, interval)

    def getitimer(which):
        if not clock.running:
            return _real["getitimer"](which)
        return (clock.pending(), clock.alarm[1] if clock.alarm else 0.0)

    signal.alarm, signal.setitimer = alarm, setitimer
    signal.getitimer = getitimer
