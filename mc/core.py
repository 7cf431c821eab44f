"""Bounded explicit-state exploration of the real opinf code.

A check module (checks/<id>.py) defines

    BOUNDS  : dict describing the alphabet and the bounds, for the evidence
    cases(tier) -> iterable of (key, function, args)

Each *case* is one configuration (or one root of a history tree).  The
function receives a ``Case`` and executes every enumerated history on real
opinf objects, comparing each step with a reference model.  The whole list of
cases is always executed (no sampling); a cap is reported when it is hit.
"""

import contextlib
import fnmatch
import gc
import hashlib
import io
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import threading
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")

MAX_FAILURES = int(os.environ.get("MC_MAX_FAILURES", 12))  # per worker
CASE_HANG_S = 240        # one case takes (well) under 20 s
BUDGET_S = 660           # whole check


# Exceptions of the harness itself --------------------------------------------
class CheckFailed(Exception):
    """Raised inside a case when the oracle disagrees."""

    def __init__(self, label, message):
        self.label = label
        super().__init__(message)


class Enough(BaseException):
    """Raised inside a case that has failed often enough."""


KNOWN_HERE = []          # known findings of this property: (case, label, text)


def is_known(key, label):
    """The known finding that the failure is an instance of."""
    for glob, lab, text in KNOWN_HERE:
        if fnmatch.fnmatchcase(key, glob) and fnmatch.fnmatchcase(label, lab):
            return glob, lab, text
    return None


# Canonical state keys -------------------------------------------------------
def canon(obj):
    """Canonical, hashable text of the property-relevant part of a state."""
    if obj is None or isinstance(obj, (bool, int, str)):
        return repr(obj)
    if isinstance(obj, (float, np.floating)):
        return f"{float(obj):.9e}"
    if isinstance(obj, np.integer):
        return repr(int(obj))
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind in "iub":
            body = obj.tobytes()
        elif obj.dtype.kind in "fc":
            scale = np.max(np.abs(obj)) if obj.size else 0
            if not np.isfinite(scale) or scale == 0:
                scale = 1.0
            with np.errstate(all="ignore"):
                body = (np.round(obj / scale, 9) + 0.0).tobytes()
                body += f"{scale:.9e}".encode()
        else:
            body = repr(obj.tolist()).encode()
        return f"A{obj.shape}{hashlib.sha1(body).hexdigest()}"
    if isinstance(obj, dict):
        return "{" + ",".join(
            f"{canon(k)}:{canon(obj[k])}" for k in sorted(obj, key=repr)
        ) + "}"
    if isinstance(obj, (list, tuple)):
        return "(" + ",".join(canon(o) for o in obj) + ")"
    if isinstance(obj, (set, frozenset)):
        return "<" + ",".join(sorted(canon(o) for o in obj)) + ">"
    return repr(obj)


def relerr(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return 0.0 if np.array_equal(a, b, equal_nan=True) else np.inf
    scale = max(1.0, float(np.max(np.abs(a))), float(np.max(np.abs(b))))
    return float(np.max(np.abs(a - b))) / scale


class Case:
    """One configuration; counts what is executed below it."""

    def __init__(self, key, tier="quick"):
        self.key = key
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.failures = []
        self.violations = 0
        self.capped = False
        self.samples = []
        self.outcomes = set()
        self.trail = []
        self._tmp = None

    # scratch directory, removed afterwards ----------------------------------
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="opinfmc-")
        return self._tmp

    def path(self, name):
        return os.path.join(self.tmp, name)

    def close_tmp(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # accounting -------------------------------------------------------------
    def state(self, *parts):
        self.states.add(hashlib.sha1(canon(parts).encode()).digest())

    def op(self, label=None, n=1):
        """One transition executed on the implementation."""
        self.transitions += n
        if label is not None:
            self.trail.append(str(label))

    def trace(self, *history):
        """One complete history compared with the reference model."""
        self.traces += 1
        if len(self.samples) < 1:
            self.samples.append(
                {"case": self.key, "history": [str(h) for h in history]}
            )
        self.trail = []

    def outcome(self, *o):
        self.outcomes.add(canon(o))

    # oracles ----------------------------------------------------------------
    def check(self, cond, label, message=""):
        if not cond:
            raise CheckFailed(label, message)

    def fail(self, label, message=""):
        raise CheckFailed(label, message)

    def close(self, got, want, label, tol=1e-9, message=""):
        try:
            got_, want_ = np.asarray(got), np.asarray(want)
        except Exception as ex:
            raise CheckFailed(label, f"{message}: not an array ({ex})")
        if got_.shape != want_.shape:
            raise CheckFailed(
                label,
                f"{message}: shape {got_.shape}, expected {want_.shape}",
            )
        err = relerr(got_, want_)
        if not err <= tol:
            raise CheckFailed(
                label,
                f"{message}: relative error {err:.3e} > {tol:.1e}; "
                f"got {np.array2string(got_, threshold=30)}, "
                f"expected {np.array2string(want_, threshold=30)}",
            )

    def same(self, got, want, label, message=""):
        """Bitwise equality of arrays / equality of scalars."""
        if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
            g, w = np.asarray(got), np.asarray(want)
            if g.shape != w.shape or not np.array_equal(g, w, equal_nan=(
                    g.dtype.kind in "fc" and w.dtype.kind in "fc")):
                raise CheckFailed(label, f"{message}: got {g}, expected {w}")
            return
        if not (got == want):
            raise CheckFailed(
                label, f"{message}: got {got!r}, expected {want!r}"
            )

    def raises(self, excs, fn, label, message=""):
        """fn() must raise one of excs."""
        self.op()
        try:
            out = fn()
        except excs as ex:
            return ex
        except Exception as ex:
            raise CheckFailed(
                label,
                f"{message}: raised {type(ex).__name__}({ex}) instead of "
                f"{excs}",
            )
        raise CheckFailed(
            label, f"{message}: no exception, returned {out!r:.300}"
        )

    @contextlib.contextmanager
    def sub(self, name):
        """A named sub-case: a failure is recorded and the case goes on."""
        n0 = len(self.trail)
        try:
            yield
        except CheckFailed as ex:
            self._record(f"{self.key}/{name}", ex.label, str(ex), n0)
        except (KeyboardInterrupt, SystemExit, Enough):
            raise
        except BaseException as ex:
            tb = traceback.format_exc(limit=-6)
            self._record(
                f"{self.key}/{name}",
                "exception",
                f"{type(ex).__name__}: {ex}\n{tb}",
                n0,
            )
        del self.trail[n0:]

    def _record(self, key, label, message, n0=0):
        self.failures.append({
            "key": key, "label": label, "message": message[:4000],
            "trail": list(self.trail),
        })
        if not is_known(key, label):
            self.violations += 1
            if self.violations >= MAX_FAILURES:
                raise Enough


def _run_case(key, fn, args, tier):
    c = Case(key, tier)
    sink = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(sink):
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                try:
                    fn(c, *args)
                except CheckFailed as ex:
                    c._record(key, ex.label, str(ex))
                except (KeyboardInterrupt, Enough):
                    raise
                except BaseException as ex:
                    tb = traceback.format_exc(limit=-8)
                    c._record(key, "exception",
                              f"{type(ex).__name__}: {ex}\n{tb}")
    except Enough:
        c.capped = True
    finally:
        c.close_tmp()
    return c


def _worker(idx, nworkers, cases, tier, deadline, conn):
    gc.collect()
    gc.freeze()         # keep later collections cheap
    current = {"key": None, "t": time.monotonic()}

    out = {"states": set(), "transitions": 0, "traces": 0, "failures": [],
           "samples": [], "outcomes": set(), "ncases": 0, "capped": 0}

    def watchdog():
        while True:
            time.sleep(2)
            if current["key"] is not None and (
                time.monotonic() - current["t"] > CASE_HANG_S
            ):
                out["failures"].append({
                    "key": current["key"], "label": "hang",
                    "message": f"no answer in {CASE_HANG_S} s", "trail": [],
                })
                conn.send(out)
                conn.close()
                os._exit(0)

    threading.Thread(target=watchdog, daemon=True).start()
    violations = 0
    for i in range(idx, len(cases), nworkers):
        key, fn, args = cases[i]
        if time.monotonic() > deadline or violations >= MAX_FAILURES:
            out["capped"] += 1
            continue
        current["t"] = time.monotonic()
        current["key"] = key
        c = _run_case(key, fn, args, tier)
        current["key"] = None
        out["ncases"] += 1
        # States of different configurations are different states.
        pre = hashlib.sha1(key.encode()).digest()[:6]
        out["states"].update(pre + s[:10] for s in c.states)
        out["transitions"] += c.transitions
        out["traces"] += c.traces
        out["failures"] += c.failures
        out["capped"] += c.capped
        violations += c.violations
        out["outcomes"] |= c.outcomes
        if len(out["samples"]) < 2:
            out["samples"] += c.samples
    conn.send(out)
    conn.close()
    os._exit(0)


def load_known():
    """known_findings.txt -> {property: [(glob, text)]} ('fixed:' ignored)."""
    known = {}
    if os.path.isfile(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                head, _, text = line[len("known:"):].strip().partition(" :: ")
                fields = dict(p.split("=", 1) for p in head.split())
                known.setdefault(fields["property"], []).append(
                    (fields["case"], fields.get("label", "*"), text)
                )
    return known


def run(prop, module, tier, seed, only=None):


    t0 = time.monotonic()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cases = list(module.cases(tier))
    keys = [k for k, _, _ in cases]
    assert len(set(keys)) == len(keys), "case keys are not unique"
    if only is not None:
        cases = [c for c in cases if only == c[0] or only.startswith(
            c[0] + "/")]
    KNOWN_HERE[:] = load_known().get(prop, [])
    ncpu = len(os.sched_getaffinity(0))
    nworkers = max(1, min(ncpu, 8, len(cases)))
    deadline = t0 + BUDGET_S
    ctx = multiprocessing.get_context("fork")
    procs = []
    sys.stdout.flush()
    for w in range(nworkers):
        r, s = ctx.Pipe(duplex=False)
        p = ctx.Process(
            target=_worker, args=(w, nworkers, cases, tier, deadline, s)
        )
        p.start()
        s.close()
        procs.append((p, r))
    tot = {"states": set(), "transitions": 0, "traces": 0, "failures": [],
           "samples": [], "outcomes": set(), "ncases": 0, "capped": 0}
    for w, (p, r) in enumerate(procs):
        try:
            o = r.recv()
        except EOFError:
            tot["failures"].append({
                "key": f"worker{w}", "label": "crash",
                "message": "the process executing the cases died",
                "trail": [],
            })
            p.join()
            continue
        p.join(10)
        tot["states"] |= o["states"]
        tot["outcomes"] |= o["outcomes"]
        for k in ("transitions", "traces", "ncases", "capped"):
            tot[k] += o[k]
        for k in ("failures", "samples"):
            tot[k] += o[k]

    violations, hits = [], {}
    for f in tot["failures"]:
        if (k := is_known(f["key"], f["label"])):
            hits[k] = hits.get(k, 0) + 1
        else:
            violations.append(f)
    for (glob, label, text), n in hits.items():
        print(f"KNOWN-FINDING: property={prop} {text} (case {glob}, "
              f"{label}, {n} times)")

    wall = time.monotonic() - t0
    bounds = dict(module.BOUNDS)
    coverage = {
        "states": len(tot["states"]),
        "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["traces"],
        "samples": tot["samples"][:8],
        "configurations": tot["ncases"],
        "distinct_outcomes": len(tot["outcomes"]),
        "exhaustive": tot["capped"] == 0 and only is None,
        "cases_not_run_because_of_a_cap": tot["capped"],
        "bounds": bounds,
    }
    level = getattr(module, "LEVEL", "model_checking")
    if level != "model_checking":
        coverage["evaluations"] = tot["transitions"]
        coverage["distinct_nontrivial"] = len(tot["states"])
        coverage["rule"] = module.RULE
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": coverage, "wall_s": round(wall, 3),
        "violations": len(violations),
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
    }
    if only is None:
        with open(
            os.path.join(VERIF, "evidence", f"{prop}.json"), "w"
        ) as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print(f"{prop} [{tier}] configurations={tot['ncases']} "
          f"states={coverage['states']} "
          f"transitions={coverage['transitions']} traces={tot['traces']} "
          f"outcomes={coverage['distinct_outcomes']} "
          f"capped={tot['capped']} wall={wall:.1f}s")
    if tot["ncases"] and tot["transitions"] == 0 and not violations:
        violations.append({"key": "all", "label": "vacuous",
                           "message": "nothing was executed", "trail": []})
    for i, f in enumerate(violations[:max(8, MAX_FAILURES - 12)]):
        rp = os.path.join(REPLAYS, f"{prop}-{i}.json")
        with open(rp, "w") as fh:
            json.dump({"property": prop, "case": f["key"],
                       "label": f["label"], "message": f["message"],
                       "history": f["trail"],
                       "rerun": f"./check {prop} --replay {rp}"}, fh,
                      indent=1)
        print(f"VIOLATION property={prop} replay={rp}")
        if i < 4 or "MC_MAX_FAILURES" in os.environ:
            print(f"   case {f['key']} [{f['label']}] "
                  f"{f['message'][:600]}")
    sys.stdout.flush()
    return 1 if violations else 0
