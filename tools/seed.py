"""Development tool: confirm planted bugs and store them in /verif/seeded.

usage: seed.py BUGS.py [--only REGEX] [--workers N] [--keep]
BUGS.py defines BUGS = [dict(id, property, file, edits=[(old, new), ...],
demo, needs, breaks)].  `file` may be a list aligned with `edits`.
"""
import argparse
import json
import os
import re
import runpy
import subprocess
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate  # noqa: E402

SEEDED = "/verif/seeded"
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=/repo/src
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export TMPDIR="$D" MPLCONFIGDIR="$D"
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$D" && /opt/venv/bin/python -W ignore "$HERE/demo.py"
"""


def stable():
    b = BASE
    for k in ("stable_pass", "stable", "passed", "tests"):
        if isinstance(b, dict) and k in b:
            return set(b[k])
    raise SystemExit(f"{list(b)[:5]}")


def blame(path, text_lines):
    """Which commits the changed lines come from."""
    root = subprocess.run(["git", "-C", "/repo", "rev-list",
                           "--max-parents=0", "HEAD"], capture_output=True,
                          text=True).stdout.split()[0]
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", path],
                         capture_output=True, text=True).stdout.splitlines()
    return [ln.split()[0].lstrip("^")[:30] == root[:30] for i, ln in
            enumerate(out, 1) if i in text_lines]


def one(bug, work, a):
    files = bug["file"]
    if isinstance(files, str):
        files = [files] * len(bug["edits"])
    subprocess.run(["git", "-C", work + "/repo", "checkout", "-q", "--", "."])
    for f, (old, new) in zip(files, bug["edits"]):
        p = f"{work}/repo/src/opinf/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return f"EDIT: {s.count(old)} matches of {old!r:.80} in {f}"
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", work + "/repo", "diff"],
                          capture_output=True, text=True).stdout
    changed = {}
    cur = None
    for ln in diff.splitlines():
        if ln.startswith("--- a/"):
            cur = ln[6:]
        if (m := re.match(r"@@ -(\d+)", ln)):
            no = int(m[1])
        elif ln.startswith("-") and not ln.startswith("---"):
            changed.setdefault(cur, []).append(no)
            no += 1
        elif ln.startswith(" "):
            no += 1
    own = [x for p, v in changed.items() for x in blame(p, set(v))]
    if not any(own):
        return f"LINES: not original {changed}"
    d = f"{work}/demo"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.py", "w").write(bug["demo"])
    os.chmod(d + "/demo.sh", 0o755)
    p = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo",
                       capture_output=True, text=True)
    if p.returncode != 0:
        return "DEMO fails on the unchanged tree: " + p.stderr[-400:]
    rc, out = mutate.inside(work, f"cd /repo && bash {d}/demo.sh", 300)
    if rc == 0:
        return "DEMO passes with the patch"
    bug["_out"] = out[-200:]
    if not a.notests:
        rc, out = mutate.tests(work, mutate.relevant(files[0])[0])
        if rc != 0:
            return "TESTS " + " ".join(re.findall(r"FAILED.*", out))[:200]
        js = f"{work}/out.json"
        rc, out = mutate.inside(work, f"bash /opt/vp/test.sh {js}", 900)
        res = json.load(open(js))
        ok = set(res["passed"]) if "passed" in res else {
            k for k, v in res.items() if v == "passed"}
        missing = sorted(stable() - ok)
        if missing:
            return f"TESTS (all) {missing[:3]}"
    out = f"{SEEDED}/{bug['id']}"
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(bug["demo"])
    with open(out + "/meta.json", "w") as f:
        json.dump({"property": bug["property"], "needs": bug["needs"],
                   "what_it_breaks": bug["breaks"]}, f, indent=1)
        f.write("\n")
    ids = [bug["property"]] + [i for i in mutate.relevant(files[0])[1]
                               if i != bug["property"]]
    c = mutate.checks(work, ids[:1])
    if c:
        return f"KEPT, caught {c}"
    c = mutate.checks(work, ids[1:])
    return f"KEPT, MISSED by {ids[0]}; others: {c}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("bugs")
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--notests", action="store_true")
    a = ap.parse_args()
    bugs = [b for b in runpy.run_path(a.bugs)["BUGS"]
            if not a.only or re.search(a.only, b["id"])]
    lock = threading.Lock()

    def worker(k):
        work = f"/tmp/seed/w{k}"
        mutate.setup(work)
        while True:
            with lock:
                if not bugs:
                    return
                b = bugs.pop(0)
            try:
                r = one(b, work, a)
            except Exception as ex:
                r = f"ERROR {ex!r}"
            print(f"{b['id']}: {r}", flush=True)

    ts = [threading.Thread(target=worker, args=(k,))
          for k in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
