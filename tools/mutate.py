"""Development tool: mutants of opinf that pass its tests but not the checks.

Each worker has private copies of /repo and /verif, bound over the originals
in a mount namespace of its own (unshare -Urm), so nothing real is changed.

usage: mutate.py run OUT.jsonl --n 400 --seed 1 --workers 4 [--only REGEX]
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

SRC = "/repo/src/opinf"
RELEVANT = [
    ("pre/", "pre", "C01 C03 C04 C05 C02 C08 C09 C24 C20 C26 C28 C31 C34 C32 C33 C27"),
    ("basis/", "basis", "C06 C07 C05 C02 C08 C09 C24 C20 C26 C28 C31 C34 C32 C33 C27"),
    ("operators/", "operators", "C11 C12 C13 C02 C08 C09 C10 C24 C14 C15 C26 C28 C31 C34 C32 C33 C27"),
    ("models/", "models", "C14 C15 C12 C02 C08 C09 C10 C24 C20 C21 C26 C28 C31 C34 C32 C33 C27"),
    ("lstsq/", "lstsq", "C16 C17 C14 C02 C08 C09 C10 C24 C25 C26 C28 C31 C34 C32 C33 C27"),
    ("ddt/", "ddt", "C18 C02 C24 C20 C26 C28 C31 C34 C32 C33 C27"),
    ("lift/", "lift", "C19 C02 C24 C20 C26 C28 C31 C34 C32 C33 C27"),
    ("roms/", "roms", "C20 C21 C25 C02 C24 C26 C28 C31 C34 C32 C33 C27"),
    ("utils/_gridsearch", "utils", "C21 C31 C32 C34"),
    ("utils/_timer", "utils", "C22"),
    ("utils/_hdf5", "utils", "C08 C09"),
    ("utils/_requires", "utils", "C24"),
    ("post/", "post", "C23 C02 C24 C28 C31 C32 C33 C34"),
]


def relevant(rel):
    for pre, tests, checks in RELEVANT:
        if rel.startswith(pre):
            return tests, checks.split()
    return None


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
       ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
       ast.FloorDiv: "/", ast.Pow: "*", ast.Mod: "*"}


def mutants(path):
    text = open(path).read()
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    raw = text.encode()

    def span(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                doc.add(id(n.body[0]))
                doc.add(id(n.body[0].value))
        # Messages of exceptions and warnings are not behaviour.
        if isinstance(n, ast.Raise):
            for k in ast.walk(n):
                if k is not n:
                    doc.add(id(k))
        if isinstance(n, ast.Call) and src(n.func) in (
                "warnings.warn", "print"):
            for k in ast.walk(n):
                doc.add(id(k))
        if isinstance(n, ast.JoinedStr):
            for k in ast.walk(n):
                doc.add(id(k))
        if isinstance(n, ast.FunctionDef) and (
                n.name.startswith("plot") or n.name in (
                    "__str__", "__repr__", "verify") or "report" in n.name):
            for k in ast.walk(n):
                doc.add(id(k))
    out = []

    def add(kind, n, new):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((kind, n.lineno, a, b, new))

    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            new = CMP.get(type(n.ops[0]))
            if new:
                add("cmp", n, f"{src(n.left)} {new} "
                    f"{src(n.comparators[0])}")
        elif isinstance(n, ast.BinOp):
            new = BIN.get(type(n.op))
            if new and not isinstance(n.left, ast.Constant) or (
                    new and not isinstance(n.left.value, str)):
                add("bin", n, f"({src(n.left)} {new} {src(n.right)})")
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                add("left", n, f"({src(n.left)})")
        elif isinstance(n, ast.BoolOp):
            new = " or " if isinstance(n.op, ast.And) else " and "
            add("bool", n, "(" + new.join(src(v) for v in n.values) + ")")
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                op = " and " if isinstance(n.op, ast.And) else " or "
                add("boolpart", n, "(" + op.join(src(v) for v in rest) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.Not, ast.USub)):
            add("unary", n, f"({src(n.operand)})")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add("const", n, str(not n.value))
            elif isinstance(n.value, int):
                add("const", n, str(n.value + 1))
                if n.value > 0:
                    add("const", n, str(n.value - 1))
            elif isinstance(n.value, float):
                add("const", n, repr(n.value * 1.5 + 0.5))
        elif isinstance(n, ast.If):
            add("if", n.test, "True")
            add("if", n.test, "False")
        elif isinstance(n, ast.IfExp):
            add("ifexp", n, f"({src(n.body)})")
            add("ifexp", n, f"({src(n.orelse)})")
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            add("T", n, src(n.value))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "copy", "ravel", "flatten", "item", "conj"):
                add("copy", n, src(n.func.value))
            if src(n.func) in ("np.array", "np.atleast_2d", "np.atleast_1d",
                               "np.sort", "sorted", "abs", "np.abs",
                               "np.sqrt", "list", "tuple", "np.ravel",
                               "copy.copy", "copy.deepcopy") and n.args:
                add("unwrap", n, src(n.args[0]))
            for k in n.keywords:
                a, b = span(n)
                ka = off[k.lineno - 1] + k.col_offset
                kb = off[k.end_lineno - 1] + k.end_col_offset
                s = (raw[a:ka] + raw[kb:b]).decode()
                s = re.sub(r",\s*,", ",", s)
                s = re.sub(r"\(\s*,", "(", s)
                add("kwarg", n, s)
        elif isinstance(n, ast.Slice):
            if n.lower is not None or n.upper is not None:
                for lo, up in ((None, n.upper), (n.lower, None)):
                    s = (src(lo) if lo else "") + ":" + (
                        src(up) if up else "")
                    if n.step:
                        s += ":" + src(n.step)
                    add("slice", n, s)
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if not isinstance(t, ast.Name) or isinstance(n, ast.AugAssign):
                add("del", n, "pass")
        elif isinstance(n, ast.Expr):
            add("del", n, "pass")
        elif isinstance(n, ast.Raise):
            add("noraise", n, "pass")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add("jump", n, "pass")
    good = []
    for m in out:
        new = raw[:m[2]] + m[4].encode() + raw[m[3]:]
        try:
            ast.parse(new)
        except (SyntaxError, ValueError):
            continue
        good.append(m)
    return good


ENV = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
           )


def cpus(work):
    k = int(work.rsplit("w", 1)[1])
    return f"{k},{(k + 1) % 8}"


def inside(work, cmd, timeout):
    """Run a command with the private copies bound over the originals."""
    script = (f"mount --bind {work}/repo /repo && "
              f"mount --bind {work}/verif /verif && {cmd}")
    try:
        p = subprocess.run(["taskset", "-c", cpus(work), "unshare", "-Urm", "bash", "-c", script],
                           env=ENV, capture_output=True, timeout=timeout,
                           text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""
    return p.returncode, p.stdout + p.stderr


def setup(work):
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    shutil.copytree("/repo", work + "/repo", symlinks=True)
    shutil.copytree("/verif", work + "/verif", symlinks=True,
                    ignore=shutil.ignore_patterns(
                        ".git", "evidence", "replays", "seeded"))
    for d in ("evidence", "replays"):
        os.makedirs(f"{work}/verif/{d}")


def tests(work, area, full=False):
    where = "tests" if full else f"tests/{area}"
    extra = "--ignore=tests/regression" if full else ""
    return inside(work, "cd /repo && timeout 400 /opt/venv/bin/python -m "
                  f"pytest -x -q -W ignore -p no:cacheprovider --timeout=120 "
                  f"-p no:randomly {extra} {where}", 450)


def checks(work, ids):
    caught = {}
    for i in ids:
        rc, out = inside(work, f"cd /verif && timeout 400 ./check {i}", 450)
        if rc != 0:
            m = re.findall(r"   case (.*)", out)
            caught[i] = m[0][:150] if m else str(rc)
            break
    return caught


def run(a):
    rng = random.Random(a.seed)
    jobs = []
    for root, _, files in os.walk(SRC):
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(root, f), SRC)
            if not f.endswith(".py") or f == "__init__.py":
                continue
            if relevant(rel) is None or (a.only and not re.search(
                    a.only, rel)):
                continue
            jobs += [(rel, *m) for m in mutants(os.path.join(root, f))]
    print(len(jobs), "mutants")
    rng.shuffle(jobs)
    jobs = jobs[:a.n]
    lock = threading.Lock()
    done = [0]

    def worker(k):
        work = f"{a.dir}/w{k}"
        setup(work)
        while True:
            with lock:
                if not jobs:
                    return
                rel, kind, line, s, e, new = jobs.pop()
            path = f"{work}/repo/src/opinf/{rel}"
            orig = open(path, "rb").read()
            open(path, "wb").write(orig[:s] + new.encode() + orig[e:])
            res = dict(file=rel, line=line, kind=kind,
                       old=orig[s:e].decode()[:100], new=new[:100], s=s, e=e,
                       repl=new)
            try:
                area, ids = relevant(rel)
                rc, out = tests(work, area)
                if rc == 0:
                    c = checks(work, ids)
                    res["result"] = "caught" if c else "MISSED"
                    res["by"] = c
                else:
                    res["result"] = "tests"
            finally:
                open(path, "wb").write(orig)
            with lock:
                done[0] += 1
                with open(a.out, "a") as f:
                    f.write(json.dumps(res) + "\n")
                if res["result"] != "tests":
                    print(done[0], res["result"], rel, line, kind,
                          repr(res["old"]), "->", repr(res["new"]),
                          res.get("by"), flush=True)

    ts = [threading.Thread(target=worker, args=(k,))
          for k in range(a.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=400)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--only")
    ap.add_argument("--dir", default="/tmp/mut")
    args = ap.parse_args()
    run(args)
