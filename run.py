"""Entry point of every check: run.py <PROPERTY> [--tier T] [--replay FILE]"""

import argparse
import importlib
import json
import os
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    a = ap.parse_args()
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = a.case
    if a.replay:
        with open(a.replay) as f:
            only = json.load(f)["case"]
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        if prop == "C22":
            from mc import vtime
            vtime.install()
        from mc import core
        import opinf

        src = os.path.realpath(os.path.join("/repo", "src"))
        if not os.path.realpath(opinf.__file__).startswith(src + os.sep):
            print(f"opinf imported from {opinf.__file__}, not {src}")
            raise RuntimeError("wrong opinf")
        module = importlib.import_module(f"checks.{prop.lower()}")
        return core.run(prop, module, tier, seed, only)
    except Exception:
        tb = traceback.format_exc()
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", f"{prop}-error.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "case": "import", "label": "error",
                       "message": tb, "history": []}, f, indent=1)
        print(tb)
        print(f"VIOLATION property={prop} replay={rp}")
        return 1


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
