#!/opt/venv/bin/python
"""python run.py <PROPERTY> [--replay FILE] [--only SUITE ...] [--scale X]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ.setdefault("HDF5_USE_FILE_LOCKING", "FALSE")
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path[0:0] = [HERE, os.path.join(HERE, "vendor")]
# the code under test: /repo's current working tree, whatever is installed
sys.path.insert(0, os.environ.get("VERIF_SRC", "/repo/src"))

import argparse
import importlib
import json


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    import meshio

    src = os.path.realpath(os.environ.get("VERIF_SRC", "/repo/src"))
    assert os.path.realpath(meshio.__file__).startswith(src), meshio.__file__
    from vlib import core

    mod = importlib.import_module(f"props.{a.prop.lower()}")
    suites = mod.suites()
    if a.replay:
        with open(a.replay) as f:
            doc = json.load(f)
        s = {s.name: s for s in suites}[doc["suite"]]
        kind, msg = core.replay_isolated(s, doc["case"])
        if kind == "err":
            print(msg, file=sys.stderr)
            return 2
        if msg is None:
            print(f"{a.prop}: replayed case holds")
            return 0
        print(f"VIOLATION property={a.prop} replay={os.path.abspath(a.replay)}")
        print("  " + msg)
        return 1
    return core.run_property(a.prop, suites, mod.RULE, tier, seed, a.only, a.scale)


if __name__ == "__main__":
    sys.exit(main())
