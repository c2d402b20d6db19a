"""Run recorded inputs through a harness against the unpatched code of /repo.

usage: replay.py FILE        exit 1: the violation reproduces; 0: it does not; 3: error of the replay itself
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VP_REPO_SRC", "/repo/src"))
import warnings  # noqa: E402

warnings.simplefilter("ignore")
import importlib  # noqa: E402

from engine import state  # noqa: E402
from engine.env import AssumptionFailed, CheckFailed, ConcEnv  # noqa: E402


def run_once(d, attempt):
    mod, f = d["fn"].split(":")
    fn = getattr(importlib.import_module("checks." + mod), f)
    state.reset()
    env = ConcEnv(d["inputs"], d["params"], attempt)
    if attempt:
        import random
        import numpy
        random.seed(7919 * attempt)
        numpy.random.seed(7919 * attempt)
    try:
        fn(env, **{k: v for k, v in d["params"].items() if not k.startswith("_") and k != "perm_prefix"})
    except CheckFailed as e:
        return "fail", e.message
    except AssumptionFailed:
        return "assume", "assumption not met"
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1]
        if os.path.basename(os.path.dirname(last.filename)) == "engine" and not any("cognitivefactory" in x.filename for x in tb):
            return "assume", "error of the harness itself: %s: %s" % (type(e).__name__, str(e)[:200])
        return "fail", "unexpected %s: %s (at %s:%s)" % (type(e).__name__, str(e)[:200], os.path.basename(last.filename), last.name)
    return "ok", ""


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    if "batch" in d:
        for i, x in enumerate(d["batch"]):
            st, msg = run_once(x, 0)
            print("SAMPLE %d %s %s" % (i, st, msg.replace("\n", " ")), flush=True)
        return 0
    t0 = time.time()
    attempts = 400 if d["inputs"].get("__rng__") else 6 if d["inputs"].get("__scalable__") else 1
    last = ""
    for a in range(attempts):
        st, msg = run_once(d, a)
        last = st + " " + msg
        if st == "fail":
            print("reproduced (attempt %d): %s" % (a, msg))
            return 1
        if time.time() - t0 > 40:
            break
    print("not reproduced: " + last)
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
