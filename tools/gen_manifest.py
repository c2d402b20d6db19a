"""Writes /verif/MANIFEST.json from the registry and the not-applicable list."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")
from checks import registry  # noqa: E402

props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    if p not in registry.PROPS:
        continue
    s = registry.PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 run.py %s --tier quick" % p,
        "thorough_cmd": "python3 run.py %s --tier thorough" % p,
        "technique": s.get("technique", ("path-merging symbolic interpretation of the real code into one formula decided by z3, and " if any(c.fn.startswith("merged:") for c in s["cases"]("quick")) else "")
                           + "path-exhaustive symbolic execution of the real Python code with z3, counterexamples replayed"),
        "level": "model_checking",
        "level_note": "Bounded: " + s["bounds"]["quick"] + ". Trusted: CPython, z3, the proxies and the library stand-ins listed in DESIGN.md"
                      + ("; " + "; ".join(s["assumptions"]) if s["assumptions"] else "") + ".",
    })
na = [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in registry.PROPS]
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B tools/selftest.py", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
