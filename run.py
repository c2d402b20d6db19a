"""Check runner: python3 run.py PROPERTY [--tier quick|thorough]"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

if sys.executable != PY and os.path.realpath(sys.prefix) != "/opt/venv" or os.environ.get("PYTHONHASHSEED") != "0":
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    os.execve(PY, [PY, "-B", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", help="only cases whose name starts with this")
    ap.add_argument("--skip", help="leave out cases whose name starts with this")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    t0 = time.time()
    from engine import explore, libs
    explore.load_repo()
    libs.install()
    from checks import registry
    spec = registry.PROPS[a.property]
    cases = spec["cases"](a.tier)
    if a.case:
        cases = [c for c in cases if c.name.startswith(a.case)]
        if not cases:
            print("no case of that name")
            sys.exit(2)
    if a.skip:
        cases = [c for c in cases if not c.name.startswith(a.skip)]
    merged = [c for c in cases if c.fn.startswith("merged:")]
    cases = [c for c in cases if not c.fn.startswith("merged:")]
    known = [k for k in registry.known_findings() if k.get("status") == "known" and k["property"] == a.property]
    budget = a.budget or (300 if a.tier == "quick" else 3600 * 2)
    R = explore.Runner(a.property, a.tier, cases, budget, path_seconds=spec.get("path_seconds", 40.0), known=known, workers=a.workers)
    for c in cases:
        c.resolve()
    base = list(range(len(cases)))
    M = None
    if merged:
        from engine.merge_run import MergedCases
        M = MergedCases(merged, explore.REPO_SRC, explore.PKG, budget, a.workers or 8)
        M.pump()
    found = R.explore(base) if base else None
    if M is not None and found is not None:
        M.stop()
    # fallbacks for cases the proxies could not follow, or whose counterexamples did not reproduce
    if found is None:
        retry = []
        for ci in sorted(set(R.inconclusive) | set(R.spurious)):
            c = cases[ci]
            for k, fb in enumerate(c.fallback):
                nc = explore.Case(c.name + "/fallback%d" % k, c.fn, fb)
                nc.origin = ci
                cases.append(nc)
                retry.append(len(cases) - 1)
        if retry:
            R.cases = cases
            R.conf["deadline"] = max(R.conf["deadline"], time.time() + 120)
            found = R.explore(retry)
            for i in retry:
                if i not in R.inconclusive and i not in R.spurious:
                    o = cases[i].origin
                    why = R.inconclusive.pop(o, None) or R.spurious.pop(o, None)
                    R.notes.append("case %s decided by its fallback encoding (%s)" % (cases[o].name, str(why)[:200]))
    if M is not None and found is None:
        M.wait()
        found = merged_results(R, M, merged)
    if found is None:
        found = R.validate()
    wall = time.time() - t0
    violations = 0 if found is None else 1
    report(a, spec, R, cases, wall, violations, t0)
    for what, n in sorted(R.known_hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (a.property, what))
    if found is not None:
        path, message, out = found
        print("message: %s" % message)
        print("observed: %s" % out)
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        return 1
    tot = sum(s.get("paths", 0) for s in R.stats.values())
    bad = dict(R.inconclusive)
    for ci, ms in R.spurious.items():
        bad.setdefault(ci, "counterexample did not reproduce: " + ms[0])
    missing = []
    for t in (spec.get("reach", []) if not a.case else []):
        if not any(s.get("reach:" + t) for s in R.stats.values()):
            missing.append(t)
    if missing and not bad:
        print("INCONCLUSIVE property=%s unreached: %s" % (a.property, missing))
        return 2
    if bad:
        for ci, w in bad.items():
            print("INCONCLUSIVE property=%s case=%s %s" % (a.property, cases[ci].name, w))
        return 2
    cut = sum(s.get("cut", 0) for s in R.stats.values())
    print("OK property=%s paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs%s" % (
        a.property, tot, R.tot["queries"], R.tot["solver_time"], R.validated, wall, " (time limit: %d open branches)" % cut if cut else ""))
    return 0


def merged_results(R, M, merged):
    """Record what the path-merging cases decided; a counterexample counts once it is reproduced on the real code."""
    from engine.explore import Case
    R.merged = {}
    for i, c in enumerate(merged):
        r = M.results[i]
        R.merged[c.name] = {"params": {k: str(v) for k, v in c.params.items()}, "status": r["status"], "detail": r["detail"][:300], "inputs": r.get("inputs"),
                            "and_nodes": r.get("nodes"), "queries": r.get("queries"), "solver_s": round(r.get("solver_time", 0), 2),
                            "assertions": r.get("asserts"), "reached": r.get("reached"), "wall_s": round(r.get("wall", 0), 1)}
        R.functions.update(r.get("functions", ()))
        R.tot["queries"] += r.get("queries") or 0
        R.tot["solver_time"] += r.get("solver_time") or 0.0
        R.tot["unknowns"] += r.get("unknowns") or 0
        if r["status"] in ("unsupported", "unknown"):
            R.notes.append("path-merging case %s not decided (%s: %s); left to the other cases" % (c.name, r["status"], r["detail"][:200]))
            continue
        for tag in r.get("reached", ()):
            R.stats.setdefault(-1, {})["reach:" + tag] = 1
        for sc in r["scripts"]:
            R.cases.append(Case(c.name, "mgr:script", sc))
            ci = len(R.cases) - 1
            if r["status"] == "violation":
                path, out = R.confirm(ci, {}, r["detail"])
                if path is not None:
                    return path, r["detail"], out
                R.notes.append("path-merging case %s: counterexample did not reproduce (%s)" % (c.name, r["detail"]))
            else:
                R.sample_inputs.append((ci, {}))
    return None


def report(a, spec, R, cases, wall, violations, t0):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tot = {}
    for s in R.stats.values():
        for k, v in s.items():
            tot[k] = tot.get(k, 0) + v
    samples = [{"case": cases[ci].name, "inputs": inp or cases[ci].params} for ci, inp in getattr(R, "samples_out", R.sample_inputs)[:3]]
    ev = {
        "property": a.property, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "wall_s": round(wall, 2),
        "violations": violations,
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("decisions", 0),
            "traces_validated_against_impl": R.validated,
            "samples": samples or [{"note": "no explored path was sampled in this run"}],
            "exhaustive": not tot.get("cut") and not R.inconclusive and not R.spurious and not violations,
            "open_branches_at_time_limit": tot.get("cut", 0),
            "meaning": "states = execution paths of the real code (equivalence classes of inputs, each covering every value that "
                       "satisfies its path condition); transitions = branch decisions; traces_validated = explored paths run again "
                       "with concrete inputs on the unpatched code",
            "solver": {"name": "z3", "queries": R.tot["queries"], "seconds": round(R.tot["solver_time"], 2), "unknown": R.tot["unknowns"]},
            "assertions_evaluated": tot.get("asserts", 0),
            "functions_encoded": sorted(R.functions),
            "bounds": spec.get("bounds", {}).get(a.tier, spec.get("bounds", "")) if isinstance(spec.get("bounds"), dict) else spec.get("bounds", ""),
            "cases": {cases[ci].name: {"paths": s.get("paths", 0), "params": {k: str(v) for k, v in cases[ci].params.items()}} for ci, s in sorted(R.stats.items()) if ci >= 0},
            "merged_cases": getattr(R, "merged", {}),
            "reached": {k[6:]: v for k, v in sorted(tot.items()) if k.startswith("reach:")},
            "known_findings_hit": R.known_hits,
            "notes": R.notes,
        },
        "assumptions": spec.get("assumptions", []) + registry_common(),
    }
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")


def registry_common():
    from checks import registry
    return registry.COMMON_ASSUMPTIONS


if __name__ == "__main__":
    sys.exit(main())
