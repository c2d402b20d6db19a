"""Parallel path exploration and the check runner."""
import importlib
import json
import multiprocessing as mp
import os
import queue as _queue
import signal
import subprocess
import sys
import time
import traceback

from . import state

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VP_REPO_SRC", "/repo/src")
PKG = "cognitivefactory.interactive_clustering"
PY = "/opt/venv/bin/python"
REPLAYS = os.path.join(VERIF, "replays")


class Case:
    def __init__(self, name, fn, params=None, fallback=(), weight=1, reach=()):
        self.name, self.fn, self.reach = name, fn, list(reach)
        # the same JSON values reach the symbolic run and the replay
        self.params = json.loads(json.dumps(params or {}))
        self.fallback = list(fallback)
        if not self.fallback and self.params.get("order") == "sym":
            self.fallback = [dict(self.params, order="mix")]

    def resolve(self):
        mod, f = self.fn.split(":")
        return getattr(importlib.import_module("checks." + mod), f)


def load_repo():
    """Import the package under test from /repo's working tree; returns nothing."""
    if not os.path.isdir(os.path.join(REPO_SRC, *PKG.split("."))):
        raise SystemExit("no package under %s" % REPO_SRC)
    if REPO_SRC not in sys.path[:1]:
        sys.path.insert(0, REPO_SRC)
    import warnings
    warnings.simplefilter("ignore")


def inject_shims():
    from . import libs
    for name, m in list(sys.modules.items()):
        if m is not None and (name == PKG or name.startswith(PKG + ".")):
            libs.inject(m)


# ---------------------------------------------------------------------------------------------------------
def _alarm(signum, frame):
    from .sym import PathTimeout
    raise PathTimeout()


def _limit(seconds):
    """Time-out in seconds of processor time, so that a busy machine does not matter (ten times as long on the clock)."""
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, seconds * 10)


class Worker:
    def __init__(self, wid, cases, jobs, results, outstanding, idle, stop, dead, conf):
        self.wid, self.cases, self.jobs, self.results = wid, cases, jobs, results
        self.outstanding, self.idle, self.stop, self.dead, self.conf = outstanding, idle, stop, dead, conf
        self.stats = {}
        self.functions = set()
        self.samples = {}

    def stat(self, ci, key, n=1):
        d = self.stats.setdefault(ci, {})
        d[key] = d.get(key, 0) + n

    def run(self):
        from . import libs, sym
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGPROF, _alarm)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        self.engines = {}
        self.sym, self.libs = sym, libs
        while not self.stop.value:
            with self.idle.get_lock():
                self.idle.value += 1
            job = None
            try:
                while not self.stop.value:
                    try:
                        job = self.jobs.get(timeout=0.05)
                        break
                    except _queue.Empty:
                        if self.outstanding.value <= 0:
                            break
            finally:
                with self.idle.get_lock():
                    self.idle.value -= 1
            if job is None:
                break
            ci, prefix = job
            try:
                self.explore(ci, prefix)
            except BaseException as e:  # noqa: BLE001
                self.results.put(("crash", ci, "".join(traceback.format_exception(e))[-3000:]))
            with self.outstanding.get_lock():
                self.outstanding.value -= 1
        tot = {"queries": 0, "solver_time": 0.0, "unknowns": 0}
        for e in self.engines.values():
            tot["queries"] += e.queries
            tot["solver_time"] += e.solver_time
            tot["unknowns"] += e.unknowns
        self.results.put(("done", self.wid, self.stats, sorted(self.functions), self.samples, tot))

    def engine(self, ci):
        # one engine (z3 stack) per case and worker
        if ci not in self.engines:
            self.engines = {k: v for k, v in self.engines.items()}
            e = self.sym.Engine(self.conf["query_timeout_ms"])
            self.engines[ci] = e
        return self.engines[ci]

    def explore(self, ci, prefix):
        case = self.cases[ci]
        fn = case.resolve()
        state.snapshot()
        inject_shims()
        eng = self.engine(ci)
        self.sym.set_engine(eng)
        stack = [(prefix, None)]
        while stack and not self.stop.value and not self.dead[ci]:
            if time.time() > self.conf["deadline"]:
                self.stat(ci, "cut", len(stack))
                return
            p, model = stack.pop()
            pend = self.one(ci, case, fn, eng, p, model)
            stack.extend(pend)
            if len(stack) > 1 and self.idle.value > 0 and self.jobs.empty():
                k = max(1, len(stack) // 2)
                give, stack = stack[:k], stack[k:]
                with self.outstanding.get_lock():
                    self.outstanding.value += len(give)
                for g, _ in give:
                    self.jobs.put((ci, g))

    def one(self, ci, case, fn, eng, prefix, model):
        sym = self.sym
        state.reset()
        eng.reset(prefix, model)
        from .env import SymEnv
        env = SymEnv(eng, case.params)
        self.libs.set_env(env)
        prof = self.stats.get(ci, {}).get("paths", 0) < 12
        status, detail = "ok", None
        limit = self.conf["path_seconds"]
        _limit(limit)
        try:
            try:
                if prof:
                    sys.setprofile(self._profile)
                fn(env, **{k: v for k, v in case.params.items() if not k.startswith("_") and k != "perm_prefix"})
            except Exception as e:  # noqa: BLE001
                status = "violation"
                tb = traceback.extract_tb(e.__traceback__)
                where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else "?"
                detail = "unexpected %s: %s (at %s)" % (type(e).__name__, str(e)[:200], where)
            finally:
                if prof:
                    sys.setprofile(None)
                _limit(0)
        except sym.PathViolation as e:
            status, detail = "violation", e.message
        except sym.PathInfeasible:
            status = "infeasible"
        except sym.Unsupported as e:
            status, detail = "unsupported", str(e)
        except sym.SolverUnknown:
            status, detail = "unknown", "solver returned unknown"
        except sym.PathTimeout:
            status, detail = "violation", "no answer within %ss of processor time (possible non-termination)" % limit
        _limit(0)
        if status != "infeasible":
            self.stat(ci, "paths")
        self.stat(ci, "status:" + status)
        self.stat(ci, "decisions", max(0, len(eng.trail) - len(prefix)) + (1 if prefix else 0))
        self.stat(ci, "asserts", env.checks_done)
        for t, n in env.tags.items():
            self.stat(ci, "reach:" + t, n)
        want_sample = False
        if status == "ok":
            k = self.stats[ci].get("status:ok", 0)
            # spread samples over the exploration: 1st, 2nd, 4th, 8th ... path of this worker
            want_sample = (k & (k - 1)) == 0 and len(self.samples.get(ci, ())) < self.conf["samples_per_worker"]
        if status in ("violation", "unsupported", "unknown") or want_sample:
            try:
                _limit(60)
                inputs = env.concretise()
            except sym.PathInfeasible:
                if status == "violation":
                    self.stat(ci, "infeasible_violation")
                status = "infeasible"
                inputs = None
            except BaseException as e:  # noqa: BLE001
                inputs = None
                if status == "violation":
                    status, detail = "unsupported", "no concrete input for: %s (%s %s)" % (detail, type(e).__name__, e)
            finally:
                _limit(0)
            if status == "ok" and inputs is not None:
                self.samples.setdefault(ci, []).append(inputs)
            elif status == "violation":
                self.results.put(("violation", ci, inputs, detail))
            elif status in ("unsupported", "unknown"):
                self.dead[ci] = 1
                self.results.put(("unsupported", ci, inputs, detail))
        self.libs.set_env(None)
        return eng.pending

    def _profile(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if "interactive_clustering" in fn and fn.endswith(".py") and not co.co_name.startswith("<"):
                self.functions.add("%s:%s" % (fn.split("interactive_clustering/")[-1], co.co_qualname))


def _worker_main(*a):
    Worker(*a).run()


# ---------------------------------------------------------------------------------------------------------
def run_replay(path, timeout=90, hashseed="0"):
    """Run a replay file on the unpatched code in its own process.  True if the violation reproduces."""
    env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run([PY, "-B", "-W", "ignore", os.path.join(VERIF, "replay.py"), path], env=env,
                           capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "no answer within %ds on the real code" % timeout
    return r.returncode == 1, (r.stdout + r.stderr).strip()[-600:]


class Runner:
    def __init__(self, prop, tier, cases, budget, path_seconds=30.0, query_timeout_ms=20000, samples=24, workers=None,
                 known=()):
        self.prop, self.tier, self.cases = prop, tier, cases
        self.budget, self.samples = budget, samples
        self.workers = workers or min(8, os.cpu_count() or 1)
        self.conf = {"path_seconds": path_seconds, "query_timeout_ms": query_timeout_ms,
                     "samples_per_worker": 3, "deadline": time.time() + budget}
        self.stats = {}
        self.functions = set()
        self.sample_inputs = []
        self.tot = {"queries": 0, "solver_time": 0.0, "unknowns": 0}
        self.notes = []
        self.inconclusive = {}
        self.spurious = {}
        self.known = known
        self.known_hits = {}
        self.validated = 0

    def save_replay(self, ci, inputs, message, tag=""):
        os.makedirs(REPLAYS, exist_ok=True)
        case = self.cases[ci]
        path = os.path.join(REPLAYS, "%s-%s%s.json" % (self.prop, case.name.replace("/", "_"), tag))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "case": case.name, "fn": case.fn, "params": case.params,
                       "inputs": inputs, "message": message}, f, indent=1, default=str)
        return path

    def confirm(self, ci, inputs, message, tag=""):
        """Replay; returns path if confirmed."""
        path = self.save_replay(ci, inputs, message, tag)
        for hs in ("0", "1", "2"):
            ok, out = run_replay(path, hashseed=hs)
            if ok:
                with open(path) as f:
                    d = json.load(f)
                d["observed"] = out
                d["hashseed"] = hs
                with open(path, "w") as f:
                    json.dump(d, f, indent=1)
                return path, out
        os.unlink(path)
        return None, out

    def explore(self, indices):
        """Explore the given cases.  Returns (path, message) of a confirmed violation or None."""
        ctx = mp.get_context("fork")
        jobs, results = ctx.Queue(), ctx.Queue()
        outstanding = ctx.Value("i", len(indices))
        idle = ctx.Value("i", 0)
        stop = ctx.Value("b", 0)
        dead = ctx.Array("b", [0] * len(self.cases))
        for i in indices:
            jobs.put((i, ()))
        procs = [ctx.Process(target=_worker_main, args=(w, self.cases, jobs, results, outstanding, idle, stop, dead, self.conf), daemon=True)
                 for w in range(self.workers)]
        for p in procs:
            p.start()
        done = 0
        found = None
        tried = {}
        hard_deadline = self.conf["deadline"] + 60
        while done < len(procs):
            try:
                m = results.get(timeout=1.0)
            except _queue.Empty:
                if time.time() > hard_deadline or not any(p.is_alive() for p in procs):
                    if results.empty():
                        self.notes.append("workers ended without a report")
                        for i in indices:
                            self.inconclusive.setdefault(i, "worker lost")
                        break
                continue
            if m[0] == "done":
                done += 1
                _, _, st, fns, samples, tot = m
                for ci, d in st.items():
                    t = self.stats.setdefault(ci, {})
                    for k, v in d.items():
                        t[k] = t.get(k, 0) + v
                self.functions.update(fns)
                for ci, ss in samples.items():
                    self.sample_inputs += [(ci, s) for s in ss]
                for k in tot:
                    self.tot[k] += tot[k]
            elif m[0] == "violation" and found is None:
                _, ci, inputs, message = m
                n = tried.get((ci, message[:60]), 0)
                total = sum(v for (c, _), v in tried.items() if c == ci)
                if n >= 4 or total >= 16:
                    continue
                tried[ci, message[:60]] = n + 1
                kf = self.match_known(ci, message, inputs)
                if kf is not None:
                    self.known_hits[kf["what"]] = self.known_hits.get(kf["what"], 0) + 1
                    continue
                path, out = self.confirm(ci, inputs, message, "-%d" % total)
                if path is not None:
                    found = (path, message, out)
                    stop.value = 1
                else:
                    self.spurious.setdefault(ci, []).append("%s [%s]" % (message, out[-160:]))
            elif m[0] == "unsupported":
                _, ci, inputs, detail = m
                self.inconclusive.setdefault(ci, detail)
            elif m[0] == "crash":
                _, ci, tb = m
                self.inconclusive.setdefault(ci, "engine error: " + tb)
        for p in procs:
            p.join(timeout=2)
            if p.is_alive():
                p.terminate()
        return found

    def match_known(self, ci, message, inputs):
        for k in self.known:
            if k["property"] == self.prop and k["case_prefix"] and self.cases[ci].name.startswith(k["case_prefix"]) \
                    and message.startswith(k["message"]):
                return k
        return None

    def validate(self):
        """Run sampled explored paths concretely on the unpatched code; a failed assertion there is a violation."""
        import random as r
        if not self.sample_inputs:
            return None
        rnd = r.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        s = sorted(self.sample_inputs, key=lambda t: (t[0], json.dumps(t[1], sort_keys=True, default=str)))
        rnd.shuffle(s)
        per = {}
        pick = []
        for ci, inp in s:
            per[ci] = per.get(ci, 0) + 1
            if per[ci] <= max(2, self.samples // max(1, len(self.cases))) and len(pick) < self.samples:
                pick.append((ci, inp))
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-samples.json" % self.prop)
        with open(path, "w") as f:
            json.dump({"batch": [{"property": self.prop, "case": self.cases[ci].name, "fn": self.cases[ci].fn,
                                  "params": self.cases[ci].params, "inputs": inp, "message": "validation of an explored path"}
                                 for ci, inp in pick]}, f, default=str)
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        try:
            p = subprocess.run([PY, "-B", "-W", "ignore", os.path.join(VERIF, "replay.py"), path], env=env, capture_output=True,
                               text=True, timeout=240)
        except subprocess.TimeoutExpired:
            self.notes.append("validation batch timed out")
            return None
        bad = None
        lines = [ln for ln in p.stdout.splitlines() if ln.startswith("SAMPLE ")]
        for ln in lines:
            _, i, res, msg = ln.split(" ", 3)
            if res == "ok":
                self.validated += 1
            elif res == "fail" and bad is None:
                ci, inp = pick[int(i)]
                if self.match_known(ci, msg, inp) is None:
                    path2, out = self.confirm(ci, inp, msg, "-v%s" % i)
                    if path2:
                        bad = (path2, msg, out)
        if len(lines) < len(pick):
            self.notes.append("validation batch incomplete: " + (p.stdout + p.stderr)[-300:])
        self.samples_out = pick
        os.unlink(path)
        return bad
