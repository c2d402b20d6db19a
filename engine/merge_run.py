"""Runs path-merging cases (checks/merged.py), one process each, and turns their answers into reports."""
import importlib
import multiprocessing as mp
import queue as _queue
import signal
import time
import traceback


def decide(case, src, package, deadline, samples=3):
    from .aig import AIG, SolverUnknown
    from .merge import Interp, Unsupported
    t0 = time.time()
    mod, f = case.fn.split(":")
    fn = getattr(importlib.import_module("checks." + mod), f)
    A = AIG(deadline=deadline)
    I = Interp(src, package, A)
    out = {"status": "ok", "detail": "", "scripts": [], "reached": []}
    try:
        r = fn(I, **case.params)
        left = max(1, deadline - time.time())
        # one query per group of assertions that are not already constant
        s = A.solve(A.any([g for g, _ in r.bad]), int(left * 1000))
        if s is not None:
            out["status"] = "violation"
            out["detail"] = next(m for g, m in r.bad if A.value(g, s))
            out["scripts"] = [r.script(s)]
        else:
            for tag, g in r.goals.items():
                if A.possible(g):
                    out["reached"].append(tag)
            for k in range(samples):
                out["scripts"].append(r.script({i: bool(A.sim[i] >> (17 * k + 5) & 1) for i in A.names}))
        out["asserts"] = r.asserts
    except Unsupported as e:
        out.update(status="unsupported", detail=str(e))
    except SolverUnknown as e:
        out.update(status="unknown", detail=str(e))
    except RecursionError:
        out.update(status="unsupported", detail="recursion")
    out.update(nodes=len(A.fan), inputs=len(A.names), queries=A.queries, solver_time=A.solver_time, merged=A.merged, unknowns=A.unknowns,
               functions=sorted(I.functions), wall=time.time() - t0)
    return out


def _main(case, ci, src, package, deadline, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        r = decide(case, src, package, deadline)
    except BaseException as e:  # noqa: BLE001
        r = {"status": "unsupported", "detail": "engine error: " + "".join(traceback.format_exception(e))[-1500:]}
    q.put((ci, r))


class MergedCases:
    def __init__(self, cases, src, package, budget, workers):
        self.cases, self.src, self.package, self.workers = cases, src, package, workers
        self.deadline = time.time() + budget
        ctx = self.ctx = mp.get_context("fork")
        self.q = ctx.Queue()
        self.procs = {}
        self.results = {}
        self.todo = list(range(len(cases)))

    def pump(self):
        while self.todo and len(self.procs) < self.workers:
            ci = self.todo.pop(0)
            p = self.ctx.Process(target=_main, args=(self.cases[ci], ci, self.src, self.package, self.deadline, self.q), daemon=True)
            p.start()
            self.procs[ci] = p
        try:
            while True:
                ci, r = self.q.get(timeout=0.02)
                self.results[ci] = r
                p = self.procs.pop(ci, None)
                if p is not None:
                    p.join(timeout=2)
        except _queue.Empty:
            pass

    def wait(self):
        """All results; a case that is not finished at the deadline is reported as unknown."""
        while (self.todo or self.procs) and time.time() < self.deadline + 30:
            self.pump()
            for ci, p in list(self.procs.items()):
                if not p.is_alive() and ci not in self.results:
                    time.sleep(0.3)
                    self.pump()
                    if ci in self.procs:
                        self.procs.pop(ci)
                        self.results.setdefault(ci, {"status": "unknown", "detail": "process ended"})
            time.sleep(0.05)
        self.stop()
        for ci in range(len(self.cases)):
            self.results.setdefault(ci, {"status": "unknown", "detail": "time limit"})
        return self.results

    def stop(self):
        for p in self.procs.values():
            if p.is_alive():
                p.terminate()
        self.procs = {}
        self.todo = []
