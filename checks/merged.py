"""Path-merging harnesses for the constraints manager: one formula for every graph, operation and ID order at once.

Each harness drives the interpreted manager and a symbolic reference model side by side and collects the conditions
under which they differ.  A counterexample is turned into a list of concrete operations, which mgr:script replays on
the real code.
"""
from itertools import combinations

from engine.aig import FALSE, TRUE
from engine.merge import UNDEF, Interp, MDict, MList, U, Unsupported

from .mgr import pair_list

PKG = "cognitivefactory.interactive_clustering"
ML, CL = "MUST_LINK", "CANNOT_LINK"
NAMES = ["m", "c", "x", "a", "q", "t", "e", "w", "h"]


class SModel:
    """Reference model with guards: which IDs are managed, which type is recorded for a pair."""

    def __init__(self, A, n, present):
        self.A, self.n = A, n
        self.present = list(present)
        self.rec = {p: {ML: FALSE, CL: FALSE} for p in combinations(range(n), 2)}
        self.memo = None

    def pair(self, i, j):
        return (i, j) if i < j else (j, i)

    def closure(self):
        """(ml, cl): matrices of literals."""
        if self.memo is not None:
            return self.memo
        A, n = self.A, self.n
        ml = [[TRUE if i == j else self.rec[self.pair(i, j)][ML] for j in range(n)] for i in range(n)]
        for k in range(n):
            ml = [[ml[i][j] if k in (i, j) else A.or_(ml[i][j], A.and_(ml[i][k], ml[k][j])) for j in range(n)] for i in range(n)]
        rc = [[FALSE if i == j else self.rec[self.pair(i, j)][CL] for j in range(n)] for i in range(n)]
        half = [[A.any([A.and_(ml[i][u], rc[u][v]) for u in range(n)]) for v in range(n)] for i in range(n)]
        cl = [[A.any([A.and_(half[i][v], ml[v][j]) for v in range(n)]) for j in range(n)] for i in range(n)]
        self.memo = ml, cl
        return self.memo

    def add(self, g, i, j, t):
        """Under g, add a constraint of type t between different IDs; returns the guard under which it is contradictory."""
        A = self.A
        ml, cl = self.closure()
        bad = cl[i][j] if t == ML else ml[i][j]
        ok = A.and_(g, bad ^ 1)
        return A.and_(g, bad), (ok, self.pair(i, j), t)

    def record(self, todo):
        for ok, p, t in todo:
            r = self.rec[p]
            new = self.A.all([ok, r[ML] ^ 1, r[CL] ^ 1])
            r[t] = self.A.or_(r[t], new)
        self.memo = None

    def delete(self, g, i, j):
        r = self.rec[self.pair(i, j)]
        for t in r:
            r[t] = self.A.and_(r[t], g ^ 1)
        self.memo = None

    def del_id(self, g, i):
        self.present[i] = self.A.and_(self.present[i], g ^ 1)
        for j in range(self.n):
            if j != i:
                self.delete(g, i, j)

    def add_id(self, g, i):
        self.present[i] = self.A.or_(self.present[i], g)
        self.memo = None


class Run:
    def __init__(self, I, n, managed, order):
        self.I, self.A, self.n = I, I.A, n
        self.ids = NAMES[:n]
        self.order = order
        if order == "sym":
            I.symbolic_order(self.ids)
        elif order == "asc":
            self.ids = sorted(self.ids)
        self.bad = []                 # (guard, message)
        self.steps = []               # [(name, {choice: guard} -> op)] for concretisation
        self.model = SModel(self.A, n, [TRUE if i < managed else FALSE for i in range(n)])
        self.mod = I.module(PKG + ".constraints.binary")
        fac = I.module(PKG + ".constraints.factory")
        v, ok, exc = I.api(fac.globals["managing_factory"], I.py_list(self.ids[:managed]))
        if ok != TRUE:
            raise Unsupported("the manager is not created: %r" % (exc,))
        self.m = v
        self.managed = managed
        self.what, self.saved = (), False
        self.goals = {}               # situations that must be possible, or the run says nothing
        self.asserts = 0

    def goal(self, tag, g):
        self.goals[tag] = self.A.or_(self.goals.get(tag, FALSE), g)

    def expect(self, cond, guard, msg):
        self.asserts += 1
        b = self.A.and_(guard, cond ^ 1)
        if b != FALSE:
            self.bad.append((b, msg))

    def fn(self, name, m=None):
        v = self.I.attr(m or self.m, name)
        return v

    # -- operations
    def add(self, g, a, b, t_guards, alts_ab, msg):
        """Under g, add_constraint(a, b, t): a, b, t guarded values; alts_ab: [(guard, i, j)]."""
        A = self.A
        t = self.I.union([(h, x) for x, h in t_guards.items()])
        refused, todo = [], []
        for h, i, j in alts_ab:
            for x, k in t_guards.items():
                w = A.all([g, h, k])
                if w != FALSE:
                    r, td = self.model.add(w, i, j, x)
                    refused.append(r)
                    todo.append(td)
        ref = A.any(refused)
        self.goal("conflict", ref)
        v, ok, exc = self.I.api(self.fn("add_constraint"), a, b, t, under=g)
        self.expect(A.any([e for e, nme in exc if nme == "ValueError"]), ref, msg + ": contradictory add_constraint accepted")
        good = A.and_(g, ref ^ 1)
        self.expect(ok, good, msg + ": consistent add_constraint refused")
        if ok != FALSE:
            self.expect(self.I.is_same(v, True), A.and_(good, ok), msg + ": add_constraint did not return True")
        self.model.record(todo)

    def graph(self, how):
        """A symbolic type (or none) for every pair, contradictory ones included."""
        for k, (i, j) in enumerate(pair_list(self.managed, how)):
            n, m, c = self.I.choice("e%d" % k, 3, weights=[1.2, 1, 1])
            self.steps.append([(m, ["add", i, j, ML]), (c, ["add", i, j, CL])])
            self.add(self.A.or_(m, c), self.ids[i], self.ids[j], {ML: m, CL: c}, [(TRUE, i, j)], "add")

    def op(self, s, kinds):
        """One operation, its kind and arguments symbolic."""
        A, I, M = self.A, self.I, self.model
        kinds = list(kinds)
        ks = dict(zip(kinds, I.choice("kind%d" % s, len(kinds))))
        # two different IDs, in either order
        pairs = [(i, j) for i in range(self.n) for j in range(self.n) if i != j]
        first = I.choice("first%d" % s, self.n)
        other = I.choice("other%d" % s, self.n - 1)
        al = [(A.and_(first[i], other[j if j < i else j - 1]), i, j) for i, j in pairs]
        a = I.union([(first[i], self.ids[i]) for i in range(self.n)])
        b = I.union([(g, self.ids[j]) for g, i, j in al])
        have = A.any([A.all([g, M.present[i], M.present[j]]) for g, i, j in al])
        have1 = A.any([A.and_(first[i], M.present[i]) for i in range(self.n)])
        step = []
        before = list(M.present)
        for kind in kinds:
            g = ks[kind]
            if kind == "add":
                m, c = I.choice("type%d" % s, 2)
                w = A.and_(g, have)
                for h, i, j in al:
                    for t, x in ((ML, m), (CL, c)):
                        step.append((A.all([w, h, x]), ["add", i, j, t]))
                self.add(w, a, b, {ML: m, CL: c}, al, "add")
            elif kind == "del":
                w = A.and_(g, have)
                self.goal("deleted", A.and_(w, A.any([A.and_(h, A.or_(*M.rec[M.pair(i, j)].values())) for h, i, j in al])))
                v, ok, exc = I.api(self.fn("delete_constraint"), a, b, under=w)
                self.expect(ok, w, "delete_constraint failed")
                for h, i, j in al:
                    k = A.and_(w, h)
                    step.append((k, ["del", i, j]))
                    M.delete(k, i, j)
            elif kind == "delid":
                w = A.and_(g, have1)
                v, ok, exc = I.api(self.fn("delete_data_ID"), a, under=w)
                self.expect(ok, w, "delete_data_ID failed")
                for i in range(self.n):
                    k = A.and_(w, first[i])
                    step.append((k, ["delid", i]))
                    M.del_id(k, i)
            elif kind == "addid":
                w = A.and_(g, have1 ^ 1)
                self.goal("readded", w)
                v, ok, exc = I.api(self.fn("add_data_ID"), a, under=w)
                self.expect(ok, w, "add_data_ID failed")
                for i in range(self.n):
                    k = A.and_(w, first[i])
                    step.append((k, ["addid", i]))
                    M.add_id(k, i)
            elif kind == "bad":
                # operations on IDs that are not managed (or already managed): refused, nothing changes
                w = A.and_(g, have ^ 1)
                for nme in ("delete_constraint", "get_added_constraint", "get_inferred_constraint"):
                    v, ok, exc = I.api(self.fn(nme), a, b, under=w)
                    self.expect(A.any([e for e, x in exc if x == "ValueError"]), w, nme + " on an unmanaged ID accepted")
                v, ok, exc = I.api(self.fn("add_constraint"), a, b, ML, under=w)
                self.expect(A.any([e for e, x in exc if x == "ValueError"]), w, "add_constraint on an unmanaged ID accepted")
                w1 = A.and_(g, have1)
                v, ok, exc = I.api(self.fn("add_data_ID"), a, under=w1)
                self.expect(A.any([e for e, x in exc if x == "ValueError"]), w1, "add_data_ID of a managed ID accepted")
                w2 = A.and_(g, have1 ^ 1)
                v, ok, exc = I.api(self.fn("delete_data_ID"), a, under=w2)
                self.expect(A.any([e for e, x in exc if x == "ValueError"]), w2, "delete_data_ID of an unmanaged ID accepted")
                for h, i, j in al:
                    step.append((A.and_(g, h), ["bad", i, j]))
        self.steps.append(step)

    def ask(self):
        """Every question, answers ignored: they must not influence what follows."""
        A, I, P = self.A, self.I, self.model.present
        for nme in ("get_list_of_managed_data_IDs", "get_connected_components", "check_completude_of_constraints"):
            I.api(self.fn(nme))
        for i in range(self.n):
            for j in range(self.n):
                g = A.and_(P[i], P[j])
                if g != FALSE:
                    I.api(self.fn("get_inferred_constraint"), self.ids[i], self.ids[j], under=g)
                    I.api(self.fn("get_added_constraint"), self.ids[i], self.ids[j], under=g)
        self.steps.append([(TRUE, ["ask"])])

    # -- observations
    def observe(self, what, m=None):
        self.what = what
        A, I, M, n = self.A, self.I, self.model, self.n
        ml, cl = M.closure()
        P = M.present
        self.goal("mixed", A.and_(A.any([r[ML] for r in M.rec.values()]), A.any([r[CL] for r in M.rec.values()])))
        if "ids" in what:
            v, ok, exc = I.api(self.fn("get_list_of_managed_data_IDs", m))
            self.expect(ok, TRUE, "get_list_of_managed_data_IDs failed")
            self.multiset(I.iterate(v), P, TRUE, "managed IDs")
        if "inferred" in what or "added" in what:
            for i in range(n):
                for j in range(n):
                    g = A.and_(P[i], P[j])
                    if g == FALSE:
                        continue
                    if "inferred" in what:
                        v, ok, exc = I.api(self.fn("get_inferred_constraint", m), self.ids[i], self.ids[j], under=g)
                        self.expect(ok, g, "get_inferred_constraint failed")
                        self.one_of(v, {ML: ml[i][j], CL: A.and_(ml[i][j] ^ 1, cl[i][j])}, A.and_(g, ok), "inferred(%d, %d)" % (i, j))
                    if "added" in what and i != j:
                        v, ok, exc = I.api(self.fn("get_added_constraint", m), self.ids[i], self.ids[j], under=g)
                        self.expect(ok, g, "get_added_constraint failed")
                        r = M.rec[M.pair(i, j)]
                        self.one_of(v, {(ML, 1.0): r[ML], (CL, 1.0): r[CL]}, A.and_(g, ok), "added(%d, %d)" % (i, j))
        if "comps" in what:
            v, ok, exc = I.api(self.fn("get_connected_components", m))
            self.expect(ok, TRUE, "get_connected_components failed")
            comps = [(g, I.dense(I.iterate(c))) for g, c in I.iterate(v) if g != FALSE]
            occ = {i: [] for i in range(n)}
            inc = []
            for g, c in comps:
                self.expect(c[0][0] if c else FALSE, g, "empty component")
                mem = []
                for i in range(n):
                    hits = [A.all([g, h, I.eq(x, self.ids[i])]) for h, x in c]
                    occ[i] += [h for h in hits if h != FALSE]
                    mem.append(A.any(hits))
                inc.append(mem)
                for h, x in c:
                    self.expect(A.any([A.and_(P[i], I.eq(x, self.ids[i])) for i in range(n)]), A.and_(g, h), "a component holds something else than a managed ID")
            for i in range(n):
                cnt = dict((x, h) for h, x in I.alts(I.count(occ[i])))
                self.expect(cnt.get(1, FALSE), P[i], "an ID is not in exactly one component")
                for j in range(i):
                    together = A.any([A.and_(mm[i], mm[j]) for mm in inc])
                    self.expect(A.iff(together, ml[i][j]), A.and_(P[i], P[j]), "components and MUST_LINK groups differ for %d, %d" % (i, j))
        if "complete" in what:
            v, ok, exc = I.api(self.fn("check_completude_of_constraints", m))
            self.expect(ok, TRUE, "check_completude_of_constraints failed")
            full = A.all([A.any([P[i] ^ 1, P[j] ^ 1, ml[i][j], cl[i][j]]) for i, j in combinations(range(n), 2)])
            self.expect(A.iff(I.is_same(v, True), full), TRUE, "completeness")
            self.expect(A.iff(I.is_same(v, False), full ^ 1), TRUE, "completeness")
        if "conflict" in what:
            i0 = I.choice("ca", n)
            j0 = I.choice("cb", n)
            m0, c0 = I.choice("ct", 2)
            a = I.union([(g, self.ids[i]) for i, g in enumerate(i0)])
            b = I.union([(g, self.ids[i]) for i, g in enumerate(j0)])
            t = I.union([(m0, ML), (c0, CL)])
            have = A.any([A.all([i0[i], P[i], j0[j], P[j]]) for i in range(n) for j in range(n)])
            v, ok, exc = I.api(self.fn("get_list_of_involved_data_IDs_in_a_constraint_conflict", m), a, b, t, under=have)
            self.expect(ok, have, "conflict query failed")
            conf = A.any([A.all([i0[i], j0[j], A.or_(A.and_(c0, ml[i][j]), A.and_(m0, cl[i][j]))]) for i in range(n) for j in range(n)])
            none = I.is_same(v, None)
            self.expect(A.iff(none, conf ^ 1), have, "conflict query: a list is returned where there is no conflict, or none where there is one")
            w = A.and_(have, conf)
            member = [A.and_(P[k], A.any([A.and_(A.or_(i0[i], j0[i]), ml[i][k]) for i in range(n)])) for k in range(n)]
            lists = [(g, x) for g, x in I.alts(v) if x is not None]
            for g, x in lists:
                if not isinstance(x, (MList,)):
                    raise Unsupported("conflict list of kind %s" % type(x).__name__)
            if lists:
                ents = [(A.and_(g, h), e) for g, x in lists for h, e in x.entries]
                self.multiset(ents, member, w, "IDs involved in a conflict")
            self.query = (i0, j0, m0, c0)

    def multiset(self, entries, members, g, msg):
        """Under g, the entries hold every ID whose member guard is true exactly once and nothing else."""
        A, I = self.A, self.I
        eqs = [(h, [I.eq(x, d) for d in self.ids]) for h, x in entries if A.and_(h, g) != FALSE]
        for h, row in eqs:
            self.expect(A.any([A.and_(e, members[i]) for i, e in enumerate(row)]), A.and_(g, h), msg + ": something unexpected is listed")
        for i in range(self.n):
            cnt = dict((x, h) for h, x in I.alts(I.count([A.and_(h, row[i]) for h, row in eqs])))
            self.expect(cnt.get(1, FALSE), A.and_(g, members[i]), msg + ": an ID is missing or listed twice")

    def one_of(self, v, table, g, msg):
        """Under g, v equals the key of table whose guard is true, or None if no guard is."""
        A, I = self.A, self.I
        if v is UNDEF:
            self.expect(FALSE, g, msg)
            return
        none = TRUE
        for val, h in table.items():
            self.expect(self.same(v, val), A.and_(g, h), msg)
            none = A.and_(none, h ^ 1)
        self.expect(I.is_same(v, None), A.and_(g, none), msg)

    def same(self, v, val):
        A = self.A
        return A.any([A.and_(g, self.I.eq1(x, val)) for g, x in self.I.alts(v) if type(x) is type(val)])

    # -- counterexamples
    def script(self, assignment):
        """The concrete operations of an assignment."""
        A = self.A
        ops = []
        for step in self.steps:
            for g, op in step:
                if A.value(g, assignment):
                    ops.append(op)
                    break
        ids = list(self.ids)
        if self.order == "sym":
            rank = sorted(range(self.n), key=lambda i: sum(A.value(self.I.lt_ids(j, i), assignment) for j in range(self.n)))
            texts = [None] * self.n
            for r, i in enumerate(rank):
                texts[i] = "d%d" % r
            ids = texts
        out = {"ids": ids, "managed": self.managed, "ops": ops, "what": list(self.what), "saved": self.saved}
        if getattr(self, "query", None):
            i0, j0, m0, c0 = self.query
            out["query"] = [next(i for i, g in enumerate(i0) if A.value(g, assignment)), next(i for i, g in enumerate(j0) if A.value(g, assignment)),
                            ML if A.value(m0, assignment) else CL]
        return out


def state(I, n, managed, order, how, k, kinds, what, ask=False):
    """Constraints of any type on the pairs of the first `managed` IDs (how: in which order; None: no such phase), then k
    operations of any kind (ask: every question is asked before each of them), then every observation in `what`."""
    r = Run(I, n, managed, order)
    if how:
        r.graph(how)
    for s in range(k):
        if ask:
            r.ask()
        r.op(s, kinds)
    r.observe(what)
    return r


def roundtrip(I, n, managed, order, how, k, kinds, what):
    """As state, then to_json and load: the loaded manager shows the same."""
    r = Run(I, n, managed, order)
    if how:
        r.graph(how)
    for s in range(k):
        r.op(s, kinds)
    r.saved = True
    v, ok, exc = I.api(r.fn("to_json"), "f.json")
    r.expect(ok, TRUE, "to_json failed")
    m2, ok, exc = I.api(r.mod.globals["load_constraints_manager_from_json"], "f.json")
    r.expect(ok, TRUE, "the saved file does not load")
    r.observe(what)
    r.observe(what, m2)
    return r
