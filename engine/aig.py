"""Boolean functions as a hash-consed and-inverter graph, decided by z3.

A literal is an integer: 0 is false, 1 is true, 2*i the value of node i, 2*i+1 its negation.  The graph grows while
the code under test is interpreted.  Each node carries its value on a few thousand random assignments; when a new node
looks constant, or looks equal to a known one, z3 decides whether it really is, and then the known one is used.  That
keeps the formulas of long histories small; it never changes their meaning.
"""
import random
import sys
import time

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import z3  # noqa: E402

FALSE, TRUE = 0, 1


class SolverUnknown(Exception):
    pass


class AIG:
    def __init__(self, width=16384, seed=7, sweep=True, sweep_ms=150, deadline=None):
        self.rng = random.Random(seed)
        self.width = width
        self.mask = (1 << width) - 1
        self.fan = [None]          # node -> (lit, lit) or None (constant, variable)
        self.sim = [0]
        self.names = {}            # variable node -> name
        self.cache = {}
        self.table = {0: [0]}
        self.sweep = sweep
        self.queries = 0
        self.solver_time = 0.0
        self.unknowns = 0
        self.merged = 0
        self.refuted = 0
        self.deadline = deadline
        z = self.z = z3.SolverFor("QF_FD")
        self.ctx = z.ctx.ref()
        self.zl = {0: z3.BoolVal(False)}
        self.sweep_ms = sweep_ms
        self.limit = None
        self.stash = []

    # -- construction
    def var(self, name, p=0.5):
        i = len(self.fan)
        self.fan.append(None)
        bits = 0
        for k in range(self.width):
            if self.rng.random() < p:
                bits |= 1 << k
        self.sim.append(bits)
        self.names[i] = name
        self.table.setdefault(self.canon(bits)[0], []).append(i)
        return 2 * i

    def lsim(self, lit):
        s = self.sim[lit >> 1]
        return s ^ self.mask if lit & 1 else s

    def canon(self, s):
        return (s ^ self.mask, 1) if s & 1 else (s, 0)

    def and_(self, a, b):
        if a == b or b == TRUE:
            return a
        if a == TRUE:
            return b
        if a == FALSE or b == FALSE or a == b ^ 1:
            return FALSE
        for x, y in ((a, b), (b, a)):
            f = self.fan[x >> 1]
            if f is not None:
                if not x & 1:
                    if y in f:
                        return x
                    if y ^ 1 in f:
                        return FALSE
                else:
                    if y ^ 1 in f:
                        return y
                    if f[0] == y:
                        return self.and_(y, f[1] ^ 1)
                    if f[1] == y:
                        return self.and_(y, f[0] ^ 1)
        if a > b:
            a, b = b, a
        r = self.cache.get((a, b))
        if r is not None:
            return r
        s = self.lsim(a) & self.lsim(b)
        if self.sweep:
            c, neg = self.canon(s)
            for cand in self.table.get(c, ())[:2]:
                lit = 2 * cand + (neg ^ (self.canon(self.sim[cand])[1]))
                if self.same(a, b, lit):
                    self.merged += 1
                    self.cache[a, b] = lit
                    return lit
        s = self.lsim(a) & self.lsim(b)
        i = len(self.fan)
        self.fan.append((a, b))
        self.sim.append(s)
        self.table.setdefault(self.canon(s)[0], []).append(i)
        self.cache[a, b] = 2 * i
        return 2 * i

    def or_(self, a, b):
        return self.and_(a ^ 1, b ^ 1) ^ 1

    def all(self, xs):
        xs = sorted(set(xs))
        while len(xs) > 1:
            xs = [self.and_(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
        return xs[0] if xs else TRUE

    def any(self, xs):
        return self.all([x ^ 1 for x in xs]) ^ 1

    def ite(self, c, a, b):
        if c == TRUE or a == b:
            return a
        if c == FALSE:
            return b
        if a == TRUE:
            return self.or_(c, b)
        if a == FALSE:
            return self.and_(c ^ 1, b)
        if b == TRUE:
            return self.or_(c ^ 1, a)
        if b == FALSE:
            return self.and_(c, a)
        return self.or_(self.and_(c, a), self.and_(c ^ 1, b))

    def iff(self, a, b):
        return self.ite(a, b, b ^ 1)

    # -- z3
    def zlit(self, lit):
        root = lit >> 1
        if root not in self.zl:
            todo = [root]
            while todo:
                i = todo[-1]
                if i in self.zl:
                    todo.pop()
                    continue
                f = self.fan[i]
                if f is None:
                    self.zl[i] = z3.Bool("v%d" % i)
                    todo.pop()
                    continue
                sub = [l >> 1 for l in f if l >> 1 not in self.zl]
                if sub:
                    todo += sub
                    continue
                x = self.zl[i] = z3.Bool("n%d" % i)
                a, b = (z3.Not(self.zl[l >> 1]) if l & 1 else self.zl[l >> 1] for l in f)
                self.z.add(x == z3.And(a, b))
                todo.pop()
        return z3.Not(self.zl[root]) if lit & 1 else self.zl[root]

    def check(self, lits, ms=None):
        """'unsat', 'sat' or 'unknown' for the conjunction of literals."""
        if self.deadline and time.time() > self.deadline:
            raise SolverUnknown("time limit")
        t = time.time()
        zs = [self.zlit(x) for x in lits]
        if ms != self.limit:
            self.z.set("timeout", ms or 4294967295)
            self.limit = ms
        r = self.z.check(*zs)
        self.queries += 1
        self.solver_time += time.time() - t
        return str(r)

    def same(self, a, b, lit):
        """Is a & b equal to lit on every assignment?"""
        for lits in ([a, b, lit ^ 1], [a ^ 1, lit], [b ^ 1, lit]):
            if FALSE in lits or any(x ^ 1 in lits for x in lits):
                continue
            lits = [x for x in lits if x != TRUE]
            s = self.mask
            for x in lits:
                s &= self.lsim(x)
            if s:
                return False
            r = self.check(lits, self.sweep_ms)
            if r == "sat":
                self.refuted += 1
                self.learn()
                return False
            if r != "unsat":
                self.unknowns += 1
                return False
        return True

    def learn(self):
        """Add the assignment that told two nodes apart to the simulated ones (in batches)."""
        m = self.z.model()
        self.stash.append({i: z3.is_true(m.eval(self.zl[i])) for i in self.names if i in self.zl})
        if len(self.stash) < 48:
            return
        k = len(self.stash)
        n0 = self.width
        self.width += k
        self.mask = (1 << self.width) - 1
        extra = [0] * len(self.fan)
        m2 = (1 << k) - 1
        for i in range(1, len(self.fan)):
            f = self.fan[i]
            if f is None:
                bits = 0
                for j, d in enumerate(self.stash):
                    if d.get(i, self.rng.random() < 0.5):
                        bits |= 1 << j
                extra[i] = bits
            else:
                a, b = (extra[l >> 1] ^ (m2 if l & 1 else 0) for l in f)
                extra[i] = a & b
        self.sim = [s | (e << n0) for s, e in zip(self.sim, extra)]
        self.table = {}
        for i, s in enumerate(self.sim):
            self.table.setdefault(self.canon(s)[0], []).append(i)
        self.stash = []

    def possible(self, lit):
        """Is there an assignment that makes lit true?"""
        if lit == FALSE:
            return False
        if lit == TRUE or self.lsim(lit):
            return True
        r = self.check([lit], 20000)
        if r == "unknown":
            raise SolverUnknown("reachability of a branch")
        return r == "sat"

    def solve(self, lit, ms=None):
        """None if lit is false on every assignment, else an assignment {variable node: bool} that makes it true."""
        if lit == FALSE:
            return None
        s = self.lsim(lit)
        if s:
            k = (s & -s).bit_length() - 1
            return {i: bool(self.sim[i] >> k & 1) for i in self.names}
        r = self.check([lit], ms)
        if r == "unknown":
            raise SolverUnknown("final query")
        if r == "unsat":
            return None
        m = self.z.model()
        return {i: (z3.is_true(m.eval(self.zl[i])) if i in self.zl else False) for i in self.names}

    def value(self, lit, assignment):
        """Value of lit under a complete assignment of the variables."""
        val = {0: False}
        todo = [lit >> 1]
        while todo:
            i = todo[-1]
            if i in val:
                todo.pop()
                continue
            f = self.fan[i]
            if f is None:
                val[i] = assignment[i]
                todo.pop()
                continue
            sub = [l >> 1 for l in f if l >> 1 not in val]
            if sub:
                todo += sub
                continue
            val[i] = all(val[l >> 1] ^ bool(l & 1) for l in f)
            todo.pop()
        return val[lit >> 1] ^ bool(lit & 1)
