"""Reference model of a set of binary constraints: plain closure computation, no shared code with /repo."""
from itertools import combinations

ML, CL = "MUST_LINK", "CANNOT_LINK"


class Model:
    def __init__(self, ids):
        self.ids = list(ids)
        self.cons = {}  # frozenset({a, b}) -> type, a != b

    def copy(self):
        m = Model(self.ids)
        m.cons = dict(self.cons)
        return m

    def comp_map(self):
        rep = {d: d for d in self.ids}

        def find(x):
            while rep[x] != x:
                x = rep[x]
            return x
        for p, t in self.cons.items():
            if t == ML:
                a, b = tuple(p)
                ra, rb = find(a), find(b)
                if ra != rb:
                    rep[ra] = rb
        return {d: find(d) for d in self.ids}

    def components(self):
        cm = self.comp_map()
        out = {}
        for d in self.ids:
            out.setdefault(cm[d], []).append(d)
        return list(out.values())

    def closure(self):
        """dict of ordered pairs -> ML / CL / None"""
        cm = self.comp_map()
        cl = set()
        for p, t in self.cons.items():
            if t == CL:
                a, b = tuple(p)
                cl.add((cm[a], cm[b]))
                cl.add((cm[b], cm[a]))
        return {(a, b): ML if cm[a] == cm[b] else (CL if (cm[a], cm[b]) in cl else None) for a in self.ids for b in self.ids}

    def inferred(self, a, b):
        return self.closure()[a, b]

    def add(self, a, b, t):
        """True if consistent (recorded), False if it contradicts what is inferred."""
        inf = self.inferred(a, b)
        if inf is not None and inf != t:
            return False
        if a != b:
            self.cons.setdefault(frozenset((a, b)), t)
        return True

    def delete(self, a, b):
        self.cons.pop(frozenset((a, b)), None)

    def add_id(self, d):
        self.ids.append(d)

    def del_id(self, d):
        self.ids.remove(d)
        self.cons = {p: t for p, t in self.cons.items() if d not in p}

    def pairs(self):
        return list(combinations(self.ids, 2))

    def chromatic(self):
        """(number of colours needed, greatest degree) of the graph of components linked by CANNOT_LINK."""
        comps = self.components()
        inf = self.closure()
        k = len(comps)
        adj = [[inf[comps[i][0], comps[j][0]] == CL for j in range(k)] for i in range(k)]

        def colourable(c):
            col = [-1] * k

            def rec(v):
                if v == k:
                    return True
                for x in range(min(c, v + 1)):
                    if all(not (adj[v][u] and col[u] == x) for u in range(v)):
                        col[v] = x
                        if rec(v + 1):
                            return True
                col[v] = -1
                return False
            return rec(0)
        chi = next((c for c in range(1, k + 1) if colourable(c)), 0)
        return chi, max((sum(r) for r in adj), default=0)
