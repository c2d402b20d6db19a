"""A symbolic interpreter that merges paths, for code whose inputs are choices among finitely many things.

It reads the source of the module under test (from /repo, on every run) and executes its functions statement by
statement on *guarded values*: a value is a set of alternatives, each under a Boolean guard, a dictionary knows under
which guard each key is present and which of two keys comes first, a list holds guarded entries.  A branch executes
both sides, each under its condition; the results are merged, not forked.  One run thus describes the behaviour for
every input at once, and every question about it is one query to z3 (through the and-inverter graph of aig.py).

Anything outside the supported subset of Python raises Unsupported; the caller then leaves the case to the forking
engine (sym.py), so an unusual way of writing the code never turns into an alarm.
"""
import ast
import builtins
import os

from .aig import AIG, FALSE, TRUE


class Unsupported(Exception):
    pass


class Dead(Exception):
    """The current path condition became false."""


class _Undef:
    def __repr__(self):
        return "<undefined>"


UNDEF = _Undef()


class SB:
    """A symbolic truth value."""
    __slots__ = ("lit",)

    def __init__(self, lit):
        self.lit = lit


class U:
    """Alternatives [(guard, value)], guards pairwise exclusive; value is not a U."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "U(%r)" % (self.alts,)


class Opaque:
    """A text nobody should look at (error messages)."""

    def __init__(self, what="text"):
        self.what = what


class Exc:
    def __init__(self, name):
        self.name = name


class ExcType:
    def __init__(self, name):
        self.name = name


class Obj:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}


class MList:
    def __init__(self, entries=()):
        self.entries = list(entries)      # [(guard, value)]


class MDict:
    """Keys are atoms; insertion order is kept as a relation between keys."""
    is_set = False

    def __init__(self):
        self.keys = []                    # atoms in order of first mention
        self.index = {}                   # key -> position in self.keys
        self.present = []
        self.vals = []
        self.bef = {}                     # (i, j), i < j -> literal: keys[i] comes before keys[j]
        self.version = 0

    def before(self, i, j):
        if i < j:
            return self.bef[i, j]
        return self.bef[j, i] ^ 1


class MSet(MDict):
    is_set = True


class View:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind


class Func:
    def __init__(self, node, module, closure=None, name=None, cls=None):
        self.node, self.module, self.closure, self.cls = node, module, closure, cls
        self.name = name or getattr(node, "name", "<lambda>")


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Cls:
    def __init__(self, name, bases, body, module):
        self.name, self.bases, self.module = name, bases, module
        self.members = body

    def find(self, name):
        if name in self.members:
            return self.members[name]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.find(name)
                if r is not None:
                    return r
        return None

    def mro_has(self, other):
        return self is other or any(isinstance(b, Cls) and b.mro_has(other) for b in self.bases)


class Mod:
    def __init__(self, name, path=None):
        self.name, self.path, self.globals = name, path, {}


class ExtMod:
    """A module outside the package; only the functions listed in EXT are known."""

    def __init__(self, name):
        self.name = name


class Gen:
    """A generator expression, evaluated when it is consumed."""

    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class Frame:
    def __init__(self, module, closure=None, name="?"):
        self.module, self.closure, self.name = module, closure, name
        self.locals = {}
        self.rets = []
        self.loops = []


ATOM = (str, int, float, type(None), bool)


def is_atom(v):
    return isinstance(v, ATOM) or (isinstance(v, tuple) and all(is_atom(x) for x in v))


def akey(v):
    """Identity of an alternative: two alternatives with the same key are the same value."""
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (int, float)):
        return ("n", v) if type(v) is int else ("f", v)
    if isinstance(v, str):
        return ("s", v)
    if v is None:
        return ("0",)
    if isinstance(v, tuple):
        return ("t",) + tuple(akey(x) for x in v)
    return ("o", id(v), type(v).__name__)


EXC_PARENTS = {"KeyError": ("LookupError", "Exception"), "IndexError": ("LookupError", "Exception"), "LookupError": ("Exception",),
               "ValueError": ("Exception",), "TypeError": ("Exception",), "RuntimeError": ("Exception",), "AttributeError": ("Exception",),
               "StopIteration": ("Exception",), "NotImplementedError": ("RuntimeError", "Exception"), "AssertionError": ("Exception",), "Exception": (),
               "NameError": ("Exception",), "OSError": ("Exception",), "FileNotFoundError": ("OSError", "Exception")}


class Interp:
    def __init__(self, src_root, package, aig=None, max_while=40):
        self.root, self.package = src_root, package
        self.A = aig or AIG()
        self.pc = TRUE
        self.raises = []              # [(guard, exception)]
        self.modules = {}
        self.rank = {}                # symbolic IDs: text -> index
        self.idbefore = {}            # (i, j), i < j -> literal
        self.frame = None
        self.depth = 0
        self.files = {}
        self.functions = set()
        self.max_while = max_while
        self.choices = []

    # ---------------------------------------------------------------- inputs
    def choice(self, name, k, weights=None):
        """k pairwise exclusive, jointly exhaustive guards."""
        w = weights or [1.0] * k
        gs, rest = [], TRUE
        for i in range(k - 1):
            v = self.A.var("%s=%d" % (name, i), w[i] / sum(w[i:]))
            gs.append(self.A.and_(rest, v))
            rest = self.A.and_(rest, v ^ 1)
        gs.append(rest)
        self.choices.append((name, gs))
        return gs

    def symbolic_order(self, ids):
        """Every sort order of the given texts."""
        A = self.A
        self.rank = {s: i for i, s in enumerate(ids)}
        for j in range(1, len(ids)):
            pos = self.choice("pos%d" % j, j + 1)       # rank of ids[j] among ids[0..j]
            for i in range(j):
                # rank of i among 0..j-1 (one-hot), from the pairs already decided
                cnt = [TRUE]
                for h in range(j):
                    if h != i:
                        b = self.lt_ids(h, i)
                        cnt = [A.or_(A.and_(b ^ 1, cnt[c]) if c < len(cnt) else FALSE, A.and_(b, cnt[c - 1]) if c else FALSE) for c in range(len(cnt) + 1)]
                self.idbefore[i, j] = A.any([A.and_(cnt[c], A.any(pos[c + 1:])) for c in range(len(cnt))])

    def lt_ids(self, i, j):
        if i == j:
            return FALSE
        return self.idbefore[i, j] if i < j else self.idbefore[j, i] ^ 1

    # ---------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.root, *name.split("."))
        path = base + ".py" if os.path.exists(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            raise Unsupported("module " + name)
        m = self.modules[name] = Mod(name, path)
        with open(path, newline="") as f:
            tree = ast.parse(f.read())
        m.globals["__name__"] = name
        fr = Frame(m, name="<module>")
        fr.locals = m.globals
        pc, self.pc = self.pc, TRUE
        self.in_frame(fr, lambda: self.block(tree.body))
        self.pc = pc
        return m

    def in_frame(self, fr, f):
        old, self.frame = self.frame, fr
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        try:
            return f()
        finally:
            self.frame = old
            self.depth -= 1

    # ---------------------------------------------------------------- values
    def alts(self, v):
        """Alternatives of v as [(guard, plain value)]; plain: no U, no SB."""
        if isinstance(v, U):
            return v.alts
        if isinstance(v, SB):
            return [(g, b) for g, b in ((v.lit, True), (v.lit ^ 1, False)) if g != FALSE]
        return [(TRUE, v)]

    def live(self, v):
        """Alternatives possible under the path condition, with guards restricted to it."""
        out = []
        for g, x in self.alts(v):
            h = self.A.and_(self.pc, g)
            if h != FALSE:
                out.append((g, x))
        return out

    def union(self, alts):
        """A value from [(guard, value)] (values may be U/SB); guards exclusive."""
        A = self.A
        flat, pos = [], {}
        allbool = all(isinstance(v, (SB, bool)) for g, v in alts if g != FALSE)
        if allbool and alts:
            return self.sbool(A.any([A.and_(g, v.lit if isinstance(v, SB) else (TRUE if v else FALSE)) for g, v in alts]))
        for g, v in alts:
            if g == FALSE:
                continue
            for h, x in self.alts(v):
                k = A.and_(g, h)
                if k == FALSE:
                    continue
                kk = akey(x)
                if kk in pos:
                    i = pos[kk]
                    flat[i] = (A.or_(flat[i][0], k), flat[i][1])
                else:
                    pos[kk] = len(flat)
                    flat.append((k, x))
        if not flat:
            return UNDEF
        if len(flat) == 1:
            return flat[0][1]
        if all(isinstance(x, tuple) for _, x in flat) and len({len(x) for _, x in flat}) == 1 and not all(is_atom(x) for _, x in flat):
            n = len(flat[0][1])
            return tuple(self.union([(g, x[i]) for g, x in flat]) for i in range(n))
        return U(flat)

    def sbool(self, lit):
        return True if lit == TRUE else False if lit == FALSE else SB(lit)

    def ite(self, g, a, b):
        if g == TRUE or b is UNDEF:
            return a
        if g == FALSE or a is UNDEF:
            return b
        if a is b:
            return a
        return self.union([(g, a), (g ^ 1, b)])

    def each(self, v, f):
        """Apply f to every live alternative under its guard; union of the results."""
        al = self.live(v)
        if not al:
            raise Dead()
        if len(al) == 1 and len(self.alts(v)) == 1:
            return f(al[0][1])
        pc0 = self.pc
        out, end = [], []
        for g, x in al:
            self.pc = self.A.and_(pc0, g)
            if not self.A.possible(self.pc):
                continue
            try:
                r = f(x)
                out.append((g, r))
                end.append(self.pc)
            except Dead:
                pass
        self.pc = self.A.any(end)
        if self.pc == FALSE or not out:
            raise Dead()
        if all(r is None for _, r in out):
            return None
        return self.union(out)

    def truth(self, v):
        """Literal: v is true."""
        A = self.A
        if isinstance(v, SB):
            return v.lit
        ls = []
        for g, x in self.alts(v):
            if isinstance(x, (MDict, MList, View)):
                t = A.any(self.present_guards(x))
            elif isinstance(x, (str, int, float, tuple, type(None))):
                t = TRUE if x else FALSE
            elif isinstance(x, (Obj, Func, Cls, Bound, Builtin)):
                t = TRUE
            else:
                raise Unsupported("truth of %s" % type(x).__name__)
            ls.append(A.and_(g, t))
        return A.any(ls)

    def present_guards(self, x):
        if isinstance(x, View):
            x = x.d
        if isinstance(x, MDict):
            return list(x.present)
        return [g for g, _ in x.entries]

    # -- comparisons
    def eq(self, a, b):
        A = self.A
        if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
            return A.iff(self.truth(a), self.truth(b))
        out = []
        for g, x in self.alts(a):
            for h, y in self.alts(b):
                k = A.and_(g, h)
                if k != FALSE and A.and_(k, self.pc) != FALSE:
                    out.append(A.and_(k, self.eq1(x, y)))
        return A.any(out)

    def eq1(self, x, y):
        A = self.A
        if x is y:
            return TRUE
        if isinstance(x, (Opaque, Gen)) or isinstance(y, (Opaque, Gen)):
            raise Unsupported("comparison of an opaque value")
        if is_atom(x) and is_atom(y):
            return TRUE if x == y else FALSE
        if isinstance(x, tuple) and isinstance(y, tuple):
            return FALSE if len(x) != len(y) else A.all([self.eq(p, q) for p, q in zip(x, y)])
        if isinstance(x, MList) and isinstance(y, MList):
            dx, dy = self.dense(x.entries), self.dense(y.entries)
            out = []
            for i in range(max(len(dx), len(dy))):
                gx = dx[i][0] if i < len(dx) else FALSE
                gy = dy[i][0] if i < len(dy) else FALSE
                out.append(A.iff(gx, gy))
                if i < len(dx) and i < len(dy):
                    both = A.and_(gx, gy)
                    if both != FALSE:
                        out.append(A.or_(both ^ 1, self.eq(dx[i][1], dy[i][1])))
            return A.all(out)
        if isinstance(x, View) and x.kind == "keys":
            x = self.as_set(x)
        if isinstance(y, View) and y.kind == "keys":
            y = self.as_set(y)
        if isinstance(x, MDict) and isinstance(y, MDict):
            if x.is_set != y.is_set:
                return FALSE
            out = []
            for k in set(x.keys) | set(y.keys):
                i, j = x.index.get(k), y.index.get(k)
                gx = x.present[i] if i is not None else FALSE
                gy = y.present[j] if j is not None else FALSE
                out.append(A.iff(gx, gy))
                if not x.is_set and i is not None and j is not None:
                    out.append(A.or_(A.and_(gx, gy) ^ 1, self.eq(x.vals[i], y.vals[j])))
            return A.all(out)
        kinds = {type(x), type(y)}
        if kinds & {MList, MDict, MSet} and (len(kinds) == 2 or is_atom(x) or is_atom(y)):
            return FALSE
        if isinstance(x, (Cls, ExcType, Func)) or isinstance(y, (Cls, ExcType, Func)):
            return FALSE
        raise Unsupported("== of %s and %s" % (type(x).__name__, type(y).__name__))

    def is_same(self, a, b):
        A = self.A
        out = []
        for g, x in self.alts(a):
            for h, y in self.alts(b):
                k = A.and_(g, h)
                if k == FALSE:
                    continue
                if is_atom(x) and is_atom(y):
                    if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
                        s = TRUE if akey(x) == akey(y) else FALSE
                    elif x != y:
                        s = FALSE
                    else:
                        raise Unsupported("identity of equal plain values")
                else:
                    s = TRUE if x is y else FALSE
                    if isinstance(x, tuple) and isinstance(y, tuple):
                        raise Unsupported("identity of tuples")
                out.append(A.and_(k, s))
        return A.any(out)

    def lt(self, a, b, strict):
        A = self.A
        out = []
        for g, x in self.alts(a):
            for h, y in self.alts(b):
                k = A.and_(g, h)
                if k == FALSE or A.and_(k, self.pc) == FALSE:
                    continue
                out.append(A.and_(k, self.lt1(x, y, strict)))
        return A.any(out)

    def lt1(self, x, y, strict):
        A = self.A
        if isinstance(x, str) and isinstance(y, str):
            if x in self.rank and y in self.rank:
                if x == y:
                    return FALSE if strict else TRUE
                return self.lt_ids(self.rank[x], self.rank[y])
            if x in self.rank or y in self.rank:
                raise Unsupported("order of an ID and another text")
            return TRUE if (x < y if strict else x <= y) else FALSE
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return TRUE if (x < y if strict else x <= y) else FALSE
        if isinstance(x, tuple) and isinstance(y, tuple):
            # lexicographic
            res = TRUE if (len(x) < len(y) or (len(x) == len(y) and not strict)) else FALSE
            for p, q in reversed(list(zip(x, y))):
                res = A.ite(self.eq(p, q), res, self.lt(p, q, True))
            return res
        if isinstance(x, MDict) and isinstance(y, MDict) and x.is_set and y.is_set:
            sub = A.all([A.or_(p ^ 1, y.present[y.index[k]] if k in y.index else FALSE) for k, p in zip(x.keys, x.present)])
            return A.and_(sub, self.eq1(x, y) ^ 1) if strict else sub
        raise Unsupported("order of %s and %s" % (type(x).__name__, type(y).__name__))

    def contains(self, x, c):
        """Literal: x in c (c a single container)."""
        A = self.A
        if isinstance(c, View) and c.kind == "keys":
            c = c.d
        if isinstance(c, MDict):
            out = []
            for g, k in self.alts(x):
                if isinstance(k, (Opaque, MList, MDict, Obj)):
                    raise Unsupported("key of kind %s" % type(k).__name__)
                if k in c.index and not (isinstance(k, bool)):
                    out.append(A.and_(g, c.present[c.index[k]]))
            return A.any(out)
        if isinstance(c, (MList, tuple, View, Gen)):
            out = []
            for g, v in self.iterate(c):
                e = self.eq(x, v)
                out.append(A.and_(g, e))
            return A.any(out)
        if isinstance(c, str):
            return A.any([A.and_(g, TRUE if isinstance(k, str) and k in c else FALSE) for g, k in self.alts(x)])
        if isinstance(c, (U, SB)):
            return A.any([A.and_(g, self.contains(x, y)) for g, y in self.live(c)])
        raise Unsupported("in %s" % type(c).__name__)

    # ---------------------------------------------------------------- containers
    def dense(self, entries):
        """Entries compacted so that guard i+1 implies guard i: [(guard, value at position i)]."""
        A = self.A
        entries = [(g, v) for g, v in entries if g != FALSE]
        if all(g == TRUE for g, _ in entries):
            return entries
        # already compact?
        ok = True
        for (g, _), (h, _) in zip(entries, entries[1:]):
            if A.and_(h, g) != h:
                ok = False
                break
        if ok:
            return entries
        n = len(entries)
        cnt = [TRUE] + [FALSE] * n
        at = [[] for _ in range(n)]
        for g, v in entries:
            for p in range(n):
                k = A.and_(g, cnt[p])
                if k != FALSE:
                    at[p].append((k, v))
            cnt = [A.or_(A.and_(g ^ 1, cnt[p]), A.and_(g, cnt[p - 1]) if p else FALSE) for p in range(n + 1)]
        out = []
        for p in range(n):
            if at[p]:
                g = A.any([k for k, _ in at[p]])
                if g != FALSE:
                    out.append((g, self.union(at[p])))
        return out

    def count(self, guards):
        """Number of true guards, as alternatives."""
        A = self.A
        base = sum(1 for g in guards if g == TRUE)
        gs = [g for g in guards if g not in (TRUE, FALSE)]
        cnt = [TRUE]
        for g in gs:
            cnt = [A.or_(A.and_(g ^ 1, cnt[p]) if p < len(cnt) else FALSE, A.and_(g, cnt[p - 1]) if p else FALSE) for p in range(len(cnt) + 1)]
        return self.union([(g, base + p) for p, g in enumerate(cnt)])

    def dict_order(self, d):
        """[(guard, index alternatives [(guard, i)])] in insertion order."""
        A = self.A
        idx = [i for i in range(len(d.keys)) if d.present[i] != FALSE]
        if d.is_set:
            raise Unsupported("iteration over a set")

        def surely_before(i, j):
            both = A.and_(d.present[i], d.present[j])
            if both == FALSE:
                return True
            return A.and_(both, d.before(i, j) ^ 1) == FALSE
        out = []
        rest = list(idx)
        while rest:
            first = next((i for i in rest if all(j == i or surely_before(i, j) for j in rest)), None)
            if first is None:
                break
            out.append((d.present[first], [(TRUE, first)]))
            rest.remove(first)
        if not rest:
            return out
        n = len(rest)
        at = [[] for _ in range(n)]
        for i in rest:
            cnt = [TRUE]
            for j in rest:
                if j != i:
                    b = A.and_(d.present[j], d.before(j, i))
                    cnt = [A.or_(A.and_(b ^ 1, cnt[p]) if p < len(cnt) else FALSE, A.and_(b, cnt[p - 1]) if p else FALSE) for p in range(len(cnt) + 1)]
            for p in range(n):
                k = A.and_(d.present[i], cnt[p])
                if k != FALSE:
                    at[p].append((k, i))
        for p in range(n):
            g = A.any([k for k, _ in at[p]])
            if g != FALSE:
                out.append((g, at[p]))
        return out

    def iterate(self, v, lazy=None):
        """[(guard, element)] in order."""
        A = self.A
        if isinstance(v, (U, SB)):
            al = self.live(v)
            if len(al) == 1:
                return [(g, e) for g, e in self.iterate(al[0][1])]
            seqs = [(g, self.dense(self.iterate(x))) for g, x in al]
            out = []
            for p in range(max((len(s) for _, s in seqs), default=0)):
                cell = [(A.and_(g, s[p][0]), s[p][1]) for g, s in seqs if p < len(s)]
                cell = [(g, e) for g, e in cell if g != FALSE]
                if cell:
                    out.append((A.any([g for g, _ in cell]), self.union(cell)))
            return out
        if isinstance(v, MList):
            return list(v.entries)
        if isinstance(v, tuple):
            return [(TRUE, x) for x in v]
        if isinstance(v, View):
            d = v.d
            out = []
            for g, al in self.dict_order(d):
                if v.kind == "keys":
                    e = self.union([(h, d.keys[i]) for h, i in al])
                elif v.kind == "values":
                    e = self.union([(h, d.vals[i]) for h, i in al])
                else:
                    e = (self.union([(h, d.keys[i]) for h, i in al]), self.union([(h, d.vals[i]) for h, i in al]))
                out.append((g, e))
            return out
        if isinstance(v, MDict):
            return self.iterate(View(v, "keys"))
        if isinstance(v, Gen):
            return self.comp_entries(v.node, v.frame)
        if isinstance(v, str) and v not in self.rank:
            return [(TRUE, c) for c in v]
        if v is None or isinstance(v, (int, float)):
            self.throw("TypeError")
        raise Unsupported("iteration over %s" % type(v).__name__)

    def key_of(self, k):
        if isinstance(k, (MList, MDict)):
            self.throw("TypeError")
        if not is_atom(k):
            raise Unsupported("dictionary key of kind %s" % type(k).__name__)
        return k

    def slot(self, d, k):
        """Index of key k in d, created absent if unknown."""
        if k not in d.index:
            i = len(d.keys)
            d.index[k] = i
            d.keys.append(k)
            d.present.append(FALSE)
            d.vals.append(UNDEF)
            for j in range(i):
                d.bef[j, i] = TRUE
        return d.index[k]

    def dset(self, d, key, val):
        """d[key] = val under the path condition."""
        A = self.A
        for g, k in self.live(key):
            h = A.and_(self.pc, g)
            if h == FALSE:
                continue
            i = self.slot(d, self.key_of(k))
            new = A.and_(h, d.present[i] ^ 1)
            if new != FALSE:
                for j in range(len(d.keys)):
                    if j < i:
                        d.bef[j, i] = A.or_(new, d.bef[j, i])
                    elif j > i:
                        d.bef[i, j] = A.and_(new ^ 1, d.bef[i, j])
                d.version += 1
            d.vals[i] = val if d.present[i] == FALSE else self.ite(h, val, d.vals[i])
            d.present[i] = A.or_(d.present[i], h)

    def ddel(self, d, k, g=TRUE):
        if k in d.index:
            i = d.index[k]
            h = self.A.and_(self.pc, g)
            if self.A.and_(d.present[i], h) != FALSE:
                d.present[i] = self.A.and_(d.present[i], h ^ 1)
                d.version += 1

    def dget(self, d, key, default=None, missing="KeyError"):
        """d[key]; where the key is absent: default value, or an exception if missing is set."""
        A = self.A
        out, absent = [], []
        for g, k in self.live(key):
            if isinstance(k, (MList, MDict)):
                self.throw("TypeError")
            if not is_atom(k):
                raise Unsupported("lookup with %s" % type(k).__name__)
            p = d.present[d.index[k]] if k in d.index else FALSE
            if p != FALSE:
                out.append((A.and_(g, p), d.vals[d.index[k]]))
            absent.append(A.and_(g, p ^ 1))
        ab = A.any(absent)
        if missing:
            self.throw(missing, ab)
            return self.union([(g, v) for g, v in out if A.and_(g, self.pc) != FALSE])
        return self.union(out + [(ab, default)])

    def dict_copy(self, v, cls=MDict):
        """A fresh dictionary (set) with the entries of v (possibly alternatives)."""
        A = self.A
        al = [(g, x.d if isinstance(x, View) else x) for g, x in self.live(v)]
        if not al:
            raise Dead()
        if not all(isinstance(x, MDict) for _, x in al):
            raise Unsupported("dictionary from %s" % [type(x).__name__ for _, x in al])
        r = cls()
        if len(al) == 1:
            d = al[0][1]
            r.keys, r.index, r.present, r.vals, r.bef = list(d.keys), dict(d.index), list(d.present), list(d.vals), dict(d.bef)
            return r
        for _, d in al:
            for k in d.keys:
                if k not in r.index:
                    self.slot(r, k)
        n = len(r.keys)
        for i, k in enumerate(r.keys):
            c = [(A.and_(g, d.present[d.index[k]]), d.vals[d.index[k]]) for g, d in al if k in d.index]
            r.present[i] = A.any([g for g, _ in c])
            r.vals[i] = self.union(c)
        for i in range(n):
            for j in range(i + 1, n):
                c = []
                for g, d in al:
                    a, b = d.index.get(r.keys[i]), d.index.get(r.keys[j])
                    if a is not None and b is not None:
                        c.append(A.and_(g, d.before(a, b)))
                r.bef[i, j] = A.any(c)
        return r

    def dict_join(self, r, o):
        """r.update(o) for a fresh r, unconditionally."""
        A = self.A
        for k in o.keys:
            self.slot(r, k)
        pa = list(r.present)
        n = len(r.keys)

        def ob(i, j):
            a, b = o.index.get(r.keys[i]), o.index.get(r.keys[j])
            return o.before(a, b) if a is not None and b is not None else TRUE
        for i in range(n):
            for j in range(i + 1, n):
                r.bef[i, j] = A.ite(pa[i], A.or_(pa[j] ^ 1, r.bef[i, j]), A.and_(pa[j] ^ 1, ob(i, j)))
        for k in o.keys:
            i, j = r.index[k], o.index[k]
            r.vals[i] = o.vals[j] if pa[i] == FALSE else self.ite(o.present[j], o.vals[j], r.vals[i])
            r.present[i] = A.or_(r.present[i], o.present[j])
        r.version += 1

    def as_set(self, v):
        if isinstance(v, (MDict, View)) or (isinstance(v, U) and all(isinstance(x, (MDict, View)) and getattr(x, "kind", "keys") == "keys" for _, x in v.alts)):
            r = self.dict_copy(v, MSet)
            r.vals = [None] * len(r.vals)
            return r
        r = MSet()
        for g, e in self.iterate(v):
            self.under(g, lambda: self.dset(r, e, None))
        return r

    def under(self, g, f):
        """Run f with the path condition restricted by g, then restore it (minus what ended inside)."""
        A = self.A
        pc0 = self.pc
        self.pc = A.and_(pc0, g)
        out = None
        if self.pc != FALSE:
            try:
                out = f()
            except Dead:
                self.pc = FALSE
        self.pc = A.or_(A.and_(pc0, g ^ 1), self.pc)
        if self.pc == FALSE:
            raise Dead()
        return out

    def merge_fresh_lists(self, alts):
        A = self.A
        seqs = [(g, self.dense(x.entries)) for g, x in alts]
        r = self.fresh_list()
        for p in range(max((len(s) for _, s in seqs), default=0)):
            cell = [(A.and_(g, s[p][0]), s[p][1]) for g, s in seqs if p < len(s)]
            cell = [(g, e) for g, e in cell if g != FALSE]
            if cell:
                r.entries.append((A.any([g for g, _ in cell]), self.union(cell)))
        return r

    def fresh_list(self, entries=()):
        return MList(entries)

    def list_get(self, entries, idx):
        A = self.A
        d = self.dense(entries)
        out, bad = [], []
        n_alts = None
        for g, i in self.live(idx):
            if isinstance(i, bool) or not isinstance(i, int):
                raise Unsupported("list index of kind %s" % type(i).__name__)
            if i >= 0:
                if i < len(d):
                    out.append((A.and_(g, d[i][0]), d[i][1]))
                    bad.append(A.and_(g, d[i][0] ^ 1))
                else:
                    bad.append(g)
            else:
                hit = []
                for p in range(len(d)):
                    # length is p + 1 - (i + 1) ... the element at length + i
                    L = p - i
                    if L <= len(d):
                        ex = A.and_(d[L - 1][0], (d[L][0] ^ 1) if L < len(d) else TRUE)
                        k = A.and_(g, ex)
                        if k != FALSE:
                            out.append((k, d[p][1]))
                            hit.append(k)
                bad.append(A.and_(g, A.any(hit) ^ 1))
        self.throw("IndexError", A.any(bad))
        return self.union([(g, v) for g, v in out if A.and_(g, self.pc) != FALSE])

    # ---------------------------------------------------------------- exceptions
    def throw(self, name, cond=TRUE, value=None):
        A = self.A
        g = A.and_(self.pc, cond)
        if g == FALSE:
            return
        self.raises.append((g, value or Exc(name)))
        self.pc = A.and_(self.pc, g ^ 1)
        if self.pc == FALSE:
            raise Dead()

    # ---------------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            if self.pc == FALSE:
                return
            try:
                self.stmt(s)
            except Dead:
                self.pc = FALSE

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s)

    def s_Expr(self, s):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.frame.locals[a.asname or a.name.split(".")[0]] = ExtMod(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s):
        if s.module == "__future__":
            return
        for a in s.names:
            if s.module and s.module.startswith(self.package):
                try:
                    m = self.module(s.module)
                except Unsupported:
                    self.frame.locals[a.asname or a.name] = UNDEF
                    continue
                v = m.globals.get(a.name, UNDEF)
                if v is UNDEF:
                    try:
                        v = self.module(s.module + "." + a.name)
                    except Unsupported:
                        pass
            else:
                v = self.ext("%s.%s" % (s.module, a.name))
            self.frame.locals[a.asname or a.name] = v

    def s_FunctionDef(self, s):
        fr = self.frame
        self.assign_name(s.name, Func(s, fr.module, closure=None if fr.name == "<module>" else fr))

    def s_ClassDef(self, s):
        body = Frame(self.frame.module, closure=self.frame, name="<class>")
        bases = []
        for b in s.bases:
            try:
                bases.append(self.ev(b))
            except Unsupported:
                bases.append(None)
        body.bases = bases
        self.in_frame(body, lambda: self.block(s.body))
        members = {}
        for k, v in body.locals.items():
            if isinstance(v, Func):
                v = Func(v.node, v.module, None, v.name)
                v.deco = [d.id if isinstance(d, ast.Name) else getattr(d, "attr", "?") for d in v.node.decorator_list]
            members[k] = v
        c = Cls(s.name, bases, members, self.frame.module)
        for v in members.values():
            if isinstance(v, Func):
                v.cls = c
        self.assign_name(s.name, c)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.frame.rets.append((self.pc, v))
        self.pc = FALSE

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        cur = self.ev(ast.copy_location(_load(s.target), s))
        v = self.ev(s.value)
        if isinstance(cur, MList) and isinstance(s.op, ast.Add):
            self.m_list(cur, "extend", [v])
            return
        if isinstance(cur, MSet) and isinstance(s.op, ast.BitOr):
            self.m_dict(cur, "update", [v])
            return
        if isinstance(cur, MDict) and isinstance(s.op, ast.BitOr):
            self.m_dict(cur, "update", [v])
            return
        self.assign(s.target, self.binop(s.op, cur, v))

    def assign_name(self, name, v):
        fr = self.frame
        if fr.name in ("<module>", "<class>"):
            fr.locals[name] = v
            return
        if name in getattr(fr, "nonlocals", ()):
            c = fr.closure
            while c is not None and name not in c.locals:
                c = c.closure
            if c is None:
                raise Unsupported("nonlocal")
            c.locals[name] = self.ite(self.pc, v, c.locals[name])
            return
        old = fr.locals.get(name, UNDEF)
        fr.locals[name] = self.ite(self.pc, v, old)

    def s_Nonlocal(self, s):
        self.frame.nonlocals = set(getattr(self.frame, "nonlocals", ())) | set(s.names)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            self.each(o, lambda x: self.set_item(x, k, v))
        else:
            raise Unsupported("assignment to " + type(t).__name__)

    def set_attr(self, o, attr, v):
        for g, x in self.live(o):
            if not isinstance(x, Obj):
                raise Unsupported("attribute of %s" % type(x).__name__)
            x.attrs[attr] = self.ite(self.A.and_(self.pc, g), v, x.attrs.get(attr, UNDEF))

    def set_item(self, x, k, v):
        A = self.A
        if isinstance(x, MDict) and not x.is_set:
            self.dset(x, k, v)
        elif isinstance(x, MList):
            ents = self.dense(x.entries)
            for g, i in self.live(k):
                if not isinstance(i, int) or i < 0:
                    raise Unsupported("list assignment")
                ok = ents[i][0] if i < len(ents) else FALSE
                self.throw("IndexError", A.and_(g, ok ^ 1))
                ents[i] = (ents[i][0], self.ite(A.and_(self.pc, g), v, ents[i][1]))
            x.entries = ents
        elif x is None or isinstance(x, (tuple, str)):
            self.throw("TypeError")
        else:
            raise Unsupported("item assignment on %s" % type(x).__name__)

    def unpack(self, t, v):
        if any(isinstance(e, ast.Starred) for e in t.elts):
            raise Unsupported("starred target")
        n = len(t.elts)

        def parts(x):
            if isinstance(x, tuple):
                if len(x) != n:
                    self.throw("ValueError")
                return x
            d = self.dense(self.iterate(x))
            if len(d) < n:
                self.throw("ValueError")
            self.throw("ValueError", self.A.or_(d[n - 1][0] ^ 1 if n else FALSE, d[n][0] if len(d) > n else FALSE))
            return tuple(e for _, e in d[:n])
        v = self.each(v, parts)
        if not isinstance(v, tuple):
            v = tuple(self.union([(g, x[i]) for g, x in self.alts(v)]) for i in range(n))
        for e, x in zip(t.elts, v):
            self.assign(e, x)

    def s_If(self, s):
        A = self.A
        c = self.truth(self.ev(s.test))
        pc = self.pc
        then = A.and_(pc, c)
        els = A.and_(pc, c ^ 1)
        if not A.possible(then):
            then = FALSE
        if not A.possible(els):
            els = FALSE
        self.pc = then
        self.block(s.body)
        g1 = self.pc
        self.pc = els
        self.block(s.orelse)
        self.pc = A.or_(g1, self.pc)

    def s_For(self, s):
        it = self.ev(s.iter)
        watch = []
        for g, x in self.live(it):
            d = x.d if isinstance(x, View) else x
            if isinstance(d, MDict):
                watch.append((g, d, d.version, list(d.present)))
            elif isinstance(d, MList):
                watch.append((g, d, len(d.entries), None))
        if isinstance(it, Gen):
            it = self.fresh_list(self.comp_entries(it.node, it.frame))
        self.loop(self.iterate(it), s, watch)

    def loop(self, entries, s, watch=()):
        A = self.A
        fr = self.frame
        L = {"brk": FALSE, "cont": FALSE}
        fr.loops.append(L)
        for g, e in entries:
            pc0 = self.pc
            if pc0 == FALSE:
                break
            self.pc = A.and_(pc0, g)
            if self.pc == FALSE or not A.possible(self.pc):
                self.pc = pc0
                continue
            L["cont"] = FALSE
            try:
                self.assign(s.target, e)
                self.block(s.body)
            except Dead:
                self.pc = FALSE
            self.pc = A.any([A.and_(pc0, g ^ 1), self.pc, L["cont"]])
            for w, d, v, pres in watch:
                if isinstance(d, MList):
                    if len(d.entries) != v:
                        raise Unsupported("list changed while it is iterated")
                elif d.version != v and self.pc != FALSE:
                    # a dictionary whose size changed refuses to go on
                    pres += [FALSE] * (len(d.present) - len(pres))
                    grown = A.any([A.and_(n, o ^ 1) for n, o in zip(d.present, pres)])
                    shrunk = A.any([A.and_(o, n ^ 1) for n, o in zip(d.present, pres)])
                    if A.possible(A.all([self.pc, w, grown, shrunk])):
                        raise Unsupported("dictionary changed while it is iterated")
                    try:
                        self.throw("RuntimeError", A.all([w, A.or_(grown, shrunk), A.and_(pc0, g)]))
                    except Dead:
                        self.pc = FALSE
        fr.loops.pop()
        if self.pc != FALSE and s.orelse:
            self.block(s.orelse)
        self.pc = A.or_(self.pc, L["brk"])

    def s_While(self, s):
        A = self.A
        fr = self.frame
        L = {"brk": FALSE, "cont": FALSE}
        fr.loops.append(L)
        done = FALSE
        for _ in range(self.max_while):
            if self.pc == FALSE:
                break
            try:
                c = self.truth(self.ev(s.test))
            except Dead:
                self.pc = FALSE
                break
            done = A.or_(done, A.and_(self.pc, c ^ 1))
            self.pc = A.and_(self.pc, c)
            if not A.possible(self.pc):
                self.pc = FALSE
                break
            L["cont"] = FALSE
            self.block(s.body)
            self.pc = A.or_(self.pc, L["cont"])
        else:
            if A.possible(self.pc):
                raise Unsupported("loop bound")
        fr.loops.pop()
        self.pc = done
        if s.orelse:
            self.block(s.orelse)
        self.pc = A.or_(self.pc, L["brk"])

    def s_Break(self, s):
        L = self.frame.loops[-1]
        L["brk"] = self.A.or_(L["brk"], self.pc)
        self.pc = FALSE

    def s_Continue(self, s):
        L = self.frame.loops[-1]
        L["cont"] = self.A.or_(L["cont"], self.pc)
        self.pc = FALSE

    def s_Raise(self, s):
        if s.exc is None:
            raise Unsupported("bare raise")
        v = self.ev(s.exc)
        if isinstance(v, ExcType):
            v = Exc(v.name)
        if not isinstance(v, Exc):
            raise Unsupported("raise of %s" % type(v).__name__)
        self.throw(v.name, TRUE, v)

    def s_Assert(self, s):
        self.throw("AssertionError", self.truth(self.ev(s.test)) ^ 1)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.ev(t.value), self.ev(t.slice)

                def one(x):
                    if not isinstance(x, MDict):
                        raise Unsupported("del of a list item")
                    self.dget(x, k)
                    for g, kk in self.live(k):
                        self.ddel(x, kk, g)
                self.each(o, one)
            elif isinstance(t, ast.Name):
                self.assign_name(t.id, None)
            else:
                raise Unsupported("del")

    def s_Try(self, s):
        if s.finalbody:
            raise Unsupported("finally")
        outer, self.raises = self.raises, []
        self.block(s.body)
        mine, self.raises = self.raises, outer
        if s.orelse and self.pc != FALSE:
            self.block(s.orelse)
        end = self.pc
        for h in s.handlers:
            names = None if h.type is None else [x.name for x in self.exc_types(h.type)]
            hit = [(g, e) for g, e in mine if names is None or e.name in names or any(p in names for p in EXC_PARENTS.get(e.name, ("Exception",)))]
            mine = [x for x in mine if x not in hit]
            self.pc = self.A.any([g for g, _ in hit])
            if self.pc != FALSE:
                if h.name:
                    self.assign_name(h.name, Opaque("exception"))
                self.block(h.body)
                end = self.A.or_(end, self.pc)
        self.raises += mine
        self.pc = end

    def exc_types(self, node):
        v = self.ev(node)
        vs = v if isinstance(v, tuple) else (v,)
        if not all(isinstance(x, ExcType) for x in vs):
            raise Unsupported("except clause")
        return vs

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if not (isinstance(v, tuple) and v and v[0] == "<file>"):
                raise Unsupported("with")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(s.body)

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def lookup(self, name):
        fr = self.frame
        while fr is not None:
            if name in fr.locals:
                v = fr.locals[name]
                if v is UNDEF:
                    raise Unsupported("undefined name " + name)
                return v
            fr = fr.closure
        g = self.frame.module.globals
        if name in g:
            if g[name] is UNDEF:
                raise Unsupported("name " + name)
            return g[name]
        f = getattr(self, "b_" + name, None)
        if f is not None:
            return Builtin(name, f)
        if name in EXC_PARENTS or (isinstance(getattr(builtins, name, None), type) and issubclass(getattr(builtins, name), BaseException)):
            return ExcType(name)
        if name in ("int", "float", "bool", "object", "type", "property", "staticmethod", "classmethod", "super"):
            return ("<builtin>", name)
        raise Unsupported("name " + name)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                if v.conversion != -1 or v.format_spec is not None or not isinstance(x, (str, int)) or x in self.rank:
                    return Opaque()
                parts.append(str(x))
        return "".join(parts)

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("starred")
        return tuple(self.ev(x) for x in e.elts)

    def e_List(self, e):
        r = self.fresh_list()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                r.entries += self.iterate(self.ev(x.value))
            else:
                r.entries.append((TRUE, self.ev(x)))
        return r

    def e_Set(self, e):
        r = MSet()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                for g, y in self.iterate(self.ev(x.value)):
                    self.under(g, lambda: self.dset(r, y, None))
            else:
                self.fresh_set(r, self.ev(x), None)
        return r

    def fresh_set(self, d, k, v):
        """Insertion into a container created by this very expression: no need to remember the path condition."""
        pc, self.pc = self.pc, TRUE
        try:
            self.dset(d, k, v)
        finally:
            self.pc = pc

    def e_Dict(self, e):
        r = MDict()
        first = True
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                if first:
                    r = self.dict_copy(o)
                else:
                    self.dict_join(r, self.dict_copy(o))
            else:
                kk = self.ev(k)
                self.fresh_set(r, kk, self.ev(v))
            first = False
        return r

    def comp_entries(self, node, frame=None):
        """[(guard, element)] of a comprehension."""
        out = []
        fr = Frame(self.frame.module, closure=frame or self.frame, name="<comp>")

        def rec(i):
            if i == len(node.generators):
                out.append((self.guard_now(base), (self.ev(node.key), self.ev(node.value)) if isinstance(node, ast.DictComp) else self.ev(node.elt)))
                return
            gen = node.generators[i]
            for g, x in self.iterate(self.ev(gen.iter)):
                pc0 = self.pc
                self.pc = self.A.and_(pc0, g)
                if self.pc == FALSE or not self.A.possible(self.pc):
                    self.pc = pc0
                    continue
                stay = FALSE
                try:
                    fr_locals_assign(self, fr, gen.target, x)
                    for c in gen.ifs:
                        t = self.truth(self.ev(c))
                        stay = self.A.or_(stay, self.A.and_(self.pc, t ^ 1))
                        self.pc = self.A.and_(self.pc, t)
                        if self.pc == FALSE:
                            raise Dead()
                    rec(i + 1)
                except Dead:
                    self.pc = FALSE
                self.pc = self.A.any([A_and_not(self.A, pc0, g), stay, self.pc])
                if self.pc == FALSE:
                    raise Dead()
        base = self.pc
        self.in_frame(fr, lambda: rec(0))
        return out

    def guard_now(self, base):
        """The path condition relative to base (base itself is dropped where that is visible)."""
        return TRUE if self.pc == base else self.pc

    def e_ListComp(self, e):
        return self.fresh_list(self.comp_entries(e))

    def e_GeneratorExp(self, e):
        return Gen(e, self.frame)

    def e_SetComp(self, e):
        r = MSet()
        for g, x in self.comp_entries(e):
            pc, self.pc = self.pc, g
            self.dset(r, x, None)
            self.pc = pc
        return r

    def e_DictComp(self, e):
        r = MDict()
        for g, (k, v) in self.comp_entries(e):
            pc, self.pc = self.pc, g
            self.dset(r, k, v)
            self.pc = pc
        return r

    def e_Lambda(self, e):
        return Func(e, self.frame.module, closure=self.frame)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_BoolOp(self, e):
        A = self.A
        is_and = isinstance(e.op, ast.And)
        pc0 = self.pc
        out, ends = [], []
        for i, x in enumerate(e.values):
            try:
                v = self.ev(x)
            except Dead:
                self.pc = FALSE
                break
            if i == len(e.values) - 1:
                out.append((self.pc, v))
                ends.append(self.pc)
                break
            t = self.truth(v)
            stop = A.and_(self.pc, t ^ 1 if is_and else t)
            if stop != FALSE:
                out.append((stop, v if not isinstance(v, (SB, bool)) else (not is_and)))
                ends.append(stop)
            self.pc = A.and_(self.pc, t if is_and else t ^ 1)
            if self.pc == FALSE or not A.possible(self.pc):
                self.pc = FALSE
                break
        self.pc = A.any(ends)
        if self.pc == FALSE:
            raise Dead()
        return self.union(out) if len(out) > 1 else out[0][1]

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return self.sbool(self.truth(v) ^ 1)
        if isinstance(e.op, ast.USub):
            return self.union([(g, -x) for g, x in self.alts(v)])
        raise Unsupported("unary operator")

    def e_IfExp(self, e):
        A = self.A
        c = self.truth(self.ev(e.test))
        pc = self.pc
        out, ends = [], []
        for g, x in ((c, e.body), (c ^ 1, e.orelse)):
            self.pc = A.and_(pc, g)
            if not A.possible(self.pc):
                continue
            try:
                v = self.ev(x)
                out.append((g, v))
                ends.append(self.pc)
            except Dead:
                pass
        self.pc = A.any(ends)
        if self.pc == FALSE:
            raise Dead()
        return out[0][1] if len(out) == 1 else self.union(out)

    def e_Compare(self, e):
        A = self.A
        left = self.ev(e.left)
        res = TRUE
        if len(e.ops) > 1 and any(isinstance(c, ast.Call) for c in e.comparators[1:]):
            raise Unsupported("chained comparison with a call")
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            if isinstance(op, ast.Eq):
                t = self.eq(left, right)
            elif isinstance(op, ast.NotEq):
                t = self.eq(left, right) ^ 1
            elif isinstance(op, ast.Lt):
                t = self.lt(left, right, True)
            elif isinstance(op, ast.LtE):
                t = self.lt(left, right, False)
            elif isinstance(op, ast.Gt):
                t = self.lt(right, left, True)
            elif isinstance(op, ast.GtE):
                t = self.lt(right, left, False)
            elif isinstance(op, ast.Is):
                t = self.is_same(left, right)
            elif isinstance(op, ast.IsNot):
                t = self.is_same(left, right) ^ 1
            elif isinstance(op, (ast.In, ast.NotIn)):
                t = self.contains(left, right)
                if isinstance(op, ast.NotIn):
                    t ^= 1
            else:
                raise Unsupported("comparison")
            res = A.and_(res, t)
            left = right
        return self.sbool(res)

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        A = self.A
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque()
        if isinstance(op, ast.BitOr) and isinstance(a, (MDict, View, U)) and isinstance(b, (MDict, View, U)):
            isset = all(isinstance(x, View) or x.is_set for _, x in self.live(a))
            r = self.as_set(a) if isset else self.dict_copy(a)
            self.dict_join(r, self.as_set(b) if isset else self.dict_copy(b))
            return r
        if isinstance(op, (ast.BitAnd, ast.Sub)) and isinstance(a, (MDict, View)) and isinstance(b, (MDict, View, U)):
            r = self.as_set(a)
            o = self.as_set(b)
            for i, k in enumerate(r.keys):
                inb = o.present[o.index[k]] if k in o.index else FALSE
                r.present[i] = A.and_(r.present[i], inb if isinstance(op, ast.BitAnd) else inb ^ 1)
            return r
        out = []
        texts = False
        for g, x in self.live(a):
            for h, y in self.live(b):
                k = A.and_(g, h)
                if k == FALSE:
                    continue
                if isinstance(x, str) or isinstance(y, str):
                    if not (isinstance(x, str) and isinstance(y, str) and isinstance(op, ast.Add)):
                        if isinstance(op, ast.Mod):
                            return Opaque()
                        self.throw("TypeError", k)
                        continue
                    if x in self.rank or y in self.rank or (len(self.alts(a)) * len(self.alts(b)) > 1):
                        texts = True
                        continue
                    out.append((k, x + y))
                elif isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)) and y == 0:
                        self.throw("ZeroDivisionError", k)
                        continue
                    f = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.FloorDiv: lambda: x // y, ast.Mod: lambda: x % y, ast.Div: lambda: x / y}.get(type(op))
                    if f is None:
                        raise Unsupported("operator")
                    out.append((k, f()))
                elif isinstance(x, MList) and isinstance(y, MList) and isinstance(op, ast.Add):
                    if k != TRUE and len(self.alts(a)) * len(self.alts(b)) > 1:
                        raise Unsupported("sum of alternative lists")
                    return self.fresh_list(x.entries + y.entries)
                elif isinstance(x, tuple) and isinstance(y, tuple) and isinstance(op, ast.Add):
                    out.append((k, x + y))
                elif x is None or y is None:
                    self.throw("TypeError", k)
                else:
                    raise Unsupported("operator on %s and %s" % (type(x).__name__, type(y).__name__))
        if texts:
            return Opaque()
        if not out:
            raise Dead()
        return self.union(out)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(o, (ExtMod, Builtin, Cls)):
            return None                       # a type annotation
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower) if e.slice.lower else None
            hi = self.ev(e.slice.upper) if e.slice.upper else None
            if e.slice.step is not None or any(x is not None and (not isinstance(x, int) or x < 0) for x in (lo, hi)):
                raise Unsupported("slice")

            def cut(x):
                if isinstance(x, tuple):
                    return x[lo:hi]
                if not isinstance(x, MList):
                    raise Unsupported("slice of %s" % type(x).__name__)
                return self.fresh_list(self.dense(x.entries)[lo:hi])
            return self.each(o, cut)
        k = self.ev(e.slice)

        def one(x):
            if isinstance(x, MDict) and not x.is_set:
                return self.dget(x, k)
            if isinstance(x, MList):
                return self.list_get(x.entries, k)
            if isinstance(x, tuple):
                return self.list_get([(TRUE, y) for y in x], k)
            if x is None or isinstance(x, (int, float)) or isinstance(x, (MSet, View)):
                self.throw("TypeError")
            raise Unsupported("subscript of %s" % type(x).__name__)
        return self.each(o, one)

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.attr(o, e.attr)

    def attr(self, o, name):
        if isinstance(o, ExtMod):
            return self.ext(o.name + "." + name)
        if isinstance(o, Mod):
            v = o.globals.get(name, UNDEF)
            if v is UNDEF:
                raise Unsupported("attribute " + name)
            return v
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, U):
                    al = self.live(v)
                    return v if len(al) != 1 else al[0][1]
                return v
            if name == "__class__":
                return o.cls
            m = o.cls.find(name)
            if isinstance(m, Func):
                deco = getattr(m, "deco", [])
                if "staticmethod" in deco:
                    return m
                if "classmethod" in deco:
                    return Bound(o.cls, m)
                if "property" in deco:
                    return self.call(m, [o], {})
                if set(deco) - {"abstractmethod"}:
                    raise Unsupported("decorator")
                return Bound(o, m)
            if m is not None:
                return m
            self.throw("AttributeError")
        if isinstance(o, Cls):
            m = o.find(name)
            if m is None:
                raise Unsupported("class attribute " + name)
            if isinstance(m, Func) and "classmethod" in getattr(m, "deco", []):
                return Bound(o, m)
            return m
        if isinstance(o, tuple) and o and o[0] == "<super>":
            for b in o[2].bases:
                if isinstance(b, Cls):
                    m = b.find(name)
                    if m is not None:
                        return Bound(o[1], m)
            if name == "__init__":
                return Builtin("__init__", lambda a, k: None)
            raise Unsupported("super()." + name)
        if isinstance(o, tuple) and o and o[0] == "<builtin>" and o[1] == "dict":
            return Builtin("dict." + name, lambda a, k: self.method(a[0], name, a[1:], k))
        if isinstance(o, Builtin) and o.name in ("dict", "set", "list", "str") and name == "fromkeys":
            return Builtin("fromkeys", self.dict_fromkeys)
        return Builtin("." + name, lambda a, k: self.method(o, name, a, k))

    def dict_fromkeys(self, a, k):
        r = MDict()
        for g, x in self.iterate(a[0]):
            pc, self.pc = self.pc, g
            self.dset(r, x, a[1] if len(a) > 1 else None)
            self.pc = pc
        return r

    # ---------------------------------------------------------------- calls
    def e_Call(self, e):
        f = self.ev(e.func)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                ents = self.iterate(self.ev(a.value))
                if any(g != TRUE for g, _ in ents):
                    raise Unsupported("starred argument")
                args += [x for _, x in ents]
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, MDict) and all(p == TRUE for p in d.present):
                    kw.update(dict(zip(d.keys, d.vals)))
                    continue
                raise Unsupported("** argument")
            kw[k.arg] = self.ev(k.value)
        if isinstance(f, tuple) and f == ("<builtin>", "super"):
            fr = self.frame
            while fr is not None and not getattr(fr, "cls", None):
                fr = fr.closure
            if fr is None:
                raise Unsupported("super")
            return ("<super>", fr.self_obj, fr.cls)
        return self.each(f, lambda x: self.call(x, args, kw)) if isinstance(f, U) else self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Builtin):
            return f.fn(args, kw)
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj] + list(args), kw)
        if isinstance(f, ExcType):
            return Exc(f.name)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, tuple) and f and f[0] == "<builtin>":
            return self.conv(f[1], args)
        raise Unsupported("call of %s" % type(f).__name__)

    def conv(self, name, args):
        v = args[0]
        if name == "bool":
            return self.sbool(self.truth(v))
        if name in ("int", "float"):
            if isinstance(v, (U, SB, int, float)):
                return self.union([(g, {"int": int, "float": float}[name](x)) for g, x in self.live(v)])
        raise Unsupported(name)

    def instantiate(self, c, args, kw):
        o = Obj(c)
        init = c.find("__init__")
        if init is not None:
            self.call_func(init, [o] + list(args), kw)
        elif args or kw:
            raise Unsupported("constructor")
        return o

    def call_func(self, f, args, kw):
        A = self.A
        node = f.node
        a = node.args
        if not isinstance(node, ast.Lambda):
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node)):
                raise Unsupported("generator function")
            d = set(getattr(f, "deco", [])) | {getattr(x, "id", getattr(x, "attr", "?")) for x in node.decorator_list}
            if d - {"abstractmethod", "staticmethod", "classmethod", "property"}:
                raise Unsupported("decorator")
        fr = Frame(f.module, closure=f.closure, name=f.name)
        fr.cls = f.cls
        if f.cls is not None and args:
            fr.self_obj = args[0]
        names = [p.arg for p in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
            names.append(p.arg)
            if dflt is not None:
                defaults[p.arg] = dflt
        npos = len(a.posonlyargs + a.args)
        kw = dict(kw)
        for i, n in enumerate(names):
            if i < min(len(args), npos):
                fr.locals[n] = args[i]
            elif n in kw:
                fr.locals[n] = kw.pop(n)
            elif n in defaults:
                fr.locals[n] = self.in_frame(Frame(f.module, closure=f.closure), lambda: self.ev(defaults[n]))
            else:
                self.throw("TypeError")
        if a.vararg:
            fr.locals[a.vararg.arg] = tuple(args[npos:])
        elif len(args) > npos:
            self.throw("TypeError")
        if a.kwarg:
            d = MDict()
            for k, v in kw.items():
                self.fresh_set(d, k, v)
            fr.locals[a.kwarg.arg] = d
        elif kw:
            self.throw("TypeError")
        self.functions.add("%s:%s%s" % (f.module.name.rsplit(".", 2)[-2] + "/" + f.module.name.rsplit(".", 1)[-1] if "." in f.module.name else f.module.name,
                                        (f.cls.name + ".") if f.cls else "", f.name))
        entry = self.pc

        def run():
            if isinstance(node, ast.Lambda):
                fr.rets.append((TRUE, self.ev(node.body)))
                fr.rets[-1] = (self.pc, fr.rets[-1][1])
                self.pc = FALSE
            else:
                self.block(node.body)
        self.in_frame(fr, run)
        rets = [(g, v) for g, v in fr.rets if g != FALSE]
        if self.pc != FALSE:
            rets.append((self.pc, None))
        self.pc = A.any([g for g, _ in rets])
        if self.pc == FALSE:
            raise Dead()
        if len(rets) == 1:
            return rets[0][1]
        if all(isinstance(v, (bool, SB)) for _, v in rets):
            # default for the last alternative keeps guards short
            r = self.truth(rets[-1][1])
            for g, v in reversed(rets[:-1]):
                r = A.ite(g, self.truth(v), r)
            return self.sbool(r)
        return self.union(rets)

    # -- built-in functions
    def b_len(self, a, k):
        def one(x):
            if isinstance(x, (MDict, MList, View)):
                return self.count(self.present_guards(x))
            if isinstance(x, (tuple, str)) and x not in self.rank:
                return len(x)
            if x is None or isinstance(x, (int, float)):
                self.throw("TypeError")
            raise Unsupported("len")
        return self.each(a[0], one)

    def b_list(self, a, k):
        return self.fresh_list(self.dense(self.iterate(a[0])) if a else ())

    def b_tuple(self, a, k):
        ents = self.iterate(a[0]) if a else []
        if all(g == TRUE for g, _ in ents):
            return tuple(x for _, x in ents)
        raise Unsupported("tuple of unknown length")

    def b_dict(self, a, k):
        r = MDict()
        if a:
            if isinstance(a[0], (MDict, U)):
                r = self.dict_copy(a[0])
            else:
                for g, x in self.iterate(a[0]):
                    if not isinstance(x, tuple) or len(x) != 2:
                        raise Unsupported("dict()")
                    pc, self.pc = self.pc, g
                    self.dset(r, x[0], x[1])
                    self.pc = pc
        for kk, v in k.items():
            self.fresh_set(r, kk, v)
        return r

    def b_set(self, a, k):
        return self.as_set(a[0]) if a else MSet()

    b_frozenset = b_set

    def b_str(self, a, k):
        v = a[0] if a else ""
        if isinstance(v, str) and v not in self.rank:
            return v
        return Opaque()

    def b_repr(self, a, k):
        return Opaque()

    def b_print(self, a, k):
        return None

    def b_isinstance(self, a, k):
        t = a[1] if isinstance(a[1], tuple) and not (a[1] and a[1][0] == "<builtin>") else (a[1],)
        names = []
        for x in t:
            if isinstance(x, Builtin):
                names.append(x.name)
            elif isinstance(x, tuple) and x and x[0] == "<builtin>":
                names.append(x[1])
            elif isinstance(x, Cls):
                names.append(x)
            else:
                raise Unsupported("isinstance")
        out = []
        for g, x in self.live(a[0]):
            ok = False
            for n in names:
                if isinstance(n, Cls):
                    ok |= isinstance(x, Obj) and x.cls.mro_has(n)
                else:
                    ok |= {"str": isinstance(x, (str, Opaque)), "int": isinstance(x, int), "float": isinstance(x, float), "bool": isinstance(x, bool),
                           "list": isinstance(x, MList), "dict": isinstance(x, MDict) and not x.is_set, "set": isinstance(x, MSet), "tuple": isinstance(x, tuple)}.get(n, False)
            out.append((g, ok))
        return self.union(out)

    def lazily(self, v, f):
        """Feed the elements of v to f(guard, element) one after the other; f returns the literal to stop on."""
        A = self.A
        pc0 = self.pc
        stop = FALSE
        if isinstance(v, Gen) and len(v.node.generators) == 1:
            gen = v.node.generators[0]
            fr = Frame(self.frame.module, closure=v.frame, name="<comp>")

            def run():
                nonlocal stop
                for g, x in self.iterate(self.ev(gen.iter)):
                    base = self.pc
                    self.pc = A.all([base, g, stop ^ 1])
                    if self.pc == FALSE:
                        self.pc = base
                        continue
                    skip = A.and_(base, A.and_(g, stop ^ 1) ^ 1)
                    try:
                        fr_locals_assign(self, fr, gen.target, x)
                        for c in gen.ifs:
                            t = self.truth(self.ev(c))
                            skip = A.or_(skip, A.and_(self.pc, t ^ 1))
                            self.pc = A.and_(self.pc, t)
                            if self.pc == FALSE:
                                raise Dead()
                        e = self.ev(v.node.elt)
                        stop = A.or_(stop, A.and_(self.pc, f(self.pc, e)))
                    except Dead:
                        self.pc = FALSE
                    self.pc = A.or_(skip, self.pc)
                    if self.pc == FALSE:
                        raise Dead()
            self.in_frame(fr, run)
        else:
            for g, x in self.iterate(v):
                h = A.all([pc0, g, stop ^ 1])
                if h != FALSE:
                    stop = A.or_(stop, A.and_(h, f(h, x)))
        return stop

    def b_any(self, a, k):
        return self.sbool(self.lazily(a[0], lambda g, x: self.truth(x)))

    def b_all(self, a, k):
        return self.sbool(self.lazily(a[0], lambda g, x: self.truth(x) ^ 1) ^ 1)

    def b_next(self, a, k):
        found = []

        def f(g, x):
            found.append((g, x))
            return TRUE
        stop = self.lazily(a[0], f) if isinstance(a[0], Gen) else None
        if stop is None:
            raise Unsupported("next")
        if len(a) > 1:
            return self.union(found + [(self.A.and_(self.pc, stop ^ 1), a[1])])
        self.throw("StopIteration", stop ^ 1)
        return self.union(found)

    def b_sum(self, a, k):
        tot = a[1] if len(a) > 1 else 0
        for g, x in self.iterate(a[0]):
            if isinstance(x, MList):
                raise Unsupported("sum of lists")
            if isinstance(x, (SB, bool)):
                x = self.union([(self.truth(x), 1), (self.truth(x) ^ 1, 0)])
            new = self.binop(ast.Add(), tot, x)
            tot = self.ite(g, new, tot)
        return tot

    def extreme(self, a, k, least):
        A = self.A
        ents = self.iterate(a[0]) if len(a) == 1 else [(TRUE, x) for x in a]
        key = k.get("key")
        if set(k) - {"key", "default"}:
            raise Unsupported("min/max arguments")
        best, bk, any_ = UNDEF, UNDEF, FALSE
        for g, x in ents:
            kx = x if key is None else self.call(key, [x], {})
            if best is UNDEF:
                best, bk, any_ = x, kx, g
                continue
            better = self.lt(kx, bk, True) if least else self.lt(bk, kx, True)
            take = A.and_(g, A.or_(any_ ^ 1, better))
            best, bk = self.ite(take, x, best), self.ite(take, kx, bk)
            any_ = A.or_(any_, g)
        if "default" in k:
            return self.ite(any_, best, k["default"])
        self.throw("ValueError", any_ ^ 1)
        return best

    def b_min(self, a, k):
        return self.extreme(a, k, True)

    def b_max(self, a, k):
        return self.extreme(a, k, False)

    def b_sorted(self, a, k):
        return self.sort_entries(self.set_entries(a[0]), k)

    def set_entries(self, v):
        if isinstance(v, MSet):
            return [(p, x) for p, x in zip(v.present, v.keys)]
        return self.iterate(v)

    def sort_entries(self, ents, k):
        A = self.A
        if set(k) - {"key"}:
            raise Unsupported("sorted arguments")
        key = k.get("key")
        ents = [(g, x) for g, x in ents if g != FALSE]
        keys = [x if key is None else self.call(key, [x], {}) for _, x in ents]
        n = len(ents)
        at = [[] for _ in range(n)]
        for i in range(n):
            cnt = [TRUE]
            for j in range(n):
                if j != i:
                    # stable: j before i if smaller, or equal and earlier
                    b = self.lt(keys[i], keys[j], True) ^ 1 if j < i else self.lt(keys[j], keys[i], True)
                    b = A.and_(ents[j][0], b)
                    cnt = [A.or_(A.and_(b ^ 1, cnt[p]) if p < len(cnt) else FALSE, A.and_(b, cnt[p - 1]) if p else FALSE) for p in range(len(cnt) + 1)]
            for p in range(n):
                g = A.and_(ents[i][0], cnt[p])
                if g != FALSE:
                    at[p].append((g, ents[i][1]))
        out = []
        for p in range(n):
            g = A.any([h for h, _ in at[p]])
            if g != FALSE:
                out.append((g, self.union(at[p])))
        return self.fresh_list(out)

    def b_range(self, a, k):
        out = []
        if all(isinstance(x, int) for x in a):
            return self.fresh_list([(TRUE, i) for i in range(*a)])
        if len(a) == 1:
            al = self.live(a[0])
            top = max(x for _, x in al)
            for i in range(top):
                out.append((self.A.any([g for g, x in al if x > i]), i))
            return self.fresh_list(out)
        raise Unsupported("range")

    def b_enumerate(self, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        return self.fresh_list([(g, (i + start, x)) for i, (g, x) in enumerate(self.dense(self.iterate(a[0])))])

    def b_zip(self, a, k):
        seqs = [self.dense(self.iterate(x)) for x in a]
        return self.fresh_list([(self.A.all([g for g, _ in t]), tuple(x for _, x in t)) for t in zip(*seqs)])

    def b_reversed(self, a, k):
        return self.fresh_list(self.iterate(a[0])[::-1])

    def b_iter(self, a, k):
        return a[0]

    def b_map(self, a, k):
        if len(a) != 2:
            raise Unsupported("map")
        out = []
        for g, x in self.iterate(a[1]):
            out.append((g, self.under(g, lambda: self.call(a[0], [x], {}))))
        return self.fresh_list(out)

    def b_filter(self, a, k):
        out = []
        for g, x in self.iterate(a[1]):
            t = self.under(g, lambda: self.truth(x if a[0] is None else self.call(a[0], [x], {})))
            out.append((self.A.and_(g, t if t is not None else FALSE), x))
        return self.fresh_list(out)

    def b_open(self, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if not isinstance(a[0], str) or mode not in ("r", "w", "rt", "wt"):
            raise Unsupported("open")
        return ("<file>", a[0], mode)

    def b_abs(self, a, k):
        return self.union([(g, abs(x)) for g, x in self.alts(a[0])])

    def b_bool(self, a, k):
        return self.sbool(self.truth(a[0]))

    # -- methods of built-in types
    def method(self, o, name, args, kw):
        def one(x):
            if isinstance(x, MDict):
                return self.m_dict(x, name, args, kw)
            if isinstance(x, MList):
                return self.m_list(x, name, args, kw)
            if isinstance(x, View):
                if name in ("isdisjoint", "union", "intersection", "difference"):
                    return self.m_dict(self.as_set(x), name, args, kw)
                raise Unsupported("view method " + name)
            if isinstance(x, str):
                if name == "join":
                    ents = self.iterate(args[0])
                    if x not in self.rank and all(g == TRUE and isinstance(v, str) and v not in self.rank for g, v in ents):
                        return x.join(v for _, v in ents)
                    return Opaque()
                if name == "format":
                    return Opaque()
                if x not in self.rank and all(isinstance(v, str) and v not in self.rank for v in args) and not kw and name in ("lower", "upper", "strip", "startswith", "endswith", "replace"):
                    return getattr(x, name)(*args)
                raise Unsupported("text method " + name)
            if isinstance(x, tuple) and name in ("index", "count"):
                return self.m_list(MList([(TRUE, v) for v in x]), name, args, kw)
            if x is None or isinstance(x, (int, float)):
                self.throw("AttributeError")
            raise Unsupported("method %s of %s" % (name, type(x).__name__))
        return self.each(o, one)

    def m_dict(self, d, name, args, kw=None):
        A = self.A
        kw = kw or {}
        if not d.is_set:
            if name in ("keys", "values", "items"):
                return View(d, name)
            if name == "get":
                return self.dget(d, args[0], args[1] if len(args) > 1 else kw.get("default"), None)
            if name == "pop":
                v = self.dget(d, args[0], args[1], None) if len(args) > 1 else self.dget(d, args[0])
                for g, k in self.live(args[0]):
                    self.ddel(d, k, g)
                return v
            if name == "setdefault":
                dflt = args[1] if len(args) > 1 else None
                cur = self.contains(args[0], d)
                pc = self.pc
                self.pc = A.and_(pc, cur ^ 1)
                if self.pc != FALSE:
                    self.dset(d, args[0], dflt)
                self.pc = pc
                return self.dget(d, args[0])
            if name == "update":
                if kw:
                    raise Unsupported("update")
                src = self.dict_copy(args[0]) if isinstance(args[0], (MDict, U)) else self.b_dict([args[0]], {})
                for g, al in self.dict_order(src):
                    for h, i in al:
                        self.under(A.and_(g, h), lambda: self.dset(d, src.keys[i], src.vals[i]))
                return None
        else:
            if name == "add":
                self.dset(d, args[0], None)
                return None
            if name in ("discard", "remove"):
                if name == "remove":
                    self.throw("KeyError", self.contains(args[0], d) ^ 1)
                for g, k in self.live(args[0]):
                    self.ddel(d, k, g)
                return None
            if name == "update":
                for o in args:
                    for g, x in self.set_entries(o):
                        self.under(g, lambda: self.dset(d, x, None))
                return None
            if name in ("union", "intersection", "difference"):
                r = self.as_set(d)
                for o in args:
                    r = self.binop({"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub}[name](), r, self.as_set(o))
                return r
            if name in ("issubset", "issuperset"):
                o = self.as_set(args[0])
                return self.sbool(self.lt1(d, o, False) if name == "issubset" else self.lt1(o, d, False))
            if name == "isdisjoint":
                return self.sbool(A.any(self.binop(ast.BitAnd(), d, args[0]).present) ^ 1)
        if name == "copy":
            return self.dict_copy(d, type(d))
        if name == "clear":
            for k in d.keys:
                self.ddel(d, k)
            return None
        raise Unsupported("dict method " + name)

    def m_list(self, x, name, args, kw=None):
        A = self.A
        if name == "append":
            x.entries.append((self.pc, args[0]))
            return None
        if name == "extend":
            x.entries += [(A.and_(self.pc, g), v) for g, v in self.iterate(args[0])]
            return None
        if name == "copy":
            return self.fresh_list(x.entries)
        if name == "count":
            return self.count([A.and_(g, self.eq(v, args[0])) for g, v in x.entries])
        if name == "index":
            d = self.dense(x.entries)
            none, out = TRUE, []
            for i, (g, v) in enumerate(d):
                hit = A.all([none, g, self.eq(v, args[0])])
                out.append((hit, i))
                none = A.and_(none, hit ^ 1)
            self.throw("ValueError", none)
            return self.union(out)
        if name == "clear":
            x.entries = [(A.and_(g, self.pc ^ 1), v) for g, v in x.entries]
            return None
        if name == "remove":
            none, out = TRUE, []
            for g, v in x.entries:
                hit = A.all([self.pc, none, g, self.eq(v, args[0])])
                out.append((A.and_(g, hit ^ 1), v))
                none = A.and_(none, hit ^ 1)
            x.entries = out
            self.throw("ValueError", none)
            return None
        if name == "sort":
            new = self.sort_entries(x.entries, kw or {})
            if self.pc != TRUE:
                merged = self.merge_fresh_lists([(self.pc, new), (self.pc ^ 1, self.fresh_list(x.entries))])
                x.entries = merged.entries
            else:
                x.entries = new.entries
            return None
        if name == "pop":
            d = self.dense(x.entries)
            if args and args[0] not in (0, -1):
                raise Unsupported("list.pop")
            i = args[0] if args else -1
            v = self.list_get(d, i)
            if i == 0:
                x.entries = [(A.and_(g, self.pc ^ 1) if p == 0 else g, e) for p, (g, e) in enumerate(d)]
            else:
                out = []
                for p, (g, e) in enumerate(d):
                    last = A.and_(g, d[p + 1][0] ^ 1 if p + 1 < len(d) else TRUE)
                    out.append((A.and_(g, A.and_(self.pc, last) ^ 1), e))
                x.entries = out
            return v
        raise Unsupported("list method " + name)

    # -- other modules
    def ext(self, name):
        if name.startswith("typing.") or name.startswith("abc.") or name.startswith("__future__"):
            return ExtMod(name)
        h = {
            "json.dump": self.x_json_dump, "json.load": self.x_json_load,
            "copy.copy": self.x_copy, "copy.deepcopy": lambda a, k: self.deepcopy(a[0], {}),
            "itertools.combinations": self.x_combinations, "itertools.chain": self.x_chain,
            "itertools.chain.from_iterable": lambda a, k: self.fresh_list([(self.A.and_(g, h), y) for g, x in self.iterate(a[0]) for h, y in self.iterate(x)]),
            "itertools.product": self.x_product,
        }.get(name)
        if h is not None:
            return Builtin(name, h)
        return ExtMod(name)

    def x_json_dump(self, a, k):
        f = a[1]
        if not (isinstance(f, tuple) and f[0] == "<file>") or f[2] != "w":
            raise Unsupported("json.dump")
        if self.pc != TRUE:
            raise Unsupported("json.dump under a condition")
        self.files[f[1]] = self.jsonify(a[0], {})
        return None

    def x_json_load(self, a, k):
        f = a[0]
        if not (isinstance(f, tuple) and f[0] == "<file>"):
            raise Unsupported("json.load")
        if f[1] not in self.files:
            self.throw("FileNotFoundError")
        return self.jsonify(self.files[f[1]], {})

    def jsonify(self, v, memo):
        """What comes back from JSON: fresh containers, tuples as lists, keys as text."""
        if isinstance(v, U):
            return self.union([(g, self.jsonify(x, memo)) for g, x in v.alts])
        if isinstance(v, (SB, str, int, float, type(None))):
            return v
        if isinstance(v, tuple):
            return self.fresh_list([(TRUE, self.jsonify(x, memo)) for x in v])
        if isinstance(v, MList):
            return self.fresh_list([(g, self.jsonify(x, memo)) for g, x in v.entries])
        if isinstance(v, MDict) and not v.is_set:
            if not all(isinstance(k, str) for k in v.keys):
                raise Unsupported("JSON key")
            r = self.dict_copy(v)
            r.vals = [x if x is UNDEF else self.jsonify(x, memo) for x in r.vals]
            return r
        raise Unsupported("JSON of %s" % type(v).__name__)

    def deepcopy(self, v, memo):
        if isinstance(v, U):
            return self.union([(g, self.deepcopy(x, memo)) for g, x in v.alts])
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x, memo) for x in v)
        if isinstance(v, (MList, MDict, Obj)):
            if id(v) in memo:
                return memo[id(v)][1]
            if isinstance(v, MList):
                r = MList()
                memo[id(v)] = (v, r)
                r.entries = [(g, self.deepcopy(x, memo)) for g, x in v.entries]
            elif isinstance(v, Obj):
                r = Obj(v.cls)
                memo[id(v)] = (v, r)
                r.attrs = {k: self.deepcopy(x, memo) for k, x in v.attrs.items()}
            else:
                r = self.dict_copy(v, type(v))
                memo[id(v)] = (v, r)
                r.vals = [x if x is UNDEF else self.deepcopy(x, memo) for x in v.vals]
            return r
        return v

    def x_copy(self, a, k):
        def one(x):
            if isinstance(x, MDict):
                return self.dict_copy(x, type(x))
            if isinstance(x, MList):
                return self.fresh_list(x.entries)
            if isinstance(x, (str, int, float, tuple, type(None))):
                return x
            raise Unsupported("copy")
        return self.each(a[0], one)

    def x_combinations(self, a, k):
        from itertools import combinations
        ents = self.dense(self.iterate(a[0]))
        return self.fresh_list([(self.A.all([g for g, _ in t]), tuple(x for _, x in t)) for t in combinations(ents, a[1])])

    def x_product(self, a, k):
        from itertools import product
        if k.get("repeat"):
            a = list(a) * k["repeat"]
        return self.fresh_list([(self.A.all([g for g, _ in t]), tuple(x for _, x in t)) for t in product(*[self.iterate(x) for x in a])])

    def x_chain(self, a, k):
        return self.fresh_list([e for x in a for e in self.iterate(x)])

    # ---------------------------------------------------------------- harness side
    def api(self, f, *args, under=TRUE, **kw):
        """Call f (Bound/Func/Cls) under a guard.  Returns (value, guard of normal return, [(guard, exception name)])."""
        saved, self.raises = self.raises, []
        pc, self.pc = self.pc, under
        v = UNDEF
        if under != FALSE:
            try:
                fr = Frame(Mod("<harness>"), name="<harness>")
                v = self.in_frame(fr, lambda: self.call(f, list(args), kw))
            except Dead:
                self.pc = FALSE
        ok = self.pc
        exc = [(g, e.name) for g, e in self.raises if g != FALSE]
        self.raises, self.pc = saved, pc
        return v, ok, exc

    def py_list(self, xs):
        return MList([(TRUE, x) for x in xs])


def A_and_not(A, a, b):
    return A.and_(a, b ^ 1)


def fr_locals_assign(I, fr, target, x):
    """Comprehension variables are plain: each iteration sees its own value."""
    if isinstance(target, ast.Name):
        fr.locals[target.id] = x
        return
    if isinstance(target, (ast.Tuple, ast.List)):
        def parts(v):
            if isinstance(v, tuple):
                return v
            raise Unsupported("comprehension target")
        x = parts(x) if not isinstance(x, U) else tuple(I.union([(g, v[i]) for g, v in x.alts]) for i in range(len(target.elts)))
        if len(x) != len(target.elts):
            I.throw("ValueError")
        for t, v in zip(target.elts, x):
            fr_locals_assign(I, fr, t, v)
        return
    raise Unsupported("comprehension target")


def _load(t):
    import copy as _c
    t = _c.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t
