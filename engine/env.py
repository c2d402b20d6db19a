"""Harness environments.

A harness is written once against this interface.  `SymEnv` runs it symbolically (inputs are proxies, choices fork);
`ConcEnv` runs the same harness on recorded concrete inputs against the unpatched code (replay and validation).
"""
import math
from fractions import Fraction
from itertools import combinations

TRICKY = ["b", "", "A", "a ", "10", "9", "é", "b0", "z'"]
# Texts in ascending order, such that ignoring case, white space or the digits' meaning changes the order or the identity
ASC = {1: [""], 2: ["B", "a"], 3: ["", "B", "a"], 4: ["", "B", "a", "b"], 5: ["", "10", "9", "B", "b"], 6: ["", "10", "9", "B", "a", "b"],
       7: ["", "10", "9", "B", "a", "b", "b "], 8: ["", " b", "10", "9", "B", "a", "b", "é"]}


# Texts that some keys joined from two IDs would put between them
SEPS = ["-", "_", ",", ";", ":", "|", "/", " ", "", "::", "->", "__", ", ", "\t", "\n", "\0", "#", "&", "+", "'"]


def sep_ids(n, s):
    """IDs of which different pairs read the same when joined by the text s."""
    return ["c", "a", "b" + s + "c", "a" + s + "b", "b", "a" + s + "b" + s + "c"][:n]


def fixed_order(n, order):
    base = ASC[n] if n in ASC else sorted(ASC[8] + ["id%02d" % i for i in range(n - 8)])
    if order == "asc":
        return list(base)
    if order == "desc":
        return base[::-1]
    if order == "mix":  # neither ascending nor descending, first ID not first in sort order
        idx = sorted(range(n), key=lambda i: ((i * 2 + 1) % (n + 1 if n % 2 == 0 else n + 2), i))
        return [base[i] for i in idx]
    if isinstance(order, (list, tuple)):
        return [base[i] for i in order]
    raise ValueError(order)


class CheckFailed(Exception):
    def __init__(self, message):
        super().__init__(message)
        self.message = message


class AssumptionFailed(Exception):
    pass


class BaseEnv:
    concrete = False

    def call(self, fn, *a, **k):
        """Run code under test; returns ('ok', value) or ('err', exception)."""
        try:
            return "ok", fn(*a, **k)
        except Exception as e:  # noqa: BLE001  (engine control exceptions are BaseException)
            return "err", e

    def raises_value_error(self, fn, *a, **k):
        kind, v = self.call(fn, *a, **k)
        return kind == "err" and isinstance(v, ValueError)

    def reach(self, tag):
        self.tags[tag] = self.tags.get(tag, 0) + 1


# ---------------------------------------------------------------------------------------------------------
class SymEnv(BaseEnv):
    def __init__(self, engine, params):
        from . import libs, sym
        self.sym, self.libs = sym, libs
        self.engine = engine
        self.params = params
        self.inputs = []          # (name, kind, payload)
        self.tags = {}
        self.rng_memo = {}
        self.rng_fresh = 0
        self.rng_used = False
        self.perm_prefix = params.get("perm_prefix")
        self.model_rng = True
        self.model_spectral = False
        self.model_metric = False
        self.object_arrays = False
        self.noise = False
        self.spectral_calls = []
        self.nspectral = 0
        self.global_rng = None
        self.global_nprng = None
        self.id_by_content = {}
        self.nfresh = 0
        self.kernel_space = None
        self.checks_done = 0

    # inputs -----------------------------------------------------------------------------------------------
    def fresh_real(self, prefix):
        self.nfresh += 1
        return self.sym.SymReal.var("%s!%d" % (prefix, self.nfresh))

    def ids(self, n, order="sym", contents=None, name="ids"):
        if order == "sym":
            S = self.sym
            contents = list(contents or TRICKY[:n])
            out = []
            for i in range(n):
                r = S.SymInt.var("%s.rank%d" % (name, i))
                out.append(S.SymID(contents[i], r))
            e = self.engine
            for i, j in combinations(range(n), 2):
                e.assume(S.SymBool.cmp(out[i].rank - out[j].rank, S.NEG | S.POS))
            for x in out:
                self.id_by_content[str.__str__(x)] = x
            self.inputs.append((name, "ids", (contents, [x.rank for x in out])))
            return out
        if order == "sep":
            out = sep_ids(n, SEPS[self.engine.choose(len(SEPS))])
        else:
            out = fixed_order(n, order) if contents is None else list(contents)
        self.inputs.append((name, "const", out))
        return list(out)

    def choose(self, name, options):
        options = list(options)
        i = self.engine.choose(len(options))
        self.inputs.append((name, "const", i))
        return options[i]

    def integer(self, name, lo, hi):
        v = self.sym.SymInt.var(name)
        if lo is not None:
            self.engine.assume(v >= lo)
        if hi is not None:
            self.engine.assume(v <= hi)
        self.inputs.append((name, "num", v))
        return v

    def label(self, name, lo, hi):
        """An integer label; without bounds, any integer (see SymLabel)."""
        if lo is not None:
            return self.integer(name, lo, hi)
        v = self.sym.SymInt.var(name)
        v = self.sym.SymLabel(v.coefs, v.const)
        self.inputs.append((name, "num", v))
        return v

    def boolean(self, name):
        return self.integer(name, 0, 1) == 1

    def real(self, name, lo=None, hi=None, unit=False):
        v = self.sym.SymReal.var(name)
        if lo is not None:
            self.engine.assume(v >= lo)
        if hi is not None:
            self.engine.assume(v <= hi)
        self.inputs.append((name, "num", v))
        return v

    def seed(self, name="seed", value=7, symbolic=False):
        if symbolic:     # any seed the generators accept
            return self.integer(name, 0, 2 ** 32 - 1)
        self.inputs.append((name, "seed", value))
        return value

    def vectors(self, ids, mode, name="vec", thresholds=(), grid=None, coord_int=False, lo=None, hi=None, ordered=False, far=False, rep=None, unit=1, fix=None):
        """dict ID -> vector.  mode: 'line' (real line), 'int' (integer points of a line), 'free' (arbitrary
        pairwise distances), 'grid' (every assignment of the given concrete points, real csr matrices)."""
        S, L = self.sym, self.libs
        n = len(ids)
        fix = fix or self.params.get("_fix")
        rep = list(rep or range(n)) + list(range(len(rep or range(n)), n))   # equal entries: the same vector
        if mode == "grid":
            from scipy.sparse import csr_matrix
            picks = []
            out = {}
            for i, d in enumerate(ids):
                if fix and i < len(fix) and fix[i] is not None:
                    pt = [fix[i]] + [0] * (len(grid[0]) - 1)
                else:
                    pt = grid[self.engine.choose(len(grid))]
                picks.append(list(pt))
                out[d] = csr_matrix([list(map(float, pt))])
            self.inputs.append((name, "const", picks))
            return out
        self.object_arrays = True
        if mode in ("line", "int"):
            cls = S.SymInt if mode == "int" else S.SymReal
            xs = [cls.var("%s.x%d" % (name, i)) for i in range(n)]
            for i, c in enumerate((fix or ())[:n]):    # given points; None: arbitrary
                if c is not None:
                    xs[i] = cls((), int(c))
            e = self.engine
            for x in xs:
                if lo is not None:
                    e.assume(x >= lo)
                if hi is not None:
                    e.assume(x <= hi)
            if ordered:
                for a, b in zip(xs, xs[1:]):
                    e.assume(a <= b)
            if far:    # the first point lies away from the others
                for b in xs[2:]:
                    e.assume(2 * (b - xs[1]) < xs[1] - xs[0])
            space = L.VecSpace(name, n, "line", coord=lambda i: S.SymReal(xs[i].coefs, xs[i].const) / unit)
            self.inputs.append((name, "line", [S.SymReal(xs[i].coefs, xs[i].const) / unit if unit != 1 else xs[i] for i in rep]))
        else:
            ds = {}
            for i, j in combinations(range(n), 2):
                d = S.SymReal.var("%s.d%d_%d" % (name, i, j))
                self.engine.assume(d > 0)
                ds[i, j] = d
            space = L.VecSpace(name, n, "free", dist=lambda i, j: ds[min(i, j), max(i, j)])
            self.inputs.append((name, "free", (n, ds, dict(thresholds), rep)))
        return {d: space.base(rep[i]) for i, d in enumerate(ids)}

    def same_vector(self, a, b):
        return a.same(b) if isinstance(a, self.libs.SymVec) else (a != b).nnz == 0

    def snapshot_vectors(self, vectors):
        return [(k, v.copy()) for k, v in vectors.items()]

    def distance(self, a, b):
        if isinstance(a, self.libs.SymVec):
            return (a - b).norm()
        return float(math.sqrt(((a - b).toarray() ** 2).sum()))

    def kernel(self, u, v):
        """rbf kernel value of two base vectors: 1 on equal vectors, else an arbitrary number in (0, 1)."""
        S = self.sym
        w = u - v
        if not w.terms:
            return S.SymReal((), 1)
        if set(u.terms.values()) != {1} or set(v.terms.values()) != {1} or len(u.terms) != 1 or len(v.terms) != 1:
            raise S.Unsupported("kernel of a combination")
        i, j = sorted([next(iter(u.terms)), next(iter(v.terms))])
        k = S.SymReal.var("%s.k%d_%d" % (u.space.name, i, j))
        self.engine.assume(k > 0)
        self.engine.assume(k < 1)
        return k

    def spectral_labels(self, call, n):
        import numpy as np
        key = ("spectral", n, int(call.n_clusters), repr(sorted(call.kw.items(), key=lambda t: t[0])),
               tuple(self._cell(v) for v in call.X.flat))
        if call.kw.get("random_state") is None:   # unseeded: a new arbitrary answer every time
            self.rng_fresh += 1
            key += (self.rng_fresh,)
        if key not in self.rng_memo:
            k = int(call.n_clusters)
            labels = [self.engine.choose(k) for _ in range(n)]
            self.inputs.append(("spectral%d" % self.nspectral, "const", labels))
            self.nspectral += 1
            self.rng_memo[key] = labels
        return np.array(self.rng_memo[key])

    def kernel_value(self, u, v):
        if isinstance(u, self.libs.SymVec):
            return self.kernel(u, v)
        return rbf(u, v)

    def _cell(self, v):
        return (v.coefs, v.const) if isinstance(v, self.sym.SymNum) else float(v)

    # conditions -------------------------------------------------------------------------------------------
    def assume(self, cond):
        self.engine.assume(cond)

    def check(self, cond, message):
        self.checks_done += 1
        self.engine.check(cond, message)

    def gap(self, a, b):
        """Size of the difference of two vectors (no cancellation, unlike a library distance)."""
        return self.distance(a, b)

    # Symbolic numbers are compared exactly, floating-point numbers (fallback encodings) up to rounding.
    def close(self, a, b):
        if isinstance(a, float) and isinstance(b, (int, float)):
            return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        return a == b

    def le(self, a, b):
        if isinstance(a, float) and isinstance(b, (int, float)):
            return a <= b + 1e-9 * max(1.0, abs(a), abs(b))
        return a <= b

    def all_of(self, bs):
        return self.sym.all_of(bs)

    def any_of(self, bs):
        return self.sym.any_of(bs)

    def tmpfile(self):
        import tempfile
        return tempfile.NamedTemporaryFile(prefix="vp-sym-", suffix=".json")

    # concretisation ---------------------------------------------------------------------------------------
    def concretise(self):
        """Concrete inputs for this path from a model of the path condition.  Returns a JSON-able dict."""
        import z3
        e = self.engine
        S = self.sym
        e.prefix = e.prefix[:len(e.trail)]
        cond = [] if e.violation_cond is None else [e.violation_cond.z3()]
        if e.check_sat(*cond) != z3.sat:
            raise S.PathInfeasible()
        e.grab_model()
        # prefer models that replay exactly: IDs keep their contents, coordinates are small integers
        prefs = []
        for name, kind, p in self.inputs:
            if kind == "ids":
                contents, ranks = p
                prefs.append(("ids", [S.b_z3(ranks[i] < ranks[j]) for i in range(len(contents)) for j in range(len(contents)) if contents[i] < contents[j]]))
            elif kind == "line":
                cs = []
                for x in p:
                    ex = e.z3_of(x.coefs, x.const)
                    if not z3.is_int(ex):
                        cs.append(z3.IsInt(ex))
                    cs += [ex >= -60, ex <= 60]
                prefs.append(("int", cs))
            elif kind == "num":
                ex = e.z3_of(p.coefs, p.const)
                prefs.append(("num", [ex >= -60, ex <= 60] + ([] if z3.is_int(ex) else [z3.IsInt(ex * 4)])))
        got = list(cond)
        for _, cs in prefs:
            if not cs:
                continue
            if e.check_sat(*(got + cs)) == z3.sat:
                got = got + cs
                e.grab_model()
        # final model under everything accepted
        if e.check_sat(*got) == z3.sat:
            e.grab_model()

        def val(x):
            v = e.eval_form((x.coefs, x.const))
            return v

        out = {}
        for name, kind, p in self.inputs:
            if kind in ("const", "seed"):
                out[name] = p
            elif kind == "num":
                out[name] = _enc(val(p))
            elif kind == "ids":
                contents, ranks = p
                rv = [val(r) for r in ranks]
                order = sorted(range(len(rv)), key=lambda i: rv[i])
                by_rank = [contents[i] for i in order]
                if by_rank == sorted(contents):
                    out[name] = contents
                else:
                    sc = sorted(contents)
                    res = [None] * len(rv)
                    for r, i in enumerate(order):
                        res[i] = sc[r]
                    out[name] = res
            elif kind == "line":
                xs = [val(x) for x in p]
                out[name] = [[_enc(x)] for x in xs]
            elif kind == "free":
                n, ds, th, rep = p
                th = {k: val(t) if isinstance(t, S.SymNum) else t for k, t in th.items()}
                vecs, tvals = ordinal_points(n, {k: val(d) for k, d in ds.items()}, th)
                if not th:
                    out["__scalable__"] = True
                for k, v in tvals.items():   # a radius keeps its own value: scale the points, just inside on a tie
                    sc = short_scale(vecs, float(th[k]), v)
                    vecs = [[{"q": [float(c) * sc, 1]} for c in row] for row in vecs]
                out[name] = [vecs[i] for i in rep]
        out["__rng__"] = bool(self.rng_used)
        return out


def rbf(u, v):
    d = (u - v).toarray()
    return math.exp(-float((d * d).sum()) / d.shape[1])


def _enc(v):
    if isinstance(v, int):
        return v
    f = Fraction(v)
    return f.numerator if f.denominator == 1 else {"q": [f.numerator, f.denominator]}


def dec(v):
    if isinstance(v, dict) and "q" in v:
        return v["q"][0] / v["q"][1]
    return v


def four_squares(m):
    for a in range(math.isqrt(m), -1, -1):
        r1 = m - a * a
        for b in range(math.isqrt(r1), -1, -1):
            r2 = r1 - b * b
            for c in range(math.isqrt(r2), -1, -1):
                d = math.isqrt(r2 - c * c)
                if d * d == r2 - c * c:
                    return [a, b, c, d]
    raise ValueError(m)


def short_scale(vecs, th, v):
    """A factor with few binary digits (products stay exact) that brings distance v just inside th and keeps larger
    distances outside."""
    hi = th / v * (1 - 1e-9)
    far = [x for x in (math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q))) for p, q in combinations(vecs, 2)) if x > v * (1 + 1e-12)]
    lo = th / min(far) * (1 + 1e-9) if far else hi / 2
    for b in range(60):
        sc = math.floor(hi * 2 ** b) / 2 ** b
        if sc > lo:
            return sc
    return hi


def ordinal_points(n, d, thresholds):
    """Integer points whose pairwise distances have exactly the order (ties included) of the given values, together
    with float thresholds in the same relative position."""
    levels = sorted(set(Fraction(v) for v in d.values()) | set(Fraction(v) for v in thresholds.values()))
    lv = {v: i for i, v in enumerate(levels)}
    a = {k: lv[Fraction(v)] for k, v in d.items()}
    own = [sum(a[k] ** 2 for k in d if i in k) for i in range(n)]
    C = max(own, default=0)
    keys = sorted(d)
    vecs = []
    for i in range(n):
        v = []
        for k in keys:
            v.append(a[k] if k[0] == i else (-a[k] if k[1] == i else 0))
        pad = [[0, 0, 0, 0] for _ in range(n)]
        pad[i] = four_squares(C - own[i])
        for q in pad:
            v += q
        vecs.append(v)
    # squared distance of i,j is 2C + 2 a_ij^2 (pads of different points are orthogonal)
    if C == 0:
        # all distances equal: a regular simplex
        vecs = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
        return vecs, {k: math.sqrt(2) for k in thresholds}
    return vecs, {k: math.sqrt(2 * C + 2 * lv[Fraction(v)] ** 2) for k, v in thresholds.items()}


# A counterexample over arbitrary distances fixes only their order: the replay tries several scales of the points
SCALES = [1.0, 1e-4, 1e-2, 1e3, 1e-7, 1e6]


# ---------------------------------------------------------------------------------------------------------
class ConcEnv(BaseEnv):
    concrete = True

    def __init__(self, inputs, params, attempt=0):
        self.inputs = inputs
        self.params = params
        self.attempt = attempt
        self.tags = {}
        self.model_spectral = False
        self.perm_prefix = None
        self.model_rng = False
        self.rng_used = False
        self.tol = 1e-9
        self.spectral_calls = []
        self.spectral_memo = {}

    def spectral_labels(self, call, n):
        key = (n, int(call.n_clusters), repr(sorted(call.kw.items(), key=lambda t: t[0])), call.X.tobytes())
        if call.kw.get("random_state") is None:
            key += (len(self.spectral_memo),)
        if key not in self.spectral_memo:
            rec = self.inputs.get("spectral%d" % len(self.spectral_memo))
            k = int(call.n_clusters)
            if rec is None or len(rec) != n or max(rec) >= k:
                rec = [i % k for i in range(n)]
            self.spectral_memo[key] = rec
        return self.spectral_memo[key]

    def kernel_value(self, u, v):
        return rbf(u, v)

    def ids(self, n, order="sym", contents=None, name="ids"):
        return list(self.inputs[name])

    def choose(self, name, options):
        return list(options)[self.inputs[name]]

    def integer(self, name, lo, hi):
        return int(self.inputs.get(name, lo))   # absent: the symbolic run never looked at it

    def label(self, name, lo, hi):
        return int(self.inputs.get(name, 0))

    def boolean(self, name):
        return bool(int(self.inputs.get(name, 0)))

    def real(self, name, lo=None, hi=None, unit=False):
        return float(dec(self.inputs[name]))

    def seed(self, name="seed", value=7, symbolic=False):
        # odd attempts keep the recorded seed (only the state of the global generators differs), even ones vary it
        return self.inputs.get(name, value) + (0 if self.attempt % 2 else self.attempt // 2)

    def vectors(self, ids, mode, name="vec", thresholds=(), grid=None, coord_int=False, lo=None, hi=None, ordered=False, far=False, rep=None, unit=1, fix=None):
        from scipy.sparse import csr_matrix
        sc = 1.0
        if self.inputs.get("__scalable__") and self.attempt:
            sc = SCALES[self.attempt % len(SCALES)]
        return {d: csr_matrix([[float(dec(c)) * sc for c in v]]) for d, v in zip(ids, self.inputs[name])}

    def same_vector(self, a, b):
        return a.shape == b.shape and (a != b).nnz == 0

    def snapshot_vectors(self, vectors):
        return [(k, v.copy()) for k, v in vectors.items()]

    def distance(self, a, b):
        from sklearn.metrics import pairwise_distances
        return float(pairwise_distances(X=a, Y=b, metric="euclidean")[0][0])

    def gap(self, a, b):
        a, b = a.toarray(), b.toarray()
        return float(math.sqrt(((a - b) ** 2).sum()) / max(1.0, abs(a).max(), abs(b).max()))

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def check(self, cond, message):
        if not cond:
            raise CheckFailed(message)

    def close(self, a, b):
        return abs(a - b) <= self.tol * max(1.0, abs(a), abs(b))

    def le(self, a, b):
        return a <= b + self.tol * max(1.0, abs(a), abs(b))

    def all_of(self, bs):
        return all(bool(b) for b in bs)

    def any_of(self, bs):
        return any(bool(b) for b in bs)

    def tmpfile(self):
        import tempfile
        return tempfile.NamedTemporaryFile(prefix="vp-conc-", suffix=".json")
