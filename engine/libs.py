"""Library stand-ins used in symbolic mode.

Each stand-in dispatches: with no symbolic argument the real library function runs; with a symbolic argument the
stand-in implements the function's documented contract on proxies.  Random sources return an arbitrary value of
their contract, memoised by (seed, draw number) so that equal seeds give equal draws.
The stand-ins are installed in the checking process only; replays run without them.
"""
import itertools
import json
import math
import random
import sys
import tempfile  # noqa: F401  (imported before random.* is patched)

import networkx as nx
import numpy as np
import scipy.sparse
import scipy.spatial.distance
import sklearn.cluster
import sklearn.feature_extraction.text
import sklearn.metrics
import sklearn.metrics.pairwise
import sklearn.utils

from . import sym
from .sym import SymBool, SymID, SymInt, SymNum, SymReal, Unsupported

ENV = None  # current symbolic environment (set per path)


def set_env(env):
    global ENV
    ENV = env


# -- vectors ----------------------------------------------------------------------------------------------
class VecSpace:
    """Base vectors v_0..v_{n-1}.  mode 'line': v_i is the real number x_i.  mode 'free': only the pairwise
    distances between base vectors are given (symmetric, non-negative)."""

    def __init__(self, name, n, mode, coord=None, dist=None):
        self.name, self.n, self.mode, self.coord, self.dist = name, n, mode, coord, dist

    def base(self, i):
        return SymVec(self, {i: 1})


class SymVec:
    __slots__ = ("space", "terms")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, space, terms):
        self.space, self.terms = space, terms

    def _add(self, other, sgn):
        if isinstance(other, SymVec):
            if other.space is not self.space:
                raise Unsupported("vectors of two spaces")
            d = dict(self.terms)
            for i, c in other.terms.items():
                v = d.get(i, 0) + sgn * c
                if v == 0:
                    d.pop(i, None)
                else:
                    d[i] = sym._num(v)
            return SymVec(self.space, d)
        if isinstance(other, (int, float)) and other == 0:
            return self.copy()
        raise Unsupported("vector + %s" % type(other).__name__)

    def __add__(self, other):
        return self._add(other, 1)

    __radd__ = __add__

    def __sub__(self, other):
        return self._add(other, -1)

    def __rsub__(self, other):
        return (-self)._add(other, 1)

    def __neg__(self):
        return self * -1

    def __mul__(self, k):
        if isinstance(k, SymInt):
            k = k.concrete()
        if isinstance(k, (SymNum, SymVec)):
            raise Unsupported("vector * symbolic")
        k = sym._num(k)
        return SymVec(self.space, {i: sym._num(c * k) for i, c in self.terms.items() if k != 0})

    __rmul__ = __mul__
    multiply = __mul__

    def __truediv__(self, k):
        if isinstance(k, SymInt):
            k = k.concrete()
        from fractions import Fraction
        k = sym._num(k)
        if k == 0:
            raise ZeroDivisionError("division by zero")
        return SymVec(self.space, {i: sym._num(Fraction(c) / Fraction(k)) for i, c in self.terms.items()})

    def __imul__(self, k):         # sparse matrices change in place under *= and /= (not under += and -=)
        self.terms = (self * k).terms
        return self

    def __itruediv__(self, k):
        self.terms = (self / k).terms
        return self

    def value(self):
        if self.space.mode != "line":
            raise Unsupported("coordinates of a vector known only by its distances")
        s = SymReal((), 0)
        for i, c in self.terms.items():
            s = s + c * self.space.coord(i)
        return s

    def norm(self):
        if not self.terms:
            return SymReal((), 0)
        if self.space.mode == "line":
            return abs(self.value())
        if len(self.terms) == 2:
            (i, a), (j, b) = sorted(self.terms.items())
            if a == -b:
                return self.space.dist(i, j) * abs(a)
        raise Unsupported("norm outside pairwise differences in free mode")

    @property
    def shape(self):
        return (1, 1) if self.space.mode == "line" else (1, self.space.n)

    @property
    def nnz(self):
        raise Unsupported("nnz")

    def toarray(self):
        a = np.empty((1, 1), dtype=object)
        a[0, 0] = self.value()
        return a

    todense = toarray

    def __abs__(self):
        a = np.empty((1, 1), dtype=object)
        a[0, 0] = abs(self.value())
        return a

    def max(self, axis=None):      # one coordinate
        if axis is not None:
            raise Unsupported("vector reduction along an axis")
        return self.value()

    min = sum = mean = max

    def copy(self):
        return SymVec(self.space, dict(self.terms))

    def tocsr(self, copy=False):
        return self.copy() if copy else self

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __len__(self):
        return 1

    def same(self, other):
        return isinstance(other, SymVec) and self.space is other.space and self.terms == other.terms

    def __array__(self, *a, **k):
        raise Unsupported("numpy conversion of a symbolic vector")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("symbolic vector attribute %s" % name)


class SymMat:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, rows):
        self.rows = list(rows)

    @property
    def shape(self):
        return (len(self.rows), self.rows[0].shape[1] if self.rows else 0)

    def __len__(self):
        return len(self.rows)

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and i[1] == slice(None):
            i = i[0]
        if isinstance(i, (list, np.ndarray)):
            return SymMat([self.rows[int(k)] for k in i])
        if isinstance(i, slice):
            return SymMat(self.rows[i])
        return self.rows[int(i)]

    def __iter__(self):
        return iter(self.rows)

    def sum(self, axis=None):
        if axis != 0:
            raise Unsupported("matrix sum axis")
        return sum(self.rows)

    def mean(self, axis=None):
        return self.sum(axis) / len(self.rows)

    def tocsr(self):
        return self

    copy = tocsr

    def toarray(self):
        return np.concatenate([r.toarray() for r in self.rows])

    def __array__(self, *a, **k):
        raise Unsupported("numpy conversion of a symbolic matrix")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("symbolic matrix attribute %s" % name)


def _rows(x):
    if isinstance(x, SymMat):
        return x.rows
    if isinstance(x, SymVec):
        return [x]
    if isinstance(x, (list, tuple)) and x and all(isinstance(v, SymVec) for v in x):
        return list(x)
    return None


def _mk_pairwise(real, default_metric="euclidean", squared_kw=False):
    def pairwise(X, Y=None, *args, **kw):
        rx = _rows(X)
        ry = _rows(Y) if Y is not None else rx
        if rx is None and (Y is None or ry is None):
            if isinstance(X, np.ndarray) and X.dtype == object:
                raise Unsupported("pairwise distances of an object array")
            return real(X, Y, *args, **kw)
        if rx is None or ry is None:
            raise Unsupported("mixed symbolic/concrete distances")
        metric = args[0] if args and not squared_kw else kw.get("metric", default_metric)
        sq = bool(kw.get("squared")) if squared_kw else metric == "sqeuclidean"
        if metric not in ("euclidean", "l2", "sqeuclidean") and not (
                metric in ("cityblock", "l1", "manhattan") and rx[0].space.mode == "line"):
            raise Unsupported("metric %r" % (metric,))
        out = np.empty((len(rx), len(ry)), dtype=object)
        for i, u in enumerate(rx):
            for j, v in enumerate(ry):
                d = (u - v).norm()
                out[i, j] = d * d if sq else d
        return out
    return pairwise


def _mk_kernels(real):
    def kernels(X, Y=None, metric="linear", **kw):
        rx = _rows(X)
        if rx is None:
            return real(X, Y, metric=metric, **kw)
        if Y is not None or metric != "rbf" or kw:
            raise Unsupported("kernel %r" % (metric,))
        out = np.empty((len(rx), len(rx)), dtype=object)
        for i, u in enumerate(rx):
            for j, v in enumerate(rx):
                out[i, j] = ENV.kernel(u, v)
        return out
    return kernels


def _mk_vstack(real):
    def vstack(blocks, *a, **k):
        blocks = list(blocks)
        if any(isinstance(b, (SymVec, SymMat)) for b in blocks):
            rows = []
            for b in blocks:
                r = _rows(b)
                if r is None:
                    raise Unsupported("mixed vstack")
                rows += r
            return SymMat(rows)
        return real(blocks, *a, **k)
    return vstack


# -- random sources -----------------------------------------------------------------------------------------
class SymRandom:
    """Arbitrary random source.  Equal (seed, draw number, kind, size) give equal draws."""

    def __init__(self, seed=None):
        self.family = "py"
        self.seed(seed)

    def seed(self, a=None, version=2):
        ENV.rng_used = True
        if a is None:
            ENV.rng_fresh += 1
            self.key = (self.family, "fresh", ENV.rng_fresh)
        else:
            if isinstance(a, SymNum):
                a = (a.coefs, a.const)
            self.key = (self.family, "seed", repr(a))
        self.count = 0

    def _draw(self, kind, make):
        ENV.rng_used = True
        k = (self.key, self.count, kind)
        self.count += 1
        if k not in ENV.rng_memo:
            ENV.rng_memo[k] = make()
        return ENV.rng_memo[k]

    def _perm(self, n, k):
        def make():
            left = list(range(n))
            hint = ENV.perm_prefix
            lim = k if hint is None else min(k, hint)
            out = []
            for _ in range(lim):
                out.append(left.pop(ENV.engine.choose(len(left))))
            return tuple(out + left[:k - lim])
        return self._draw(("perm", n, k), make)

    def shuffle(self, x, *a):
        vals = list(x)
        p = self._perm(len(vals), len(vals))
        for i, j in enumerate(p):
            x[i] = vals[j]

    def sample(self, population, k, *, counts=None):
        pop = list(population)
        if isinstance(k, SymInt):
            k = k.concrete()
        if not 0 <= k <= len(pop):
            raise ValueError("Sample larger than population or is negative")
        return [pop[j] for j in self._perm(len(pop), k)]

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        i = self._draw(("choice", len(seq)), lambda: ENV.engine.choose(len(seq)))
        return seq[i]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        return [self.choice(population) for _ in range(k)]

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return self.choice(r)

    def randint(self, a, b):
        return self.choice(range(a, b + 1))

    def random(self):
        def make():
            v = ENV.fresh_real("rnd")
            ENV.engine.assume(v >= 0)
            ENV.engine.assume(v < 1)
            return v
        return self._draw("random", make)

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def getrandbits(self, k):
        raise Unsupported("getrandbits")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("random.%s" % name)


class SymNpRandom(SymRandom):
    def __init__(self, seed=None):
        self.family = "np"
        self.seed(seed)

    def permutation(self, x):
        n = x if isinstance(x, (int, np.integer)) else len(x)
        p = self._perm(int(n), int(n))
        if isinstance(x, (int, np.integer)):
            return np.array(p, dtype=int)
        return np.array([x[j] for j in p])

    def choice(self, a, size=None, replace=True, p=None):
        pop = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
        if not pop:
            raise ValueError("a must be greater than 0 unless no samples are taken")
        k = 1 if size is None else (int(size) if isinstance(size, (int, np.integer)) else int(np.prod(size)))
        if not replace:
            if k > len(pop):
                raise ValueError("Cannot take a larger sample than population when replace is False")
            out = [pop[j] for j in self._perm(len(pop), k)]
        else:
            allowed = list(range(len(pop)))
            if p is not None:
                allowed = [i for i in allowed if bool(p[i] > 0)]
            out = []
            for _ in range(k):
                i = self._draw(("choice", len(allowed)), lambda: ENV.engine.choose(len(allowed)))
                out.append(pop[allowed[i]])
        if size is None:
            return out[0]
        return np.array(out)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is None:
            return SymRandom.choice(self, range(low, high))
        return np.array([SymRandom.choice(self, range(low, high)) for _ in range(int(np.prod(size)))])

    def rand(self, *shape):
        raise Unsupported("np.random.rand")

    def randn(self, *shape):
        """Noise: zero, or (env.noise) an arbitrary number of small magnitude per entry."""
        out = np.zeros(shape, dtype=object)
        if ENV.noise:
            def make():
                vals = []
                for _ in range(out.size):
                    v = ENV.fresh_real("noise")
                    ENV.engine.assume(v <= 1)
                    ENV.engine.assume(v >= -1)
                    vals.append(v / 2 ** 40)
                return vals
            out.flat[:] = self._draw(("randn", shape), make)
        return out

    standard_normal = randn
    normal = None

    integers = randint


class _Global:
    """Module-level random functions: one state per path, starting from an arbitrary state."""

    @staticmethod
    def py():
        if ENV.global_rng is None:
            ENV.global_rng = SymRandom(None)
        return ENV.global_rng

    @staticmethod
    def np():
        if ENV.global_nprng is None:
            ENV.global_nprng = SymNpRandom(None)
        return ENV.global_nprng


def _dispatch(real, getter, name):
    def f(*a, **k):
        if ENV is None or not ENV.model_rng:
            return real(*a, **k)
        return getattr(getter(), name)(*a, **k)
    f.__name__ = name
    return f


# -- graph colouring -----------------------------------------------------------------------------------------
_REAL_GREEDY = nx.coloring.greedy_color
_GREEDY_MEMO = {}


def _greedy_outcomes(G):
    """One greedy colouring per distinct number of colours reachable by some node order (exact for <=6 touched
    nodes: isolated nodes always take colour 0)."""
    touched = [v for v in G.nodes if G.degree(v) > 0]
    key = (tuple(map(repr, G.nodes)), tuple(sorted(map(repr, G.edges))))
    if key in _GREEDY_MEMO:
        return _GREEDY_MEMO[key]
    by_k = {}
    isolated = [v for v in G.nodes if G.degree(v) == 0]
    if len(touched) > 6:
        orders = [touched, touched[::-1], sorted(touched, key=lambda v: -G.degree(v))]
    else:
        orders = itertools.permutations(touched)
    for order in orders:
        col = {}
        for v in order:
            used = {col[u] for u in G.neighbors(v) if u in col}
            c = 0
            while c in used:
                c += 1
            col[v] = c
        for v in isolated:
            col[v] = 0
        by_k.setdefault(max(col.values(), default=-1), col)
    out = [by_k[k] for k in sorted(by_k)]
    _GREEDY_MEMO[key] = out
    return out


def _greedy_color(G, strategy="largest_first", interchange=False):
    if ENV is None or strategy != "random_sequential" and strategy is not getattr(
            nx.coloring, "strategy_random_sequential", None):
        return _REAL_GREEDY(G, strategy=strategy, interchange=interchange)
    if len(G) == 0:
        return {}
    outs = _greedy_outcomes(G)
    ENV.rng_used = True
    return dict(outs[ENV.engine.choose(len(outs))])


# -- json ----------------------------------------------------------------------------------------------------
def _remap(x):
    if isinstance(x, str):
        return ENV.id_by_content.get(x, x)
    if isinstance(x, list):
        return [_remap(v) for v in x]
    if isinstance(x, dict):
        return {_remap(k): _remap(v) for k, v in x.items()}
    return x


def _mk_json(real):
    def load(*a, **k):
        r = real(*a, **k)
        return _remap(r) if ENV is not None and ENV.id_by_content else r
    return load


# -- float / int shims ---------------------------------------------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SymReal))

    def __call__(cls, x=0.0):
        if isinstance(x, (SymReal, SymInt)):
            return SymReal(x.coefs, x.const)
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.item())
        return float(x)

    def __eq__(cls, other):
        return other is float or other is cls

    def __hash__(cls):
        return hash(float)


class SymFloat(metaclass=_FloatMeta):
    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, SymInt))

    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], SymInt):
            return a[0]
        return int(*a, **k)

    def __eq__(cls, other):
        return other is int or other is cls

    def __hash__(cls):
        return hash(int)


class SymIntType(metaclass=_IntMeta):
    pass


def _sparse_type(real):
    """A sparse matrix type that also takes symbolic vectors (kept as they are, copied)."""
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (real, SymVec, SymMat))

        def __subclasscheck__(cls, c):
            return issubclass(c, (real, SymVec, SymMat))

        def __call__(cls, x, *a, **k):
            if isinstance(x, (SymVec, SymMat)):
                return x.copy()
            return real(x, *a, **k)

        def __eq__(cls, other):
            return other is real or other is cls

        def __hash__(cls):
            return hash(real)

    return Meta("Sym" + real.__name__, (), {})


_SPARSE = {}


def _sparse(v):
    import scipy.sparse
    if not _SPARSE:
        for n in ("csr_matrix", "csr_array", "csc_matrix", "coo_matrix"):
            t = getattr(scipy.sparse, n, None)
            if t is not None:
                _SPARSE[t] = _sparse_type(t)
    return _SPARSE.get(v) if isinstance(v, type) and type(v).__module__ != __name__ else None


def inject(module):
    for k, v in list(module.__dict__.items()):
        if isinstance(v, type) and v.__module__.startswith("scipy.sparse"):
            t = _sparse(v)
            if t is not None:
                module.__dict__[k] = t
    module.__dict__.setdefault("float", SymFloat)
    module.__dict__.setdefault("int", SymIntType)
    for k, v in list(module.__dict__.items()):
        if v is np:
            module.__dict__[k] = NUMPY


# -- misc math -----------------------------------------------------------------------------------------------
def _wrap1(real, symf):
    def f(x, *a, **k):
        if isinstance(x, SymNum):
            return symf(x)
        return real(x, *a, **k)
    return f


_REAL_NORM = np.linalg.norm


def _norm(x, *a, **k):
    if isinstance(x, SymVec):
        return x.norm()
    if isinstance(x, np.ndarray) and x.dtype == object and not a and not k:
        s = SymReal((), 0)
        for v in x.flat:
            s = s + v * v
        return sym.sym_sqrt(s)
    return _REAL_NORM(x, *a, **k)


# -- spectral clustering stub --------------------------------------------------------------------------------
_REAL_SPECTRAL = sklearn.cluster.SpectralClustering


class SymSpectral:
    """Contract: fit_predict returns an arbitrary labelling of the rows with values 0..n_clusters-1; equal
    arguments and equal affinity give equal labels (for a fixed random_state)."""

    def __new__(cls, *a, **k):
        if ENV is None or not ENV.model_spectral:
            return _REAL_SPECTRAL(*a, **k)
        return object.__new__(cls)

    def __init__(self, n_clusters=8, **kw):
        self.n_clusters = n_clusters
        self.kw = kw
        ENV.spectral_calls.append(self)

    def fit_predict(self, X, y=None):
        self.X = np.array(X, dtype=object, copy=True)
        n = self.X.shape[0]
        self.labels_ = ENV.spectral_labels(self, n)
        return self.labels_

    def fit(self, X, y=None):
        self.fit_predict(X)
        return self


# -- numpy with object arrays -----------------------------------------------------------------------------------
class SymMetric(SymReal):
    """A distance known only to be positive; its square is another arbitrary positive number."""
    __slots__ = ("sq",)

    def __pow__(self, k):
        return self.sq if k == 2 else SymReal.__pow__(self, k)

    def __mul__(self, other):
        return self.sq if other is self else SymReal.__mul__(self, other)


def _mk_mahalanobis(real):
    def mahalanobis(u, v, VI):
        if ENV is not None and ENV.model_metric:
            a, b = (tuple(float(c) for c in x) for x in (u, v))
            if a == b:
                return 0.0
            key = "metric.%s.%s.%s" % (min(a, b), max(a, b), np.asarray(VI).tolist())
            r = SymMetric.var(key)
            r.sq = SymReal.var(key + ".sq")
            ENV.engine.assume(r > 0)
            ENV.engine.assume(r.sq > 0)
            return r
        u, v = np.asarray(u), np.asarray(v)
        if u.dtype == object or v.dtype == object or np.asarray(VI).dtype == object:
            d = u - v
            VI = np.asarray(VI)
            t = SymReal((), 0)
            for i in range(len(d)):
                for j in range(len(d)):
                    if not (isinstance(VI[i, j], (int, float)) and VI[i, j] == 0):
                        t = t + d[i] * d[j] * VI[i, j]
            return sym.sym_sqrt(t)
        return real(u, v, VI)
    return mahalanobis


class _NoFinfo:
    eps, tiny = 0.0, 1.0


def _is_obj(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def sym_median(x):
    vals = sorted(np.asarray(x, dtype=object).flat)
    n = len(vals)
    return vals[n // 2] if n % 2 else (vals[n // 2 - 1] + vals[n // 2]) / 2


class NumpyProxy:
    """The numpy module, with arrays of symbolic numbers where the path holds symbolic vectors."""

    def __getattr__(self, name):
        return getattr(np, name)

    def _alloc(self, f, shape, dtype=None, **k):
        if ENV is not None and ENV.object_arrays and dtype in (None, float, SymFloat):
            return f(shape, dtype=object, **k)
        return f(shape, **({} if dtype is None else {"dtype": dtype}), **k)

    def zeros(self, shape, dtype=None, **k):
        return self._alloc(np.zeros, shape, dtype, **k)

    def ones(self, shape, dtype=None, **k):
        return self._alloc(np.ones, shape, dtype, **k)

    def empty(self, shape, dtype=None, **k):
        return self._alloc(np.empty, shape, dtype, **k)

    def zeros_like(self, x, *a, **k):
        return np.zeros_like(x, *a, **k)

    def finfo(self, t):
        return _NoFinfo if ENV is not None and t == object else np.finfo(t)

    def median(self, x, *a, **k):
        return sym_median(x) if _is_obj(x) else np.median(x, *a, **k)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype != object and b.dtype != object:
            return np.allclose(a, b, rtol=rtol, atol=atol, **k)
        return all(bool(abs(x - y) <= atol + rtol * abs(y)) for x, y in np.broadcast(a, b))

    def array(self, x, *a, **k):
        return np.array(x, *a, **k)


NUMPY = NumpyProxy()


def _mk_slogdet(real):
    def slogdet(A):
        if _is_obj(A):
            key = tuple((v.coefs, v.const) if isinstance(v, SymNum) else v for v in A.flat)
            return 1.0, SymReal.var("logdet.%r" % (key,))
        return real(A)
    return slogdet


def _mk_crs(real):
    def check_random_state(seed=None):
        if ENV is not None and ENV.object_arrays:
            return SymNpRandom(seed)
        return real(seed)
    return check_random_state


_INSTALLED = False


def install():
    global _INSTALLED
    if _INSTALLED:
        return
    _INSTALLED = True
    pd = _mk_pairwise(sklearn.metrics.pairwise_distances)
    sklearn.metrics.pairwise_distances = pd
    sklearn.metrics.pairwise.pairwise_distances = pd
    ed = _mk_pairwise(sklearn.metrics.pairwise.euclidean_distances, squared_kw=True)
    sklearn.metrics.pairwise.euclidean_distances = ed
    sklearn.metrics.euclidean_distances = ed
    pk = _mk_kernels(sklearn.metrics.pairwise.pairwise_kernels)
    sklearn.metrics.pairwise_kernels = pk
    sklearn.metrics.pairwise.pairwise_kernels = pk
    scipy.sparse.vstack = _mk_vstack(scipy.sparse.vstack)
    for name in ("seed", "shuffle", "sample", "choice", "choices", "randrange", "randint", "random", "uniform"):
        setattr(random, name, _dispatch(getattr(random, name), _Global.py, name))
    real_Random = random.Random

    class RandomFactory(real_Random):
        def __new__(cls, *a, **k):
            if ENV is not None and ENV.model_rng and cls is RandomFactory:
                return SymRandom(*a, **k)
            return real_Random(*a, **k)
    random.Random = RandomFactory
    for name in ("seed", "shuffle", "choice", "permutation", "randint", "random"):
        setattr(np.random, name, _dispatch(getattr(np.random, name), _Global.np, name))
    for cname in ("RandomState", "default_rng"):
        real_c = getattr(np.random, cname)

        def mk(real_c):
            def f(*a, **k):
                if ENV is not None and ENV.model_rng:
                    return SymNpRandom(*a, **k)
                return real_c(*a, **k)
            return f
        if cname == "default_rng":
            np.random.default_rng = mk(real_c)
        # RandomState stays the real class: sklearn uses isinstance checks on it
    nx.coloring.greedy_color = _greedy_color
    nx.greedy_color = _greedy_color
    nx.algorithms.coloring.greedy_color = _greedy_color
    json.load = _mk_json(json.load)
    json.loads = _mk_json(json.loads)
    sklearn.cluster.SpectralClustering = SymSpectral
    math.sqrt = _wrap1(math.sqrt, sym.sym_sqrt)
    math.isinf = _wrap1(math.isinf, lambda x: False)
    math.isnan = _wrap1(math.isnan, lambda x: False)
    math.isfinite = _wrap1(math.isfinite, lambda x: True)
    math.fabs = _wrap1(math.fabs, abs)
    np.sqrt = _UfuncWrap(np.sqrt, sym.sym_sqrt)
    np.isinf = _UfuncWrap(np.isinf, lambda x: False)
    np.isnan = _UfuncWrap(np.isnan, lambda x: False)
    np.isfinite = _UfuncWrap(np.isfinite, lambda x: True)
    np.linalg.norm = _norm
    np.linalg.slogdet = _mk_slogdet(np.linalg.slogdet)
    scipy.spatial.distance.mahalanobis = _mk_mahalanobis(scipy.spatial.distance.mahalanobis)
    sklearn.utils.check_random_state = _mk_crs(sklearn.utils.check_random_state)
    rbf = sklearn.metrics.pairwise.rbf_kernel

    def rbf_kernel(X, Y=None, gamma=None):
        if _rows(X) is None:
            return rbf(X, Y, gamma)
        if gamma is not None:
            raise Unsupported("rbf gamma")
        return pk(X, Y, metric="rbf")
    sklearn.metrics.pairwise.rbf_kernel = rbf_kernel


class _UfuncWrap:
    def __init__(self, real, f):
        self.real, self.f = real, f

    def __call__(self, x, *a, **k):
        if isinstance(x, SymNum):
            return self.f(x)
        return self.real(x, *a, **k)

    def __getattr__(self, name):
        return getattr(self.real, name)
