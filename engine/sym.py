"""Symbolic values and the forking path engine.

The real code of /repo is executed by CPython on the proxies below.  Every branch that depends on a proxy
calls `Engine.decide`, which asks z3 whether both sides are feasible under the path condition and explores
each feasible side (re-execution with a recorded decision trail).  All arithmetic is exact (integers and
rationals); z3 sees the path condition as linear/nonlinear real and integer arithmetic.
"""
import math
import random as _random
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

NEG, ZERO, POS = 1, 2, 4
ALL = 7


class EngineControl(BaseException):
    """Base of the exceptions that steer exploration; never caught by harnesses or by the code under test."""


class PathInfeasible(EngineControl):
    pass


class PathViolation(EngineControl):
    def __init__(self, message):
        super().__init__(message)
        self.message = message


class Unsupported(EngineControl):
    """The code under test left the fragment the proxies can follow."""


class PathTimeout(EngineControl):
    pass


class SolverUnknown(EngineControl):
    pass


def _num(x):
    """Normalise an exact number: ints stay ints, integral Fractions become ints."""
    if type(x) is int:
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        f = Fraction(x)
        return f.numerator if f.denominator == 1 else f
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return _num(x.item())
    except ImportError:
        pass
    raise Unsupported("number of type %s" % type(x))


class Atom:
    __slots__ = ("idx", "expr", "name", "is_int", "opaque")

    def __init__(self, idx, expr, name, is_int, opaque=None):
        self.idx, self.expr, self.name, self.is_int, self.opaque = idx, expr, name, is_int, opaque


class Engine:
    """One per worker process; `run_path` executes a harness once under a decision prefix."""

    def __init__(self, query_timeout_ms=20000):
        self.atoms = []
        self.by_key = {}
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", query_timeout_ms)
        self.stack = []  # z3-level trail: list of entries, each with one push
        self.active = False
        self.queries = 0
        self.solver_time = 0.0
        self.unknowns = 0
        self.reset(())

    # -- atoms -------------------------------------------------------------------------------------------
    def atom(self, name, is_int):
        key = ("v", name)
        a = self.by_key.get(key)
        if a is None:
            expr = z3.Int(name) if is_int else z3.Real(name)
            a = Atom(len(self.atoms), expr, name, is_int)
            self.atoms.append(a)
            self.by_key[key] = a
        return a

    def opaque(self, key, build, is_int=False, opaque=None):
        a = self.by_key.get(key)
        if a is None:
            a = Atom(len(self.atoms), build(), None, is_int, opaque)
            self.atoms.append(a)
            self.by_key[key] = a
        return a

    def z3_of(self, coefs, const):
        terms = []
        for idx, c in coefs:
            e = self.atoms[idx].expr
            if c == 1:
                terms.append(e)
            elif isinstance(c, int):
                terms.append(c * e)
            else:
                terms.append(z3.RealVal(str(c)) * e)
        if const != 0 or not terms:
            terms.append(z3.RealVal(str(const)) if isinstance(const, Fraction) else z3.IntVal(const))
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    # -- one path ----------------------------------------------------------------------------------------
    def reset(self, prefix, model=None):
        self.prefix = prefix
        self.trail = []          # decision outcomes of this path
        self.pos = 0             # number of stack entries (decisions+assertions) passed so far in this path
        self.known = {}          # canonical linear form -> possible signs
        self.known_bool = {}     # z3 ast id -> bool
        self.keep = []           # keep z3 refs alive for known_bool ids
        # model: values of atoms valid for the path condition of the whole prefix (or None)
        self.model = {} if model is not None else None
        self.model_z3 = model
        self.violation_cond = None
        self.pending = []        # alternatives discovered: (prefix, model)
        self.diverged_from_stack = False

    def _common(self, entry):
        """Position the z3 stack for trail entry number self.pos (entry is a hashable description)."""
        i = self.pos
        self.pos += 1
        if not self.diverged_from_stack:
            if i < len(self.stack) and self.stack[i] == entry:
                return False  # already asserted
            self.diverged_from_stack = True
            if len(self.stack) > i:
                self.solver.pop(len(self.stack) - i)
                del self.stack[i:]
        self.stack.append(entry)
        self.solver.push()
        return True

    def _assert(self, entry, make):
        if self._common(entry):
            self.solver.add(make())

    def sync(self):
        """Make the z3 stack equal to this path's trail (needed before any query)."""
        if not self.diverged_from_stack:
            if len(self.stack) > self.pos:
                self.solver.pop(len(self.stack) - self.pos)
                del self.stack[self.pos:]
            self.diverged_from_stack = True

    def check_sat(self, *assumptions):
        self.sync()
        t = time.perf_counter()
        self.queries += 1
        r = self.solver.check(*assumptions)
        self.solver_time += time.perf_counter() - t
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def _model_value(self, m, a):
        v = m.eval(a.expr, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return _num(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            raise Unsupported("algebraic model value")
        raise Unsupported("model value %s" % v)

    def grab_model(self):
        self.model_z3 = self.solver.model()
        self.model = {}
        return self.model

    def mval(self, idx):
        v = self.model.get(idx)
        if v is None:
            a = self.atoms[idx]
            if a.opaque is not None:
                v = a.opaque(self)
            if v is None:
                if self.model_z3 is None:
                    return None
                v = self._model_value(self.model_z3, a)
            self.model[idx] = v
        return v

    def eval_form(self, key):
        """Value of a canonical form under the current model, or None."""
        if self.model is None:
            return None
        coefs, const = key
        s = const
        for idx, c in coefs:
            v = self.mval(idx)
            if v is None:
                return None
            s += c * v
        return s

    # -- decisions ---------------------------------------------------------------------------------------
    def decide(self, b):
        """b: SymBool.  Returns a Python bool, forking when both are feasible."""
        if b.key is not None:
            key, mask = b.key, b.mask
            possible = self.known.get(key, ALL)
            if possible & mask == possible:
                return True
            if possible & mask == 0:
                return False
        else:
            key, mask, possible = None, None, None
            kb = self.known_bool.get(b.z3().get_id())
            if kb is not None:
                return kb
        n = len(self.trail)
        if n < len(self.prefix):
            out = self.prefix[n]
            self.trail.append(out)
            self._take(b, bool(out & 1), out)
            return bool(out & 1)
        # new decision
        side = None
        if self.model is not None:
            if key is not None:
                v = self.eval_form(key)
                if v is not None:
                    sign = NEG if v < 0 else (ZERO if v == 0 else POS)
                    side = bool(sign & mask)
            elif self.model_z3 is not None:
                v = self.model_z3.eval(b.z3(), model_completion=True)
                if z3.is_true(v):
                    side = True
                elif z3.is_false(v):
                    side = False
        if side is None:
            r = self.check_sat()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.unknown:
                raise SolverUnknown()
            self.grab_model()
            return self.decide(b)
        other = not side
        e = b.z3()
        r = self.check_sat(e if other else z3.Not(e))
        if r == z3.unknown:
            raise SolverUnknown()
        if r == z3.sat:
            self.pending.append((tuple(self.trail) + (int(other),), self.solver.model()))
            out = int(side)
        else:
            out = int(side) | 2  # forced
        self.trail.append(out)
        self._take(b, side, out)
        return side

    def _take(self, b, side, out):
        if b.key is not None:
            p = self.known.get(b.key, ALL)
            self.known[b.key] = p & (b.mask if side else ~b.mask)
        else:
            e = b.z3()
            self.keep.append(e)
            self.known_bool[e.get_id()] = side
        if not out & 2:
            self._assert(("d", len(self.trail), out & 1), lambda: b.z3() if side else z3.Not(b.z3()))

    def assume(self, b):
        """Assert a SymBool/bool as an assumption of the path."""
        if isinstance(b, SymBool):
            if b.key is not None:
                p = self.known.get(b.key, ALL) & b.mask
                if p == 0:
                    raise PathInfeasible()
                self.known[b.key] = p
            self._assert(("a", self.pos), b.z3)
            if self.model is not None:
                if b.key is not None:
                    v = self.eval_form(b.key)
                    ok = v is not None and bool((NEG if v < 0 else ZERO if v == 0 else POS) & b.mask)
                elif self.model_z3 is not None:
                    ok = z3.is_true(self.model_z3.eval(b.z3(), model_completion=True))
                else:
                    ok = False
                if not ok:
                    self.model = None
                    self.model_z3 = None
            return
        if not b:
            raise PathInfeasible()

    def ensure_feasible(self):
        if self.model is None and len(self.trail) >= len(self.prefix):
            r = self.check_sat()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.unknown:
                raise SolverUnknown()
            self.grab_model()

    def check(self, b, message):
        """Decide an assertion: for a symbolic condition ask z3 for a model of its negation."""
        if isinstance(b, SymBool):
            if b.key is not None:
                possible = self.known.get(b.key, ALL)
                if possible & b.mask == possible:
                    return
            if len(self.trail) < len(self.prefix):
                # an earlier path with the same trail prefix already decided this assertion
                if b.key is not None:
                    self.known[b.key] = self.known.get(b.key, ALL) & b.mask
                return
            r = self.check_sat(z3.Not(b.z3()))
            if r == z3.unknown:
                raise SolverUnknown()
            if r == z3.sat:
                self.grab_model()
                self.violation_cond = ~b
                raise PathViolation(message)
            if b.key is not None:
                self.known[b.key] = self.known.get(b.key, ALL) & b.mask
            return
        if not b:
            raise PathViolation(message)

    def choose(self, k):
        """k-way fork (a finite symbolic choice with no further constraint)."""
        if k <= 0:
            raise PathInfeasible()
        if k == 1:
            return 0
        n = len(self.trail)
        if n < len(self.prefix):
            out = self.prefix[n]
            self.trail.append(out)
            self._common(("c", out))
            return out
        base = tuple(self.trail)
        for alt in range(k - 1, 0, -1):
            self.pending.append((base + (alt,), self.model_z3))
        self.trail.append(0)
        self._common(("c", 0))
        return 0

    def int_value(self, si, limit=4096):
        """Concretise a SymInt by forking over every feasible value."""
        if not si.coefs:
            return si.const
        seen = 0
        while True:
            n = len(self.trail)
            # pick candidate value deterministically: replay needs the same candidates, so use the smallest
            lo = self._min_value(si)
            if bool(SymBool.cmp(si - lo, ZERO)):
                return lo
            seen += 1
            if seen > limit:
                raise Unsupported("unbounded integer concretisation")

    def _min_value(self, si):
        """Smallest feasible value of an integer form under the path condition, recorded in the trail."""
        n = len(self.trail)
        if n < len(self.prefix):
            out = self.prefix[n]
            self.trail.append(out)
            self._common(out)
            return out[1]
        r = self.check_sat()
        if r != z3.sat:
            raise PathInfeasible() if r == z3.unsat else SolverUnknown()
        m = self.grab_model()
        v = self.eval_form((si.coefs, si.const))
        e = self.z3_of(si.coefs, si.const)
        steps = 0
        while True:
            r = self.check_sat(e < v)
            if r == z3.unknown:
                raise SolverUnknown()
            if r == z3.unsat:
                break
            self.grab_model()
            v = self.eval_form((si.coefs, si.const))
            steps += 1
            if steps > 64:
                raise Unsupported("integer with no lower bound")
        self.model = None
        self.model_z3 = None
        out = ("m", v)
        self.trail.append(out)
        self._common(out)
        return v


ENGINE = None


def set_engine(e):
    global ENGINE
    ENGINE = e


def sym_active():
    return ENGINE is not None


# ---------------------------------------------------------------------------------------------------------
class SymBool:
    __slots__ = ("key", "mask", "_z3")

    def __init__(self, key=None, mask=None, expr=None):
        self.key, self.mask, self._z3 = key, mask, expr

    @staticmethod
    def cmp(form, mask):
        """Truth of sign(form) in mask; returns a Python bool for constant forms."""
        coefs, const = form.coefs, form.const
        if not coefs:
            s = NEG if const < 0 else (ZERO if const == 0 else POS)
            return bool(s & mask)
        lead = coefs[0][1]
        if lead != 1:
            if lead < 0:
                mask = (mask & ZERO) | (POS if mask & NEG else 0) | (NEG if mask & POS else 0)
            coefs = tuple((i, _num(Fraction(c) / lead)) for i, c in coefs)
            const = _num(Fraction(const) / lead)
        return SymBool((coefs, const), mask)

    def z3(self):
        if self._z3 is None:
            e = ENGINE.z3_of(*self.key)
            m = self.mask
            if m == 0:
                self._z3 = z3.BoolVal(False)
            elif m == ALL:
                self._z3 = z3.BoolVal(True)
            else:
                self._z3 = {NEG: lambda: e < 0, ZERO: lambda: e == 0, POS: lambda: e > 0,
                            NEG | ZERO: lambda: e <= 0, POS | ZERO: lambda: e >= 0,
                            NEG | POS: lambda: e != 0}[m]()
        return self._z3

    def __bool__(self):
        return ENGINE.decide(self)

    def __invert__(self):
        if self.key is not None:
            return SymBool(self.key, ALL & ~self.mask)
        return SymBool(expr=z3.Not(self.z3()))

    def _bin(self, other, op):
        if isinstance(other, (bool, int)) or other.__class__.__name__ == "bool_":
            other = bool(other)
            if op is z3.And:
                return self if other else False
            return True if other else self
        if isinstance(other, SymBool):
            return SymBool(expr=op(self.z3(), other.z3()))
        return NotImplemented

    def __and__(self, other):
        return self._bin(other, z3.And)

    __rand__ = __and__

    def __or__(self, other):
        return self._bin(other, z3.Or)

    __ror__ = __or__

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return SymBool(expr=self.z3() == other.z3())
        if isinstance(other, bool):
            return self if other else ~self
        return bool(self) == other

    def __ne__(self, other):
        r = self.__eq__(other)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    # as a number: decided first
    def __add__(self, other):
        return int(bool(self)) + other

    __radd__ = __add__

    def __sub__(self, other):
        return int(bool(self)) - other

    def __rsub__(self, other):
        return other - int(bool(self))

    def __mul__(self, other):
        return int(bool(self)) * other

    __rmul__ = __mul__

    def __neg__(self):
        return -int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __lt__(self, other):
        return int(bool(self)) < other

    def __le__(self, other):
        return int(bool(self)) <= other

    def __gt__(self, other):
        return int(bool(self)) > other

    def __ge__(self, other):
        return int(bool(self)) >= other

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def b_z3(b):
    return b.z3() if isinstance(b, SymBool) else z3.BoolVal(bool(b))


def all_of(bs):
    bs = list(bs)
    if any(b is False for b in bs):
        return False
    bs = [b for b in bs if b is not True]
    if not bs:
        return True
    if any(not isinstance(b, SymBool) for b in bs):
        bs2 = []
        for b in bs:
            if isinstance(b, SymBool):
                bs2.append(b)
            elif not b:
                return False
        bs = bs2
        if not bs:
            return True
    if len(bs) == 1:
        return bs[0]
    return SymBool(expr=z3.And([b.z3() for b in bs]))


def any_of(bs):
    return neg(all_of([neg(b) for b in bs]))


def neg(b):
    return ~b if isinstance(b, SymBool) else not b


def implies(a, b):
    return any_of([neg(a), b])


def iff(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return SymBool(expr=b_z3(a) == b_z3(b))
    return bool(a) == bool(b)


# ---------------------------------------------------------------------------------------------------------
_INF = float("inf")


def _isinf(x):
    return isinstance(x, float) and (x == _INF or x == -_INF)


class SymNum:
    """Linear form over atoms with exact coefficients.  Subclasses: SymReal, SymInt."""
    __slots__ = ("coefs", "const")

    def __init__(self, coefs, const):
        self.coefs, self.const = coefs, const  # coefs: tuple of (atom idx, coefficient), sorted by idx

    @classmethod
    def var(cls, name):
        a = ENGINE.atom(name, cls is SymInt)
        return cls(((a.idx, 1),), 0)

    def _mk(self, coefs, const, other=None):
        cls = SymReal
        if type(self) is SymInt and (other is None or isinstance(other, (SymInt, int))):
            if isinstance(const, int) and all(isinstance(c, int) for _, c in coefs):
                cls = SymInt
        return cls(coefs, const)

    @staticmethod
    def _lift(x):
        if isinstance(x, SymNum):
            return x
        if isinstance(x, SymBool):
            return SymInt((), int(bool(x)))
        if isinstance(x, bool):
            return SymInt((), int(x))
        if isinstance(x, int):
            return SymInt((), int(x))
        if isinstance(x, (float, Fraction)):
            return SymReal((), _num(x))
        import numpy as np
        if isinstance(x, np.integer):
            return SymInt((), int(x))
        if isinstance(x, np.floating):
            return SymReal((), _num(float(x)))
        if isinstance(x, np.bool_):
            return SymInt((), int(x))
        return None

    def _scale(self, k, other=None):
        if k == 0:
            return self._mk((), 0, other)
        return self._mk(tuple((i, _num(c * k)) for i, c in self.coefs), _num(self.const * k), other)

    def _addsub(self, o, sgn):
        d = dict(self.coefs)
        for i, c in o.coefs:
            v = d.get(i, 0) + sgn * c
            if v == 0:
                d.pop(i, None)
            else:
                d[i] = _num(v)
        return self._mk(tuple(sorted(d.items())), _num(self.const + sgn * o.const), o)

    @staticmethod
    def _special(x):
        return isinstance(x, float) and (x != x or x in (_INF, -_INF))

    def __add__(self, other):
        if self._special(other):
            return other
        o = self._lift(other)
        return NotImplemented if o is None else self._addsub(o, 1)

    __radd__ = __add__

    def __sub__(self, other):
        if self._special(other):
            return -other
        o = self._lift(other)
        return NotImplemented if o is None else self._addsub(o, -1)

    def __rsub__(self, other):
        if self._special(other):
            return other
        o = self._lift(other)
        return NotImplemented if o is None else o._addsub(self, -1)

    def __neg__(self):
        return self._scale(-1)

    def __pos__(self):
        return self

    def __mul__(self, other):
        if self._special(other):
            if bool(self > 0):
                return other
            if bool(self < 0):
                return -other
            return float("nan")
        o = self._lift(other)
        if o is None:
            return NotImplemented
        if not o.coefs:
            return self._scale(o.const, o)
        if not self.coefs:
            return o._scale(self.const, self)
        key = ("mul",) + tuple(sorted([(self.coefs, self.const), (o.coefs, o.const)], key=repr))
        fa, fb = (self.coefs, self.const), (o.coefs, o.const)

        def ev(engine):
            x, y = engine.eval_form(fa), engine.eval_form(fb)
            return None if x is None or y is None else _num(x * y)

        a = ENGINE.opaque(key, lambda: ENGINE.z3_of(*fa) * ENGINE.z3_of(*fb), opaque=ev)
        if fa == fb:
            k = ((a.idx, 1),), 0
            ENGINE.known.setdefault(k, ZERO | POS)
        return SymReal(((a.idx, 1),), 0)

    __rmul__ = __mul__

    def __truediv__(self, other):
        if self._special(other):
            return 0.0
        o = self._lift(other)
        if o is None:
            return NotImplemented
        if not o.coefs:
            if o.const == 0:
                raise ZeroDivisionError("division by zero")
            r = self._scale(Fraction(1) / Fraction(o.const))
            return SymReal(r.coefs, r.const)
        if bool(o == 0):
            raise ZeroDivisionError("division by zero")
        fa, fb = (self.coefs, self.const), (o.coefs, o.const)

        def ev(engine):
            x, y = engine.eval_form(fa), engine.eval_form(fb)
            return None if x is None or y is None or y == 0 else _num(Fraction(x) / Fraction(y))

        a = ENGINE.opaque(("div", fa, fb), lambda: z3.ToReal(ENGINE.z3_of(*fa)) / ENGINE.z3_of(*fb)
                          if z3.is_int(ENGINE.z3_of(*fa)) else ENGINE.z3_of(*fa) / ENGINE.z3_of(*fb), opaque=ev)
        return SymReal(((a.idx, 1),), 0)

    def __rtruediv__(self, other):
        o = self._lift(other)
        return NotImplemented if o is None else o.__truediv__(self)

    def __pow__(self, k):
        if isinstance(k, float) and k == int(k):
            k = int(k)
        if k == 2:
            return self * self
        if k == 1:
            return self
        if k == 0:
            return SymInt((), 1)
        raise Unsupported("power %r" % (k,))

    def __abs__(self):
        if not self.coefs:
            return type(self)((), abs(self.const))
        f = self
        if f.coefs[0][1] < 0:
            f = -f
        key = (f.coefs, f.const)
        lead = f.coefs[0][1]
        if lead != 1:
            inner = abs(f._scale(Fraction(1) / Fraction(lead)))
            return inner._scale(lead)
        p = ENGINE.known.get(key, ALL)
        if p in (POS, ZERO, ZERO | POS):
            return f
        if p in (NEG, NEG | ZERO):
            return -f

        def ev(engine):
            x = engine.eval_form(key)
            return None if x is None else abs(x)

        e = None

        def build():
            e = ENGINE.z3_of(*key)
            return z3.If(e >= 0, e, -e)

        a = ENGINE.opaque(("abs", key), build, is_int=isinstance(self, SymInt), opaque=ev)
        k = (((a.idx, 1),), 0)
        if k not in ENGINE.known:
            ENGINE.known[k] = ZERO | POS
        return (SymInt if isinstance(self, SymInt) else SymReal)(((a.idx, 1),), 0)

    fabs = __abs__

    def sqrt(self):
        return sym_sqrt(self)

    def _cmp(self, other, mask):
        if isinstance(other, float):
            if other != other:
                return mask == (NEG | POS)
            if other == _INF:
                return bool(mask & NEG)
            if other == -_INF:
                return bool(mask & POS)
        o = self._lift(other)
        if o is None:
            return NotImplemented
        return SymBool.cmp(self._addsub(o, -1), mask)

    def __lt__(self, other):
        return self._cmp(other, NEG)

    def __le__(self, other):
        return self._cmp(other, NEG | ZERO)

    def __gt__(self, other):
        return self._cmp(other, POS)

    def __ge__(self, other):
        return self._cmp(other, POS | ZERO)

    def __eq__(self, other):
        r = self._cmp(other, ZERO)
        return False if r is NotImplemented else r

    def __ne__(self, other):
        r = self._cmp(other, NEG | POS)
        return True if r is NotImplemented else r

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def __repr__(self):
        return "Sym(%s)" % (" + ".join(["%s*%s" % (c, ENGINE.atoms[i].name or ENGINE.atoms[i].expr) for i, c in self.coefs] + [str(self.const)]))

    def __format__(self, spec):
        return repr(self)

    def __float__(self):
        if not self.coefs:
            return float(self.const)
        raise Unsupported("float() of a symbolic number")


class SymReal(SymNum):
    __slots__ = ()

    def __hash__(self):
        return 0

    def __index__(self):
        raise TypeError("real used as an index")

    def __int__(self):
        if not self.coefs:
            return int(self.const)
        return int(self.__trunc__())

    def _integer_part(self, kind):
        """A fresh integer tied to this number by the definition of floor / nearest (halves to even)."""
        x = self
        key = (x.coefs, x.const)
        a = ENGINE.opaque((kind, key), lambda: z3.Int("%s!%d" % (kind, len(ENGINE.atoms))), is_int=True)
        r = SymInt(((a.idx, 1),), 0)
        if kind == "floor":
            ENGINE.assume(r <= x)
            ENGINE.assume(x < r + 1)
        else:
            h = Fraction(1, 2)
            ENGINE.assume(r - h <= x)
            ENGINE.assume(x <= r + h)
            e, xe = a.expr, ENGINE.z3_of(*key)
            ENGINE.assume(SymBool(expr=z3.Implies(z3.Or(xe - e == z3.RealVal("1/2"), e - xe == z3.RealVal("1/2")), e % 2 == 0)))
        return r

    def __floor__(self):
        return math.floor(self.const) if not self.coefs else self._integer_part("floor")

    def __ceil__(self):
        return math.ceil(self.const) if not self.coefs else -((-self)._integer_part("floor"))

    def __trunc__(self):
        if not self.coefs:
            return int(self.const)
        return self.__floor__() if bool(self >= 0) else self.__ceil__()

    def __floordiv__(self, other):
        return SymReal._of(self / other).__floor__()

    def __mod__(self, other):
        return self - (self // other) * other

    @staticmethod
    def _of(x):
        x = SymNum._lift(x)
        return SymReal(x.coefs, x.const)

    def rint(self):
        return SymReal._of(self.__round__())

    def floor(self):
        return SymReal._of(self.__floor__())

    def ceil(self):
        return SymReal._of(self.__ceil__())

    def __round__(self, nd=None):
        if not self.coefs:
            return round(float(self.const), nd) if nd is not None else round(self.const)
        if nd is None:
            return self._integer_part("round")
        sc = Fraction(10) ** int(nd)
        return SymReal._of(SymReal._of(self * sc)._integer_part("round") * (1 / sc))


class SymInt(SymNum):
    __slots__ = ()

    def concrete(self):
        return ENGINE.int_value(self)

    def __hash__(self):
        return hash(self.concrete())

    def __index__(self):
        return self.concrete()

    def __int__(self):
        return self.concrete()

    def __floordiv__(self, other):
        return self.concrete() // (other.concrete() if isinstance(other, SymInt) else other)

    def __mod__(self, other):
        return self.concrete() % (other.concrete() if isinstance(other, SymInt) else other)

    def __str__(self):
        return "<symbolic int>"

    def __float__(self):
        return float(self.concrete())


class SymLabel(SymInt):
    """An arbitrary integer used as a label: as a dict key or set member it is compared with the other labels by the
    solver instead of being given a value.  Meant for keys that are all labels (a plain int key is not compared)."""
    __slots__ = ()

    def __hash__(self):
        return 0x1ABE1


def sym_sqrt(x):
    x = SymNum._lift(x)
    if not x.coefs:
        c = Fraction(x.const)
        r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator)) if c >= 0 else None
        if r is not None and r * r == c:
            return SymReal((), _num(r))
        return SymReal((), _num(math.sqrt(c)))
    key = (x.coefs, x.const)
    # square of a linear form: sqrt(f*f) = |f|
    if len(x.coefs) == 1 and x.const == 0 and x.coefs[0][1] == 1:
        a = ENGINE.atoms[x.coefs[0][0]]
        for k, v in ENGINE.by_key.items():
            if v is a and k[0] == "mul" and k[1] == k[2]:
                return abs(SymReal(*k[1]))
    s = ENGINE.opaque(("sqrt", key), lambda: z3.Real("sqrt!%d" % len(ENGINE.atoms)))
    r = SymReal(((s.idx, 1),), 0)
    ENGINE.assume(SymBool.cmp(r, ZERO | POS))
    ENGINE.assume(SymBool(expr=s.expr * s.expr == ENGINE.z3_of(*key)))
    return r


def ite(cond, a, b):
    """Value-level if-then-else without forking."""
    if not isinstance(cond, SymBool):
        return a if cond else b
    a, b = SymNum._lift(a), SymNum._lift(b)
    fa, fb = (a.coefs, a.const), (b.coefs, b.const)
    ck = cond.key, cond.mask
    if cond.key is None:
        e = cond.z3()
        ENGINE.keep.append(e)
        ck = ("z3", e.sexpr())

    def ev(engine):
        if cond.key is None:
            if engine.model_z3 is None:
                return None
            v = z3.is_true(engine.model_z3.eval(cond.z3(), model_completion=True))
        else:
            s = engine.eval_form(cond.key)
            if s is None:
                return None
            v = bool((NEG if s < 0 else ZERO if s == 0 else POS) & cond.mask)
        return engine.eval_form(fa) if v else engine.eval_form(fb)

    at = ENGINE.opaque(("ite", ck, fa, fb), lambda: z3.If(cond.z3(), ENGINE.z3_of(*fa), ENGINE.z3_of(*fb)), opaque=ev)
    return SymReal(((at.idx, 1),), 0)


def sym_max(a, b):
    return ite(a >= b, a, b)


def sym_min(a, b):
    return ite(a <= b, a, b)


# ---------------------------------------------------------------------------------------------------------
class SymID(str):
    """A data ID: concrete content (hash, equality, printing) with a symbolic position in the sort order."""

    def __new__(cls, content, rank=None):
        s = str.__new__(cls, content)
        s.rank = rank
        return s

    def __str__(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (str, (str.__str__(self),))

    def _c(self, other, mask, fallback):
        if isinstance(other, SymID) and self.rank is not None and other.rank is not None:
            if self is other or str.__eq__(self, other):
                return bool(mask & ZERO)
            return SymBool.cmp(self.rank - other.rank, mask)
        if isinstance(other, str):
            return fallback(self, other)
        return NotImplemented

    def __lt__(self, other):
        return self._c(other, NEG, str.__lt__)

    def __le__(self, other):
        return self._c(other, NEG | ZERO, str.__le__)

    def __gt__(self, other):
        return self._c(other, POS, str.__gt__)

    def __ge__(self, other):
        return self._c(other, POS | ZERO, str.__ge__)


def _no_text(name):
    def f(self, *a, **k):
        raise Unsupported("text operation %s on an ID whose place in the sort order is symbolic" % name)
    return f


for _n in ("lower", "upper", "casefold", "swapcase", "title", "capitalize", "strip", "lstrip", "rstrip", "zfill", "ljust", "rjust", "center", "split", "rsplit",
           "replace", "translate", "isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "startswith", "endswith", "find", "index", "partition", "__getitem__"):
    setattr(SymID, _n, _no_text(_n))
