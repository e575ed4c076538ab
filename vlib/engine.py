"""Symbolic execution engine: proxy values backed by z3 terms and a path explorer.

The real code of /repo is executed by the Python interpreter on these proxies.  Every
arithmetic operation builds a z3 term; every time the code asks for the truth of a
symbolic condition the explorer forks, asking z3 which sides are feasible; every
property assertion is a z3 query over all values satisfying the path condition.

Number model: mathematical reals extended by the concrete values +-inf and nan
(rounding is *not* modelled).
"""
from __future__ import annotations

import sys
import math
import os
import time
from fractions import Fraction

import numpy as np
import z3

from .poly import vanishes

INF = float("inf")


sys.set_int_max_str_digits(0)  # numbers of models may be huge

class Unsupported(Exception):
    """The encoding cannot represent an operation the code performed."""


class StopPath(BaseException):
    """The current path ends here (infeasible, assumption false or bound reached)."""


class AssumptionFailed(BaseException):
    """Concrete replay: the chosen values do not satisfy the harness assumptions."""


_CTX = None  # context of the running symbolic execution


def current():
    if _CTX is None:
        raise RuntimeError("symbolic value used outside of a symbolic run")
    return _CTX


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating)) or isinstance(
        x, (bool, np.bool_)
    )


def realval(x):
    """Exact z3 real for a concrete finite number."""
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    f = Fraction(float(x))
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def _unwrap(o):
    """0-d numpy arrays of one element to the element."""
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return o.item()
    return o


_PICKLED = {}


def _unpickled(k):
    return _PICKLED[k]


def _pickled(x):
    """Copies made with pickle stay the same symbolic value."""
    _PICKLED[id(x)] = x
    return _unpickled, (id(x),)


class SymBool:
    __slots__ = ("t",)
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return current().branch(self.t)

    @staticmethod
    def _term(o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        t = self._term(o)
        return NotImplemented if t is None else SymBool(z3.And(self.t, t))

    __rand__ = __and__

    def __or__(self, o):
        t = self._term(o)
        return NotImplemented if t is None else SymBool(z3.Or(self.t, t))

    __ror__ = __or__

    def __xor__(self, o):
        t = self._term(o)
        return NotImplemented if t is None else SymBool(z3.Xor(self.t, t))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def logical_not(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        t = self._term(o)
        return NotImplemented if t is None else SymBool(self.t == t)

    def __ne__(self, o):
        t = self._term(o)
        return NotImplemented if t is None else SymBool(self.t != t)

    def num(self):
        return SymReal(z3.If(self.t, z3.RealVal(1), z3.RealVal(0)))

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return _pickled(self)

    def __repr__(self):
        return "<symbool>"


def _ext(x):
    """True for inf / nan."""
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def _sign(x):
    """Sign of a symbolic real decided by forking: 1, -1 or 0."""
    if bool(x > 0):
        return 1
    if bool(x < 0):
        return -1
    return 0


class SymReal:
    __slots__ = ("t",)
    __array_priority__ = 0
    is_sym = True

    def __init__(self, t):
        self.t = t

    # -- helpers ------------------------------------------------------------
    @staticmethod
    def lift(o):
        o = _unwrap(o)
        if isinstance(o, SymReal):
            return o.t
        if isinstance(o, SymInt):
            return z3.ToReal(o.t)
        if isinstance(o, SymBool):
            return o.num().t
        if is_num(o):
            return realval(o)
        return None

    def _bin(self, o, f, ext):
        o = _unwrap(o)
        if isinstance(o, (np.ndarray, Dual)):
            return NotImplemented
        if _ext(o):
            return ext(float(o))
        t = self.lift(o)
        if t is None:
            return NotImplemented
        return SymReal(f(t))

    # -- arithmetic -----------------------------------------------------------
    def __add__(self, o):
        return self._bin(o, lambda t: self.t + t, lambda v: v)

    def __radd__(self, o):
        return self._bin(o, lambda t: t + self.t, lambda v: v)

    def __sub__(self, o):
        return self._bin(o, lambda t: self.t - t, lambda v: -v)

    def __rsub__(self, o):
        return self._bin(o, lambda t: t - self.t, lambda v: v)

    def _mul_ext(self, v):
        if math.isnan(v):
            return v
        s = _sign(self)
        return float("nan") if s == 0 else s * v

    def __mul__(self, o):
        o = _unwrap(o)
        if is_num(o) and not isinstance(o, bool):
            if o == 0:
                return SymReal(z3.RealVal(0))
            if o == 1:
                return self
        if isinstance(o, SymReal) and o.t.eq(self.t) and z3.is_app_of(o.t, z3.Z3_OP_ITE):
            c, a, b = o.t.children()
            if b.eq(-a) and c.eq(a >= 0):  # |a|*|a|
                return SymReal(a * a)
        return self._bin(o, lambda t: self.t * t, self._mul_ext)

    __rmul__ = __mul__

    def _div_term(self, num, den):
        """num / den with IEEE style division by zero."""
        if z3.is_rational_value(den):
            if den.numerator_as_long() == 0:
                return self._div_zero(num)
            return SymReal(num / den)
        if current().branch(den == 0, weak=True):
            return self._div_zero(num)
        return SymReal(current().divide(num, den))

    @staticmethod
    def _div_zero(num):
        s = _sign(SymReal(num))
        return float("nan") if s == 0 else s * INF

    def __truediv__(self, o):
        o = _unwrap(o)
        if isinstance(o, (np.ndarray, Dual)):
            return NotImplemented
        if _ext(o):
            return float("nan") if math.isnan(o) else SymReal(z3.RealVal(0))
        t = self.lift(o)
        if t is None:
            return NotImplemented
        return self._div_term(self.t, t)

    def __rtruediv__(self, o):
        o = _unwrap(o)
        if isinstance(o, (np.ndarray, Dual)):
            return NotImplemented
        if _ext(o):
            if math.isnan(o):
                return o
            s = _sign(self)
            return o if s >= 0 else -o
        t = self.lift(o)
        if t is None:
            return NotImplemented
        return self._div_term(t, self.t)

    def __neg__(self):
        return SymReal(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, o, mod=None):
        o = _unwrap(o)
        if isinstance(o, (np.ndarray, Dual)):
            return NotImplemented
        return current().power(self, o)

    def __rpow__(self, o):
        o = _unwrap(o)
        if isinstance(o, (np.ndarray, Dual)):
            return NotImplemented
        return current().power(o, self)

    # -- numpy ufunc hooks on object arrays -----------------------------------
    def sqrt(self):
        return current().power(self, Fraction(1, 2))

    def square(self):
        return self * self

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def exp(self):
        return current().unary("exp", self)

    def log(self):
        return current().unary("log", self)

    def sin(self):
        return current().unary("sin", self)

    def cos(self):
        return current().unary("cos", self)

    def sign(self):
        return SymReal(
            z3.If(
                self.t > 0,
                z3.RealVal(1),
                z3.If(self.t < 0, z3.RealVal(-1), z3.RealVal(0)),
            )
        )

    def item(self):
        return self

    def copy(self):
        return self

    # -- comparisons ----------------------------------------------------------
    def _cmp(self, o, f, ext):
        o = _unwrap(o)
        if isinstance(o, (np.ndarray, Dual)):
            return NotImplemented
        if _ext(o):
            return ext(float(o))
        t = self.lift(o)
        if t is None:
            return NotImplemented
        r = z3.simplify(f(t))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return SymBool(r)

    def __lt__(self, o):
        return self._cmp(o, lambda t: self.t < t, lambda v: 0.0 < v and v == INF)

    def __le__(self, o):
        return self._cmp(o, lambda t: self.t <= t, lambda v: v == INF)

    def __gt__(self, o):
        return self._cmp(o, lambda t: self.t > t, lambda v: v == -INF)

    def __ge__(self, o):
        return self._cmp(o, lambda t: self.t >= t, lambda v: v == -INF)

    def __eq__(self, o):
        return self._cmp(o, lambda t: self.t == t, lambda v: False)

    def __ne__(self, o):
        return self._cmp(o, lambda t: self.t != t, lambda v: True)

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        v = z3.simplify(self.t)
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        raise Unsupported("int() of a symbolic real")

    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic real")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return _pickled(self)


class SymInt:
    """Symbolic integer; indexing with it forks over its feasible values."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def lift(o):
        o = _unwrap(o)
        if isinstance(o, SymInt):
            return o.t
        if isinstance(o, (bool, np.bool_, int, np.integer)):
            return z3.IntVal(int(o))
        return None

    def _bin(self, o, f, g):
        t = self.lift(o)
        if t is not None:
            return SymInt(f(t))
        return g(SymReal(z3.ToReal(self.t)), o)

    def __add__(self, o):
        return self._bin(o, lambda t: self.t + t, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda t: self.t - t, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda t: t - self.t, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda t: self.t * t, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.t)

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.t)) / o

    def __rtruediv__(self, o):
        return o / SymReal(z3.ToReal(self.t))

    def __mod__(self, o):
        t = self.lift(o)
        if t is None:
            return NotImplemented
        if bool(SymBool(t > 0)):
            return SymInt(self.t % t)
        return int(self) % int(o)

    def __rmod__(self, o):
        return o % int(self)

    def __floordiv__(self, o):
        t = self.lift(o)
        if t is None:
            return NotImplemented
        if bool(SymBool(t > 0)):
            return SymInt(self.t / t)
        return int(self) // int(o)

    def _cmp(self, o, f):
        o = _unwrap(o)
        t = self.lift(o)
        if t is None:
            if isinstance(o, (float, np.floating, SymReal, Fraction)):
                return f(SymReal(z3.ToReal(self.t)), o)
            return NotImplemented
        r = z3.simplify(f(self.t, t))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return SymBool(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return current().concretize(self.t)

    def __int__(self):
        return current().concretize(self.t)

    def __float__(self):
        return float(current().concretize(self.t))

    def __format__(self, spec):
        return "<symint>"

    def __repr__(self):
        return "<symint>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return _pickled(self)


class Dual:
    """v + eps*d over symbolic (or concrete) components: exact directional derivative
    of the executed code."""

    __slots__ = ("v", "d")

    def __init__(self, v, d=0):
        self.v = v
        self.d = d

    @staticmethod
    def of(o):
        o = _unwrap(o)
        if isinstance(o, Dual):
            return o
        if isinstance(o, np.ndarray):
            return None
        return Dual(o, 0)

    def __add__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else Dual(self.v + o.v, self.d + o.d)

    __radd__ = __add__

    def __sub__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else Dual(self.v - o.v, self.d - o.d)

    def __rsub__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else Dual(o.v - self.v, o.d - self.d)

    def __mul__(self, o):
        o = Dual.of(o)
        return (
            NotImplemented
            if o is None
            else Dual(self.v * o.v, self.d * o.v + self.v * o.d)
        )

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.of(o)
        if o is None:
            return NotImplemented
        return Dual(self.v / o.v, (self.d * o.v - self.v * o.d) / (o.v * o.v))

    def __rtruediv__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else o / self

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, float) and n.is_integer():
            n = int(n)
        if not isinstance(n, int):
            raise Unsupported("dual power")
        if n == 0:
            return Dual(1, 0)
        r = self
        for _ in range(abs(n) - 1):
            r = r * self
        return r if n > 0 else 1 / r

    @staticmethod
    def _f(name, v):
        return getattr(v, name)() if hasattr(v, name) else getattr(math, name)(v)

    def exp(self):
        e = self._f("exp", self.v)
        return Dual(e, e * self.d)

    def sin(self):
        return Dual(self._f("sin", self.v), self._f("cos", self.v) * self.d)

    def cos(self):
        return Dual(self._f("cos", self.v), -(self._f("sin", self.v) * self.d))

    def sqrt(self):
        r = self._f("sqrt", self.v)
        return Dual(r, self.d / (2 * r))

    def _c(self, o):
        o = Dual.of(o)
        return None if o is None else o.v

    def __lt__(self, o):
        return self.v < self._c(o)

    def __le__(self, o):
        return self.v <= self._c(o)

    def __gt__(self, o):
        return self.v > self._c(o)

    def __ge__(self, o):
        return self.v >= self._c(o)

    def __eq__(self, o):
        return self.v == self._c(o)

    def __ne__(self, o):
        return self.v != self._c(o)

    def __hash__(self):
        return hash(self.v)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return _pickled(self)

    def __format__(self, spec):
        return "<dual>"

    def __repr__(self):
        return "<dual>"


def is_sym(x):
    return isinstance(x, (SymReal, SymInt, SymBool, Dual))


# ---------------------------------------------------------------------------
# contexts
# ---------------------------------------------------------------------------


class Candidate:
    """A possible violation found symbolically."""

    def __init__(self, label, kind, values, decisions, detail=""):
        self.label = label
        self.kind = kind
        self.values = values
        self.decisions = decisions
        self.detail = detail


class Stats:
    def __init__(self):
        self.paths = 0
        self.completed = 0
        self.infeasible = 0
        self.bounded = 0
        self.forks = 0
        self.queries = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.reach = {}
        self.labels = {}
        self.sample = None
        self.bound_labels = {}

    def as_dict(self):
        return dict(self.__dict__)


class SymCtx:
    """Context handed to a harness in symbolic mode."""

    symbolic = True

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending = []
        self.stats = stats
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("branch_timeout_ms", 3000))
        self.path = []
        self.vars = {}
        self.specs = {}
        self.checks = []
        self.funcs = {}
        self.apps = {}  # applications of the uninterpreted functions of a harness
        self.pow_cache = {}
        self.div_cache = {}
        self.inv_of = {}
        self.ideal = []  # reciprocals and square roots with their definition
        self.pow_atoms = {}
        self.pow_of = {}  # power atom -> (base, exponent), of non-negative bases
        self.known = {}  # id of a decided condition -> (condition, value)
        self.candidates = []
        self.merge = False
        j = os.environ.get("VERIF_JOURNAL")
        if j:
            with open(j, "w") as f:
                f.write("*=\n")

    # -- solver -----------------------------------------------------------------
    def _query(self, *extra, timeout=None):
        t0 = time.time()
        self.stats.queries += 1
        self.solver.set(
            "timeout", timeout or self.opts.get("branch_timeout_ms", 3000)
        )
        try:
            r = self.solver.check(*extra)
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def add(self, t):
        self.path.append(t)
        self.solver.add(t)

    # -- forking ----------------------------------------------------------------
    def branch(self, t, weak=False):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        # the same condition was decided earlier on this path
        key, flip = t, False
        if z3.is_not(key):
            key, flip = key.arg(0), True
        key = z3.simplify(key, som=True, som_blowup=10000, flat=True, arith_lhs=True)
        if z3.is_not(key):
            key, flip = key.arg(0), not flip
        if z3.is_true(key) or z3.is_false(key):
            return z3.is_true(key) != flip
        kid = key.get_id()
        if kid in self.known:
            return self.known[kid][1] != flip
        r = self._branch(t, weak)
        self.known[kid] = (key, r != flip)
        return r

    def _branch(self, t, weak):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            if d[0] == "b":
                self.add(t if d[1] else z3.Not(t))
                return d[1]
            if d[0] == "f":  # forced, other side infeasible
                self.add(t if d[1] else z3.Not(t))
                return d[1]
            raise Unsupported("non-deterministic replay of a path")
        rt = self._query(t)
        rf = self._query(z3.Not(t))
        if rt == z3.unsat and rf == z3.unsat:
            self.stats.infeasible += 1
            raise StopPath()
        self.pos += 1
        if rf == z3.unsat:
            self.decisions.append(("f", True))
            self.prefix = self.prefix + [("f", True)]
            self.add(t)
            return True
        if rt == z3.unsat:
            self.decisions.append(("f", False))
            self.prefix = self.prefix + [("f", False)]
            self.add(z3.Not(t))
            return False
        if weak and rt == z3.unknown:
            # a division by zero z3 cannot exclude: keep both sides
            pass
        self.stats.forks += 1
        if len(self.decisions) > self.opts.get("max_decisions", 400):
            self.bound("decision depth")
        self.pending.append(self.decisions + [("b", False)])
        self.decisions.append(("b", True))
        self.prefix = self.prefix + [("b", True)]
        self.add(t)
        return True

    def concretize(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            if d[0] != "i":
                raise Unsupported("non-deterministic replay of a path")
            self.add(t == d[1])
            self._journal(t, d[1])
            return d[1]
        # all feasible values
        vals = []
        self.solver.push()
        while True:
            r = self._query()
            if r != z3.sat:
                break
            v = self.solver.model().eval(t, model_completion=True).as_long()
            vals.append(v)
            self.solver.add(t != v)
            if len(vals) > self.opts.get("max_concretize", 64):
                self.solver.pop()
                raise Unsupported("symbolic integer with too many feasible values")
        self.solver.pop()
        if not vals:
            self.stats.infeasible += 1
            raise StopPath()
        vals.sort()
        self.stats.forks += len(vals) - 1
        for v in vals[1:]:
            self.pending.append(self.decisions + [("i", v)])
        self.pos += 1
        self.decisions.append(("i", vals[0]))
        self.prefix = self.prefix + [("i", vals[0])]
        self.add(t == vals[0])
        self._journal(t, vals[0])
        return vals[0]

    def _journal(self, t, v):
        """Leave a trace of the integers chosen on this path, in case the code under
        test takes the interpreter down with it."""
        j = os.environ.get("VERIF_JOURNAL")
        if j and z3.is_const(t):
            with open(j, "a") as f:
                f.write(f"{t.decl().name()}={v}\n")

    # -- inputs -------------------------------------------------------------------
    def real(self, name, lo=None, hi=None, positive=False):
        if name in self.vars:
            return SymReal(self.vars[name])
        v = z3.Real(name)
        self.vars[name] = v
        self.specs[name] = ("real", lo, hi, positive)
        if positive:
            self.add(v > 0)
        if lo is not None:
            self.add(v >= realval(lo))
        if hi is not None:
            self.add(v <= realval(hi))
        return SymReal(v)

    def reals(self, name, *shape, **kw):
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            a[idx] = self.real(name + "_" + "_".join(map(str, idx)), **kw)
        return a

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.vars[name] = v
        self.specs[name] = ("int", lo, hi, False)
        self.add(v >= lo)
        self.add(v <= hi)
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.vars[name] = v
        self.specs[name] = ("bool", None, None, False)
        return SymBool(v)

    def choice(self, name, options):
        """A symbolic index into a finite list, forked by the solver."""
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1).__index__()]

    # -- uninterpreted functions ----------------------------------------------------
    def canon(self, t):
        return z3.simplify(t, som=True, som_blowup=1000000, flat=True, sort_sums=True)

    def _apply(self, name, args, record=False):
        key = (name, len(args))
        if key not in self.funcs:
            self.funcs[key] = z3.Function(
                f"{name}/{len(args)}", *([z3.RealSort()] * (len(args) + 1))
            )
        ts = []
        for a in args:
            t = SymReal.lift(a)
            if t is None:
                raise Unsupported(f"argument of type {type(a)} for {name}")
            ts.append(self.canon(t))
        r = self.funcs[key](*ts)
        if record:
            self.apps.setdefault(r.get_id(), (name, ts, r))
        return SymReal(r)

    def ufb(self, name, *args):
        """Uninterpreted function whose replay instance is bounded by one."""
        return self.uf(name, *args)

    def uf(self, name, *args):
        """Smooth uninterpreted function; understands dual arguments through its
        (uninterpreted) partial derivatives `name'i`."""
        if any(isinstance(a, Dual) for a in args):
            vs = [a.v if isinstance(a, Dual) else a for a in args]
            val = self._apply(name, vs, True)
            d = 0
            for i, a in enumerate(args):
                if isinstance(a, Dual):
                    d = d + self._apply(f"{name}'{i}", vs, True) * a.d
            return Dual(val, d)
        return self._apply(name, args, True)

    def duf(self, name, i, *args):
        """i-th partial derivative of `name`."""
        return self._apply(f"{name}'{i}", args, True)

    def unary(self, name, x):
        if name == "exp":
            r = self._exp_of_logs(x)
            return self._exp_of_sum(x) if r is None else r
        if name == "log" and bool(x <= 0):
            return -INF if bool(x == 0) else float("nan")
        return self._apply(name, [x])

    def _exp_of_logs(self, x):
        """exp(a*log(u) + ...) as the product of powers it is."""
        log = self.funcs.get(("log", 1))
        if log is None:
            return None
        t = self.canon(SymReal.lift(x))
        r = 1.0
        for m in t.children() if z3.is_add(t) else [t]:
            fs = [m]
            while any(z3.is_mul(f) for f in fs):
                fs = [c for f in fs for c in (f.children() if z3.is_mul(f) else [f])]
            logs = [f for f in fs if z3.is_app(f) and f.decl().eq(log)]
            if len(logs) != 1:
                return None
            e = z3.RealVal(1)
            for f in fs:
                if not f.eq(logs[0]):
                    e = e * f
            r = r * self.power(SymReal(logs[0].arg(0)), SymReal(e))
        return r

    def _exp_of_sum(self, x):
        """exp(a + n*b) as exp(a)*exp(b)**n, for whole numbers n."""
        t = self.canon(SymReal.lift(x))
        r = SymReal(z3.RealVal(1))
        for m in t.children() if z3.is_add(t) else [t]:
            if z3.is_rational_value(m) and m.numerator_as_long() == 0:
                continue
            n, base = 1, m
            if z3.is_mul(m) and z3.is_rational_value(m.arg(0)):
                c, rest = m.arg(0), m.children()[1:]
                if abs(c.numerator_as_long()) <= 6:
                    n = c.numerator_as_long()
                    rest = rest[0] if len(rest) == 1 else z3.Product(*rest)
                    base = rest / c.denominator_as_long()
            e = self._apply("exp", [SymReal(base)])
            self.add(e.t > 0)
            f = e
            for _ in range(abs(n) - 1):
                f = f * e
            r = r * f if n > 0 else SymReal(self.divide(r.t, f.t))
        return r

    def divide(self, num, den):
        """num/den for den known to be nonzero on this path: a reciprocal atom r with
        r*den == 1, so that polynomial normal forms stay canonical."""
        den = self.canon(den)
        num_c = self.canon(num)
        if z3.is_rational_value(num_c) and num_c.numerator_as_long() == 0:
            return z3.RealVal(0)
        key = den.sexpr()
        if key not in self.div_cache:
            r = z3.Real(f"inv!{len(self.div_cache)}")
            self.div_cache[key] = r
            self.inv_of[r.sexpr()] = den
            self.ideal.append(("inv", r, den))
            self.add(r * den == 1)
        return num * self.div_cache[key]

    def _factors(self, t):
        """Factors of a monomial as (numerators, denominators), or None."""
        t = self.canon(t)
        if z3.is_add(t) or z3.is_sub(t):
            return [t], []
        parts = []

        def walk(u):
            if z3.is_mul(u):
                for c in u.children():
                    walk(c)
            else:
                parts.append(u)

        walk(t)
        num, den = [], []
        for u in parts:
            if u.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(u.arg(1)):
                k = u.arg(1).numerator_as_long()
                us = [u.arg(0)] * k if u.arg(1).denominator_as_long() == 1 and k > 0 else [u]
            else:
                us = [u]
            for v in us:
                d = self.inv_of.get(v.sexpr()) if z3.is_const(v) else None
                if d is not None:
                    n2, d2 = self._factors(d)
                    den += n2
                    num += d2
                elif z3.is_rational_value(v):
                    f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                    if f.numerator != 1:
                        num.append(z3.RealVal(f.numerator))
                    if f.denominator != 1:
                        den.append(z3.RealVal(f.denominator))
                else:
                    num.append(v)
        return num, den

    def _pow_normal(self, b, e):
        """(numerator, denominator, exponent) of b**e, the same for (x/y)**e and
        (y/x)**-e."""
        num, den = self._factors(b)
        for f in list(num):
            for g in den:
                if f.eq(g):
                    num.remove(f)
                    den.remove(g)
                    break
        def prod(xs):
            xs = sorted(xs, key=lambda x: x.sexpr())
            r = z3.RealVal(1)
            for x in xs:
                r = r * x
            return self.canon(r)
        n, d = prod(num), prod(den)
        e = self.canon(e)
        if n.sexpr() < d.sexpr():
            return d, n, self.canon(-e)
        return n, d, e

    @staticmethod
    def _leading_negative(e):
        """Canonical sign of an exponent: decided on its first monomial."""
        if z3.is_rational_value(e):
            return e.numerator_as_long() < 0
        t = e
        while z3.is_add(t):
            t = t.arg(0)
        if z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
            return t.arg(0).numerator_as_long() < 0
        if z3.is_rational_value(t):
            return t.numerator_as_long() < 0
        return False

    def vmin(self, a, b):
        return self._sel(a, b, lambda x, y: x <= y)

    def vmax(self, a, b):
        return self._sel(a, b, lambda x, y: x >= y)

    def _sel(self, a, b, f):
        c = f(a, b)
        if isinstance(c, (bool, np.bool_)):
            return a if c else b
        return SymReal(z3.If(c.t, SymReal.lift(a), SymReal.lift(b)))

    def _link_powers(self, num, den, ec, r):
        """x**a / y**a == (x/y)**a and x**a * x**b == x**(a+b) for the powers at hand."""
        one = z3.RealVal(1).sexpr()
        new = (num.sexpr(), den.sexpr(), ec.sexpr())
        self.pow_atoms[new] = (num, den, ec, r)
        for a, (n, d, e, t) in list(self.pow_atoms.items()):
            if a[1] == one or not (new[2] == a[2]):
                continue
            x, y = (a[0], one, a[2]), (a[1], one, a[2])
            if new in (a, x, y) and x in self.pow_atoms and y in self.pow_atoms:
                self.add(t * self.pow_atoms[y][3] == self.pow_atoms[x][3])
        same = [(k[2], v[2], v[3]) for k, v in self.pow_atoms.items() if k[:2] == new[:2]]
        for i, (ka, ea, ra) in enumerate(same):
            for kb, eb, rb in same[i:]:
                k = self.canon(ea + eb).sexpr()
                for kc, _, rc in same:
                    if kc == k and new[2] in (ka, kb, kc):
                        self.add(ra * rb == rc)

    def _nonneg(self, t):
        """Whether t is syntactically a sum of squares (times powers)."""
        t = self.canon(t)
        for m in t.children() if z3.is_add(t) else [t]:
            fs = [m]
            while any(z3.is_mul(f) for f in fs):
                fs = [c for f in fs for c in (f.children() if z3.is_mul(f) else [f])]
            count = {}
            for f in fs:
                k = 1
                if f.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(f.arg(1)):
                    if f.arg(1).denominator_as_long() != 1:
                        return False
                    f, k = f.arg(0), f.arg(1).numerator_as_long()
                if z3.is_rational_value(f):
                    if f.numerator_as_long() < 0:
                        return False
                elif f.sexpr() not in self.pow_of:
                    count[f.sexpr()] = count.get(f.sexpr(), 0) + k
            if any(k % 2 for k in count.values()):
                return False
        return True

    def _pow_atom(self, t):
        """(x, a) with x > 0 and x**a the given term, if it is a power."""
        key = z3.simplify(t).sexpr()
        if key in self.inv_of:
            b = self.pow_of.get(z3.simplify(self.inv_of[key]).sexpr())
            return None if b is None else (b[0], -b[1])
        return self.pow_of.get(key)

    def power(self, base, ex):
        """base ** ex."""
        if isinstance(ex, SymReal):
            s = z3.simplify(ex.t)
            if z3.is_rational_value(s):
                ex = Fraction(s.numerator_as_long(), s.denominator_as_long())
        if isinstance(ex, (bool, int, float, Fraction, np.integer, np.floating)):
            if _ext(ex):
                raise Unsupported("infinite exponent")
            exf = ex
            if not isinstance(ex, Fraction):
                exf = Fraction(float(ex))
                near = exf.limit_denominator(1000)
                if float(near) == float(ex):  # 1/3 means a third
                    exf = near
            ex = exf
            if isinstance(base, SymReal) and self.pow_of:
                b = self._pow_atom(base.t)
                if b is not None:  # (x**a)**b, x > 0
                    return self.power(SymReal(b[0]), SymReal(b[1] * realval(exf)))
            if exf.denominator == 1 and abs(exf) <= 8:
                n = int(exf)
                if n == 0:
                    return 1.0
                r = base if n % 2 else base * base
                for _ in range((abs(n) - 1) // 2):
                    r = r * (base * base)
                return r if n > 0 else 1.0 / r
        # general real power: uninterpreted, with the facts about positive bases
        if _ext(base):
            pos = bool(ex > 0) if is_sym(ex) else ex > 0
            if math.isnan(base) or base < 0:
                raise Unsupported("power of nan/-inf")
            return INF if pos else 0.0
        b = SymReal.lift(base)
        e = SymReal.lift(ex)
        if self._nonneg(b):
            pass
        elif bool(SymBool(z3.simplify(b < 0))) if not z3.is_rational_value(b) else (
            b.numerator_as_long() < 0
        ):
            return float("nan")
        if z3.is_rational_value(e) and e.numerator_as_long() == 1 and (
            e.denominator_as_long() == 2
        ):
            key = ("sqrt", self.canon(b).sexpr())
            if key not in self.pow_cache:
                r = z3.Real(f"sqrt!{len(self.pow_cache)}")
                self.add(r >= 0)
                self.add(r * r == b)
                self.pow_cache[key] = r
                self.ideal.append(("sqrt", r, self.canon(b)))
                self.pow_of[r.sexpr()] = (b, z3.RealVal("1/2"))
            return SymReal(self.pow_cache[key])
        zero = (
            self.branch(b == 0)
            if not z3.is_rational_value(b)
            else b.numerator_as_long() == 0
        )
        if zero:
            sg = _sign(SymReal(e)) if not z3.is_rational_value(e) else (
                (e.numerator_as_long() > 0) - (e.numerator_as_long() < 0)
            )
            return 0.0 if sg > 0 else (1.0 if sg == 0 else INF)
        num, den, ec = self._pow_normal(b, e)
        if z3.is_rational_value(ec) and ec.numerator_as_long() == 0:
            return 1.0
        flip = self._leading_negative(ec)
        if flip:
            ec = self.canon(-ec)
        if "pow" not in self.funcs:
            self.funcs["pow"] = z3.Function(
                "pow", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort()
            )
        r = self.funcs["pow"](num, den, ec)
        key = ("pow", num.sexpr(), den.sexpr(), ec.sexpr())
        if key not in self.pow_cache:
            self.pow_cache[key] = r
            self.pow_of[r.sexpr()] = (b, -e if flip else e)
            self.add(r > 0)
            # monotonicity of x**e around 1 (num and den are positive here)
            gt, lt = z3.And(den > 0, num > den), z3.And(den > 0, num < den)
            if z3.is_rational_value(ec):  # positive after normalisation
                self.add(z3.Implies(gt, r > 1))
                self.add(z3.Implies(lt, r < 1))
            else:
                self.add(z3.Implies(z3.And(gt, ec > 0), r > 1))
                self.add(z3.Implies(z3.And(lt, ec > 0), r < 1))
                self.add(z3.Implies(z3.And(gt, ec < 0), r < 1))
                self.add(z3.Implies(z3.And(lt, ec < 0), r > 1))
            self.add(z3.Implies(z3.Or(num == den, ec == 0), r == 1))
            self._link_powers(num, den, ec, r)
        if flip:
            return SymReal(self.divide(z3.RealVal(1), r))
        return SymReal(r)

    # -- derivative of the executed code ----------------------------------------------
    def derivative(self, fun, x, dx, exact=False):
        """Directional derivative of `fun` (list of numbers -> list of numbers).
        exact: `fun` is a reference that takes dual numbers in replays as well."""
        y = fun([Dual(a, b) for a, b in zip(x, dx)])
        return [o.d if isinstance(o, Dual) else 0 for o in y]

    # -- assumptions, assertions ---------------------------------------------------------
    def _b(self, c):
        if isinstance(c, SymBool):
            return c.t
        return z3.BoolVal(bool(c))

    def assume(self, c):
        t = z3.simplify(self._b(c))
        if z3.is_true(t):
            return
        if z3.is_false(t):
            self.stats.infeasible += 1
            raise StopPath()
        if self.pos < len(self.prefix) or self._query(t) != z3.unsat:
            self.add(t)
            return
        self.stats.infeasible += 1
        raise StopPath()

    def check(self, label, c):
        self.checks.append((label, self._b(c), None))

    def check_eq(self, label, a, b, scale=1.0):
        """a == b as real numbers (scalars or arrays)."""
        fa, fb = np.asarray(a, dtype=object).ravel(), np.asarray(b, dtype=object).ravel()
        if np.shape(a) != np.shape(b):
            self.check(label + ":shape", False)
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            if isinstance(x, Dual):
                x = x.v
            if isinstance(y, Dual):
                y = y.v
            lab = label if len(fa) == 1 else f"{label}[{i}]"
            if x is None or y is None:
                self.check(lab, x is y)
                continue
            if _ext(x) or _ext(y):
                same = (not is_sym(x)) and (not is_sym(y)) and (
                    x == y or (x != x and y != y)
                )
                self.check(lab, same)
                continue
            tx, ty = SymReal.lift(x), SymReal.lift(y)
            d = self.canon(tx - ty)
            self.checks.append((lab, d == 0, d))

    def fail(self, label, detail=""):
        self.checks.append((label, z3.BoolVal(False), None))

    def reach(self, label):
        self.stats.reach[label] = self.stats.reach.get(label, 0) + 1

    def bound(self, label):
        self.stats.bounded += 1
        self.stats.bound_labels[label] = self.stats.bound_labels.get(label, 0) + 1
        raise StopPath()

    def note(self, **kw):
        if self.stats.sample is None:
            self.stats.sample = {}
        self.stats.sample.update({k: str(v) for k, v in kw.items()})

    # -- deciding -------------------------------------------------------------------------
    def _table(self, m):
        """Values of the uninterpreted functions in a model, for its replay."""
        def number(t):
            e = m.eval(t, model_completion=True)
            if z3.is_algebraic_value(e):
                e = e.approx(20)
            return _to_float(e) if z3.is_rational_value(e) else None

        table = {}
        for name, ts, r in list(self.apps.values())[:600]:
            row = [number(t) for t in (*ts, r)]
            if all(x is not None and abs(x) < 1e6 for x in row):
                rows = table.setdefault(name, [])
                if row not in rows:
                    rows.append(row)
        return table

    def _bounded_apps(self):
        return [c for _, _, r in list(self.apps.values())[:600] for c in (r >= -10, r <= 10)]

    def _model_values(self, m, table=False):
        vals = self._model_values(m) if table else {}
        if table:
            if self.apps:
                vals["@uf"] = self._table(m)
            return vals
        for n, v in self.vars.items():
            e = m.eval(v, model_completion=True)
            if z3.is_int_value(e):
                vals[n] = e.as_long()
            elif z3.is_true(e) or z3.is_false(e):
                vals[n] = z3.is_true(e)
            elif z3.is_rational_value(e):
                vals[n] = _to_float(e)
            elif z3.is_algebraic_value(e):
                vals[n] = _to_float(e.approx(20))
            else:
                vals[n] = 0.0
        return vals

    def nice_constraints(self):
        cs = []
        for n, v in self.vars.items():
            kind, lo, hi, pos = self.specs[n]
            if kind == "real":
                if lo is None and not pos:
                    cs.append(v >= -4)
                if hi is None:
                    cs.append(v <= 4)
                if pos:
                    cs.append(v >= realval(0.05))
        return cs

    def decide(self):
        """Discharge the assertions collected on this path."""
        self.stats.completed += 1
        todo = []
        for label, c, d in self.checks:
            self.stats.obligations += 1
            self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
            if d is not None and self.ideal and not z3.is_rational_value(d) and (
                vanishes(d, self.ideal)
            ):
                c = realval(0) == d * 0
            todo.append((label, c, d))
        if not todo:
            return
        limit = self.opts.get("check_timeout_ms", 20000)
        neg = z3.Not(z3.And([c for _, c, _ in todo]))
        r = self._query(neg, timeout=limit)
        if r == z3.unsat:
            self.stats.discharged += len(todo)
            return
        for label, c, d in todo:
            r = self._query(z3.Not(c), timeout=limit)
            if r == z3.unsat:
                self.stats.discharged += 1
                continue
            cands = []
            if r == z3.sat:
                cands.append(self._model_values(self.solver.model(), True))
            # look for a well-scaled model first: survives rounding when replayed
            margin = [z3.Or(d >= realval(0.01), d <= realval(-0.01))] if d is not None else []
            for apps in (self._bounded_apps(), []) if self.apps else ([],):
                r2 = self._query(
                    z3.Not(c), *self.nice_constraints(), *margin, *apps, timeout=4000)
                if r2 == z3.sat:
                    cands.insert(0, self._model_values(self.solver.model(), True))
                    break
            apart = self._apart(cands)
            if apart and self._query(z3.Not(c), *apart, timeout=4000) == z3.sat:
                cands.append(self._model_values(self.solver.model(), True))
            if not cands:
                # any values on this path; the replay varies them
                r2 = self._query(*self.nice_constraints(), timeout=4000)
                if r2 == z3.sat:
                    cands.append(self._model_values(self.solver.model(), True))
            self.candidates.append(
                Candidate(
                    label,
                    "assertion" if r == z3.sat else "undecided",
                    cands,
                    list(self.decisions),
                )
            )
            # one counterexample per path is enough, unless it may be a known one
            if label not in self.opts.get("known_labels", ()):
                return

    def _apart(self, cands):
        """Values that differ only slightly hide their difference in replays."""
        cs = {}
        for vals in cands:
            vs = sorted(
                (x, n) for n, x in vals.items() if n != "@uf" and self.specs[n][0] == "real")
            for (x, n), (y, m) in zip(vs, vs[1:]):
                if x < y <= x + 1e-2:
                    d = self.vars[n] - self.vars[m]
                    cs[n, m] = z3.Or(d >= realval(0.5), d <= realval(-0.5))
        return list(cs.values())

    def nice_model(self):
        if self._query(*self.nice_constraints(), timeout=3000) == z3.sat:
            return self._model_values(self.solver.model())
        return None

    def path_model(self):
        out = []
        for apps in (self._bounded_apps(), []) if self.apps else ([],):
            r = self._query(*self.nice_constraints(), *apps, timeout=8000)
            if r == z3.sat:
                out.append(self._model_values(self.solver.model(), True))
                break
        r = self._query(timeout=8000)
        if r == z3.sat:
            out.append(self._model_values(self.solver.model(), True))
        return out


def _to_float(e):
    f = Fraction(e.numerator_as_long(), e.denominator_as_long())
    try:
        return float(f)
    except OverflowError:
        return math.copysign(1e300, f)


def explore(harness, params, opts):
    """Run `harness(ctx, **params)` on every feasible path.

    Returns (stats, candidates, problems)."""
    global _CTX
    stats = Stats()
    candidates, problems, models = [], [], []
    stack = [[]]
    t0 = time.time()
    budget = opts.get("time_s", 600)
    max_paths = opts.get("max_paths", 20000)
    while stack:
        if stats.paths >= max_paths or time.time() - t0 > budget or (
            time.time() > opts.get("deadline", 1e18)
        ):
            problems.append(
                f"exploration stopped after {stats.paths} paths, {len(stack)} left"
            )
            break
        prefix = stack.pop()
        stats.paths += 1
        ctx = SymCtx(list(prefix), stats, opts)
        _CTX = ctx
        try:
            harness(ctx, **params)
            ctx.decide()
        except StopPath:
            # a path cut by a bound still has its collected assertions to decide
            if ctx.checks:
                ctx.decide()
        except Unsupported as e:
            problems.append(f"unsupported: {e!r}")
            candidates.append(
                Candidate("exception", "exception", ctx.path_model(), [], repr(e))
            )
        except Exception as e:  # the code under test (or the encoding) raised
            import traceback

            tb = traceback.format_exc(limit=-6)
            candidates.append(
                Candidate(
                    "exception",
                    "exception",
                    ctx.path_model(),
                    list(ctx.decisions),
                    tb,
                )
            )
        else:
            # models of some completed paths, re-run on the unpatched code afterwards
            k = stats.completed
            if len(models) < opts.get("validate", 0) and (k <= 1 or (k & (k - 1)) == 0):
                m = ctx.nice_model()
                if m is not None:
                    models.append(m)
        finally:
            _CTX = None
        candidates.extend(ctx.candidates)
        stack.extend(ctx.pending)
        fresh = [c for c in candidates if c.label not in opts.get("known_labels", ())]
        hard = [c for c in fresh if c.kind == "assertion"]
        if (
            len(hard) >= opts.get("max_candidates", 3)
            or len(fresh) >= opts.get("max_exceptions", 8)
        ):
            if stack:
                problems.append(
                    f"exploration stopped after {len(fresh)} candidates, {len(stack)} left"
                )
            break
    stats.wall_s = time.time() - t0
    stats.models = models
    return stats, candidates, problems


# ---------------------------------------------------------------------------
# concrete replay
# ---------------------------------------------------------------------------


class Violation(Exception):
    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


def _coef(name, i):
    """Deterministic generic coefficient of the replay instance of a function."""
    import hashlib

    h = int.from_bytes(hashlib.sha256(f"{name}|{i}".encode()).digest()[:6], "big")
    return ((h % 2001) - 1000) / 2500.0


def _radius(rows):
    """Largest distance at which the points of a function's table are kept apart."""
    d = 3e-3
    for i, a in enumerate(rows):
        for b in rows[:i]:
            if len(a) == len(b):
                d = min(d, max((abs(x - y) for x, y in zip(a[:-1], b[:-1])), default=d))
    return d / 3


class ConcreteCtx:
    """Context handed to a harness when a counterexample is replayed with floats."""

    symbolic = False

    def __init__(self, values, rng=None, rtol=1e-6):
        self.values = values
        self.rng = rng
        self.rtol = rtol
        self.used = {}
        self.reached = {}
        self.tables = values.get("@uf") or {}
        if self.tables:
            self.used["@uf"] = self.tables
            self.radius = {n: _radius(rows) for n, rows in self.tables.items()}

    # The function of a counterexample has the values and derivatives of the solver's
    # model around the points where it was used, and is the generic one elsewhere.
    def _near(self, name, args):
        for row in self.tables.get(name, ()):
            if len(row) == len(args) + 1 and all(
                abs(a - x) <= self.radius[name] for a, x in zip(args, row)
            ):
                return row
        return None

    def _get(self, name, default):
        v = self.values.get(name)
        if v is None:
            v = default()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, positive=False):
        def default():
            a = lo if lo is not None else (0.05 if positive else -2.0)
            b = hi if hi is not None else max(2.0, a + 2.0)
            return self.rng.uniform(a, b) if self.rng else (a + b) / 2

        v = float(self._get(name, default))
        if positive and not v > 0:
            raise AssumptionFailed()
        if lo is not None and v < float(lo):
            v = float(lo)
        if hi is not None and v > float(hi):
            v = float(hi)
        return v

    def reals(self, name, *shape, **kw):
        a = np.zeros(shape)
        for idx in np.ndindex(*shape):
            a[idx] = self.real(name + "_" + "_".join(map(str, idx)), **kw)
        return a

    def int(self, name, lo, hi):
        return int(
            self._get(name, lambda: self.rng.randint(lo, hi) if self.rng else lo)
        )

    def bool(self, name):
        return bool(
            self._get(name, lambda: self.rng.random() < 0.5 if self.rng else False)
        )

    def choice(self, name, options):
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    # generic quadratic instance of an uninterpreted function
    def uf(self, name, *args):
        if any(isinstance(a, Dual) for a in args):
            args = [Dual.of(a) for a in args]
            v = [a.v for a in args]
            return Dual(self.uf(name, *v), sum(
                self.duf(name, k, *v) * a.d for k, a in enumerate(args) if a.d != 0.0))
        args = [float(a) for a in args]
        row = self._near(name, args)
        if row is not None:
            return row[-1] + sum(
                self.duf(name, k, *row[:-1]) * (a - x)
                for k, (a, x) in enumerate(zip(args, row)) if a != x)
        r = _coef(name, "c")
        for i, a in enumerate(args):
            r += _coef(name, i) * a
            for j in range(i, len(args)):
                r += 0.3 * _coef(name, (i, j)) * a * args[j]
        return r

    def ufb(self, name, *args):
        row = self._near(name, [float(a) for a in args])
        return row[-1] if row is not None else math.sin(self.uf(name, *args))

    def duf(self, name, k, *args):
        args = [float(a) for a in args]
        row = self._near(name, args)
        if row is not None:  # constant around this point
            args = row[:-1]
        at = self._near(f"{name}'{k}", args)
        if at is not None:
            return at[-1]
        r = _coef(name, k)
        for i, a in enumerate(args):
            for j in range(i, len(args)):
                c = 0.3 * _coef(name, (i, j))
                if i == k:
                    r += c * args[j]
                if j == k:
                    r += c * a
        return r

    def derivative(self, fun, x, dx, eps=1e-5, exact=False):
        x = [float(a) for a in x]
        dx = [float(a) for a in dx]
        if exact:
            y = fun([Dual(a, b) for a, b in zip(x, dx)])
            return [float(o.d) if isinstance(o, Dual) else 0.0 for o in y]
        yp = fun([a + eps * b for a, b in zip(x, dx)])
        ym = fun([a - eps * b for a, b in zip(x, dx)])
        return [(float(p) - float(m)) / (2 * eps) for p, m in zip(yp, ym)]

    def vmin(self, a, b):
        return min(a, b)

    def vmax(self, a, b):
        return max(a, b)

    def assume(self, c):
        if not bool(c):
            raise AssumptionFailed()

    def check(self, label, c):
        if not bool(c):
            raise Violation(label)

    def check_eq(self, label, a, b, scale=1.0):
        if np.shape(a) != np.shape(b):
            raise Violation(label, f"shape {np.shape(a)} expected {np.shape(b)}")
        a = np.asarray(a, dtype=object).ravel()
        b = np.asarray(b, dtype=object).ravel()
        for x, y in zip(a, b):
            if x is None or y is None:
                if x is not y:
                    raise Violation(label, f"{x} != {y}")
                continue
            x, y = float(x), float(y)
            if x == y or (x != x and y != y):
                continue
            if not abs(x - y) <= self.rtol * scale * max(1.0, abs(x), abs(y)):
                raise Violation(label, f"got {x!r}, expected {y!r}")

    def fail(self, label, detail=""):
        raise Violation(label, detail)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def bound(self, label):
        raise StopPath()

    def note(self, **kw):
        pass
