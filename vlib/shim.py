"""Symbolic-mode environment for the real code.

The modules under test keep running unmodified; only the *names* through which they
reach numpy, math and the builtins `float` are rebound to versions whose float arrays
can hold proxies (dtype object).  Everything else of numpy is used as it is.
"""
from __future__ import annotations

import math
import sys
import types
from fractions import Fraction

import numpy as np

from . import engine
from .engine import SymBool, SymInt, SymReal, Dual, is_sym


def _is_float_dtype(dtype):
    if dtype is None:
        return True
    if dtype is object:
        return False
    try:
        return np.dtype(dtype).kind == "f"
    except TypeError:
        return False


def _obj(a):
    """float array -> object array holding python floats."""
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        return a.astype(object)
    return a


def _filled(shape, value, order="C"):
    a = np.empty(_shape(shape), dtype=object, order=order)
    a[...] = value
    return a


def _shape(shape):
    if isinstance(shape, SymInt):
        return int(shape)
    if isinstance(shape, (tuple, list)):
        return tuple(int(s) if isinstance(s, SymInt) else s for s in shape)
    return shape


def zeros(shape, dtype=float, order="C", **kw):
    if _is_float_dtype(dtype):
        return _filled(shape, 0.0, order)
    return np.zeros(_shape(shape), dtype=dtype, order=order, **kw)


def ones(shape, dtype=None, order="C", **kw):
    if _is_float_dtype(dtype):
        return _filled(shape, 1.0, order)
    return np.ones(_shape(shape), dtype=dtype, order=order, **kw)


def empty(shape, dtype=float, order="C", **kw):
    if _is_float_dtype(dtype):
        return _filled(shape, 0.0, order)
    return np.empty(_shape(shape), dtype=dtype, order=order, **kw)


def full(shape, fill_value, dtype=None, order="C", **kw):
    if dtype is None and (
        is_sym(fill_value) or isinstance(fill_value, (float, np.floating))
    ):
        return _filled(shape, fill_value, order)
    if dtype is not None and _is_float_dtype(dtype):
        return _filled(shape, fill_value, order)
    return np.full(_shape(shape), fill_value, dtype=dtype, order=order, **kw)


def _like(maker):
    def f(a, *args, dtype=None, shape=None, order="C", **kw):
        a = np.asarray(a)
        shp = a.shape if shape is None else shape
        if dtype is None:
            if a.dtype.kind in "fO":
                return maker(shp, *args)
            return maker(shp, *args, dtype=a.dtype)
        return maker(shp, *args, dtype=dtype)

    return f


zeros_like = _like(zeros)
ones_like = _like(ones)
empty_like = _like(empty)
full_like = _like(full)


def array(x, dtype=None, **kw):
    if dtype is not None and _is_float_dtype(dtype):
        return np.array(x, dtype=object, **kw)
    return _obj(np.array(x, dtype=dtype, **kw))


def asarray(x, dtype=None, **kw):
    if isinstance(x, np.ndarray) and x.dtype == object and (
        dtype is None or _is_float_dtype(dtype)
    ):
        return x
    if dtype is not None and _is_float_dtype(dtype):
        return np.asarray(x, dtype=object, **kw)
    return _obj(np.asarray(x, dtype=dtype, **kw))


def _anysym(*xs):
    for x in xs:
        if is_sym(x):
            return True
        if isinstance(x, np.ndarray) and x.dtype == object:
            return True
        if isinstance(x, (list, tuple)) and any(_anysym(y) for y in x):
            return True
    return False


def _elementwise(f, ref):
    def g(x, *args, **kw):
        if not _anysym(x, *args):
            return ref(x, *args, **kw)
        if isinstance(x, (np.ndarray, list, tuple)) or any(
            isinstance(a, np.ndarray) for a in args
        ):
            bs = np.broadcast_arrays(
                *[np.asarray(y, dtype=object) for y in (x, *args)]
            )
            out = np.empty(bs[0].shape, dtype=object)
            for idx in np.ndindex(*out.shape):
                out[idx] = f(*[b[idx] for b in bs])
            return out
        return f(x, *args)

    return g


def _boolarr(f, ref):
    e = _elementwise(f, ref)

    def g(*a, **kw):
        r = e(*a, **kw)
        if isinstance(r, np.ndarray) and r.dtype == object:
            return np.array([bool(v) for v in r.ravel()], dtype=bool).reshape(r.shape)
        return r

    return g


def _quantifier(name, stop):
    ref = getattr(np, name)

    def g(a, axis=None, *args, **kw):
        if not _anysym(a):
            return ref(a, axis, *args, **kw)
        a = np.asarray(a, dtype=object)
        if axis is None and not args and not kw:
            for v in a.ravel():
                if bool(v) is stop:
                    return stop
            return not stop
        b = np.array([bool(v) for v in a.ravel()], dtype=bool).reshape(a.shape)
        return ref(b, axis, *args, **kw)

    g.__name__ = name
    return g


def _fin(x):
    return True if is_sym(x) else math.isfinite(x)


def _nan(x):
    return False if is_sym(x) else math.isnan(x)


def _inf(x):
    return False if is_sym(x) else math.isinf(x)


isfinite = _boolarr(_fin, np.isfinite)
isnan = _boolarr(_nan, np.isnan)
isinf = _boolarr(_inf, np.isinf)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not _anysym(a, b):
        return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)

    def f(x, y):
        if not is_sym(x) and not is_sym(y):
            return bool(np.isclose(float(x), float(y), rtol=rtol, atol=atol,
                                   equal_nan=equal_nan))
        if not _fin(x) or not _fin(y):
            return False
        return bool(abs(x - y) <= atol + rtol * abs(y))

    return _boolarr(f, np.isclose)(a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(isclose(a, b, rtol, atol, equal_nan)))


def array_equal(a, b, equal_nan=False):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not _anysym(a, b):
        return np.array_equal(a, b, equal_nan=equal_nan)
    for x, y in zip(a.ravel(), b.ravel()):
        if not bool(x == y):
            return False
    return True


def clip(a, lo, hi, **kw):
    if not _anysym(a, lo, hi):
        return np.clip(a, lo, hi, **kw)
    lo = -np.inf if lo is None else lo
    hi = np.inf if hi is None else hi
    return _elementwise(
        lambda x, l, h: _pick("vmin", min, _pick("vmax", max, x, l), h), np.clip
    )(a, lo, hi)


def _pick(name, builtin, x, y):
    ctx = engine._CTX
    if getattr(ctx, "merge", False) and (
        isinstance(x, SymReal) or isinstance(y, SymReal)
    ):
        return getattr(ctx, name)(x, y)
    return builtin(x, y)


def maximum(a, b, *args, **kw):
    if args or kw or not _anysym(a, b):
        return np.maximum(a, b, *args, **kw)
    return _elementwise(lambda x, y: _pick("vmax", max, x, y), np.maximum)(a, b)


def minimum(a, b, *args, **kw):
    if args or kw or not _anysym(a, b):
        return np.minimum(a, b, *args, **kw)
    return _elementwise(lambda x, y: _pick("vmin", min, x, y), np.minimum)(a, b)


maximum.reduce, maximum.accumulate = np.maximum.reduce, np.maximum.accumulate
minimum.reduce, minimum.accumulate = np.minimum.reduce, np.minimum.accumulate
maximum.at, minimum.at = np.maximum.at, np.minimum.at
maximum.outer, minimum.outer = np.maximum.outer, np.minimum.outer


def absolute(a, **kw):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return _elementwise(abs, np.abs)(a)
    if is_sym(a):
        return abs(a)
    return np.abs(a, **kw)


def sqrt(a, **kw):
    if isinstance(a, np.ndarray) and a.dtype == object or is_sym(a):
        return _elementwise(
            lambda x: x.sqrt() if isinstance(x, SymReal) else math.sqrt(x), np.sqrt
        )(a)
    return np.sqrt(a, **kw)


def _un(name, mf):
    ref = getattr(np, name)

    def f(a, **kw):
        if isinstance(a, np.ndarray) and a.dtype == object or is_sym(a):
            return _elementwise(
                lambda x: getattr(x, name)() if is_sym(x) else mf(x), ref
            )(a)
        return ref(a, **kw)

    return f


def float_power(a, b, **kw):
    if _anysym(a, b):
        return _elementwise(lambda x, y: x**y, np.float_power)(a, b)
    return np.float_power(a, b, **kw)


def norm(x, ord=None, axis=None, keepdims=False):
    """Model of numpy.linalg.norm for vectors (documented semantics)."""
    if not _anysym(x) or axis is not None or np.asarray(x).ndim != 1:
        return np.linalg.norm(x, ord, axis, keepdims)
    v = list(np.asarray(x, dtype=object))
    if ord is None:
        ord = 2
    if ord == np.inf or ord == -np.inf:
        if not v:
            raise ValueError(
                "zero-size array to reduction operation has no identity"
            )
        r = abs(v[0])
        for y in v[1:]:
            y = abs(y)
            if ord == np.inf:
                r = y if bool(y > r) else r
            else:
                r = y if bool(y < r) else r
        return r
    if ord == 0:
        return float(sum(1 for y in v if bool(y != 0)))
    if isinstance(ord, str):
        raise ValueError(f"Invalid norm order '{ord}' for vectors")
    if not v:
        return 0.0
    if ord == 1:
        s = 0.0
        for y in v:
            s = s + abs(y)
        return s
    s = 0.0
    for y in v:
        s = s + (y * y if ord == 2 else abs(y) ** ord)
    if ord == 2:
        return s.sqrt() if is_sym(s) else math.sqrt(s)
    return s ** (1.0 / ord)


def bincount(x, weights=None, minlength=0):
    if weights is None or not _anysym(weights):
        return np.bincount(x, weights, minlength)
    n = max(int(minlength), int(np.max(x)) + 1 if len(x) else 0)
    out = _filled(n, 0.0)
    for i, w in zip(x, weights):
        out[int(i)] = out[int(i)] + w
    return out


def hypot(*xs, **kw):
    """np.hypot / math.hypot."""
    if not _anysym(*xs):
        return np.hypot(*xs, **kw)

    def f(*ys):
        t = sum((y * y for y in ys), 0.0)
        return t.sqrt() if is_sym(t) else math.sqrt(t)

    return _elementwise(f, np.hypot)(*xs)


def finfo(dtype=float):
    try:
        return np.finfo(dtype)
    except ValueError:
        return np.finfo(float)


def round_(a, decimals=0, **kw):
    if _anysym(a):
        raise engine.Unsupported("round() of a symbolic real")
    return np.round(a, decimals, **kw)


class _Linalg:
    norm = staticmethod(norm)

    def __getattr__(self, n):
        return getattr(np.linalg, n)


class _Random:
    def __getattr__(self, n):
        return getattr(np.random, n)


class NumpyProxy(types.ModuleType):
    """Module object standing in for numpy."""

    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        d.update(
            zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like,
            ones_like=ones_like, empty_like=empty_like, full_like=full_like,
            array=array, asarray=asarray, isfinite=isfinite, isnan=isnan, isinf=isinf,
            isclose=isclose, allclose=allclose, array_equal=array_equal, clip=clip,
            abs=absolute, absolute=absolute, fabs=absolute, sqrt=sqrt,
            exp=_un("exp", math.exp), log=_un("log", math.log),
            sin=_un("sin", math.sin), cos=_un("cos", math.cos),
            maximum=maximum, minimum=minimum, fmax=maximum, fmin=minimum,
            hypot=hypot, finfo=finfo, round=round_, around=round_,
            asfarray=lambda a, dtype=float: asarray(a, dtype),
            float_power=float_power, power=lambda a, b, **k: (
                _elementwise(lambda x, y: x**y, np.power)(a, b)
                if _anysym(a, b) else np.power(a, b, **k)),
            asanyarray=asarray, bincount=bincount, ascontiguousarray=asarray,
            all=_quantifier("all", False), any=_quantifier("any", True),
            linalg=_Linalg(), float64=SymFloat, float_=SymFloat,
        )

    def __getattr__(self, name):
        return getattr(np, name)


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        self.__dict__.update(
            isfinite=_fin, isnan=_nan, isinf=_inf,
            sqrt=lambda x: x.sqrt() if isinstance(x, SymReal) else math.sqrt(x),
            exp=lambda x: x.exp() if isinstance(x, SymReal) else math.exp(x),
            log=lambda x, *b: (
                (x.log() if isinstance(x, SymReal) else math.log(x))
                / (math.log(*b) if b else 1.0)
                if is_sym(x) else math.log(x, *b)),
            sin=lambda x: x.sin() if isinstance(x, SymReal) else math.sin(x),
            cos=lambda x: x.cos() if isinstance(x, SymReal) else math.cos(x),
            hypot=lambda *xs: hypot(*xs) if _anysym(*xs) else math.hypot(*xs),
            dist=lambda p, q: MATH.hypot(*[a - b for a, b in zip(p, q, strict=True)]),
            copysign=lambda x, y: (
                abs(x) if bool(y >= 0) else -abs(x)) if is_sym(x) or is_sym(y)
            else math.copysign(x, y),
            sumprod=lambda p, q: sum(
                (a * b for a, b in zip(p, q, strict=True)), 0.0),
            fabs=abs, pow=lambda a, b: a**b,
            isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
                bool(abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol))
            ),
            fsum=lambda xs: sum(xs), prod=math.prod,
        )

    def __getattr__(self, name):
        return getattr(math, name)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, np.floating)) or isinstance(x, SymReal)

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SymReal))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __or__(cls, o):
        return float | o

    def __ror__(cls, o):
        return o | float

    def __getattr__(cls, n):
        return getattr(float, n)


class SymFloat(metaclass=_FloatMeta):
    """Stand-in for `float` / `np.float64`: conversion is the identity on proxies."""

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if is_sym(x):
            if isinstance(x, SymInt):
                return SymReal(SymReal.lift(x))
            if isinstance(x, SymBool):
                return x.num()
            return x
        return float(x)


def _sel(builtin, pick):
    """min / max; where the harness allows it two symbolic values are merged into one
    term instead of forking (same value, fewer paths)."""

    def f(*args, **kw):
        ctx = engine._CTX
        if len(args) == 1 and isinstance(args[0], (list, tuple)) and not kw:
            args = tuple(args[0]) if len(args[0]) > 1 else args
        if (
            ctx is not None and getattr(ctx, "merge", False) and not kw
            and len(args) > 1 and any(isinstance(a, SymReal) for a in args)
        ):
            r = args[0]
            for a in args[1:]:
                r = getattr(ctx, pick)(r, a)
            return r
        return builtin(*args, **kw)

    return f


NP = NumpyProxy()
MATH = MathProxy()

_PREFIXES = ("rkopenmdao",)
_EXTRA = ("openmdao.vectors.default_vector",
    "openmdao.vectors.default_transfer", "pyrevolve.storage")
_MAP = None


def _mapping():
    global _MAP
    if _MAP is None:
        _MAP = {}
        for k, v in NP.__dict__.items():
            if k.startswith("__"):
                continue
            ref = getattr(np, k, None)
            if ref is not None:
                _MAP[id(ref)] = v
        for k, v in MATH.__dict__.items():
            if not k.startswith("__"):
                ref = getattr(math, k, None)
                if ref is not None:
                    _MAP[id(ref)] = v
        _MAP[id(np.linalg.norm)] = norm
    return _MAP


def install(extra=()):
    """Rebind names in all loaded modules of the package under test."""
    m = _mapping()
    for name, mod in list(sys.modules.items()):
        if mod is None:
            continue
        if not (
            name == "rkopenmdao"
            or name.startswith("rkopenmdao.")
            or name in _EXTRA
            or name in extra
        ):
            continue
        d = vars(mod)
        for k, v in list(d.items()):
            if v is np:
                d[k] = NP
            elif v is math:
                d[k] = MATH
            elif v is np.linalg:
                d[k] = NP.linalg
            elif callable(v) and id(v) in m and not k.startswith("__"):
                d[k] = m[id(v)]
        if name.startswith("rkopenmdao"):
            d.setdefault("float", SymFloat)
            d.setdefault("min", _sel(min, "vmin"))
            d.setdefault("max", _sel(max, "vmax"))
