"""Stand-ins for `np`, `pd` and `float` inside the posydon modules while they
are executed symbolically.  Anything not overridden is the real library.  The
overrides only act when a symbolic value is involved; on ordinary arguments
they call the real function."""
import builtins
import contextlib
import math
import sys

import numpy as _np

from .core import (CTX, EngineLimit, SymBool, SymInt, SymReal, SymStr, mkbool, is_sym,
                   z3, _nan_z)
from . import core as _core


def _ctx():
    return _core.CTX


def has_sym(x, depth=0):
    if isinstance(x, (SymReal, SymBool, SymStr, SymInt)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object and any(has_sym(v) for v in x.ravel())
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(v, depth + 1) for v in x)
    if isinstance(x, dict) and depth < 2:
        return any(has_sym(v, depth + 1) for v in x.values())
    vals = getattr(x, 'values', None)
    if isinstance(vals, _np.ndarray):          # pandas
        return vals.dtype == object and any(has_sym(v) for v in vals.ravel())
    return False


def obj(x):
    """object array holding x (keeps shape of nested sequences)."""
    if isinstance(x, _np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (SymReal, SymBool)):
        a = _np.empty((), dtype=object)
        a[()] = x
        return a
    vals = getattr(x, 'values', None)
    if isinstance(vals, _np.ndarray):
        return vals.astype(object)
    return _np.array(x, dtype=object)


def _elementwise(f, x):
    if isinstance(x, (SymReal, SymBool, SymStr)):
        return f(x)
    a = obj(x)
    if a.ndim == 0:
        return f(a[()])
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(a.shape):
        out[i] = f(a[i])
    return out


def _force(a):
    """Boolean array with every symbolic entry decided (forks)."""
    if isinstance(a, _np.ndarray):
        if a.dtype == object:
            out = _np.empty(a.shape, dtype=bool)
            for i in _np.ndindex(a.shape):
                out[i] = bool(a[i])
            return out
        return a
    return bool(a)


def _isnan1(v):
    if isinstance(v, SymReal):
        return mkbool(_nan_z(v.nan))
    if v is None:
        raise TypeError("isnan(None)")
    if isinstance(v, SymBool):
        return False
    return bool(_np.isnan(v))


def _isfinite1(v):
    if isinstance(v, SymReal):
        if isinstance(v.nan, bool):
            return not v.nan
        return mkbool(z3.Not(v.nan))
    if isinstance(v, SymBool):
        return True
    return bool(_np.isfinite(v))


def _isinf1(v):
    if isinstance(v, (SymReal, SymBool)):
        return False
    return bool(_np.isinf(v))


def _isna1(v):
    if v is None:
        return True
    if isinstance(v, SymReal):
        return mkbool(_nan_z(v.nan))
    if isinstance(v, (SymBool, str)):
        return False
    import pandas as pd
    return bool(pd.isna(v))


def _scalarise(r):
    if isinstance(r, SymBool):
        return r
    if isinstance(r, _np.ndarray):
        return _force(r)
    return r


def _any(a, axis=None, **k):
    if has_sym(a):
        a = obj(a)
        if axis is None:
            e = [x for x in a.ravel()]
            r = False
            for x in e:
                if bool(x):
                    return True
            return r
        return _np.any(_force(a), axis=axis)
    return _np.any(a, axis=axis, **k)


def _all(a, axis=None, **k):
    if has_sym(a):
        a = obj(a)
        if axis is None:
            for x in a.ravel():
                if not bool(x):
                    return False
            return True
        return _np.all(_force(a), axis=axis)
    return _np.all(a, axis=axis, **k)


_FLOATY = (float, _np.float64, _np.float32, 'float', 'float64', 'f8', 'd',
           _np.dtype(float))


def _is_floaty(d):
    if getattr(d, '_is_float_shim', False):
        return True
    try:
        return d is not None and _np.dtype(d) == _np.dtype(float)
    except TypeError:
        return getattr(d, '_is_float_shim', False)


def _np_dtype(d):
    return float if getattr(d, '_is_float_shim', False) else d


class NpShim:
    """Looks like numpy; see module docstring."""
    _is_np_shim = True

    def __init__(self, objzeros=True):
        self.__dict__['_objzeros'] = objzeros

    def __getattr__(self, k):
        return getattr(_np, k)

    # creation -------------------------------------------------------------
    def _conv(self, f, x, dtype, kw):
        if has_sym(x):
            if dtype is None or _is_floaty(dtype):
                if isinstance(x, _np.ndarray) and x.dtype == object:
                    return x.copy() if f is _np.array else x
                return obj(x)
        if dtype is not None:
            kw['dtype'] = _np_dtype(dtype)
        return f(x, **kw)

    def array(self, x, dtype=None, **kw):
        return self._conv(_np.array, x, dtype, kw)

    def asarray(self, x, dtype=None, **kw):
        return self._conv(_np.asarray, x, dtype, kw)

    def asanyarray(self, x, dtype=None, **kw):
        return self._conv(_np.asanyarray, x, dtype, kw)

    def atleast_1d(self, x):
        if has_sym(x):
            a = obj(x)
            return a.reshape(1) if a.ndim == 0 else a
        return _np.atleast_1d(x)

    def _mk(self, f, shape, dtype, kw):
        a = f(shape, **({'dtype': _np_dtype(dtype)} if dtype is not None
                        else {}), **kw)
        if a.dtype == float and self._objzeros:
            a = a.astype(object)
        return a

    def zeros(self, shape, dtype=None, **kw):
        return self._mk(_np.zeros, shape, dtype, kw)

    def ones(self, shape, dtype=None, **kw):
        return self._mk(_np.ones, shape, dtype, kw)

    def empty(self, shape, dtype=None, **kw):
        a = self._mk(_np.empty, shape, dtype, kw)
        return a

    def full(self, shape, v, dtype=None, **kw):
        if has_sym(v):
            a = _np.empty(shape, dtype=object)
            a[...] = v
            return a
        a = _np.full(shape, v, **({'dtype': _np_dtype(dtype)}
                                  if dtype is not None else {}), **kw)
        if a.dtype == float and self._objzeros:
            a = a.astype(object)
        return a

    def _like(self, f, x, dtype=None, **kw):
        sh = _np.shape(obj(x)) if has_sym(x) else _np.shape(x)
        if has_sym(x) or ((dtype is None or _is_floaty(dtype))
                          and self._objzeros):
            if dtype is None or _is_floaty(dtype):
                if not has_sym(x) and dtype is None:
                    r = f(x, **kw)
                    return r.astype(object) if r.dtype == float else r
                return f(_np.zeros(sh)).astype(object)
        if dtype is not None:
            kw['dtype'] = _np_dtype(dtype)
        return f(x, **kw)

    def zeros_like(self, x, dtype=None, **kw):
        return self._like(_np.zeros_like, x, dtype, **kw)

    def ones_like(self, x, dtype=None, **kw):
        return self._like(_np.ones_like, x, dtype, **kw)

    def empty_like(self, x, dtype=None, **kw):
        return self._like(_np.empty_like, x, dtype, **kw)

    def full_like(self, x, v, dtype=None, **kw):
        r = self._like(_np.zeros_like, x, dtype, **kw)
        if has_sym(v) and r.dtype != object:
            r = r.astype(object)
        if has_sym(v) or r.dtype == object:
            r[...] = v if not isinstance(v, _np.ndarray) or v.ndim else v[()]
            return r
        return _np.full_like(x, v, dtype=dtype, **kw)

    def finfo(self, d):
        return _np.finfo(_np_dtype(d))

    def float64(self, x=0.0):
        if is_sym(x):
            return x
        return _np.float64(x)

    # predicates -----------------------------------------------------------
    def isnan(self, x, **k):
        if has_sym(x):
            return _scalarise(_elementwise(_isnan1, x))
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return _scalarise(_elementwise(_isnan1, x))
        return _np.isnan(x)

    def isfinite(self, x, **k):
        if has_sym(x) or (isinstance(x, _np.ndarray) and x.dtype == object):
            return _scalarise(_elementwise(_isfinite1, x))
        return _np.isfinite(x)

    def isinf(self, x, **k):
        if has_sym(x) or (isinstance(x, _np.ndarray) and x.dtype == object):
            return _scalarise(_elementwise(_isinf1, x))
        return _np.isinf(x)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if has_sym(a) or has_sym(b):
            return abs(a - b) <= atol + rtol * abs(b)
        return _np.isclose(a, b, rtol=rtol, atol=atol, **k)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if has_sym(a) or has_sym(b):
            return _all(_np.abs(obj(a) - obj(b))
                        <= atol + rtol * _np.abs(obj(b)))
        return _np.allclose(a, b, rtol=rtol, atol=atol, **k)

    def any(self, a, axis=None, **k):
        return _any(a, axis, **k)

    def all(self, a, axis=None, **k):
        return _all(a, axis, **k)

    def where(self, c, *xy):
        if not xy:
            return _np.where(_force(obj(c)) if has_sym(c) else c)
        if has_sym(c):
            c = _force(obj(c)) if not isinstance(c, SymBool) else bool(c)
        if has_sym(xy[0]) or has_sym(xy[1]):
            return _np.where(c, obj(xy[0]), obj(xy[1]))
        return _np.where(c, *xy)

    def logical_not(self, x, **k):
        if has_sym(x):
            return _scalarise(_elementwise(lambda v: not v, x))
        return _np.logical_not(x, **k)

    def logical_and(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return _np.logical_and(_force(a), _force(b))
        return _np.logical_and(a, b, **k)

    def logical_or(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return _np.logical_or(_force(a), _force(b))
        return _np.logical_or(a, b, **k)

    # extrema with numpy's NaN propagation -----------------------------------
    def _ext(self, a, b, gt):
        def one(x, y):
            if bool(_isnan1(x)):
                return x
            if bool(_isnan1(y)):
                return y
            return x if bool((x >= y) if gt else (x <= y)) else y
        A, B = _np.broadcast_arrays(obj(a), obj(b))
        if A.ndim == 0:
            return one(A[()], B[()])
        out = _np.empty(A.shape, dtype=object)
        for i in _np.ndindex(A.shape):
            out[i] = one(A[i], B[i])
        return out

    def maximum(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return self._ext(a, b, True)
        return _np.maximum(a, b, **k)

    def minimum(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return self._ext(a, b, False)
        return _np.minimum(a, b, **k)

    def _red(self, a, axis, gt):
        a = obj(a)
        if axis is not None:
            a = _np.moveaxis(a, axis, 0)
            r = a[0]
            for x in a[1:]:
                r = self._ext(r, x, gt)
            return r
        it = list(a.ravel())
        if not it:
            raise ValueError("zero-size array")
        r = it[0]
        for x in it[1:]:
            r = self._ext(r, x, gt)
        return r

    def max(self, a, axis=None, **k):
        if has_sym(a):
            return self._red(a, axis, True)
        return _np.max(a, axis=axis, **k)
    amax = max

    def min(self, a, axis=None, **k):
        if has_sym(a):
            return self._red(a, axis, False)
        return _np.min(a, axis=axis, **k)
    amin = min

    def nanmax(self, a, axis=None, **k):
        if has_sym(a) and axis is None:
            v = [x for x in obj(a).ravel() if not bool(_isnan1(x))]
            return self._red(v, None, True) if v else _np.nan
        return _np.nanmax(a, axis=axis, **k)

    def nanmin(self, a, axis=None, **k):
        if has_sym(a) and axis is None:
            v = [x for x in obj(a).ravel() if not bool(_isnan1(x))]
            return self._red(v, None, False) if v else _np.nan
        return _np.nanmin(a, axis=axis, **k)

    def nansum(self, a, axis=None, **k):
        if has_sym(a) and axis is None:
            r = 0.0
            for x in obj(a).ravel():
                if not bool(_isnan1(x)):
                    r = r + x
            return r
        return _np.nansum(a, axis=axis, **k)

    def nan_to_num(self, x, copy=True, nan=0.0, **k):
        if has_sym(x):
            return _elementwise(lambda v: nan if bool(_isnan1(v)) else v, x)
        return _np.nan_to_num(x, copy=copy, nan=nan, **k)

    def clip(self, a, lo=None, hi=None, **k):
        lo = k.pop('a_min', lo)
        hi = k.pop('a_max', hi)
        if has_sym(a) or has_sym(lo) or has_sym(hi):
            if lo is not None:
                a = self._ext(a, lo, True)
            if hi is not None:
                a = self._ext(a, hi, False)
            return a
        return _np.clip(a, lo, hi, **k)

    def sign(self, x, **k):
        if has_sym(x):
            return _elementwise(
                lambda v: v if bool(_isnan1(v)) else
                (1.0 if bool(v > 0) else (-1.0 if bool(v < 0) else 0.0)), x)
        return _np.sign(x, **k)

    def abs(self, x, **k):
        if has_sym(x):
            return _elementwise(abs, x)
        return _np.abs(x, **k)
    absolute = abs
    fabs = abs

    def argmax(self, a, axis=None, **k):
        if has_sym(a) and axis is None:
            a = obj(a).ravel()
            best = 0
            for i in range(len(a)):
                if bool(_isnan1(a[i])):
                    return i
                if i and bool(a[i] > a[best]):
                    best = i
            return best
        return _np.argmax(a, axis=axis, **k)

    def argmin(self, a, axis=None, **k):
        if has_sym(a) and axis is None:
            a = obj(a).ravel()
            best = 0
            for i in range(len(a)):
                if bool(_isnan1(a[i])):
                    return i
                if i and bool(a[i] < a[best]):
                    best = i
            return best
        return _np.argmin(a, axis=axis, **k)

    def searchsorted(self, a, v, side='left', sorter=None):
        if has_sym(a) or has_sym(v):
            a = obj(a)

            def one(x):
                i = 0
                while i < len(a) and bool((a[i] < x) if side == 'left'
                                          else (a[i] <= x)):
                    i += 1
                return i
            V = obj(v)
            if V.ndim == 0:
                return one(V[()])
            return _np.array([one(x) for x in V])
        return _np.searchsorted(a, v, side=side, sorter=sorter)

    def sort(self, a, axis=-1, **k):
        if has_sym(a):
            return _np.array(sorted(obj(a).tolist(), key=_Key), dtype=object)
        return _np.sort(a, axis=axis, **k)

    def argsort(self, a, axis=-1, **k):
        if has_sym(a):
            a = obj(a)
            return _np.array(sorted(range(len(a)), key=lambda i: _Key(a[i])),
                             dtype=int)
        return _np.argsort(a, axis=axis, **k)

    def unique(self, a, **k):
        if has_sym(a):
            raise EngineLimit("np.unique")
        return _np.unique(a, **k)

    def interp(self, x, xp, fp, left=None, right=None, period=None):
        if has_sym(x) or has_sym(xp) or has_sym(fp):
            xp = list(obj(xp))
            fp = list(obj(fp))

            def one(t):
                if bool(_isnan1(t)):
                    return t
                if bool(t < xp[0]):
                    return fp[0] if left is None else left
                if bool(t > xp[-1]):
                    return fp[-1] if right is None else right
                for j in range(len(xp) - 1):
                    if bool(t < xp[j + 1]):
                        return (fp[j] + (fp[j + 1] - fp[j])
                                / (xp[j + 1] - xp[j]) * (t - xp[j]))
                return fp[-1]
            return _elementwise(one, x)
        return _np.interp(x, xp, fp, left, right, period)

    def average(self, a, axis=None, weights=None, **k):
        if has_sym(a) or has_sym(weights):
            if weights is None:
                return _np.mean(obj(a), axis=axis)
            return _np.sum(obj(a) * obj(weights), axis=axis) \
                / _np.sum(obj(weights), axis=axis)
        return _np.average(a, axis=axis, weights=weights, **k)

    def interp1d_guard(self):
        raise EngineLimit("interp1d")

    def isin(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return _elementwise(lambda v: any(bool(v == w) for w in b), a)
        return _np.isin(a, b, **k)

    def round(self, x, n=0, **k):
        if has_sym(x):
            return _elementwise(lambda v: v.__round__(n), x)
        return _np.round(x, n, **k)
    around = round

    def arange(self, *a, **k):
        if not has_sym(list(a)):
            return _np.arange(*a, **k)
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (
            a if len(a) == 3 else (*a, 1))
        out, x = [], start
        while bool(x < stop):
            out.append(x)
            if len(out) > _ctx().opts.get("max_range", 6):
                raise EngineLimit("arange bound")
            x = start + len(out) * step
        r = _np.empty(len(out), dtype=object)
        r[:] = out
        return r

    def linspace(self, a, b, num=50, **k):
        if has_sym(a) or has_sym(b):
            return _np.array([a + (b - a) * i / (num - 1)
                              for i in range(num)], dtype=object)
        return _np.linspace(a, b, num, **k)

    def dot(self, a, b):
        return _np.dot(obj(a), obj(b)) if has_sym(a) or has_sym(b) \
            else _np.dot(a, b)

    @property
    def linalg(self):
        return _LINALG

    def trapz(self, y, x=None, **k):
        return _np.trapz(y, x=x, **k)


def _mk_unary(name):
    f = getattr(_np, name)

    def one(v):
        if isinstance(v, (SymReal, SymInt)):
            return getattr(v, name)() if isinstance(v, SymReal) \
                else f(v._conc())
        return f(v)

    def g(self, x, *a, **k):
        out, where = k.get('out'), k.get('where')
        if isinstance(out, tuple):
            out = out[0]
        if isinstance(x, _np.ndarray) and x.dtype == object and x.ndim and \
                (out is not None or where is not None):
            if a or set(k) - {'out', 'where'}:
                raise EngineLimit('ufunc arguments')
            if out is None:
                out = _np.full(x.shape, _np.nan, dtype=object)
            elif out.shape != x.shape or out.dtype != object:
                raise EngineLimit('ufunc out')
            m = _np.broadcast_to(_np.asarray(
                True if where is None else where, dtype=object), x.shape)
            for i in _np.ndindex(*x.shape):
                if m[i]:
                    out[i] = one(x[i])
            return out
        if isinstance(x, _np.ndarray) and x.dtype == object and x.ndim:
            return _elementwise(one, x)
        if isinstance(x, (list, tuple)) and has_sym(x):
            return _elementwise(one, x)
        if isinstance(x, _np.ndarray) and x.dtype == object:
            x = x[()]
        if isinstance(x, SymReal):
            return one(x)
        if type(x).__name__ == 'Series' and x.dtype == object:
            return type(x)(_elementwise(one, x.values), index=x.index,
                           name=x.name)
        return f(x, *a, **k)
    return g


for _n in ('log', 'log10', 'exp', 'sqrt', 'cbrt', 'sin', 'cos', 'tan',
           'arcsin', 'arccos', 'arctan', 'floor', 'ceil', 'square'):
    setattr(NpShim, _n, _mk_unary(_n))


class _Linalg:
    def __getattr__(self, k):
        return getattr(_np.linalg, k)

    def solve(self, a, b):
        if not has_sym(a) and not has_sym(b):
            return _np.linalg.solve(a, b)
        a, b = obj(a), obj(b)
        if a.shape != (2, 2) or b.shape != (2,):
            raise EngineLimit('solve')
        d = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        if bool(d == 0):
            raise _np.linalg.LinAlgError('Singular matrix')
        out = _np.empty(2, dtype=object)
        out[0] = (b[0] * a[1, 1] - a[0, 1] * b[1]) / d
        out[1] = (a[0, 0] * b[1] - b[0] * a[1, 0]) / d
        return out

    def norm(self, x, ord=None, axis=None, **kw):
        if not has_sym(x):
            return _np.linalg.norm(x, ord, axis, **kw)
        x = obj(x)
        if x.ndim == 2 and ord in (None, 2) and axis in (0, 1, -1) and not kw:
            r = [self.norm(v) for v in (x.T if axis == 0 else x)]
            out = _np.empty(len(r), dtype=object)
            out[:] = r
            return out
        if ord not in (None, 2) or x.ndim != 1 or kw:
            raise EngineLimit('norm')
        if len(x) == 1:
            return abs(x[0])
        t = 0
        for v in x:
            t = t + v * v
        return t ** 0.5


_LINALG = _Linalg()


class _Key:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        # numpy sorts NaN last
        if bool(_isnan1(self.v)):
            return False
        if bool(_isnan1(o.v)):
            return True
        return bool(self.v < o.v)


class PdShim:
    def __getattr__(self, k):
        import pandas
        return getattr(pandas, k)

    def isna(self, x):
        import pandas
        if has_sym(x):
            r = _scalarise(_elementwise(_isna1, x))
            if isinstance(x, pandas.Series):
                return pandas.Series(r, index=x.index, name=x.name)
            if isinstance(x, pandas.DataFrame):
                return pandas.DataFrame(r, index=x.index, columns=x.columns)
            return r
        return pandas.isna(x)
    isnull = isna

    def notna(self, x):
        r = self.isna(x)
        if isinstance(r, SymBool):
            return ~r
        return not r if isinstance(r, bool) else ~r
    notnull = notna


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class FloatShim(metaclass=_FloatMeta):
    _is_float_shim = True

    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            v = x.ravel()[0]
            if isinstance(v, SymReal):
                return v
        return builtins.float(x)

    fromhex = builtins.float.fromhex


class MathShim:
    def __getattr__(self, k):
        f = getattr(math, k)
        if not callable(f):
            return f

        def g(*a):
            if a and is_sym(a[0]):
                if k in ('isnan',):
                    return _isnan1(a[0])
                if k in ('isfinite',):
                    return _isfinite1(a[0])
                if k == 'isinf':
                    return False
                m = {'sqrt': 'sqrt', 'log10': 'log10', 'exp': 'exp',
                     'sin': 'sin', 'cos': 'cos', 'asin': 'arcsin',
                     'acos': 'arccos', 'atan': 'arctan'}.get(k)
                if k == 'log' and len(a) == 1:
                    m = 'log'
                if k == 'pow':
                    return a[0] ** a[1]
                if k == 'fabs':
                    return abs(a[0])
                if m:
                    return getattr(a[0], m)()
                raise EngineLimit(f"math.{k}")
            return f(*a)
        return g


@contextlib.contextmanager
def symbolic_world(extra=None, objzeros=True):
    """Install the stand-ins in every loaded posydon module."""
    np_s, pd_s, m_s = NpShim(objzeros), PdShim(), MathShim()
    saved = []
    _missing = object()

    def put(mod, name, val):
        saved.append((mod, name, mod.__dict__.get(name, _missing)))
        setattr(mod, name, val)

    import pandas as _pd
    np_funcs = {f: getattr(NpShim, f) for f in dir(NpShim)
                if not f.startswith('_')}
    for name, mod in list(sys.modules.items()):
        if not (name == 'posydon' or name.startswith('posydon.')):
            continue
        if mod is None:
            continue
        d = mod.__dict__
        for k, v in list(d.items()):
            if v is _np:
                put(mod, k, np_s)
            elif v is _pd:
                put(mod, k, pd_s)
            elif v is math:
                put(mod, k, m_s)
            elif k in np_funcs and v is getattr(_np, k, None):
                put(mod, k, getattr(np_s, k))
        if 'float' not in d:
            put(mod, 'float', FloatShim)
    for mod, name, val in (extra or []):
        put(mod, name, val)
    try:
        yield
    finally:
        for mod, name, old in reversed(saved):
            if old is _missing:
                try:
                    delattr(mod, name)
                except AttributeError:
                    pass
            else:
                setattr(mod, name, old)
