"""Symbolic execution of the real Python code with z3.

The functions of the implementation are called unmodified with proxy values
(`SymReal`, `SymBool`, `SymStr`).  Every branch on a proxy asks z3 which sides
are feasible and the engine re-executes the code once per feasible side
(depth-first), so after a run every path of the code within the stated bounds
has been covered for *all* values of the symbolic inputs.  Assertions are
decided by z3 per path (path condition AND NOT assertion).

Numbers are the reals extended with NaN: comparison and propagation of NaN are
exact, rounding and infinities are not modelled.  Decimal literals are taken
as exact decimals.  Every counterexample is replayed on the unpatched code
with ordinary floats before it counts.
"""
from __future__ import annotations

import math
import numbers
import time
from fractions import Fraction

import numpy as np

from .z3load import z3

CTX = None          # current execution context (None = concrete world)


class EngineLimit(BaseException):
    """The proxy cannot represent an operation: the path is inconclusive."""


class PathAbort(BaseException):
    """The path is outside the assumptions (or infeasible)."""


class PathUndefined(BaseException):
    """The path divides by zero / leaves the modelled reals."""


# --------------------------------------------------------------------------
# constants
# --------------------------------------------------------------------------
_const_cache = {}


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    f = _const_cache.get(x)
    if f is None:
        f = Fraction(x).limit_denominator(2520)
        if float(f) != x:
            f = Fraction(repr(x))
        _const_cache[x] = f
    return f


def rv(x):
    f = frac(x)
    return z3.RealVal(str(f.numerator) if f.denominator == 1
                      else f"{f.numerator}/{f.denominator}")


def is_sym(x):
    return isinstance(x, (SymReal, SymBool, SymStr, SymInt))


def is_num(x):
    if isinstance(x, numbers.Number) and not isinstance(x, SymReal):
        return True
    return hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0


def zbool(b):
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, Cond):
        return b.strong
    if z3.is_expr(b):
        return b
    return z3.BoolVal(bool(b))


def _zor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return z3.Or(a, b)


def _nan_z(n):
    n = _res(n)
    return z3.BoolVal(n) if isinstance(n, bool) else n


def _res(n):
    """a missing-value flag as far as it is decided on the current path"""
    if isinstance(n, bool) or CTX is None:
        return n
    v = CTX.known.get(n.get_id())
    if v is not None:
        return v[0]
    if z3.is_or(n):
        ch = [_res(c) for c in n.children()]
        if any(c is True for c in ch):
            return True
        out = [c for c in ch if c is not False]
        if not out:
            return False
        if len(out) < len(ch):
            return out[0] if len(out) == 1 else z3.Or(out)
    return n


class SymBool:
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.decide(self.e)

    def __and__(self, o):
        if hasattr(o, 'shape') and getattr(o, 'ndim', 0):
            return NotImplemented
        return mkbool(z3.And(self.e, zbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, 'shape') and getattr(o, 'ndim', 0):
            return NotImplemented
        return mkbool(z3.Or(self.e, zbool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, zbool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        return mkbool(self.e == zbool(o))

    def __ne__(self, o):
        return mkbool(self.e != zbool(o))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def all(self, *a, **k):
        return self

    any = all

    def __repr__(self):
        return f"<SymBool {self.e}>"


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


_ROOTS = {}


def _exp_rational(p):
    f = Fraction(p).limit_denominator(
        CTX.opts.get('max_root', 24) if CTX is not None else 24)
    if float(f) == float(p):
        return f
    return None


class SymReal:
    __slots__ = ('e', 'nan')
    __array_priority__ = 1000

    def __init__(self, e, nan=False):
        self.e = e
        self.nan = nan

    # -- coercion ----------------------------------------------------------
    @staticmethod
    def lift(x):
        """SymReal, ('inf', sign) or None when not a number."""
        if isinstance(x, SymReal):
            if x.nan is not False:
                n = _res(x.nan)
                if n is not x.nan:
                    return SymReal(x.e, n)
            return x
        if isinstance(x, SymBool):
            return SymReal(z3.If(x.e, rv(1), rv(0)))
        if x is None or isinstance(x, (str, bytes)):
            return None
        if is_num(x):
            if hasattr(x, 'dtype') and getattr(x, 'ndim', None) == 0:
                x = x.item() if x.dtype != object else x[()]
                if isinstance(x, SymReal):
                    return x
            if isinstance(x, complex):
                raise EngineLimit("complex")
            if isinstance(x, float):
                if math.isnan(x):
                    return SymReal(rv(0), True)
                if math.isinf(x):
                    return ('inf', 1 if x > 0 else -1)
            return SymReal(rv(x))
        return None

    # -- comparisons -------------------------------------------------------
    def _cmp(self, o, op):
        if hasattr(o, 'shape') and getattr(o, 'ndim', 0):
            if not isinstance(o, np.ndarray):
                return NotImplemented
            r = np.empty(o.shape, dtype=bool)
            for i in np.ndindex(o.shape):
                r[i] = bool(self._cmp(o[i], op))
            return r
        b = SymReal.lift(o)
        if b is None:
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        if isinstance(b, tuple):
            s = b[1]
            r = {'<': s > 0, '<=': s > 0, '>': s < 0, '>=': s < 0,
                 '==': False, '!=': True}[op]
            if op == '!=' or not r:
                return r
            return mkbool(z3.Not(_nan_z(self.nan))) if self.nan is not False \
                else True
        x, y = self.e, b.e
        nan = _zor(_res(self.nan), b.nan)
        if nan is True:
            return op == '!='
        c = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
             '>=': lambda: x >= y, '==': lambda: x == y,
             '!=': lambda: x != y}[op]()
        if nan is not False:
            c = z3.Or(nan, c) if op == '!=' else z3.And(z3.Not(nan), c)
        return mkbool(z3.simplify(c))

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')

    __hash__ = None

    # -- arithmetic --------------------------------------------------------
    def _arr(self, o, f):
        if not isinstance(o, np.ndarray):
            return NotImplemented
        r = np.empty(o.shape, dtype=object)
        for i in np.ndindex(o.shape):
            r[i] = f(o[i])
        return r

    def _bin(self, o, f):
        if hasattr(o, 'shape') and getattr(o, 'ndim', 0):
            return self._arr(o, lambda v: self._bin(v, f))
        b = SymReal.lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, tuple):
            raise EngineLimit("arithmetic with infinity")
        nan = _zor(_res(self.nan), b.nan)
        if nan is True:
            return SymReal(rv(0), True)
        return mkreal(f(self.e, b.e), nan)

    def __add__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o
        return self._bin(o, lambda x, y: x + y)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return -o
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o
        return self._bin(o, lambda x, y: y - x)

    def __mul__(self, o): return self._bin(o, lambda x, y: x * y)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return SymReal(rv(0), self.nan)
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        if hasattr(o, 'shape') and getattr(o, 'ndim', 0):
            return self._arr(o, lambda v: v / self)
        b = SymReal.lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, tuple):
            raise EngineLimit("infinity / symbolic")
        return b.__truediv__(self)

    def __floordiv__(self, o):
        return self._bin(o, lambda x, y: z3.ToReal(z3.ToInt(_div(x, y))))

    def __mod__(self, o):
        return self._bin(
            o, lambda x, y: x - y * z3.ToReal(z3.ToInt(_div(x, y))))

    def __neg__(self): return mkreal(-self.e, self.nan)
    def __pos__(self): return self

    def __abs__(self):
        if self >= 0:
            return self
        return -self

    def __pow__(self, p):
        if isinstance(p, SymReal):
            c = const_of(p)
            if c is None:
                return _uf2('pow', self, p)
            p = float(c)
        if hasattr(p, 'shape') and getattr(p, 'ndim', 0):
            return self._arr(p, lambda v: self ** v)
        return power(self, p)

    def __rpow__(self, b):
        if hasattr(b, 'shape') and getattr(b, 'ndim', 0):
            return self._arr(b, lambda v: v ** self)
        c = const_of(self)
        if c is not None and self.nan is False:
            return float(b) ** float(c)
        if float(b) == 10.0:
            return self.exp10()
        if abs(float(b) - math.e) < 1e-15:
            return self.exp()
        return _uf2('pow', SymReal(rv(b)), self)

    # -- functions (called by numpy ufuncs on object operands) ----------------
    def sqrt(self): return power(self, Fraction(1, 2))
    def cbrt(self): return power(self, Fraction(1, 3))
    def square(self): return self * self
    def conjugate(self): return self
    def exp(self): return _uf('exp', self)
    def exp10(self): return _uf('exp10', self)
    def log(self): return _uf('log', self)
    def log10(self): return _uf('log10', self)
    def sin(self): return _uf('sin', self)
    def cos(self): return _uf('cos', self)
    def tan(self): return self.sin() / self.cos()
    def arcsin(self): return _uf('arcsin', self)
    def arccos(self): return _uf('arccos', self)
    def arctan(self): return _uf('arctan', self)
    def rint(self): return self.__round__()

    def floor(self):
        return mkreal(z3.ToReal(z3.ToInt(self.e)), self.nan)

    def ceil(self):
        return mkreal(-z3.ToReal(z3.ToInt(-self.e)), self.nan)

    def __round__(self, n=0):
        n = n or 0
        if n >= 3:
            # over-approximation: within half a unit, weakly monotone
            return CTX.round_abs(self, n)
        k = rv(10 ** n)
        return mkreal(z3.ToReal(z3.ToInt(self.e * k + rv(0.5))) / k, self.nan)

    def isnan(self): return mkbool(_nan_z(self.nan))

    @property
    def real(self): return self

    @property
    def imag(self): return 0.0

    @property
    def ndim(self): return 0

    @property
    def shape(self): return ()

    @property
    def size(self): return 1

    def item(self): return self
    def copy(self): return self
    def astype(self, *a, **k): return self

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __float__(self):
        c = const_of(self)
        if self.nan is False and c is not None:
            return float(c)
        if self.nan is True:
            return float('nan')
        raise EngineLimit("float() of a symbolic value")

    def __int__(self):
        c = const_of(self)
        if self.nan is False and c is not None:
            return int(c)
        return CTX.concretise_int(self)

    __index__ = __int__

    def __bool__(self):
        return bool(self != 0)

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __format__(self, spec): return "<sym>"
    def __str__(self): return "<sym>"
    def __repr__(self): return "<sym>"


numbers.Real.register(SymReal)


def mkreal(e, nan=False):
    return SymReal(e, nan)


def const_of(x):
    """Fraction if the SymReal is a numeral else None."""
    e = z3.simplify(x.e)
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def _div(x, y):
    ys = z3.simplify(y)
    if z3.is_rational_value(ys):
        if ys.numerator_as_long() == 0:
            raise PathUndefined("division by zero")
        return x / ys
    if CTX.decide(y == 0, note='div0'):
        raise PathUndefined("division by zero")
    return x / y


def ipow(x, n):
    """n >= 0 integer power as an explicit product."""
    if n == 0:
        return rv(1)
    r = x
    for _ in range(n - 1):
        r = r * x
    return r


def power(x, p):
    x = SymReal.lift(x)
    if x.nan is True:
        return x
    fp = float(p)
    if math.isinf(fp) or math.isnan(fp):
        raise EngineLimit("power")
    f = p if isinstance(p, Fraction) else _exp_rational(fp)
    c = const_of(x)
    if c is not None and x.nan is False and (f is None or f.denominator != 1):
        if c < 0:
            return SymReal(rv(0), True)
        if c == 0 and fp < 0:
            raise PathUndefined("0**negative")
        return SymReal(rv(float(c) ** fp))
    if f is not None and f.denominator == 1:
        n = f.numerator
        if n >= 0:
            return mkreal(ipow(x.e, n), x.nan)
        return 1 / mkreal(ipow(x.e, -n), x.nan)
    if x < 0:
        return SymReal(rv(0), True)
    if f is not None:
        y = CTX.root(x.e, f.denominator)
        n = f.numerator
        if n >= 0:
            return mkreal(ipow(y, n), x.nan)
        return 1 / mkreal(ipow(y, -n), x.nan)
    if x == 0:
        if fp < 0:
            raise PathUndefined("0**negative")
        return SymReal(rv(0), x.nan)
    k = CTX.norm.coefficient(x.e)
    if k is not None and k > 0 and k != 1:
        # (k * t)**p = k**p * t**p
        t = mkreal(z3.simplify(x.e / rv(k)), x.nan)
        return CTX.powf(t, fp) * float(k) ** fp
    return CTX.powf(x, fp)


def _uf(name, x):
    c = const_of(x)
    if x.nan is True:
        return x
    if c is not None and x.nan is False:
        v = float(c)
        try:
            r = {'exp': math.exp, 'exp10': lambda t: 10.0 ** t,
                 'log': math.log, 'log10': math.log10, 'sin': math.sin,
                 'cos': math.cos, 'arcsin': math.asin, 'arccos': math.acos,
                 'arctan': math.atan}[name](v)
        except ValueError:
            if v == 0 and name in ('log', 'log10'):
                return float('-inf')
            return SymReal(rv(0), True)
        return SymReal(rv(r))
    if name in ('log', 'log10'):
        if x < 0:
            return SymReal(rv(0), True)
        if x == 0:
            return float('-inf')
    if name in ('arcsin', 'arccos') and not CTX.unit_bounded(x.e):
        if (x < -1) | (x > 1):
            return SymReal(rv(0), True)
    return CTX.uf(name, x)


def _uf2(name, x, y):
    return CTX.uf2(name, x, y)


# --------------------------------------------------------------------------
# finite-domain symbolic strings
# --------------------------------------------------------------------------
class SymStr(str):
    """A string out of a finite domain, chosen by a symbolic integer."""

    def __new__(cls, var, values):
        s = str.__new__(cls, "\x00sym\x00")
        s.var = var
        s.values = list(values)
        return s

    def _set(self, pred):
        idx = [i for i, v in enumerate(self.values) if pred(v)]
        if not idx:
            return False
        if len(idx) == len(self.values):
            return True
        return mkbool(z3.Or([self.var == i for i in idx])
                      if len(idx) > 1 else self.var == idx[0])

    def _conc(self):
        return self.values[CTX.concretise_idx(self.var, len(self.values))]

    def __eq__(self, o):
        if isinstance(o, SymStr):
            if o.var is self.var or z3.eq(o.var, self.var):
                if o.values == self.values:
                    return True
                return self._set2(o)
            r = []
            for i, v in enumerate(self.values):
                for j, w in enumerate(o.values):
                    if v == w:
                        r.append(z3.And(self.var == i, o.var == j))
            return mkbool(z3.Or(r)) if r else False
        if not isinstance(o, str):
            return False
        return self._set(lambda v: v == o)

    def _set2(self, o):
        idx = [i for i, (v, w) in enumerate(zip(self.values, o.values))
               if v == w]
        if not idx:
            return False
        if len(idx) == len(self.values):
            return True
        return mkbool(z3.Or([self.var == i for i in idx]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(self._conc())

    def __contains__(self, o):
        r = self._set(lambda v: o in v)
        return bool(r)

    def __str__(self): return self._conc()
    def __repr__(self): return repr(self._conc())
    def __format__(self, spec): return format(self._conc(), spec)
    def __len__(self): return len(self._conc())
    def __iter__(self): return iter(self._conc())
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self): return (str, (self._conc(),))
    def __bool__(self): return bool(self._set(lambda v: len(v) > 0))

    def _map(self, f):
        return SymStr(self.var, [f(v) for v in self.values])

    def __add__(self, o):
        if isinstance(o, SymStr):
            return self._conc() + str(o)
        return self._map(lambda v: v + o)

    def __radd__(self, o): return self._map(lambda v: o + v)
    def __mod__(self, o): return self._conc() % o

    def __getitem__(self, i): return self._map(lambda v: v[i])

    def __lt__(self, o): return self._conc() < str(o)
    def __gt__(self, o): return self._conc() > str(o)
    def __le__(self, o): return self._conc() <= str(o)
    def __ge__(self, o): return self._conc() >= str(o)


def _mk(name):
    def pred(self, *a, **k):
        return self._set(lambda v: getattr(v, name)(*a, **k))

    def mapper(self, *a, **k):
        return self._map(lambda v: getattr(v, name)(*a, **k))

    def conc(self, *a, **k):
        return getattr(self._conc(), name)(*a, **k)
    return pred, mapper, conc


for _n in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isnumeric'):
    setattr(SymStr, _n, _mk(_n)[0])
for _n in ('replace', 'strip', 'lstrip', 'rstrip', 'lower', 'upper'):
    setattr(SymStr, _n, _mk(_n)[1])
for _n in ('split', 'join', 'find', 'index', 'count', 'encode', 'rsplit',
           'partition', 'splitlines', 'rfind', 'format', 'zfill', 'title'):
    setattr(SymStr, _n, _mk(_n)[2])


class SymInt(int):
    """An integer out of a finite domain, chosen by a symbolic index."""

    def __new__(cls, var, values):
        o = int.__new__(cls, -987654321)
        o.var = var
        o.values = list(values)
        return o

    _set = SymStr._set
    _set2 = SymStr._set2
    _conc = SymStr._conc

    def _pred(self, o, f):
        if isinstance(o, SymInt):
            if z3.eq(o.var, self.var) and len(o.values) == len(self.values):
                idx = [i for i, (v, w) in enumerate(zip(self.values,
                                                        o.values)) if f(v, w)]
                if len(idx) == len(self.values):
                    return True
                return mkbool(z3.Or([self.var == i for i in idx])) \
                    if idx else False
            r = [z3.And(self.var == i, o.var == j)
                 for i, v in enumerate(self.values)
                 for j, w in enumerate(o.values) if f(v, w)]
            if len(r) == len(self.values) * len(o.values):
                return True
            return mkbool(z3.Or(r)) if r else False
        if isinstance(o, SymReal):
            return NotImplemented
        if not is_num(o):
            return NotImplemented
        return self._set(lambda v: f(v, o))

    def __eq__(self, o):
        if not is_num(o):
            return False
        return self._pred(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not is_num(o):
            return True
        return self._pred(o, lambda a, b: a != b)

    def __lt__(self, o): return self._pred(o, lambda a, b: a < b)
    def __le__(self, o): return self._pred(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._pred(o, lambda a, b: a > b)
    def __ge__(self, o): return self._pred(o, lambda a, b: a >= b)
    def __hash__(self): return hash(self._conc())
    def __bool__(self): return bool(self._set(lambda v: v != 0))
    def __index__(self): return self._conc()
    def __int__(self): return self._conc()
    def __float__(self): return float(self._conc())
    def __repr__(self): return repr(self._conc())
    def __str__(self): return str(self._conc())
    def __format__(self, spec): return format(self._conc(), spec)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def _ar(self, o, f):
        if isinstance(o, SymInt):
            return f(self._conc(), o._conc())
        if not is_num(o):
            return NotImplemented
        if isinstance(o, int):
            return SymInt(self.var, [f(v, o) for v in self.values])
        return f(self._conc(), o)

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __rmul__(self, o): return self._ar(o, lambda a, b: b * a)
    def __mod__(self, o): return self._ar(o, lambda a, b: a % b)
    def __floordiv__(self, o): return self._ar(o, lambda a, b: a // b)
    def __neg__(self): return SymInt(self.var, [-v for v in self.values])
    def __truediv__(self, o): return self._conc() / o
    def __pow__(self, o): return self._conc() ** o


# --------------------------------------------------------------------------
# conditions with a tolerance twin
# --------------------------------------------------------------------------
class Cond:
    """strong: exact formula;  weak: formula with a float tolerance
    (strong implies weak).  A violation must break the weak one."""
    __slots__ = ('strong', 'weak', 'sides', 'parts', 'rtol')

    def __init__(self, strong, weak=None):
        self.sides = self.parts = None
        self.strong = strong
        self.weak = strong if weak is None else weak


# --------------------------------------------------------------------------
# execution context
# --------------------------------------------------------------------------
class Ctx:
    def __init__(self, prefix, opts, stats):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.new = []
        self.solver = z3.Solver()
        # feas_ms=0: every branch counts as feasible (sound: the obligations
        # carry the path condition, infeasible paths discharge them vacuously)
        self.nofeas = opts.get('feas_ms', 3000) == 0
        self.solver.set('timeout', opts.get('feas_ms', 3000) or 300)
        self.opts = opts
        self.stats = stats
        self.pc = []            # everything asserted (assumptions, branches)
        self.roots = {}
        self.ufs = {}
        self.uflist = {}
        self.inputs = {}        # name -> ('real', var, nanvar) ...
        self.counter = 0
        self.hasuf = False
        self.funcs = set()
        self.unknown_feas = 0
        self.polyrules = {}     # atom -> (power, polynomial)
        self.fracrules = {}     # atom -> (power, numerator, denominator)
        self.polyatoms = {}
        from .poly import Norm
        self.norm = Norm(self)
        from .itv import Itv
        self.itv = Itv(self)
        self.known = {}         # term id -> value decided on this path

    def same(self, a, b):
        return self.norm.same(a, b)

    def polyrule(self, atom, n, e):
        """atom**n == e; used by the normal form when e is a polynomial"""
        from .poly import TooBig
        try:
            num, den = self.norm.frac(e)
        except (TooBig, z3.Z3Exception, RecursionError):
            return
        if den == self.norm.ONE and len(num) <= 30:
            self.polyatoms[atom.get_id()] = atom
            self.polyrules[atom.get_id()] = (n, num)
        else:
            self.fracrules[atom.get_id()] = (n, num, den)

    # -- assertions --------------------------------------------------------
    def add(self, e):
        if isinstance(e, bool):
            if not e:
                raise PathAbort()
            return
        self.pc.append(e)
        self.solver.add(e)

    def _check(self, *es):
        if self.nofeas and es:
            return z3.unknown
        t = time.time()
        r = self.solver.check(*es)
        self.stats['feas'] += 1
        self.stats['solver_s'] += time.time() - t
        return r

    def decide(self, e, note=None):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        v = self._known(e)
        if v is not None:
            return v
        c = self.norm.comparison(e)
        if c is not None:
            v = self.norm.recall(c)
        if v is not None:
            return v
        v = self._decide(e)
        self.itv.refine(e, v)
        if c is not None:
            self.norm.remember(c, v)
        self.known[e.get_id()] = (v, e)
        n = z3.simplify(z3.Not(e))
        self.known[n.get_id()] = (not v, n)
        return v

    def _known(self, e):
        """Truth value from earlier decisions and input ranges, or None."""
        v = self.known.get(e.get_id())
        if v is not None:
            return v[0]
        v = self.itv.truth(e)
        if v is not None:
            return v
        if z3.is_not(e):
            v = self._known(e.arg(0))
            return None if v is None else not v
        if z3.is_and(e) or z3.is_or(e):
            stop = z3.is_or(e)
            r = []
            for c in e.children():
                v = self._known(c)
                if v is None:
                    k = self.norm.comparison(c)
                    if k is not None:
                        v = self.norm.recall(k)
                if v is stop:
                    return stop
                r.append(v)
            return None if None in r else not stop
        return None

    def _decide(self, e):
        if self.stats['deadline'] < time.time():
            raise EngineLimit("time budget")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            if isinstance(v, tuple):
                v, forced = v
            else:
                forced = False
            self.trace.append((v, forced))
            if not forced:
                self.add(e if v else z3.Not(e))
            return v
        t = self._check(e)
        if t == z3.unsat:
            v, forced = False, True
        else:
            f = self._check(z3.Not(e))
            if t == z3.unknown or f == z3.unknown:
                self.unknown_feas += 1
            if f == z3.unsat:
                v, forced = True, True
            else:
                # both feasible: take True, queue False
                v, forced = True, False
                self.new.append(list(self.trace) + [(False, False)])
        self.pos += 1
        self.trace.append((v, forced))
        if not forced:
            self.add(e if v else z3.Not(e))
        elif self.opts.get('add_forced', False):
            self.add(e if v else z3.Not(e))
        if len(self.trace) > self.opts.get('max_depth', 400):
            raise EngineLimit("depth bound")
        return v

    def concretise_idx(self, var, n):
        for i in range(n - 1):
            if self.decide(var == i):
                return i
        self.add(var == n - 1)
        return n - 1

    def concretise_int(self, x):
        """Fork over the (bounded) integer values of int(x)."""
        lo, hi = self.opts.get('int_range', (-2, 12))
        e = x.e
        iv = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
        for i in range(lo, hi + 1):
            if self.decide(iv == i):
                return i
        raise EngineLimit("integer out of bound")

    # -- definitional symbols --------------------------------------------------
    def fresh(self, tag):
        self.counter += 1
        return z3.Real(f"_{tag}{self.counter}")

    def root(self, e, n):
        e = z3.simplify(e)
        key = (e.get_id(), n)
        r = self.roots.get(key)
        if r is not None:
            return r[0]
        for (k, m), (y2, e2) in list(self.roots.items()):
            if m == n and self.same(e, e2):
                self.roots[key] = (y2, e)
                return y2
        y = self.fresh(f"root{n}_")
        lo, hi = self.itv.of(e)
        self.itv.set(y, max(lo, 0.0) ** (1.0 / n) * (1 - 1e-9),
                     max(hi, 0.0) ** (1.0 / n) * (1 + 1e-9))
        self.polyrule(y, n, e)
        self.roots[key] = (y, e)
        self.add(y >= 0)
        self.add(ipow(y, n) == e)
        self.add((y == 0) == (e == 0))
        # relate to the other roots of the same radicand
        for (k, m), (y2, e2) in list(self.roots.items()):
            if k == key[0] and m != n:
                g = math.gcd(m, n)
                # y^(n/g) and y2^(m/g) are both x^(1/g)
                self.add(ipow(y, n // g) == ipow(y2, m // g))
        return y

    def unit_bounded(self, e):
        """e is a / sqrt(a*a + other squares)"""
        if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV):
            return False
        a, y = e.arg(0), e.arg(1)
        for (y2, R) in self.roots.values():
            if not z3.eq(y, y2):
                continue
            todo, found = [R], False
            while todo:
                t = todo.pop()
                if z3.is_add(t):
                    todo.extend(t.children())
                    continue
                fs, st, cnt = [], [t], {}
                while st:
                    f = st.pop()
                    if z3.is_mul(f):
                        st.extend(f.children())
                    else:
                        fs.append((f, 1))
                for f, k in fs:
                    if z3.is_rational_value(f):
                        if f.as_fraction() < 0:
                            return False
                        continue
                    if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_POWER \
                            and z3.is_rational_value(f.arg(1)) \
                            and f.arg(1).as_fraction().denominator == 1:
                        f, k = f.arg(0), int(f.arg(1).as_fraction())
                    o = cnt.setdefault(f.get_id(), [f, 0])
                    o[1] += k
                if any(k % 2 for _, k in cnt.values()):
                    return False
                b = rv(1)
                for f, k in cnt.values():
                    b = b * ipow(f, k // 2)
                found = found or z3.eq(a, b) or self.same(a, b)
            return found
        return False

    def _apply(self, name, e):
        """A fresh real stands for name(e); the function axioms (congruence,
        monotonicity, inverse) are instantiated for the ground terms, so the
        queries stay quantifier-free nonlinear real arithmetic."""
        e = z3.simplify(e)
        key = (name, e.get_id())
        r = self.ufs.get(key)
        if r is not None:
            return r[0], True
        for k, v in list(self.ufs.items()):
            if len(k) == 2 and k[0] == name and self.same(e, v[1]):
                self.ufs[key] = v
                return v[0], True
        y = self.fresh(name.replace('.', '_').replace('-', 'm') + '_')
        self.ufs[key] = (y, e)
        self.hasuf = True
        return y, False

    def _register(self, name, e, y):
        e = z3.simplify(e)
        self.ufs.setdefault((name, e.get_id()), (y, e))

    def _congr(self, name, e, y):
        for (e2, y2) in self.uflist.setdefault(name, []):
            self.add(z3.Implies(e == e2, y == y2))
        self.uflist[name].append((e, y))

    def _mono(self, name, e, y, inc=True):
        for (e2, y2) in self.uflist.setdefault(name, []):
            self.add((e < e2) == ((y < y2) if inc else (y > y2)))
            self.add((e == e2) == (y == y2))
        self.uflist[name].append((e, y))

    def powf(self, x, fp):
        """x**fp for x > 0 and an exponent that is no small rational."""
        if fp < 0:
            return 1 / self.powf(x, -fp)
        e = z3.simplify(x.e)
        for (k, n), (y, rad) in self.roots.items():
            if y.eq(e):
                return power(mkreal(rad, x.nan), fp / n)
        if self.opts.get('split_pow') and fp > 1:
            k = math.floor(fp)
            return mkreal(ipow(x.e, k), x.nan) * self.powf(
                x, round(fp - k, 12))
        name = f"pow_{fp!r}"
        y, old = self._apply(name, x.e)
        if not old:
            lo, hi = self.itv.of(e)
            try:
                lo = max(lo, 1e-290) ** fp * (1 - 1e-9)
                hi = hi ** fp * (1 + 1e-9)
            except OverflowError:
                lo, hi = 1e-300, None
            self.itv.set(y, max(lo, 1e-300), hi)
            self.add(y > 0)
            one = rv(1)
            pos = fp > 0
            self.add((x.e == one) == (y == one))
            self.add((x.e > one) == ((y > one) if pos else (y < one)))
            self._mono(name, x.e, y, pos)
        return mkreal(y, x.nan)

    def _log_combination(self, name, e):
        """exp(c0 + sum c_i*log(b_i)) as (c0, [(b_i, c_i)]), or None."""
        kind = 'log' if name == 'exp' else 'log10'
        logs = {y.get_id(): b for (k, _), (y, b) in
                [(k, v) for k, v in self.ufs.items() if len(k) == 2]
                if k == kind}
        if not logs:
            return None
        e = z3.simplify(e, som=True)
        c0, out = Fraction(0), []
        for t in (e.children() if z3.is_add(e) else [e]):
            c = Fraction(1)
            if z3.is_rational_value(t):
                c0 += t.as_fraction()
                continue
            if z3.is_mul(t) and t.num_args() == 2 \
                    and z3.is_rational_value(t.arg(0)):
                c, t = t.arg(0).as_fraction(), t.arg(1)
            b = logs.get(t.get_id())
            if b is None or c.denominator > 6 or abs(c) > 12:
                return None
            out.append((b, c))
        return (c0, out) if out else None

    def uf(self, name, x):
        if name in ('exp', 'exp10') and \
                (name, z3.simplify(x.e).get_id()) not in self.ufs:
            lc = self._log_combination(name, x.e)
            if lc is not None:
                r = (10.0 if name == 'exp10' else math.e) ** float(lc[0]) \
                    if lc[0] else 1
                v = SymReal(rv(r))
                for b, c in lc[1]:
                    v = v * power(SymReal(b), c)
                return mkreal(v.e, x.nan)
        if name in ('sin', 'cos'):
            e = z3.simplify(x.e)
            if (name, e.get_id()) not in self.ufs:
                for k, v in list(self.ufs.items()):
                    if len(k) == 2 and k[0] == name and self.same(-e, v[1]):
                        return mkreal(v[0] if name == 'cos' else -v[0], x.nan)
        y, old = self._apply(name, x.e)
        if old:
            return mkreal(y, x.nan)
        e = x.e
        if name in ('exp', 'exp10'):
            inv = 'log' if name == 'exp' else 'log10'
            lo, hi = self.itv.of(e)
            b = 10.0 if name == 'exp10' else math.e
            self.itv.set(y, b ** lo * (1 - 1e-9) if lo > -290 else 1e-300,
                         b ** hi * (1 + 1e-9) if hi < 290 else None)
            self.add(y > 0)
            self.add((e > 0) == (y > 1))
            self.add((e < 0) == (y < 1))
            # ground bounds at the integers around (decimal) zero
            if name == 'exp10':
                for k in self.opts.get('exp10_pts', ()):
                    self.add((e > k) == (y > rv(Fraction(10) ** k)))
                    self.add((e == k) == (y == rv(Fraction(10) ** k)))
            self._mono(name, e, y, True)
            self._register(inv, y, e)
            self._mono(inv, y, e, True)
        elif name in ('log', 'log10'):
            inv = 'exp' if name == 'log' else 'exp10'
            self.add((e > 1) == (y > 0))
            self.add((e < 1) == (y < 0))
            if name == 'log10':
                for k in self.opts.get('exp10_pts', ()):
                    self.add((e > rv(Fraction(10) ** k)) == (y > k))
                    self.add((e == rv(Fraction(10) ** k)) == (y == k))
            self._mono(name, e, y, True)
            self._register(inv, y, e)
            self._mono(inv, y, e, True)
        elif name in ('sin', 'cos'):
            o = 'cos' if name == 'sin' else 'sin'
            g, _ = self._apply(o, e)
            s, c = (y, g) if name == 'sin' else (g, y)
            self.add(s * s + c * c == 1)
            self.polyrule(s, 2, 1 - c * c)
            for v in (s, c):
                self.itv.set(v, -1, 1)
                self.add(v >= -1)
                self.add(v <= 1)
            self.add(z3.Implies(e == 0, z3.And(s == 0, c == 1)))
            self._congr('sin', e, s)
            self._congr('cos', e, c)
        elif name in ('arcsin', 'arccos', 'arctan'):
            pi2 = rv(math.pi / 2)
            if name == 'arccos':
                self.itv.set(y, 0, math.pi)
                self.add(y >= 0)
                self.add(y <= rv(math.pi))
            else:
                self.itv.set(y, -math.pi / 2, math.pi / 2)
                self.add(y >= -pi2)
                self.add(y <= pi2)
            if name != 'arctan':
                o = self.root(1 - e * e, 2)
                self._register('sin', y, e if name == 'arcsin' else o)
                self._register('cos', y, o if name == 'arcsin' else e)
            else:
                self.add((e > 0) == (y > 0))
                self.add((e < 0) == (y < 0))
            self._mono(name, e, y, name != 'arccos')
        return mkreal(y, x.nan)

    def round_abs(self, x, n):
        name = f"round{n}"
        y, old = self._apply(name, x.e)
        if not old:
            h = rv(Fraction(1, 2 * 10 ** n))
            self.add(y - x.e <= h)
            self.add(x.e - y <= h)
            for (e2, y2) in self.uflist.setdefault(name, []):
                self.add(z3.Implies(x.e <= e2, y <= y2))
                self.add(z3.Implies(x.e >= e2, y >= y2))
            self.uflist[name].append((x.e, y))
        return mkreal(y, x.nan)

    def uf2(self, name, x, y):
        self.hasuf = True
        k = (name, z3.simplify(x.e).get_id(), z3.simplify(y.e).get_id())
        r = self.ufs.get(k)
        if r is None:
            z = self.fresh(name + '2_')
            self.ufs[k] = (z, x.e, y.e)
            if name == 'pow':
                self.add(z3.Implies(x.e > 0, z > 0))
            for (a, b, z2) in self.uflist.setdefault(name, []):
                self.add(z3.Implies(z3.And(a == x.e, b == y.e), z == z2))
            self.uflist[name].append((x.e, y.e, z))
        else:
            z = r[0]
        return mkreal(z, _zor(x.nan, y.nan))
