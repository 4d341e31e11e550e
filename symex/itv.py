"""Interval bounds of terms from the declared input ranges (cheap answers to
branch conditions before the solver is asked)."""
import math

from .core import z3

INF = math.inf
ALL = (-INF, INF)


def _out(lo, hi):
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    if lo not in (INF, -INF) and lo != 0:
        lo -= abs(lo) * 1e-9
    if hi not in (INF, -INF) and hi != 0:
        hi += abs(hi) * 1e-9
    return lo, hi


def _m(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


class Itv:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.keep = []
        self.var = {}           # const id -> interval, strictness

    def set(self, v, lo, hi):
        self.var[v.get_id()] = (-INF if lo is None else float(lo),
                                INF if hi is None else float(hi))
        self.keep.append(v)

    def refine(self, e, v):
        """Tighten the range of an input after the decision e == v."""
        if z3.is_not(e):
            return self.refine(e.arg(0), not v)
        if v and z3.is_and(e) or not v and z3.is_or(e):
            for c in e.children():
                self.refine(c, v)
            return
        d = e.decl().kind()
        if d not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            return
        x, y = e.arg(0), e.arg(1)
        up = d in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        if z3.is_rational_value(x):
            x, y, up = y, x, not up
        if not z3.is_rational_value(y) or x.num_args() \
                or x.get_id() not in self.var:
            return
        strict = (d in (z3.Z3_OP_LT, z3.Z3_OP_GT)) == v
        if not v:
            up = not up
        a, b = self.of(y)
        lo, hi = self.var[x.get_id()]
        if up:
            new = (lo, min(hi, -1e-300 if b == 0 and strict else b))
        else:
            new = (max(lo, 1e-300 if a == 0 and strict else a), hi)
        if new != (lo, hi) and new[0] <= new[1]:
            self.var[x.get_id()] = new
            self.memo.clear()

    def of(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._of(e)
            self.memo[k] = r
            self.keep.append(e)
        return r

    def _of(self, e):
        if z3.is_rational_value(e):
            try:
                x = e.numerator_as_long() / e.denominator_as_long()
            except OverflowError:
                return ALL
            if x == 0 and e.numerator_as_long() != 0:
                return (0.0, 1e-300) if e.numerator_as_long() > 0 \
                    else (-1e-300, 0.0)
            return _out(x, x)
        d = e.decl().kind()
        ch = e.children()
        if not ch:
            return self.var.get(e.get_id(), ALL)
        if d == z3.Z3_OP_ADD or d == z3.Z3_OP_SUB:
            lo, hi = self.of(ch[0])
            for c in ch[1:]:
                a, b = self.of(c)
                if d == z3.Z3_OP_SUB:
                    a, b = -b, -a
                lo, hi = lo + a, hi + b
            # cancellation: absolute slack from the operands
            return _out(lo, hi)
        if d == z3.Z3_OP_UMINUS:
            a, b = self.of(ch[0])
            return -b, -a
        if d == z3.Z3_OP_MUL:
            cnt = {}
            for c in ch:
                cnt.setdefault(c.get_id(), [c, 0])[1] += 1
            lo = hi = 1.0
            for c, n in cnt.values():
                a, b = self.of(c)
                if n % 2 == 0:
                    if a >= 0:
                        a, b = a, b
                    elif b <= 0:
                        a, b = -b, -a
                    else:
                        a, b = 0.0, max(-a, b)
                try:
                    a, b = (a**n, b**n) if a >= 0 or n % 2 else (0.0, b**n)
                except OverflowError:
                    return ALL
                v = [_m(lo, a), _m(lo, b), _m(hi, a), _m(hi, b)]
                lo, hi = _out(min(v), max(v))
            return lo, hi
        if d == z3.Z3_OP_DIV:
            a, b = self.of(ch[0])
            c, f = self.of(ch[1])
            if c <= 0 <= f:
                if c == 0 and a >= 0:
                    return 0.0, INF      # the denominator is not zero here
                return ALL
            v = []
            for x in (a, b):
                for y in (c, f):
                    if x in (INF, -INF) and y in (INF, -INF):
                        v += [0.0, x if y > 0 else -x]
                    else:
                        v.append(x / y if y not in (INF, -INF) else 0.0)
            return _out(min(v), max(v))
        if d == z3.Z3_OP_ITE and e.sort() == z3.RealSort():
            a, b = self.of(ch[1])
            c, f = self.of(ch[2])
            return min(a, c), max(b, f)
        return ALL

    def truth(self, e):
        """True / False / None for a (simplified) comparison."""
        if z3.is_not(e):
            r = self.truth(e.arg(0))
            return None if r is None else not r
        d = e.decl().kind()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if d in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            r = [self.truth(c) for c in e.children()]
            stop = d == z3.Z3_OP_OR
            if stop in r:
                return stop
            return None if None in r else not stop
        if d == z3.Z3_OP_EQ and z3.is_bool(e.arg(0)):
            a = self.truth(e.arg(0))
            b = None if a is None else self.truth(e.arg(1))
            return None if b is None else a == b
        if d in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                 z3.Z3_OP_EQ):
            x, y = e.arg(0), e.arg(1)
            if x.sort() != z3.RealSort():
                return None
            a, b = self.of(x)
            c, f = self.of(y)
            if d in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b, c, f = c, f, a, b
                d = z3.Z3_OP_LE if d == z3.Z3_OP_GE else z3.Z3_OP_LT
            if d == z3.Z3_OP_EQ:
                return False if (b < c or f < a) else None
            if b < c or (d == z3.Z3_OP_LE and b <= c):
                return True
            if f < a or (d == z3.Z3_OP_LT and f <= a):
                return False
        return None
