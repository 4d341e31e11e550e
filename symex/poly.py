"""Normal form of rational expressions over atoms (inputs, roots, function
values).  Used (a) to recognise that two radicands / arguments are the same
term and (b) to hand the solver the expanded difference of the two sides of
an equation instead of two differently nested terms."""
from fractions import Fraction

from .core import z3

LIMIT = 4000


class TooBig(Exception):
    pass


class Norm:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.keep = []
        self.decided = []

    # polynomials: dict monomial -> Fraction, monomial: tuple((atom, k), ...)
    def _mulm(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for v, k in b:
            d[v] = d.get(v, 0) + k
        return tuple(sorted(d.items()))

    def mul(self, p, q):
        if len(p) * len(q) > LIMIT * 8:
            raise TooBig()
        out = {}
        for a, x in p.items():
            for b, y in q.items():
                m = self._mulm(a, b)
                c = out.get(m, 0) + x * y
                if c:
                    out[m] = c
                else:
                    out.pop(m, None)
        if len(out) > LIMIT:
            raise TooBig()
        return self.reduce(out)

    def add(self, p, q, s=1):
        out = dict(p)
        for m, c in q.items():
            x = out.get(m, 0) + s * c
            if x:
                out[m] = x
            else:
                out.pop(m, None)
        if len(out) > LIMIT:
            raise TooBig()
        return out

    def reduce(self, p):
        """sin^2 -> 1 - cos^2 and root powers with polynomial radicands"""
        rules = self.rules
        if not rules:
            return p
        again = True
        while again:
            again = False
            for m in list(p):
                for v, k in m:
                    r = rules.get(v)
                    if r is not None and k >= r[0]:
                        c = p.pop(m)
                        rest = tuple((a, b - (r[0] if a == v else 0))
                                     for a, b in m
                                     if a != v or b > r[0])
                        t = {}
                        for mm, cc in r[1].items():
                            x = self._mulm(rest, mm)
                            t[x] = t.get(x, 0) + c * cc
                        p = self.add(p, t)
                        again = True
                        break
                if again:
                    break
        return p

    @property
    def rules(self):
        return self.ctx.polyrules

    def frac(self, e):
        """(num, den) with polynomial num, den"""
        k = e.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r
        r = self._frac(e)
        self.memo[k] = r
        self.keep.append(e)
        return r

    ONE = {(): Fraction(1)}

    def _frac(self, e):
        ONE = self.ONE
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({(): f} if f else {}), ONE
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_ADD or d == z3.Z3_OP_SUB:
            n, m = self.frac(ch[0])
            s = 1 if d == z3.Z3_OP_ADD else -1
            for c in ch[1:]:
                a, b = self.frac(c)
                if b == m:
                    n = self.add(n, a, s)
                else:
                    n = self.add(self.mul(n, b), self.mul(a, m), s)
                    m = self.mul(m, b)
            return n, m
        if d == z3.Z3_OP_UMINUS:
            n, m = self.frac(ch[0])
            return {k: -v for k, v in n.items()}, m
        if d == z3.Z3_OP_MUL:
            n, m = ONE, ONE
            for c in ch:
                a, b = self.frac(c)
                n, m = self.mul(n, a), self.mul(m, b)
            return n, m
        if d == z3.Z3_OP_DIV:
            a, b = self.frac(ch[0])
            c, f = self.frac(ch[1])
            if not c:
                raise TooBig()
            return self.mul(a, f), self.mul(b, c)
        if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) \
                and ch[1].denominator_as_long() == 1:
            k = ch[1].numerator_as_long()
            a, b = self.frac(ch[0])
            if abs(k) > (16 if len(a) > 1 or len(b) > 1 else 128):
                raise TooBig()
            if k < 0:
                a, b, k = b, a, -k
            n, m = ONE, ONE
            for _ in range(k):
                n, m = self.mul(n, a), self.mul(m, b)
            return n, m
        if d == z3.Z3_OP_ITE or ch:
            # opaque: an atom identified by its term
            if e.sort() != z3.RealSort():
                raise TooBig()
        k = e.get_id()
        self.keep.append(e)
        self.ctx.polyatoms[k] = e
        return {((k, 1),): Fraction(1)}, ONE

    def eliminate(self, p):
        """p == 0 up to non-zero factors, using y**n == N/D"""
        for _ in range(40):
            if not p:
                return p
            tops = {}
            for m in p:
                for v, k in m:
                    r = self.ctx.fracrules.get(v)
                    if r is not None and k >= r[0]:
                        tops[v] = max(tops.get(v, 0), k)
            if not tops:
                return p
            v = max(tops)               # the youngest root first
            n, N, D = self.ctx.fracrules[v]
            hi, lo = {}, {}
            for m, c in p.items():
                k = dict(m).get(v, 0)
                if k >= n:
                    mm = tuple((a, b - (n if a == v else 0)) for a, b in m
                               if a != v or b > n)
                    hi[mm] = hi.get(mm, 0) + c
                else:
                    lo[m] = c
            p = self.add(self.mul(hi, N), self.mul(lo, D))
        return p

    # comparisons: (op, numerator, denominator, flip) stands for
    # n/d <= 0 (negated if flip) or n/d == 0
    def comparison(self, e):
        neg = False
        while z3.is_not(e):
            e, neg = e.arg(0), not neg
        if not z3.is_app(e):
            return None
        k = e.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                     z3.Z3_OP_EQ) or e.arg(0).sort() != z3.RealSort():
            return None
        x, y = e.arg(0), e.arg(1)
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            x, y = y, x
        if k in (z3.Z3_OP_LT, z3.Z3_OP_GT):
            x, y, neg = y, x, not neg
        try:
            a, b = self.frac(x)
            c, d = self.frac(y)
            if b == d:
                n, m = self.add(a, c, -1), b
            else:
                n = self.add(self.mul(a, d), self.mul(c, b), -1)
                m = self.mul(b, d)
        except (TooBig, z3.Z3Exception, RecursionError):
            return None
        return ('eq' if k == z3.Z3_OP_EQ else 'le', n, m, neg)

    def recall(self, c):
        op, n, m, neg = c
        v = self.signs(c)
        if v is not None:
            return v
        if len(n) > 400 or len(m) > 400:
            return None
        for (o2, n2, m2, v2) in self.decided:
            if o2 != op or len(n) * len(m2) > 20000 \
                    or len(n2) * len(m) > 20000:
                continue
            try:
                if m == m2:
                    a, b = n, n2
                else:
                    a, b = self.mul(n, m2), self.mul(n2, m)
                if self._prop(a, b, op == 'eq') or not self.eliminate(
                        self.add(a, b, -1)):
                    return v2 != neg
            except (TooBig, z3.Z3Exception, RecursionError):
                pass
        return None

    @staticmethod
    def _prop(a, b, anysign):
        """b is a positive (any non-zero) multiple of a"""
        if len(a) != len(b) or not a:
            return False
        k = next(iter(a))
        if k not in b:
            return False
        f = b[k] / a[k]
        if f < 0 and not anysign:
            return False
        return all(b.get(m) == c * f for m, c in a.items())

    def remember(self, c, v):
        op, n, m, neg = c
        self.decided.append((op, n, m, v != neg))

    def _range(self, p):
        lo = hi = 0.0
        for mono, c in p.items():
            a = b = float(c)
            for at, k in mono:
                x, y = self.ctx.itv.of(self.ctx.polyatoms[at])
                if x < 0:
                    if k % 2 or True:
                        return None
                try:
                    x, y = x**k, y**k
                except OverflowError:
                    return None
                if a >= 0:
                    a, b = (a * x if x else 0.0), (b * y if b else 0.0)
                else:
                    a, b = (a * y if a else 0.0), (b * x if x else 0.0)
            if a != a or b != b:
                return None
            lo, hi = lo + a, hi + b
        return lo, hi

    def signs(self, c):
        """decide by the signs of the monomials"""
        op, n, m, neg = c
        if len(n) > 200 or len(m) > 200:
            return None
        if not n:
            return not neg
        if m == self.ONE:
            s = 1
        else:
            r = self._range(m)
            if r is None or r[0] <= 0 <= r[1]:
                # a denominator of one sign: it is not zero where evaluated
                if r is None or (r[0] < 0 < r[1]):
                    return None
            s = 1 if r[1] > 0 else -1
        r = self._range(n)
        if r is None:
            return None
        lo, hi = r if s > 0 else (-r[1], -r[0])
        if op == 'eq':
            # rounding slack: only an all-one-sign sum of positive terms
            if lo > 0 and all(x > 0 for x in n.values()) or \
                    hi < 0 and all(x < 0 for x in n.values()):
                return neg
            return None
        if all(x > 0 for x in n.values()) or all(x < 0 for x in n.values()):
            if hi <= 0:
                return not neg
            if lo > 0:
                return neg
        return None

    # the solver's own verdict on an identity of the two normal forms
    def _term(self, p):
        ts = []
        for m, c in p.items():
            fs = [z3.RealVal(str(c))]
            for at, k in m:
                fs += [z3.Real('atom%d' % at)] * k
            ts.append(z3.Product(fs) if len(fs) > 1 else fs[0])
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def ask(self, a, b, ms=400):
        """'unsat': the normal forms of a and b cannot differ"""
        n, m = self.frac(a)
        p, q = self.frac(b)
        if len(n) * len(q) > 3000 or len(p) * len(m) > 3000:
            return None
        s = z3.Solver()
        s.set('timeout', ms)
        seen, todo = set(), [x for r in (n, m, p, q) for mo in r
                             for x, _ in mo]
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            x = z3.Real('atom%d' % v)
            r = self.ctx.fracrules.get(v)
            if r is not None:
                s.add(z3.Product([x] * r[0]) * self._term(r[2])
                      == self._term(r[1]))
                todo += [y for t in r[1:] for mo in t for y, _ in mo]
            r = self.ctx.polyrules.get(v)
            if r is not None:
                s.add(z3.Product([x] * r[0]) == self._term(r[1]))
                todo += [y for mo in r[1] for y, _ in mo]
        s.add(self._term(n) * self._term(q) != self._term(p) * self._term(m))
        return str(s.check())

    def same(self, a, b):
        try:
            n, m = self.frac(a)
            p, q = self.frac(b)
            if m == q:
                return n == p or not self.eliminate(self.add(n, p, -1))
            return not self.eliminate(
                self.add(self.mul(n, q), self.mul(p, m), -1))
        except (TooBig, z3.Z3Exception, RecursionError):
            return False

    def multiples(self, a, b):
        """(c1, c2) when a = c1 * t and b = c2 * t for one term t"""
        try:
            n, m = self.frac(a)
            p, q = self.frac(b)
            x, y = self.mul(n, q), self.mul(p, m)
        except (TooBig, z3.Z3Exception, RecursionError):
            return None
        if len(x) != 1 or list(x) != list(y):
            return None
        return list(x.values())[0], list(y.values())[0]

    def coefficient(self, e):
        """k when e = k * t for a product t of atoms"""
        try:
            n, m = self.frac(e)
        except (TooBig, z3.Z3Exception, RecursionError):
            return None
        if len(n) != 1 or len(m) != 1:
            return None
        return list(n.values())[0] / list(m.values())[0]
