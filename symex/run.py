"""Harness API, path exploration, obligation discharge, replay, evidence."""
import json
import math
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

from . import core
from .poly import TooBig
from .core import (Cond, Ctx, EngineLimit, PathAbort, PathUndefined, SymBool,
                   SymInt, SymReal, SymStr, mkbool, rv, z3, zbool, _nan_z)
from .shims import symbolic_world, has_sym

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RTOL = 1e-7
ATOL = 1e-12


# --------------------------------------------------------------------------
# harness registry
# --------------------------------------------------------------------------
class Harness:
    def __init__(self, fn, prop, name, opts, bounds, stubs, world):
        self.fn, self.prop, self.name = fn, prop, name
        self.opts, self.bounds, self.stubs = opts, bounds, stubs
        self.world = world


def harness(registry, prop, bounds='', stubs=(), world=None, **opts):
    def deco(fn):
        registry.append(Harness(fn, prop, fn.__name__, opts, bounds,
                                list(stubs), world))
        return fn
    return deco


# --------------------------------------------------------------------------
# symbolic S
# --------------------------------------------------------------------------
def _abs(e):
    return z3.If(e >= 0, e, -e)


class SymTable(dict):
    """Lookup of a (partly) symbolic tuple in a concrete dict: the result is
    one symbolic string constrained by the whole table, not a fork per key."""

    def __init__(self, ctx, d):
        dict.__init__(self, d)
        self.ctx = ctx
        self.n = 0

    @staticmethod
    def _form(comps, rows):
        """formula: (comps) is one of rows (tuples of indices)"""
        if not comps:
            return z3.BoolVal(True)
        by = {}
        for r in rows:
            by.setdefault(r[0], set()).add(r[1:])
        groups = {}
        for i, rest in by.items():
            groups.setdefault(frozenset(rest), []).append(i)
        out = []
        for rest, idx in groups.items():
            here = (z3.BoolVal(True) if len(idx) == len(comps[0].values)
                    else z3.Or([comps[0].var == i for i in idx]))
            out.append(z3.And(here, SymTable._form(comps[1:], rest)))
        return z3.Or(out)

    def _find(self, key):
        comps = [k for k in key if isinstance(k, SymStr)]
        inv = []
        for c in comps:
            m = {}
            for i, v in enumerate(c.values):
                m.setdefault(v, []).append(i)
            inv.append(m)
        res = {}
        for k, v in self.items():
            if not isinstance(k, tuple) or len(k) != len(key):
                continue
            rows, j, ok = [()], 0, True
            for a, b in zip(key, k):
                if isinstance(a, SymStr):
                    ii = inv[j].get(b, [])
                    j += 1
                    rows = [r + (i,) for r in rows for i in ii]
                elif not (a is b or a == b):
                    rows = []
                if not rows:
                    ok = False
                    break
            if ok:
                res.setdefault(v, set()).update(rows)
        return comps, {v: z3.simplify(self._form(comps, r))
                       for v, r in res.items()}

    def get(self, key, default=None):
        if not (isinstance(key, tuple)
                and any(isinstance(k, SymStr) for k in key)):
            return dict.get(self, key, default)
        comps, res = self._find(key)
        vals = sorted(res, key=repr)
        if not vals or not self.ctx.decide(z3.Or([res[v] for v in vals])):
            return default
        if len(vals) == 1:
            return vals[0]
        self.n += 1
        x = z3.FreshInt('tab')
        for i, v in enumerate(vals):
            self.ctx.add((x == i) == res[v])
        self.ctx.add(z3.And(x >= 0, x < len(vals)))
        return SymStr(x, vals)

    def __getitem__(self, key):
        r = self.get(key, _MISSING)
        if r is _MISSING:
            raise KeyError(key)
        return r

    def __contains__(self, key):
        return self.get(key, _MISSING) is not _MISSING


_MISSING = object()


class SymS:
    symbolic = True

    def __init__(self, ctx, sink):
        self.ctx = ctx
        self.sink = sink
        self.reached = []

    # inputs
    def real(self, name, lo=None, hi=None, nan=False, lo_open=False,
             hi_open=False, integer=False):
        v = z3.Real(name)
        n = z3.Bool(name + '#nan') if nan else False
        self.ctx.inputs[name] = ('real', v, n, lo, hi)
        self.ctx.itv.set(v, lo, hi)
        if lo is not None:
            self.ctx.add(v > rv(lo) if lo_open else v >= rv(lo))
        if hi is not None:
            self.ctx.add(v < rv(hi) if hi_open else v <= rv(hi))
        if integer:
            i = z3.Int(name + '#int')
            self.ctx.add(v == z3.ToReal(i))
        return SymReal(v, n)

    def flag(self, name):
        b = z3.Bool(name)
        self.ctx.inputs[name] = ('flag', b)
        return self.ctx.decide(b)

    def boolean(self, name):
        b = z3.Bool(name)
        self.ctx.inputs[name] = ('flag', b)
        return SymBool(b)

    def enum(self, name, values):
        v = z3.Int(name)
        values = list(values)
        self.ctx.inputs[name] = ('enum', v, values)
        self.ctx.add(z3.And(v >= 0, v < len(values)))
        return SymStr(v, values)

    def intenum(self, name, values):
        v = z3.Int(name)
        values = list(values)
        self.ctx.inputs[name] = ('enum', v, values)
        self.ctx.add(z3.And(v >= 0, v < len(values)))
        return SymInt(v, values)

    def pick(self, name, values):
        v = z3.Int(name)
        values = list(values)
        self.ctx.inputs[name] = ('enum', v, values)
        self.ctx.add(z3.And(v >= 0, v < len(values)))
        return values[self.ctx.concretise_idx(v, len(values))]

    def val(self, x):
        return x

    # logic
    def assume(self, c):
        c = zbool(c)
        self.ctx.add(z3.simplify(c))
        if z3.is_false(z3.simplify(c)):
            raise PathAbort()

    def prune(self):
        """Abort the path now if the assumptions made it infeasible."""
        if self.ctx._check() == z3.unsat:
            raise PathAbort()

    def _both(self, c):
        if isinstance(c, Cond):
            return c
        return Cond(zbool(c))

    def eq(self, a, b, rtol=RTOL, atol=ATOL):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if a is None or b is None:
                return Cond(z3.BoolVal(a is b))
            return Cond(zbool(a == b))
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return Cond(zbool(a) == zbool(b))
        if isinstance(a, SymInt) or isinstance(b, SymInt):
            return Cond(zbool(a == b))
        A, B = SymReal.lift(a), SymReal.lift(b)
        if A is None or B is None:
            return Cond(z3.BoolVal(False))
        if isinstance(A, tuple) or isinstance(B, tuple):
            return Cond(z3.BoolVal(A == B if isinstance(A, tuple)
                                   and isinstance(B, tuple) else False))
        na, nb = _nan_z(A.nan), _nan_z(B.nan)
        strong = A.e == B.e
        weak = _abs(A.e - B.e) <= rv(rtol) * (_abs(A.e) + _abs(B.e)) + rv(atol)
        if A.nan is False and B.nan is False:
            r = Cond(strong, weak)
            r.sides, r.rtol = (A.e, B.e), rtol
            return r
        both = z3.And(na, nb)
        none = z3.And(z3.Not(na), z3.Not(nb))
        return Cond(z3.Or(both, z3.And(none, strong)),
                    z3.Or(both, z3.And(none, weak)))

    def le(self, a, b, rtol=RTOL, atol=ATOL):
        A, B = SymReal.lift(a), SymReal.lift(b)
        if isinstance(A, tuple) or isinstance(B, tuple):
            return Cond(zbool(a <= b))
        nn = z3.And(z3.Not(_nan_z(A.nan)), z3.Not(_nan_z(B.nan)))
        tol = rv(rtol) * (_abs(A.e) + _abs(B.e)) + rv(atol)
        return Cond(z3.And(nn, A.e <= B.e), z3.And(nn, A.e <= B.e + tol))

    def ge(self, a, b, **k):
        return self.le(b, a, **k)

    def lt(self, a, b):
        """strict in exact arithmetic, non-strict within tolerance"""
        A, B = SymReal.lift(a), SymReal.lift(b)
        if isinstance(A, tuple) or isinstance(B, tuple):
            return Cond(zbool(a < b))
        nn = z3.And(z3.Not(_nan_z(A.nan)), z3.Not(_nan_z(B.nan)))
        tol = rv(RTOL) * (_abs(A.e) + _abs(B.e)) + rv(ATOL)
        return Cond(z3.And(nn, A.e < B.e), z3.And(nn, A.e < B.e + tol))

    def isnan(self, a):
        if isinstance(a, SymReal):
            return Cond(_nan_z(a.nan))
        if a is None or isinstance(a, str):
            return Cond(z3.BoolVal(False))
        return Cond(z3.BoolVal(bool(np.isnan(a))))

    def And(self, *cs):
        cs = [self._both(c) for c in cs]
        r = Cond(z3.And([c.strong for c in cs]),
                 z3.And([c.weak for c in cs]))
        r.parts = cs
        return r

    def Or(self, *cs):
        cs = [self._both(c) for c in cs]
        return Cond(z3.Or([c.strong for c in cs]),
                    z3.Or([c.weak for c in cs]))

    def Not(self, c):
        return Cond(z3.Not(zbool(c)))

    def implies(self, h, c):
        h, c = zbool(h), self._both(c)
        return Cond(z3.Implies(h, c.strong), z3.Implies(h, c.weak))

    def iff(self, a, b):
        return Cond(zbool(a) == zbool(b))

    def decide(self, c):
        return self.ctx.decide(zbool(c))

    def classify(self, x, f):
        """f(x) for a symbolic string, forking only on distinct results."""
        if not isinstance(x, (SymStr, SymInt)):
            return f(x)
        groups = {}
        for i, v in enumerate(x.values):
            groups.setdefault(f(v), []).append(i)
        items = list(groups.items())
        for r, idx in items[:-1]:
            if self.ctx.decide(z3.Or([x.var == i for i in idx])):
                return r
        return items[-1][0]

    def table(self, d):
        """A dict with tuple keys that may be looked up symbolically."""
        return SymTable(self.ctx, d)

    def reach(self, label):
        self.reached.append(label)

    def check(self, label, c):
        c = self._both(c)
        self.sink.obligation(self.ctx, label, c)

    def fail(self, label):
        self.check(label, False)

    def follows(self, label, vals, facts, concl):
        """facts(vals) hold, and concl(vals) follows from them alone (the
        values are replaced by fresh variables in the second query)."""
        for i, c in enumerate(facts(*vals)):
            self.check('%s: fact %d' % (label, i), c)
        vs = [SymReal(self.ctx.fresh('abs_')) for _ in vals]
        self.sink.isolated(self.ctx, label,
                           [zbool(c) for c in facts(*vs)],
                           self._both(concl(*vs)))

    def note(self, **k):
        pass


# --------------------------------------------------------------------------
# concrete S (replay on unpatched code)
# --------------------------------------------------------------------------
class ConS:
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.failed = []
        self.checked = []
        self.notes = {}

    def real(self, name, lo=None, hi=None, nan=False, lo_open=False,
             hi_open=False, integer=False):
        x = self.values.get(name)
        if x is None:
            x = lo if lo is not None else (hi if hi is not None else 0.0)
        x = np.float64(x)
        if not np.isnan(x):
            if lo is not None and (x <= lo if lo_open else x < lo):
                raise PathAbort()
            if hi is not None and (x >= hi if hi_open else x > hi):
                raise PathAbort()
        elif not nan:
            raise PathAbort()
        return x

    def flag(self, name):
        return bool(self.values.get(name, False))
    boolean = flag

    def enum(self, name, values):
        values = list(values)
        i = int(self.values.get(name, 0))
        if not 0 <= i < len(values):
            raise PathAbort()
        return values[i]
    pick = enum
    intenum = enum

    def val(self, x):
        return x

    def assume(self, c):
        if not bool(c):
            raise PathAbort()

    def prune(self):
        pass

    def eq(self, a, b, rtol=RTOL, atol=ATOL):
        if a is None or b is None:
            return a is b
        if isinstance(a, str) or isinstance(b, str):
            return isinstance(a, str) and isinstance(b, str) and a == b
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= rtol * (abs(a) + abs(b)) + atol

    def le(self, a, b, rtol=RTOL, atol=ATOL):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a <= b
        return a <= b + rtol * (abs(a) + abs(b)) + atol

    def ge(self, a, b, **k):
        return self.le(b, a, **k)

    def lt(self, a, b):
        return self.le(a, b)

    def isnan(self, a):
        try:
            return bool(np.isnan(a))
        except TypeError:
            return False

    def And(self, *cs): return all(bool(c) for c in cs)
    def Or(self, *cs): return any(bool(c) for c in cs)
    def Not(self, c): return not bool(c)
    def implies(self, h, c): return (not bool(h)) or bool(c)
    def iff(self, a, b): return bool(a) == bool(b)
    def decide(self, c): return bool(c)
    def classify(self, x, f): return f(x)
    def table(self, d): return d
    def reach(self, label): pass

    def check(self, label, c):
        self.checked.append(label)
        if not bool(c):
            self.failed.append(label)

    def follows(self, label, vals, facts, concl):
        for i, c in enumerate(facts(*vals)):
            self.check('%s: fact %d' % (label, i), c)
        self.check(label, concl(*vals))

    def fail(self, label):
        self.check(label, False)

    def note(self, **k):
        self.notes.update({a: repr(b) for a, b in k.items()})


class _Alarm(BaseException):
    pass


def concrete_run(h, values, tmax=60):
    """Run the harness on the real, unpatched code.
    Returns (status, failed labels, exception text, checked, notes)."""
    import signal
    S = ConS(values)
    exc = None

    def onalarm(*a):
        raise _Alarm()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(tmax))
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                h.fn(S)
                st = 'ok'
            except PathAbort:
                st = 'rejected'
            except (PathUndefined, EngineLimit) as e:
                st = 'rejected'
            except _Alarm:
                st = 'timeout'
            except Exception as e:
                st = 'exception'
                exc = f"{type(e).__name__}: {e}"
                S.failed.append('unexpected-exception')
                S.notes['traceback'] = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return st, S.failed, exc, S.checked, S.notes


# --------------------------------------------------------------------------
# model handling
# --------------------------------------------------------------------------
def _num(v):
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(30).as_fraction())
    if z3.is_int_value(v):
        return v.as_long()
    return 0.0


def model_values(ctx, m):
    out = {}
    for name, d in ctx.inputs.items():
        if d[0] == 'real':
            if d[2] is not False and z3.is_true(
                    m.eval(d[2], model_completion=True)):
                out[name] = float('nan')
            else:
                out[name] = _num(m.eval(d[1], model_completion=True))
        elif d[0] == 'flag':
            out[name] = z3.is_true(m.eval(d[1], model_completion=True))
        else:
            out[name] = int(_num(m.eval(d[1], model_completion=True)))
    return out


def _solve(assertions, ms, stats, portfolio=True, want_model=True):
    """-> ('unsat'|'sat'|'unknown', model or None)"""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', int(ms))
    s.add(assertions)
    r = s.check()
    res = str(r)
    m = s.model() if r == z3.sat else None
    if r == z3.unknown and portfolio:
        for tac in (('simplify', 'propagate-values', 'solve-eqs',
                     'qfnra-nlsat'), ('qfnra-nlsat',)):
            try:
                s2 = z3.Then(*tac).solver() if len(tac) > 1 \
                    else z3.Tactic(tac[0]).solver()
                s2.set('timeout', int(ms))
                s2.add(assertions)
                r = s2.check()
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                res = str(r)
                m = s2.model() if r == z3.sat else None
                break
    stats['solver_s'] += time.time() - t0
    stats['queries'] += 1
    return res, m


class Sink:
    """Collects and decides the obligations of one harness."""

    def __init__(self, h, stats, opts):
        self.h, self.stats, self.opts = h, stats, opts
        self.cands = []            # (label, values, assertions, ctx)
        self.percand = {}
        self.labels = {}
        self.unknown = []
        self.pathcount = 0

    def isolated(self, ctx, label, facts, c):
        st = self.stats
        L = self.labels.setdefault(label, dict(proved=0, trivial=0, cex=0,
                                               unknown=0, tol=0, skipped=0))
        st['obligations'] += 1
        k = ('isolated', label)
        if k not in self.percand:
            r, _ = _solve(facts + [z3.Not(c.strong)],
                          self.opts.get('ob_ms', 15000), st)
            self.percand[k] = r
        L['proved' if self.percand[k] == 'unsat' else 'unknown'] += 1

    def _identity(self, ctx, c):
        if c.parts:
            return all(self._identity(ctx, p) for p in c.parts)
        e = z3.simplify(c.strong)
        if z3.is_true(e):
            return True
        v = ctx.known.get(e.get_id())
        if (v[0] if v is not None else ctx.itv.truth(e)):
            return True
        return c.sides is not None and self.agree(ctx, *c.sides)

    def _multiples(self, ctx, c):
        """both sides are multiples of one term, equal within tolerance"""
        k = ctx.norm.multiples(*c.sides)
        if k is None:
            return False
        x = z3.Real('term')
        u, v = rv(k[0]) * x, rv(k[1]) * x
        r, _ = _solve([_abs(u - v) > rv(c.rtol) * (_abs(u) + _abs(v))],
                      1000, self.stats)
        return r == 'unsat'

    def agree(self, ctx, a, b):
        """two terms have the same normal form, confirmed by the solver"""
        if not ctx.same(a, b):
            return False
        k = ('identity', z3.simplify(a - b).hash())
        st = self.stats
        if k not in self.percand and st.get('identity_queries', 0) < 400:
            t0 = time.time()
            try:
                r = ctx.norm.ask(a, b)
            except (TooBig, z3.Z3Exception, RecursionError):
                r = None
            self.percand[k] = r
            st['solver_s'] += time.time() - t0
            if r is not None:
                st['queries'] += 1
                st['identity_queries'] = st.get('identity_queries', 0) + 1
        return self.percand.get(k) != 'sat'

    def obligation(self, ctx, label, c):
        st = self.stats
        L = self.labels.setdefault(label, dict(proved=0, trivial=0, cex=0,
                                               unknown=0, tol=0, skipped=0))
        neg = z3.simplify(z3.Not(c.strong))
        st['obligations'] += 1
        if z3.is_false(neg):
            L['trivial'] += 1
            L['proved'] += 1
            return
        if self.percand.get(label, 0) >= self.opts.get('max_cands', 6):
            L['skipped'] += 1
            return
        if time.time() > st['deadline']:
            L['unknown'] += 1
            return
        if self._identity(ctx, c):
            # the expanded difference of the two sides is the zero polynomial
            L['proved'] += 1
            st['identities'] = st.get('identities', 0) + 1
            return
        if c.sides is not None and self._multiples(ctx, c):
            L['tol'] += 1
            return
        ms = self.opts.get('ob_ms', 15000)
        rem = max(1.0, (st['deadline'] - time.time())) * 1000
        ms = min(ms, rem)
        r, m = _solve(ctx.pc + [neg], ms, st)
        if r == 'unsat':
            L['proved'] += 1
            return
        if c.weak is not c.strong:
            negw = z3.simplify(z3.Not(c.weak))
            if z3.is_false(negw):
                L['tol'] += 1
                return
            r2, m2 = _solve(ctx.pc + [negw], ms, st)
            if r2 == 'unsat':
                L['tol'] += 1
                return
            if r2 == 'sat':
                r, m, neg = r2, m2, negw
            elif r == 'sat':
                # only an exact, not a substantial, counterexample
                pass
        if r == 'sat':
            L['cex'] += 1
            self.percand[label] = self.percand.get(label, 0) + 1
            self.cands.append((label, model_values(ctx, m),
                               list(ctx.pc) + [neg], ctx))
        else:
            L['unknown'] += 1
            self.unknown.append((label, len(ctx.trace)))
            self.cands.append((label, None, list(ctx.pc) + [neg], ctx))


# --------------------------------------------------------------------------
# exploration of one harness
# --------------------------------------------------------------------------
def explore(h, tier, budget):
    opts = dict(h.opts)
    if tier == 'thorough':
        for k in list(opts):
            if k.startswith('t_'):
                opts[k[2:]] = opts[k]
        opts['ob_ms'] = opts.get('ob_ms', 15000) * 4
        opts['feas_ms'] = opts.get('feas_ms', 3000) * 2
    budget = min(budget, opts.get('budget', 1e9)) if tier == 'quick' \
        else budget
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rng = random.Random(seed * 7919 + zlib.crc32(h.name.encode()) % 1000)
    t0 = time.time()
    stats = dict(feas=0, queries=0, solver_s=0.0, obligations=0, paths=0,
                 aborted=0, undefined=0, limit=0, exc=0, ok=0,
                 deadline=t0 + budget)
    sink = Sink(h, stats, opts)
    work = [[]]
    inputs = {}
    witnesses = []      # (values, predicted status)
    pend = []           # exceptions/limits: ctx for witness
    limits = {}
    funcs = set()
    repo = os.environ.get('VERIF_REPO', '/repo')

    def prof(frame, event, arg):
        if event == 'call':
            f = frame.f_code
            if f.co_filename.startswith(repo):
                funcs.add(os.path.relpath(f.co_filename, repo) + ':'
                          + f.co_qualname)

    maxpaths = opts.get('max_paths', 4000 if tier == 'quick' else 40000)
    nw = opts.get('witnesses', 60 if tier == 'quick' else 400)
    complete = True
    excs = []
    # make the modules loaded before patching
    extra = h.world() if h.world else None
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        with symbolic_world(extra, objzeros=opts.get('objzeros', True)):
            wit_s = 0.0     # time spent on inputs for replays
            wit_max = 0.15 * budget if opts.get('feas_ms') == 0 else 1e9
            while work:
                if stats['paths'] >= maxpaths or time.time() > stats['deadline']:
                    complete = False
                    break
                prefix = work.pop()
                ctx = Ctx(prefix, opts, stats)
                core.CTX = ctx
                S = SymS(ctx, sink)
                status, info = 'ok', ''
                if stats['paths'] < 25:
                    sys.setprofile(prof)
                try:
                    h.fn(S)
                except PathAbort:
                    status = 'aborted'
                except PathUndefined as e:
                    status, info = 'undefined', str(e)
                except EngineLimit as e:
                    status, info = 'limit', str(e)
                    if os.environ.get('SYMEX_DEBUG') == '2':
                        traceback.print_exc()
                except RecursionError as e:
                    status, info = 'limit', 'recursion'
                except Exception as e:
                    status = 'exc'
                    info = f"{type(e).__name__}: {e}"
                    if os.environ.get('SYMEX_DEBUG') == '2':
                        traceback.print_exc()
                    if os.environ.get('SYMEX_DEBUG'):
                        traceback.print_exc()
                finally:
                    sys.setprofile(None)
                    core.CTX = None
                inputs.update(ctx.inputs)
                stats['paths'] += 1
                stats[status] += 1
                work.extend(reversed(ctx.new))
                if status in ('limit', 'exc', 'undefined'):
                    limits[status + ': ' + info[:160]] = limits.get(
                        status + ': ' + info[:160], 0) + 1
                    if os.environ.get('SYMEX_DEBUG') and status == 'limit':
                        print('LIMIT', info)
                if status in ('limit', 'exc'):
                    pend.append((status, info))
                if status != 'aborted' and (
                        len(witnesses) < nw and wit_s < wit_max
                        or status in ('limit', 'exc')
                        and len(witnesses) < 3 * nw):
                    t1 = time.time()
                    r = ctx._check()
                    wit_s += time.time() - t1
                    if r == z3.sat:
                        try:
                            witnesses.append(
                                (model_values(ctx, ctx.solver.model()),
                                 status, info, list(ctx.pc), ctx))
                        except z3.Z3Exception:
                            pass
                    elif r == z3.unsat:
                        stats[status] -= 1
                        stats['aborted'] += 1
    # ---------------------------------------------------------------- replay
    viol = []
    spurious = []
    validated = 0
    seen = set()

    def confirm(label, values, origin):
        st, failed, exc, checked, notes = concrete_run(h, values)
        if st in ('rejected', 'timeout'):
            return False
        if label in failed or (origin == 'cex' and failed):
            lab = label if label in failed else failed[0]
            if lab in seen:
                return True
            seen.add(lab)
            viol.append(dict(harness=h.name, label=lab, values=values,
                             origin=origin, exc=exc, notes=notes))
            return True
        return False

    tend = time.time() + opts.get('replay_s', 120)
    for (label, values, asserts, ctx) in sink.cands:
        if label in seen or time.time() > tend:
            continue
        if values is not None and confirm(label, values, 'cex'):
            continue
        # other models of the same violating path
        done = False
        for k in range(opts.get('retries', 6)):
            if time.time() > tend:
                break
            extra_c = []
            for name, d in ctx.inputs.items():
                if d[0] == 'real' and rng.random() < (0.3 + 0.1 * k):
                    lo = d[3] if d[3] is not None else -10.0
                    hi = d[4] if d[4] is not None else lo + 20.0
                    if hi - lo > 1e6 and lo > 0:
                        x = math.exp(rng.uniform(math.log(lo), math.log(hi)))
                    else:
                        x = rng.uniform(lo, hi)
                    x = float(f"{x:.3g}")
                    w = abs(x) * 0.2 + 1e-3
                    extra_c.append(z3.And(d[1] >= rv(x - w),
                                          d[1] <= rv(x + w)))
            r, m = _solve(asserts + extra_c, 3000, stats, portfolio=False)
            if r == 'sat':
                if confirm(label, model_values(ctx, m), 'cex'):
                    done = True
                    break
        if not done and values is not None:
            spurious.append((label, values))
    # obligations the solver could not decide: look for a counterexample
    # among concrete inputs (a failing replay is a violation; finding none
    # leaves the obligation undecided)
    searched = 0
    if sink.unknown or spurious or not complete or stats['limit']:
        tend = time.time() + opts.get('search_s', 20 if tier == 'quick'
                                      else 120)
        base = [w[0] for w in witnesses]
        while inputs and time.time() < tend and \
                searched < opts.get('search_n', 600):
            values = {}
            b = rng.choice(base) if base and rng.random() < 0.5 else {}
            for name, d in inputs.items():
                if name in b and rng.random() < 0.6:
                    values[name] = b[name]
                elif d[0] == 'real':
                    values[name] = _sample(rng, d)
                elif d[0] == 'flag':
                    values[name] = rng.random() < 0.5
                else:
                    values[name] = rng.randrange(len(d[2]))
            searched += 1
            st, failed, exc, checked, notes = concrete_run(h, values, 20)
            if st in ('rejected', 'timeout'):
                continue
            for lab in failed:
                if lab not in seen and robust(h, values, lab, FakeCtx(inputs),
                                              rng, 'ok'):
                    seen.add(lab)
                    viol.append(dict(harness=h.name, label=lab, values=values,
                                     origin='search', exc=exc, notes=notes))
    stats['searched'] = searched
    # path witnesses: run the real code on a model of every path
    tend = time.time() + opts.get('witness_s', 90 if tier == 'quick' else 600)
    wit_excl = 0
    for (values, status, info, pc, ctx) in witnesses:
        if time.time() > tend:
            break
        st, failed, exc, checked, notes = concrete_run(h, values, 30)
        if st == 'rejected' or st == 'timeout':
            wit_excl += 1
            continue
        validated += 1
        for lab in failed:
            if lab in seen:
                continue
            if status == 'undefined' and not opts.get('undefined_counts'):
                continue
            if robust(h, values, lab, ctx, rng, status):
                seen.add(lab)
                viol.append(dict(harness=h.name, label=lab, values=values,
                                 origin='witness', exc=exc, notes=notes))
    stats['wall'] = time.time() - t0
    stats['complete'] = complete and not work
    stats.pop('deadline')
    reach = sorted(sink.labels)
    return dict(harness=h.name, stats=stats, labels=sink.labels,
                limits=limits, viol=viol,
                spurious=[(l, {k: v for k, v in vv.items()})
                          for l, vv in spurious][:20],
                validated=validated, funcs=sorted(funcs), bounds=h.bounds,
                stubs=h.stubs, sample=[w[0] for w in witnesses[:2]])


class FakeCtx:
    def __init__(self, inputs):
        self.inputs = inputs


def _sample(rng, d):
    lo = d[3] if d[3] is not None else -10.0
    hi = d[4] if d[4] is not None else lo + 20.0
    if d[2] is not False and rng.random() < 0.1:
        return float('nan')
    if lo > 0 and hi > 50 * lo and rng.random() < 0.7:
        return math.exp(rng.uniform(math.log(lo), math.log(hi)))
    return rng.uniform(lo, hi)


def robust(h, values, lab, ctx, rng, status):
    """A failure seen only on a concrete path witness must survive small
    perturbations of the real inputs (it is not a rounding artefact at a
    branch boundary)."""
    reals = [n for n, d in ctx.inputs.items() if d[0] == 'real'
             and values.get(n) is not None and not math.isnan(values[n])]
    if not reals or lab == 'unexpected-exception':
        return True
    fails = n = 0
    for k in range(12):
        v = dict(values)
        for nme in reals:
            d = ctx.inputs[nme]
            x = v[nme]
            w = 1e-5 * (abs(x) if x else (abs(d[4] or 1.0)
                                          if len(d) > 4 else 1.0))
            y = x + rng.uniform(-w, w)
            if d[3] is not None and y < d[3]:
                y = d[3] + abs(y - d[3])
            if d[4] is not None and y > d[4]:
                y = d[4] - abs(y - d[4])
            v[nme] = y
        st, failed, *_ = concrete_run(h, v, 30)
        if st in ('ok', 'exception'):
            n += 1
            fails += lab in failed
        if n >= 6:
            break
    return n > 0 and fails * 2 >= n


# --------------------------------------------------------------------------
# property check = all its harnesses, in parallel processes
# --------------------------------------------------------------------------
def _worker(args):
    h, tier, budget, q = args
    try:
        os.environ.setdefault('OMP_NUM_THREADS', '1')
        if os.environ.get('SYMEX_COV'):
            _trace_lines(h)
        r = explore(h, tier, budget)
    except BaseException as e:     # the worker must always answer
        r = dict(harness=h.name, error=f"{type(e).__name__}: {e}",
                 trace=traceback.format_exc()[-2000:])
    if hasattr(h, 'dump'):
        h.dump()
    q.put((h.name, r))


def _trace_lines(h):
    """Development aid: dump the executed lines of the repository."""
    repo, lines = os.environ.get('VERIF_REPO', '/repo'), {}

    def local(frame, event, arg):
        if event == 'line':
            lines.setdefault(frame.f_code, set()).add(frame.f_lineno)
        return local

    def glob(frame, event, arg):
        f = frame.f_code
        if f.co_filename.startswith(repo):
            lines.setdefault(f, set())
            return local

    def dump():
        with open(os.path.join(os.environ['SYMEX_COV'],
                               h.prop + '.' + h.name), 'w') as o:
            json.dump([[f.co_filename, f.co_qualname, f.co_firstlineno,
                        sorted(l)] for f, l in lines.items()], o)
    sys.settrace(glob)
    h.dump = dump


def run_property(prop, harnesses, tier, meta):
    t0 = time.time()
    total = 700 if tier == 'quick' else meta.get('thorough_s', 2400)
    ncpu = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
    hs = [h for h in harnesses if h.prop == prop]
    sel = os.environ.get('SYMEX_ONLY')
    if sel:
        hs = [h for h in hs if h.name in sel.split(',')]
    # one budget per harness so that everything ends within `total`
    rounds = max(1, math.ceil(len(hs) / ncpu))
    default = (meta.get('quick_s', 150) if tier == 'quick' else total) / rounds
    ctxm = mp.get_context('fork')
    q = ctxm.Queue()
    pending = list(hs)
    running = {}
    results = {}
    # warm up imports in the parent so that forked workers share them
    while pending or running:
        while pending and len(running) < ncpu:
            h = pending.pop(0)
            b = h.opts.get('budget', default) if tier == 'quick' else default
            p = ctxm.Process(target=_worker, args=((h, tier, b, q),))
            p.start()
            running[h.name] = (p, time.time() + b * 1.0 + 300)
        try:
            name, r = q.get(timeout=1.0)
            results[name] = r
            p, _ = running.pop(name)
            p.join(5)
            if p.is_alive():
                p.kill()
        except Exception:
            pass
        for name, (p, dl) in list(running.items()):
            if name in results:
                continue
            if time.time() > dl or (tier == 'quick'
                                    and time.time() - t0 > 820):
                p.kill()
                running.pop(name)
                results[name] = dict(harness=name, error='timeout')
            elif not p.is_alive():
                try:
                    n2, r = q.get(timeout=2.0)
                    results[n2] = r
                    running.pop(n2, None)
                except Exception:
                    if name in running and name not in results:
                        running.pop(name)
                        results[name] = dict(harness=name, error='died')
    return finish(prop, hs, results, tier, meta, time.time() - t0)


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop
            and k.get('status') == 'open']


def finish(prop, hs, results, tier, meta, wall):
    known = load_known(prop)
    viols, kf = [], []
    for n, r in sorted(results.items()):
        for v in r.get('viol', []):
            for k in known:
                if (k['harness'] == v['harness'] and k['label'] == v['label']
                        and _when(k, v)):
                    kf.append((k, v))
                    break
            else:
                viols.append(v)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    for k, v in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    paths = []
    for i, v in enumerate(viols):
        rp = os.path.join(VERIF, 'evidence', 'replay', f"{prop}_{i}.json")
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, **v), f, indent=1, default=str)
        paths.append(rp)
    obl = prov = triv = unk = tol = spur = npaths = val = q = lim = 0
    solver_s = 0.0
    inconclusive = []
    funcs = set()
    detail = []
    for n, r in sorted(results.items()):
        if 'error' in r:
            inconclusive.append(f"{n}: {r['error']}")
            detail.append(dict(harness=n, error=r['error'],
                               trace=r.get('trace')))
            continue
        s = r['stats']
        npaths += s['paths']
        q += s['queries'] + s['feas']
        solver_s += s['solver_s']
        val += r['validated']
        funcs |= set(r['funcs'])
        for l, d in r['labels'].items():
            obl += sum(d[k] for k in ('proved', 'tol', 'cex', 'unknown',
                                      'skipped'))
            prov += d['proved'] + d['tol']
            triv += d['trivial']
            unk += d['unknown']
        spur += len(r['spurious'])
        if not s['complete']:
            inconclusive.append(f"{n}: path exploration not exhausted")
        for l, c in r['limits'].items():
            if not l.startswith('undefined'):
                inconclusive.append(f"{n}: {c} paths {l}")
        for l, d in r['labels'].items():
            if d['unknown']:
                inconclusive.append(f"{n}: {d['unknown']} x '{l}' unknown")
        for l, _ in r['spurious']:
            inconclusive.append(f"{n}: '{l}' model did not reproduce")
        if s['ok'] == 0:
            inconclusive.append(f"{n}: vacuous (no completed path)")
        detail.append(dict(
            harness=n, bounds=r['bounds'], stubs=r['stubs'],
            stats={k: (round(v, 2) if isinstance(v, float) else v)
                   for k, v in s.items()},
            labels=r['labels'], limits=r['limits'],
            not_reproduced=[l for l, _ in r['spurious']],
            functions=r['funcs'][:60]))
    samples = []
    for n, r in sorted(results.items()):
        for smp in r.get('sample', [])[:1]:
            samples.append(dict(harness=n, path_model=smp))
    ev = dict(
        property=prop, tier=tier,
        seed=int(os.environ.get('VERIF_SEED', '1') or 1),
        level='other',
        coverage=dict(
            explanation=(
                "Symbolic execution of the functions listed in `functions` "
                "(re-imported from the working tree in this run); every "
                "branch decided by z3, every assertion discharged per path "
                "by z3 over all values within `bounds`; a model of the path "
                "conditions is re-run on the unpatched code "
                "(`paths_replayed_on_real_code`)."),
            functions=sorted(funcs),
            paths_explored=npaths,
            solver_queries=q,
            solver_seconds=round(solver_s, 2),
            assertions=obl, assertions_discharged=prov,
            assertions_discharged_by_rewriting=triv,
            assertions_unknown=unk,
            models_not_reproduced=spur,
            paths_replayed_on_real_code=val,
            inconclusive=inconclusive[:200],
            harnesses=detail, samples=samples[:12]),
        assumptions=meta.get('assumptions', []) + [
            "numbers are reals extended with NaN; rounding and infinities "
            "are not modelled in the solver queries (replays use floats)",
            "paths that divide by zero are outside the claim unless the "
            "harness says otherwise"],
        wall_s=round(wall, 2),
        violations=[dict(harness=v['harness'], label=v['label'], replay=p)
                    for v, p in zip(viols, paths)],
    )
    with open(os.path.join(VERIF, 'evidence', f"{prop}.json"), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} [{tier}] paths={npaths} queries={q} assertions={obl} "
          f"discharged={prov} unknown={unk} replays={val} "
          f"inconclusive={len(inconclusive)} wall={wall:.1f}s")
    for x in inconclusive[:15]:
        print("  inconclusive:", x)
    for v, p in zip(viols, paths):
        print(f"  {v['harness']}: {v['label']} "
              f"{v.get('exc') or ''} values={_short(v['values'])}")
    for p in paths[:5]:
        print(f"VIOLATION property={prop} replay={p}")
    sys.stdout.flush()
    return 1 if viols else 0


def _short(v):
    return {k: (float(f"{x:.6g}") if isinstance(x, float) else x)
            for k, x in list(v.items())[:14]}


def _when(k, v):
    w = k.get('when')
    if not w:
        return True
    try:
        return bool(eval(w, {'isnan': math.isnan}, dict(v['values'])))
    except Exception:
        return False
