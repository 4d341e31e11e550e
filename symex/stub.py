"""Replace a library function wherever the code under test can reach it: in
its defining module and in every posydon module that imported it by name."""
import contextlib
import functools
import inspect
import sys

import numpy as np

from .core import EngineLimit


def _adapt(old, new):
    """Accept a call of the stand-in however the arguments are passed."""
    if not (inspect.isfunction(old) and inspect.isfunction(new)):
        return new
    try:
        so, sn = inspect.signature(old), inspect.signature(new)
    except (TypeError, ValueError):
        return new

    def fits(a, k):
        try:
            sn.bind(*a, **k)
            return True
        except TypeError:
            return False

    @functools.wraps(new)
    def g(*a, **k):
        if not fits(a, k):
            try:
                b = so.bind(*a, **k)
            except TypeError:
                return new(*a, **k)
            if fits(b.args, b.kwargs):
                a, k = b.args, b.kwargs
            elif fits((), b.arguments):
                a, k = (), b.arguments
        return new(*a, **k)
    return g


@contextlib.contextmanager
def replaced(mod, name, new):
    if not hasattr(mod, name):
        raise EngineLimit('nothing to replace: %s.%s' % (
            getattr(mod, '__name__', mod), name))
    old = getattr(mod, name)
    new = _adapt(old, new)
    done = [(mod, name)]
    setattr(mod, name, new)
    for n, m in list(sys.modules.items()):
        if m is None or not (n == 'posydon' or n.startswith('posydon.')):
            continue
        for k, v in list(vars(m).items()):
            if v is old:
                setattr(m, k, new)
                done.append((m, k))
    try:
        yield old
    finally:
        for m, k in done:
            setattr(m, k, old)


@contextlib.contextmanager
def abstracted(S, mod, **kinds):
    """While exploring symbolically, stand for the named functions of `mod`
    by arbitrary functions of their arguments (same arguments, same value;
    'bool', or (lo, hi) for a real).  They are decided by a property of their
    own; the code and the reference of a harness only have to use them
    alike.  Replays and concrete runs use the real functions."""
    if not S.symbolic:
        yield
        return
    import inspect
    from .core import SymBool, SymReal, is_sym, z3
    ctx = S.ctx
    memo = {}

    def same(a, b):
        if a is b:
            return True
        x, y = SymReal.lift(a), SymReal.lift(b)
        if not isinstance(x, SymReal) or not isinstance(y, SymReal):
            return type(a) is type(b) and bool(a == b)
        if x.nan is not False or y.nan is not False:
            return False
        return x.e.eq(y.e) or S.sink.agree(ctx, x.e, y.e)

    def make(name, kind, orig):
        sig = inspect.signature(orig)

        def f(*a, **k):
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            args = list(ba.arguments.values())
            if any(isinstance(x, np.ndarray) for x in args):
                n = [len(x) for x in args if isinstance(x, np.ndarray)][0]
                out = np.empty(n, dtype=object)
                for i in range(n):
                    out[i] = f(*[x[i] if isinstance(x, np.ndarray) else x
                                 for x in args])
                return out
            if not any(is_sym(x) for x in args) or any(
                    isinstance(x, SymReal) and x.nan is not False
                    for x in args):
                return orig(*a, **k)
            for old, r in memo.setdefault(name, []):
                if len(old) == len(args) and all(
                        same(x, y) for x, y in zip(old, args)):
                    return r
            if kind == 'bool':
                r = SymBool(z3.FreshBool('abs_' + name))
            else:
                v = ctx.fresh('abs_' + name + '_')
                ctx.itv.set(v, *kind)
                if kind[0] is not None:
                    ctx.add(v > kind[0] if kind[0] == 0 else v >= kind[0])
                if kind[1] is not None:
                    ctx.add(v <= kind[1])
                r = SymReal(v)
            memo[name].append((args, r))
            return r
        return f
    with contextlib.ExitStack() as st:
        for name, kind in kinds.items():
            st.enter_context(replaced(mod, name, make(
                name, kind, getattr(mod, name))))
        yield
