"""Inspiral of double compact objects."""
import math
import types

import numpy as np

import posydon.binary_evol.DT.double_CO as dco
import posydon.binary_evol.DT.step_detached as sd
import posydon.utils.constants as const
from posydon.utils.posydonerror import NumericalError
from symex.run import harness
from symex.stub import replaced

REG = []
META = {
    'P19': dict(assumptions=[
        "masses in [0.1, 100] Msun, separations in [0.1, 1e4] Rsun, "
        "eccentricities in [0, 0.99]; the integrator is a stand-in that "
        "returns arbitrary values at 2-3 points (its accuracy is outside); "
        "exp and log are uninterpreted functions inverse to each other where "
        "the code composes them; the parent step (P15) is a stand-in"]),
}


def units():
    """Constants as small exact numbers: the formulae are compared, not the
    values of the constants."""
    return [(const, 'standard_cgrav', 2.0), (const, 'msol', 3.0),
            (const, 'Msun', 3.0), (const, 'rsol', 0.5), (const, 'Rsun', 0.5),
            (const, 'clight', 5.0), (const, 'secyer', 7.0)]


def arr(S, *v):
    a = np.empty(len(v), dtype=object if S.symbolic else float)
    a[:] = v
    return a


def mat(S, rows):
    a = np.empty((len(rows), len(rows[0])),
                 dtype=object if S.symbolic else float)
    for i, r in enumerate(rows):
        a[i, :] = r
    return a


@harness(REG, 'P19', bounds='any separation, e in (0, 0.99]')
def peters(S):
    """dl/ds and dtau/ds are Peters' equations with s = -ln(a/a0), l = ln e
    and tau = t / T: da/dt = -a g / (4 T' ...) etc."""
    evo = dco.double_CO_evolution()
    s, l = S.real('s', 0, 10), S.real('l', -9, 0.01)
    w1, w2 = S.real('w1', 0, 1), S.real('w2', 0, 1)
    r = evo(s, [l, S.real('tau', 0, 1), w1, w2])
    e = np.exp(l)
    S.check('spins-constant', S.And(S.eq(r[2], 0.0), S.eq(r[3], 0.0)))
    if S.decide(e * e >= 1.0):
        S.check('unbound', S.And(S.eq(r[0], 0.0), S.eq(r[1], 0.0)))
        return
    x = 1.0 - e * e
    g = 1 + 73 / 24 * e ** 2 + 37 / 96 * e ** 4
    f = 1 + 121 / 304 * e ** 2
    S.check('separation', S.eq(r[1] * g, np.exp(-4.0 * s) * x ** 3.5))
    S.check('eccentricity', S.eq(r[0] * g * 12, -19.0 * x * f))


@harness(REG, 'P19', bounds='any options')
def only_gravitational_waves(S):
    k = {n: S.pick(n, [False, True]) for n in (
        'do_wind_loss', 'do_tides', 'do_magnetic_braking',
        'do_gravitational_radiation',
        'do_stellar_evolution_and_spin_from_winds')}
    evo = dco.double_CO_evolution(**k)
    for n in k:
        S.check('effects', getattr(evo, n) == (
            n == 'do_gravitational_radiation'))


class Res:
    pass


@harness(REG, 'P19', bounds='both compact, any masses, orbits and results; '
         '2-3 integration points; failure', world=units, stubs=[
             'integrator: arbitrary results', 'radius of a compact object: '
             'arbitrary (P08)'])
def integration(S):
    n = S.pick('points', [2, 3])
    status = S.pick('status', [0, 1, -1, 'error'])
    ecc = S.pick('circular', [False, True])
    late = status == 1
    o = dco.DoubleCO.__new__(dco.DoubleCO)
    o.evo = 'EVO'
    b = types.SimpleNamespace(
        time=S.real('t0', 0, 1e3), separation=S.real('a0', 0.1, 100),
        eccentricity=0.0 if ecc else S.real('e0', 1e-3, 0.99),
        properties=types.SimpleNamespace(
            max_simulation_time=S.real('tmax', 1.1e3, 1e5)),
        event='x', state='detached')
    st = [types.SimpleNamespace(mass=S.real('m%d' % i, 0.1, 100),
                                state=S.pick('s%d' % i, ['BH', 'NS']),
                                omega0=S.real('w%d' % i, 0, 10))
          for i in range(2)]
    R = {id(st[i].mass): S.real('R%d' % i, 1e-6, 1e-2) for i in range(2)}
    want = [S.real('R%d' % i, 1e-6, 1e-2) for i in range(2)]
    asked = []

    def radius(m, state):
        asked.append(state)
        return want[len(asked) - 1] if S.decide(S.eq(m, st[
            len(asked) - 1].mass)) else 0.0
    s = [S.real('S%d' % i, 0, 9) for i in range(n)]
    y = [[S.real('y%d_%d' % (k, i), -5, 5) for i in range(n)]
         for k in range(4)]
    yev = [S.real('yev%d' % k, -5, 5) for k in range(4)]
    sev = S.real('sev', 0, 9)
    got = {}

    def solve(fun, t_span=None, y0=None, events=None, **k):
        got.update(fun=fun, span=t_span, y0=y0, ev=events, k=k)
        if status == 'error':
            raise RuntimeError('x')
        r = Res()
        r.status, r.t, r.y = status, arr(S, *s), mat(S, y)
        r.sol = 'SOL'
        r.t_events = [arr(S, sev) if late else arr(S)]
        r.y_events = [mat(S, [yev]) if late else arr(S)]
        return r

    class Dense:
        def __init__(self, *a):
            got['dense'] = a
    failed = []
    with replaced(dco, 'solve_ivp', solve), \
            replaced(dco, 'CO_radius', radius), \
            replaced(dco, '_SBrentqDenseOutput', Dense), \
            replaced(dco, 'set_binary_to_failed', failed.append):
        try:
            r = o.solve_ODEs(b, *st)
        except NumericalError:
            S.check('failure', status == 'error' and failed == [b])
            return
    S.check('failure', status != 'error' and not failed)
    m1, m2 = st[0].mass, st[1].mass
    a0 = b.separation
    T = 5 / 64 * const.clight ** 5 * (a0 * const.Rsun) ** 4 / (
        const.standard_cgrav ** 3 * m1 * m2 * (m1 + m2) * const.msol ** 3
    ) / const.secyer
    S.check('integrator', got['fun'] == 'EVO' and S.decide(S.And(
        S.eq(got['span'][0], 0.0), S.eq(got['y0'][1], 0.0),
        S.eq(got['y0'][2], st[1].omega0), S.eq(got['y0'][3], st[0].omega0))))
    S.check('contact', S.And(
        S.eq(got['span'][1], -np.log((want[0] + want[1]) / a0)),
        asked == [st[0].state, st[1].state]))
    S.check('start', S.eq(got['y0'][0], np.log(2.2250738585072014e-308)
                          if ecc else np.log(b.eccentricity)))
    ev = got['ev'][0] if isinstance(got['ev'], (list, tuple)) else got['ev']
    tau = S.real('tau', 0, 9)
    S.check('time-limit', S.And(
        ev.terminal, ev.direction > 0,
        S.eq((tau - ev(0.1, [0.0, tau, 0.0, 0.0])) * T,
             o.max_time - b.time),
        S.eq(o.max_time, b.properties.max_simulation_time)))
    S.check('status', r.status == {0: 1, 1: 0, -1: -1}[status])
    for i in range(n):
        S.check('separation', S.eq(r.y[0][i], np.exp(-s[i]) * a0))
        S.check('eccentricity', S.eq(r.y[1][i], np.exp(y[0][i])))
        S.check('time', S.eq(
            (r.t[i] - b.time) / T, y[1][i], 1e-6, 1e-6))
        S.check('spins', S.And(S.eq(r.y[2][i], y[2][i]),
                               S.eq(r.y[3][i], y[3][i])))
    if late:
        e = r.y_events[0][0]
        S.check('event', S.And(
            S.eq(e[0], np.exp(-sev) * a0), S.eq(e[1], np.exp(yev[0])),
            S.eq((r.t_events[0][0] - b.time) / T, yev[1], 1e-6, 1e-6)))
    d = got['dense']
    S.check('dense-output', S.And(
        d[0] == 'SOL', S.eq(d[1], a0), S.eq(d[2], T), S.eq(d[3], b.time),
        S.eq(d[4], s[0]), S.eq(d[5], s[-1])))


@harness(REG, 'P19', bounds='1-2 requested times anywhere', stubs=[
    'integrator solution: time and state linear in s; root finder: the root '
    'of the function it is given'])
def dense_output(S):
    n = S.pick('n', [1, 2])
    k = S.real('k', 0.5, 2)
    a0, T, t0 = S.real('a0', 0.1, 100), S.real('T', 1, 1e3), S.real(
        't0', 0, 1e3)
    slo, shi = 1.0, 3.0

    def sol(s):
        return [-1.0 * s, k * (s - 1.0), 2.0 * s, 3.0 * s]

    def brentq(f, a, b, **kw):
        # linear: the root from two evaluations
        fa, fb = f(a), f(b)
        return a - fa * (b - a) / (fb - fa)
    t = [S.real('at%d' % i, -2e3, 9e3) for i in range(n)]
    d = dco._SBrentqDenseOutput(sol, a0, T, t0, slo, shi)
    tau = [(x - t0) / T for x in t]
    ins = []
    for i in range(n):
        w = S.pick('where%d' % i, ['in', 'before', 'after'])
        ins.append(w == 'in')
        S.assume(S.And(tau[i] >= 1e-9, tau[i] <= 2 * k - 1e-9) if w == 'in'
                 else tau[i] < -1e-9 if w == 'before'
                 else tau[i] > 2 * k + 1e-9)
    with replaced(dco, 'brentq', brentq):
        try:
            r = d(arr(S, *t))
        except ValueError:
            S.check('refused', not all(ins))
            return
    S.check('refused', all(ins))
    for i in range(n):
        s = 1.0 + tau[i] / k
        c = r if n == 1 else r[:, i]
        S.check('separation', S.eq(c[0], np.exp(-s) * a0))
        S.check('eccentricity', S.eq(c[1], np.exp(-1.0 * s)))
        S.check('spins', S.And(S.eq(c[2], 2 * s), S.eq(c[3], 3 * s)))


@harness(REG, 'P19', bounds='all outcomes of the integration',
         stubs=['the parent step (P15)'])
def outcome(S):
    status = S.pick('status', [0, 1, -1])
    n = S.pick('n', [1, 2])
    e = [S.real('e%d' % i, 0, 0.99) for i in range(n)]
    V = [S.real('V%d' % i, 0, 9) for i in range(3)]
    tmax = S.real('tmax', 1, 1e10)
    b = types.SimpleNamespace(
        V_sys=None, V_sys_history=[V], time=S.real('t', 0, 1),
        eccentricity=S.real('e', 0, .99), state='s', event='v',
        separation=S.real('a', 0, 9))
    o = dco.DoubleCO.__new__(dco.DoubleCO)
    o.max_time = tmax

    def parent(self, binary):
        self.res = types.SimpleNamespace(status=status, y=mat(
            S, [[1.0] * n, e]))
    t, ecc = b.time, b.eccentricity
    with replaced(sd.detached_step, '__call__', parent):
        o(b)
    S.check('velocity', b.V_sys is V)
    if status == 1:
        S.check('contact', S.And(S.eq(b.eccentricity, 0.0),
                                 b.state == 'contact',
                                 b.event == 'CO_contact', S.eq(b.time, t)))
    elif status == 0:
        S.check('time-limit', S.And(
            S.eq(b.time, tmax), S.eq(b.eccentricity, e[-1]),
            b.state == 'detached', b.event == 'maxtime'))
    else:
        S.check('failed', S.And(b.state == 's', b.event == 'v',
                                S.eq(b.time, t), S.eq(b.eccentricity, ecc)))
