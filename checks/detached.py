"""Secular evolution of a detached binary and the outcome of that step."""
import types

import numpy as np

import posydon.binary_evol.DT.gravitational_radiation.default_gravrad as gr
import posydon.binary_evol.DT.magnetic_braking.prescriptions as mb
import posydon.binary_evol.DT.step_detached as sd
import posydon.binary_evol.DT.tides.default_tides as ti
import posydon.binary_evol.DT.winds.default_winds as wi
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.flow_chart import (STAR_STATES_CC,
                                            STAR_STATES_H_RICH_EVOLVABLE,
                                            STAR_STATES_HE_RICH_EVOLVABLE)
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.utils import common_functions as cf
from posydon.utils import constants as const
from posydon.utils.posydonerror import (ClassificationError, FlowError,
                                        NumericalError)
from symex.run import harness
from symex.stub import abstracted, replaced

REG = []
META = {
    'P14': dict(assumptions=[
        "masses in [0.05, 200] Msun, radii in [1e-3, 3000] Rsun, separations "
        "in [0.1, 1e6] Rsun, eccentricities in [0, 0.99], non-zero spins; "
        "powers with non-rational results are uninterpreted monotone "
        "functions of their base"]),
}


def units():
    """Constants as small exact numbers: the formulae are compared, not the
    values of the constants."""
    return [(const, 'standard_cgrav', 2.0), (const, 'msol', 3.0),
            (const, 'rsol', 0.5), (const, 'clight', 5.0),
            (const, 'secyer', 7.0), (const, 'aursun', 11.0)]


DOM = dict(mass=(0.05, 200), R=(1e-3, 3000), omega=(1e-6, 1e6),
           inertia=(1e-6, 1e10), mdot=(-1, 0), Idot=(-1e6, 1e6),
           mass_conv_reg_fortides=(0, 100),
           thickness_conv_reg_fortides=(0, 3000),
           radius_conv_reg_fortides=(0, 3000), conv_mx1_top_r=(0, 3000),
           conv_mx1_bot_r=(0, 3000), surface_h1=(0, 1), L=(1e-4, 1e7),
           conv_env_turnover_time_l_b=(1e-6, 1e3))


def star(S, tag, keys, nan=(), **fixed):
    d = {}
    for k in keys:
        if k in fixed:
            d[k] = fixed[k]
        else:
            d[k] = S.real(tag + k, *DOM[k], nan=k in nan)
    return types.SimpleNamespace(latest=d)


def orbit(S):
    return S.real('a', 0.1, 1e6), S.real('e', 0, 0.99)


@harness(REG, 'P14', bounds='all masses, rates and orbits')
def wind_separation(S):
    """isotropic wind of both stars: a (m1 + m2) is conserved"""
    a, e = orbit(S)
    p, s = (star(S, t, ['mass', 'mdot']) for t in 'ps')
    da = wi.default_sep_from_winds(a, e, p, s)
    m1, m2 = p.latest['mass'], s.latest['mass']
    S.check('jeans', S.eq(da * (m1 + m2), -a * (
        p.latest['mdot'] + s.latest['mdot'])))


@harness(REG, 'P14', bounds='all spins, rates and moments of inertia')
def wind_spin(S):
    a, e = orbit(S)
    keys = ['R', 'omega', 'inertia', 'mdot', 'Idot']
    p, s = (star(S, t, keys) for t in 'ps')
    ds, dp = wi.default_spin_from_winds(a, e, p, s)
    for n, x, d in (('primary', p.latest, dp), ('secondary', s.latest, ds)):
        loss = x['omega'] * x['mdot'] * x['R'] ** 2 * 2 / (3 * x['inertia'])
        dil = -x['omega'] * x['Idot'] / x['inertia']
        if S.decide(dil > 100):
            dil = 100
        S.check(n, S.eq(d, loss + dil))


@harness(REG, 'P14', bounds='all masses and orbits', world=units)
def gravitational_waves(S):
    """Junker & Schaefer 1992: quadrupole plus first post-Newtonian order"""
    a, e = orbit(S)
    p, s = (star(S, t, ['mass']) for t in 'ps')
    da, de = gr.default_gravrad(a, e, p, s)
    da2, de2 = gr.default_gravrad(a, e, s, p)
    M = p.latest['mass'] + s.latest['mass']
    nu = p.latest['mass'] * s.latest['mass'] / M ** 2
    c = const.clight
    g = const.standard_cgrav * M * const.msol / (a * const.rsol * c ** 2)
    u = 1 - e ** 2
    S.check('no-labels', S.And(S.eq(da, da2), S.eq(de, de2)))
    w = u ** (9 / 2)
    S.check('separation', S.eq(
        da * const.rsol / const.secyer * w,
        -2 * c * nu / 15 * g ** 3 * (
            (96 + 292 * e ** 2 + 37 * e ** 4) * u - g / 28 * (
                14008 + 4707 * nu + (80124 + 21560 * nu) * e ** 2
                + (17325 + 10458 * nu) * e ** 4
                - (5501 - 1036 * nu) * e ** 6 / 2))))
    w = u ** (7 / 2)
    S.check('eccentricity', S.eq(
        de / const.secyer * w,
        -nu * c / (15 * a * const.rsol) * g ** 3 * e * (
            (304 + 121 * e ** 2) * u - g / 56 * (
                8 * (16705 + 4676 * nu) + 12 * (9082 + 2807 * nu) * e ** 2
                - (25211 - 3388 * nu) * e ** 4))))


TIDES = ['mass', 'R', 'omega', 'inertia', 'mass_conv_reg_fortides',
         'thickness_conv_reg_fortides', 'radius_conv_reg_fortides',
         'conv_mx1_top_r', 'conv_mx1_bot_r', 'surface_h1', 'L']
QUIET = dict(mass_conv_reg_fortides=float('nan'),
             thickness_conv_reg_fortides=float('nan'),
             radius_conv_reg_fortides=float('nan'), conv_mx1_top_r=0.0,
             conv_mx1_bot_r=0.0, surface_h1=0.5, L=1.0, omega=1e-9)


def k_over_T(S, x, q, a, Porb):
    """Hurley et al. 2002 / Qin et al. 2018"""
    menv, dr, rm = (x[k] for k in TIDES[4:7])
    conv = 0.0
    if not S.decide(S.isnan(menv)):
        if not any(S.decide(S.isnan(v)) or S.decide(v == 0)
                   for v in (menv, dr, rm)):
            tau = 0.431 * (menv * dr * rm / (3 * x['L'])) ** (1 / 3)
        else:
            tau = 1e99
        Pt = abs(1 / (1 / Porb - 1 / (2 * np.pi / x['omega'])))
        f = (Pt / (2 * tau)) ** 2
        if S.decide(f >= 1):
            f = 1
        conv = (2. / 21) * (f / tau) * (menv / x['mass'])
    core = x['conv_mx1_top_r'] - x['conv_mx1_bot_r']
    if S.decide(S.Or(core > x['R'], core <= 0,
                     x['conv_mx1_bot_r'] / x['R'] > 0.1)):
        E2 = 1.592e-9 * x['mass'] ** 2.84
    elif S.decide(x['surface_h1'] > 0.4):
        E2 = 10 ** -0.42 * (core / x['R']) ** 7.5
    else:
        E2 = 10 ** -0.93 * (core / x['R']) ** 6.7
    r = const.rsol
    rad = const.secyer * E2 * (1 + q) ** (5 / 6) * np.sqrt(
        const.standard_cgrav * x['mass'] * const.msol * (x['R'] * r) ** 2
        / (a * r) ** 5)
    return rad if S.decide(rad > conv) else conv


@harness(REG, 'P14', bounds='convective envelope or core of one star at a time',
         world=units, feas_ms=0)
def tides(S):
    """Hut 1981"""
    a, e = orbit(S)
    act = S.pick('active', ['p', 's'])
    part = S.pick('varied', ['envelope', 'core'])
    fix = {k: v for k, v in QUIET.items() if k != 'omega' and (
        k in ('conv_mx1_top_r', 'conv_mx1_bot_r', 'surface_h1')) == (
            part == 'envelope')}
    if part == 'core':
        fix['conv_mx1_bot_r'] = S.real('bottom', 0, 3000)
        fix['conv_mx1_top_r'] = fix['conv_mx1_bot_r'] + S.real(
            'core', -10, 3000)
    st = {t: star(S, t, TIDES, nan=TIDES[4:7], **fix) if t == act else
          star(S, t, TIDES, **QUIET) for t in 'ps'}
    p, s = st['p'], st['s']
    da, de, ds, dp = ti.default_tides(a, e, p, s)
    x, y = p.latest, s.latest
    M = x['mass'] + y['mass']
    Porb = np.sqrt((a / const.aursun) ** 3 / M)
    n = 2 * const.pi / Porb
    tot_a = tot_e = 0
    u = 1 - e ** 2
    h = u ** (3 / 2)
    f1 = 1 + 31 * e**2 / 2 + 255 * e**4 / 8 + 185 * e**6 / 16 + 25 * e**8 / 64
    f2 = 1 + 15 * e**2 / 2 + 45 * e**4 / 8 + 5 * e**6 / 16
    f3 = 1 + 15 * e**2 / 4 + 15 * e**4 / 8 + 5 * e**6 / 64
    f4 = 1 + 3 * e**2 / 2 + e**4 / 8
    f5 = 1 + 3 * e**2 + 3 * e**4 / 8
    for nm, z, o, dom in (('secondary', y, x, ds), ('primary', x, y, dp)):
        q = o['mass'] / z['mass']
        k = k_over_T(S, z, q, a, Porb)
        w = z['omega'] / n
        rr = (z['R'] / a) ** 6
        S.check('spin-' + nm, S.eq(
            dom * z['inertia'] * u ** 6,
            3 * k * q ** 2 * z['mass'] * z['R'] ** 2 * rr * n * (
                f2 - h * f5 * w)))
        r8 = rr * (z['R'] / a) ** 2 * k * q * (1 + q)
        tot_a = tot_a - 6 * r8 * a * (f1 - h * f2 * w)
        tot_e = tot_e - 27 * r8 * e * (f3 - 11 * h * f4 * w / 18)
    S.check('separation', S.eq(da * u ** (15 / 2), tot_a))
    S.check('eccentricity', S.eq(de * u ** (13 / 2), tot_e))


@harness(REG, 'P14', bounds='all orbits and spins', world=units, feas_ms=0)
def tidal_angular_momentum(S):
    """tides exchange angular momentum between orbit and spins only"""
    a, e = orbit(S)
    p, s = (star(S, t, TIDES, **dict(QUIET, omega=S.real(
        t + 'omega', *DOM['omega']))) for t in 'ps')
    da, de, ds, dp = ti.default_tides(a, e, p, s)
    x, y = p.latest, s.latest
    M = x['mass'] + y['mass']
    n = 2 * const.pi / np.sqrt((a / const.aursun) ** 3 / M)
    u = 1 - e ** 2
    L = x['mass'] * y['mass'] / M * n * a ** 2 * np.sqrt(u)
    S.check('conserved', S.eq(
        L * (da * u - 2 * a * e * de),
        -2 * a * u * (x['inertia'] * dp + y['inertia'] * ds)))


MODES = {'RVJ83': ('RVJ83_braking', ['mass', 'R', 'omega', 'inertia']),
         'M15': ('M15_braking', ['mass', 'R', 'omega', 'inertia',
                                 'conv_env_turnover_time_l_b']),
         'G18': ('G18_braking', ['mass', 'omega', 'inertia',
                                 'conv_env_turnover_time_l_b']),
         'CARB': ('CARB_braking', ['mass', 'R', 'omega', 'inertia',
                                   'conv_env_turnover_time_l_b', 'mdot'])}


def quenching(S, m):
    if S.decide(m >= 1.5):
        return 0
    if S.decide(m <= 1.3):
        return 1
    return (1.5 - m) / (1.5 - 1.3)


def torque(S, mode, x):
    yr, G = const.secyer, const.standard_cgrav
    m, w, I = x['mass'], x['omega'], x['inertia']
    if mode == 'RVJ83':
        t = 3.8e-30 * const.rsol ** 2 / yr * m * x['R'] ** 4 * w ** 3
    elif mode == 'M15':
        tau = x['conv_env_turnover_time_l_b']
        sun, tsun = 2.6e-6 * yr, 12.9 / 365.25
        crit = np.sqrt(G * m * const.msol / (x['R'] * const.rsol) ** 3) * yr
        T0 = 1.4e30 * yr ** 2 / (const.msol * const.rsol ** 2) \
            * x['R'] ** 3.1 * m ** 0.5 \
            / ((1 + (w / crit / 0.072) ** 2) ** 0.5) ** 0.44
        if S.decide(2 * np.pi / w / tau < 0.14):
            t = T0 * (2.0 / 0.14) ** 2.6 * w / sun
        else:
            t = T0 * (tau / tsun) ** 2.6 * (w / sun) ** (2.6 + 1)
    elif mode == 'G18':
        tau = x['conv_env_turnover_time_l_b']
        Ro = 2 * np.pi / w / tau
        n = 0.03 / Ro + 0.5 * Ro + 1
        t = 3e41 / (const.msol * const.rsol ** 2) * w ** 3 * tau * 4.05 \
            * np.exp(-1.4 * n)
    else:
        tau = x['conv_env_turnover_time_l_b']
        if S.decide(S.eq(x['mdot'], 0)):
            return 0
        f = (w / (3e-6 * yr)) * (tau / (2.8e6 / yr))
        v2 = 2 * G * m / x['R'] * const.msol * yr ** 2 / const.rsol ** 3 \
            + 2 * (w * x['R']) ** 2 / 0.07 ** 2
        r3 = x['R'] ** 4 * f ** 4 / (x['mdot'] ** 2 * v2) \
            * const.rsol ** 2 * yr / const.msol ** 2
        t = -2 * w * x['mdot'] / 3 * (x['R'] * r3 ** (1 / 3)) ** 2
    return -t / I * quenching(S, m)


def _braking(S, mode):
    fn, keys = MODES[mode]
    p, s = (star(S, t, keys) for t in 'ps')
    ds, dp = getattr(mb, fn)(p, s)
    for n, x, d in (('primary', p.latest, dp), ('secondary', s.latest, ds)):
        S.check('brakes-' + n, S.le(d, 0))
        S.check(n, S.eq(d, torque(S, mode, x)))


MB = dict(bounds='all masses, radii, spins and turnover times', world=units,
          budget=150,
          max_root=4, split_pow=True)


@harness(REG, 'P14', **MB)
def braking_RVJ83(S):
    _braking(S, 'RVJ83')


@harness(REG, 'P14', **MB)
def braking_M15(S):
    _braking(S, 'M15')


@harness(REG, 'P14', **MB)
def braking_G18(S):
    _braking(S, 'G18')


@harness(REG, 'P14', **MB)
def braking_CARB(S):
    _braking(S, 'CARB')


SWITCHES = ['do_wind_loss', 'do_tides', 'do_gravitational_radiation',
            'do_magnetic_braking',
            'do_stellar_evolution_and_spin_from_winds']


@harness(REG, 'P14', bounds='all combinations of effects',
         stubs=['the effects (decided by the other harnesses)'])
def enabled_effects(S):
    on = {k: S.pick(k, [True, False]) for k in SWITCHES}
    mode = S.pick('mode', list(MODES) + ['unknown'])
    y = [S.real('y%d' % i, *((0.01, 0.99) if i == 1 else (1, 1e6)))
         for i in range(4)]
    _rates(S, on, mode, 0, y)


@harness(REG, 'P14', bounds='one undefined contribution at a time; any state '
         'the integrator may try',
         stubs=['the effects (decided by the other harnesses)'])
def sanitised_rates(S):
    bad = S.pick('undefined', range(12))
    mode = S.pick('mode', list(MODES)) if bad > 9 else 'M15'
    y = [S.real('y%d' % i, -10, 1e6 if i != 1 else 0.99) for i in range(4)]
    _rates(S, {k: True for k in SWITCHES}, mode, bad, y)


def _rates(S, on, mode, bad, y):
    y0 = list(y)
    t = S.real('t', 0, 1e10)
    calls = []

    def star(tag):
        def at(tt):
            S.check('asked-now', S.eq(tt, t))
            return {'mass': tag + 'm', 'R': tag + 'r'}
        at.keys = ('mass', 'R')
        return types.SimpleNamespace(interp1d=at)
    p, s = star('p'), star('s')
    w = [S.real('w%d' % i, -1e3, 1e3) for i in range(11)]
    w[bad - 1 if bad else 0] = float('nan') if bad else w[0]
    ev = sd.detached_evolution(magnetic_braking_mode=mode, **on)
    ev.set_stars(p, s, t0=0.0)
    clip = [v if S.decide(v >= 0) else 0.0 for v in y0]
    ecc = 0.0 if S.decide(clip[1] < 1e-3) else clip[1]

    def effect(name, *vals, orbit=True):
        def f(*a):
            calls.append(name)
            S.check('stars', a[2 if orbit else 0] is p
                    and a[3 if orbit else 1] is s)
            if orbit:
                S.check('orbit', S.And(S.eq(a[0], clip[0]), S.eq(a[1], ecc)))
            S.check('current', S.And(
                S.eq(p.latest['omega'], clip[3]),
                S.eq(s.latest['omega'], clip[2])))
            S.check('structure', p.latest['mass'] == 'pm'
                    and s.latest['R'] == 'sr')
            return vals if len(vals) > 1 else vals[0]
        return f
    import contextlib
    with contextlib.ExitStack() as st:
        for mod, fn, f in [
                (ti, 'default_tides', effect('tides', *w[:4])),
                (gr, 'default_gravrad', effect('gr', *w[4:6])),
                (wi, 'default_sep_from_winds', effect('sep', w[6])),
                (wi, 'default_spin_from_winds', effect('spin', *w[7:9]))] + [
                (mb, MODES[m][0], effect(m, *w[9:11], orbit=False))
                for m in MODES]:
            st.enter_context(replaced(mod, fn, f))
        r = ev(t, y)

    def v(i):
        return 0.0 if bad and i == bad - 1 else w[i]
    ref = [0, 0, 0, 0]
    exp = []

    def plus(name, **k):
        exp.append(name)
        for i, j in k.items():
            ref['aesp'.index(i)] += v(j)
    if on['do_tides']:
        plus('tides', a=0, e=1, s=2, p=3)
    if on['do_gravitational_radiation']:
        plus('gr', a=4, e=5)
    if on['do_magnetic_braking'] and mode != 'unknown':
        plus(mode, s=9, p=10)
    if on['do_wind_loss']:
        plus('sep', a=6)
    if on['do_stellar_evolution_and_spin_from_winds']:
        plus('spin', s=7, p=8)
    S.check('enabled-effects-once', sorted(calls) == sorted(exp))
    S.check('four-rates', len(r) == 4)
    for i, n in enumerate(['separation', 'eccentricity', 'spin-secondary',
                           'spin-primary']):
        S.check(n, S.eq(r[i], ref[i]))


# ------------------------------------------------------------ the step (P15)
META['P15'] = dict(assumptions=[
    "the orbit integrator, the track matcher and the tracks are stubs with "
    "arbitrary (symbolic) results; stellar states after the step are "
    "arbitrary (their inference is P01)"])


class Track:
    """A matched track: arbitrary structure as function of time."""

    def __init__(self, S, tag, t0=0.0, t_max=9.0, max_time=9.0, **vals):
        self.S, self.tag, self.vals = S, tag, vals
        self.t0, self.t_max, self.max_time = t0, t_max, max_time
        self.offset = None
        self.keys = ('mass', 'R')
        self.memo = []

    def one(self, k, i):
        v = self.vals.get(k)
        if v is None:
            lo, hi = {'mass': (0.1, 100), 'R': (0.1, 1000),
                      'mdot': (1e-12, 1) if i else (-1, 1), 'inertia': (1e-3, 1e6)}.get(
                          k, (-100, 100))
            return self.S.real('%s_%s%d' % (self.tag, k, i), lo, hi)
        return v

    def __call__(self, t):
        arr = isinstance(t, np.ndarray)
        n = len(t) if arr else 1
        keys = set(self.vals) | {'mass', 'R', 'mdot', 'inertia', 'log_R',
                                 'center_he4', 'log_L'}
        out = {}
        for k in sorted(keys):
            v = [self.one(k, i) for i in range(n)]
            if arr:
                a = np.empty(n, dtype=object if S_sym(v) else float)
                a[:] = v
                out[k] = a
            else:
                out[k] = v[0]
        self.asked = t
        return out


def S_sym(v):
    from symex.core import is_sym
    return any(is_sym(x) for x in v)


def pair(state='detached', event=None):
    a = SingleStar(mass=3.0, state='H-rich_Core_H_burning')
    b = SingleStar(mass=2.0, state='H-rich_Core_H_burning')
    bi = BinaryStar(star_1=a, star_2=b, state=state, event=event, time=1.0,
                    separation=10., orbital_period=1., eccentricity=0.1)
    bi.V_sys = [0, 0, 0]
    return bi


def step(**k):
    st = sd.detached_step(**k)
    return st


EV = ['secondary overflows', 'primary overflows', 'secondary ends',
      'primary ends', 'none']
DOUBLE = ['H-rich_Core_H_burning', 'stripped_He_Core_He_burning',
          'H-rich_Central_C_depletion', 'WD']


@harness(REG, 'P15', bounds='all events, roles, kinds of stars, orbits',
         stubs=['integration', 'matching', 'tracks', 'state inference',
                'wind accretion'], feas_ms=0, max_paths=30000, budget=250)
def outcome(S):
    first = S.pick('secondary is star', [1, 2]) == 1
    kind = S.pick('kind', ['stars', 'CO+star', 'CO+CO', 'massless+star'])
    evt = S.pick('event', EV)
    am = S.pick('same angular momentum', [False, True])
    hms = S.pick('has HMS-HMS-RLO step', [True, False])
    s_sec = S.pick('secondary state', DOUBLE)
    s_pri = S.pick('primary state', DOUBLE) if kind == 'stars' else \
        'massless_remnant' if kind == 'massless+star' else 'BH'
    bi = pair()
    sec, pri = (bi.star_1, bi.star_2) if first else (bi.star_2, bi.star_1)
    sec.co = kind == 'CO+CO'
    pri.co = kind != 'stars'
    sec.omega0 = pri.omega0 = 1.0
    pri.state, sec.state = s_pri, s_sec
    t0 = S.real('time', 0, 1e10)
    bi.time = t0
    tend = S.real('end', 0, 1e11)
    S.assume(tend > t0)
    tr = {}
    for n, s in (('s', sec), ('p', pri)):
        tr[n] = s.interp1d = Track(
            S, n, t0=S.real(n + 't0', 0, 1e10), t_max=S.real(
                n + 'tmax', 0, 1e11), max_time=S.real('tmax' + n, 0, 1e11))
    limit = S.real('simulation end', 0, 1e11)
    bi.properties = types.SimpleNamespace(
        max_simulation_time=limit,
        all_step_names=['step_HMS_HMS_RLO'] if hms else [])
    bi.get_next_step_name = lambda: 'step_x'
    bi.append_state = lambda: None
    log = []
    only_co = kind == 'CO+CO'

    class TM:
        matching_method = 'none'

        def do_matching(self, b, name):
            log.append(('match', b, name))
            return pri, sec, only_co

        def get_star_final_values(self, s):
            log.append(('final', s))

        def get_star_profile(self, s):
            log.append(('profile', s))
    st = step(track_matcher=TM(), RLO_orbit_at_orbit_with_same_am=am)
    o1, o2 = S.real('overflow sec', -10, 10), S.real('overflow pri', -10, 10)
    a0, e0 = S.real('a', 0.1, 1e5), S.real('e', 0, 0.9)
    bi.separation, bi.eccentricity = a0, e0
    a1, e1 = S.real('a end', 0.1, 1e5), S.real('e end', 0, 0.9)

    def first_rlo(t, y):
        S.check('asked-at-start', S.And(S.eq(t, t0), S.eq(y[0], a0),
                                        S.eq(y[1], e0)))
        return o1
    st.evo.ev_rlo1 = first_rlo
    st.evo.ev_rlo2 = lambda t, y: o2

    def solve(b, p, q):
        log.append(('solve',))
        S.check('offsets', S.And(
            S.eq(sec.interp1d.offset, t0 - tr['s'].t0),
            S.eq(pri.interp1d.offset, t0 - tr['p'].t0),
            S.eq(sec.t_max, tr['s'].t_max), S.eq(pri.t_max, tr['p'].t_max),
            S.eq(sec.t_offset, t0 - tr['s'].t0),
            S.eq(pri.t_offset, t0 - tr['p'].t0)))
        S.check('stars-set', st.evo.primary is pri
                and st.evo.secondary is sec)
        S.check('time-left', S.lt(t0, st.max_time))
        S.check('limit', S.eq(st.max_time, tr['s'].max_time))
        hit = [np.array([5.0]) if EV[i] == evt else np.array([])
               for i in range(4)]
        return types.SimpleNamespace(
            status=0 if evt == 'none' else 1, message='', t=[t0, tend],
            y=[[a0, a1], [e0, e1], [1, 1], [1, 1]], t_events=hit, sol=None)
    st.solve_ODEs = solve
    m1, m2 = S.real('m1', 0.1, 100), S.real('m2', 0.1, 100)
    P1 = S.real('P end', 1e-3, 1e6)

    def update(t, b, p, q):
        log.append(('update', list(t)))
        b.time, b.separation, b.eccentricity, b.orbital_period = (
            t[-1], a1, e1, P1)
        b.star_1.mass, b.star_2.mass = m1, m2
    st.update_after_evo = update
    st.update_co_stars = lambda t, p, q: log.append(('co', list(t)))
    masses = {}

    def infer(s, i=None, star_CO=False):
        log.append(('infer', s, i, star_CO))
        return s_sec if s is sec else s_pri

    def wind(*a, **k):
        log.append(('wind', a[1], a[2]))
        return np.array([1e-9])

    def kepler(sep, x, y):
        S.check('kepler-of-these', S.Or(
            S.And(S.eq(x, sec.mass), S.eq(y, pri.mass)),
            S.And(S.eq(y, sec.mass), S.eq(x, pri.mass))))
        return masses.setdefault('P', P1 * (
            (1 - e1 ** 2) if am else (1 - e1)) ** 1.5)
    exc = None
    with replaced(cf, 'check_state_of_star', infer), replaced(
            cf, 'bondi_hoyle', wind), replaced(
            cf, 'orbital_period_from_separation', kepler):
        try:
            st(bi)
        except Exception as x:
            exc = x
    S.check('matched', log[0] == ('match', bi, 'step_x'))
    solved = ('solve',) in log
    if not only_co and (S.decide(o1 >= 0) or S.decide(o2 >= 0)):
        S.check('initial-overflow', exc is None and not solved)
        S.check('initial-overflow-state', bi.state == 'initial_RLOF')
        S.check('not-evolved', S.And(
            S.eq(bi.time, t0), S.eq(bi.separation, a0), bi.event is None))
        return
    if not S.decide(tr['s'].max_time > t0):
        S.check('no-time-left', isinstance(exc, ValueError) and not solved)
        return
    S.check('integrated-once', log.count(('solve',)) == 1)
    upd = [x for x in log if x[0] == 'update']
    S.check('updated-once', len(upd) == 1 and len(upd[0][1]) == 1
            and len([x for x in log if x[0] == 'co']) == 1)
    S.check('until-the-end', S.eq(upd[0][1][-1], tend))
    want = ([sec] if not sec.co else []) + ([pri] if not pri.co else [])
    S.check('reclassified', [x[1] for x in log if x[0] == 'infer'] == want
            and all(x[2] is None and x[3] is False for x in log
                    if x[0] == 'infer'))
    S.check('wind-accretion', [x[1:] for x in log if x[0] == 'wind'] == (
        [(pri, sec)] if kind == 'CO+star' else []))
    fin = [x[1] for x in log if x[0] == 'final']
    prof = [x[1] for x in log if x[0] == 'profile']
    if kind == 'CO+CO':
        S.check('compact-objects-no-event', exc is None
                and bi.event is None and not fin and not prof)
        return
    if evt in EV[:2]:
        f = (1 - e1 ** 2) if am else (1 - e1)
        donor = 1 if first == (evt == EV[0]) else 2
        two = (bi.star_1.state, bi.star_2.state)
        H = [x in STAR_STATES_H_RICH_EVOLVABLE for x in two]
        He = [x in STAR_STATES_HE_RICH_EVOLVABLE for x in two]
        if not hms and (H[0] and He[1] or H[1] and He[0]):
            S.check('unsupported', isinstance(exc, FlowError)
                    and bi.state == 'ERR' and bi.event == 'FAILED')
            return
        if not hms and H[0] and H[1]:
            S.check('unclassified', isinstance(exc, ClassificationError)
                    and bi.state == 'ERR' and bi.event == 'FAILED')
            return
        S.check('no-error', exc is None)
        S.check('circularised', S.And(
            S.eq(bi.separation, a1 * f), S.eq(bi.eccentricity, 0),
            S.eq(bi.orbital_period, P1 * f ** 1.5)))
        S.check('overflow', bi.state == 'RLO%d' % donor
                and bi.event == 'oRLO%d' % donor)
        S.check('no-collapse', not fin and not prof)
        return
    S.check('orbit-kept', S.And(
        S.eq(bi.separation, a1), S.eq(bi.eccentricity, e1),
        S.eq(bi.orbital_period, P1), bi.state == 'detached'))
    if evt in EV[2:4]:
        who = sec if evt == EV[2] else pri
        n = 1 if who is bi.star_1 else 2
        S.check('collapse', bi.event == 'CC%d' % n)
        S.check('final-values', who in fin and who in prof
                and fin[0] is who)
        both = evt == EV[2] and kind == 'stars' and s_pri in STAR_STATES_CC
        if both:
            S.check('twins', (exc is None) == S.decide(S.eq(
                pri.mass, sec.mass)))
            same = S.decide(S.eq(tr['p'].t_max - tr['p'].t0,
                                 tr['s'].t_max - tr['s'].t0))
            S.check('twin-collapses-too', (pri in fin) == same
                    and (pri in prof) == same)
        else:
            S.check('no-error', exc is None)
            S.check('only-that-star', fin == [who] and prof == [who])
        return
    S.check('no-error', exc is None)
    S.check('end-of-time', bi.event == (
        'MaxTime_exceeded' if S.decide(limit < tend) else 'maxtime'))
    S.check('no-collapse', not fin and not prof)


@harness(REG, 'P15', bounds='steps of any length, up to 5 stored entries, '
         'or 1 to 4 requested ones', max_range=5)
def stored_times(S):
    t0, t1 = S.real('start', 0, 1e10), S.real('end', 0, 1e10)
    S.assume(t1 > t0)
    mode = S.pick('mode', ['dt', 'n', 'none', 'zero'])
    st = step()
    st.res = types.SimpleNamespace(t=[t0, t1])
    bi = types.SimpleNamespace(time=t0)
    if mode == 'dt':
        dt = S.real('dt', 1e-3, 1e11)
        S.assume(dt * 4.5 > t1 - t0)
        st.dt = dt
    elif mode == 'n':
        n = S.pick('n', [1, 2, 3, 4])
        st.n_o_steps_history = n
    elif mode == 'zero':
        st.dt = 0
        st.n_o_steps_history = 0
    t = st.get_time_after_evo(bi)
    S.check('ends-at-the-end', S.eq(t[-1], t1))
    for i in range(len(t) - 1):
        S.check('increasing', S.lt(t[i], t[i + 1]))
        if mode == 'dt':
            S.check('spacing', S.eq(t[i], t0 + (i + 1) * dt))
    if len(t):
        S.check('after-start', S.lt(t0, t[0]))
    if mode == 'dt':
        S.check('no-gap', S.le(t[-1] - (t[-2] if len(t) > 1 else t0), dt))
    elif mode == 'n':
        S.check('count', len(t) == n)
    else:
        S.check('one', len(t) == 1)


@harness(REG, 'P15', bounds='all masses, radii and orbits')
def overflow_events(S):
    a, e = S.real('a', 0.1, 1e6), S.real('e', 0, 0.99)
    t = S.real('t', 0, 1e10)
    p = types.SimpleNamespace(interp1d=Track(S, 'p'), t_max=S.real(
        'pm', 0, 1e10), t_offset=S.real('po', -1e10, 1e10))
    s = types.SimpleNamespace(interp1d=Track(S, 's'), t_max=S.real(
        'sm', 0, 1e10), t_offset=S.real('so', -1e10, 1e10))
    ev = sd.detached_evolution()
    ev.set_stars(p, s)
    with abstracted(S, cf, roche_lobe_radius=(1e-9, None)):
        r1, r2 = ev.ev_rlo1(t, [a, e]), ev.ev_rlo2(t, [a, e])
        q1, q2 = ev.ev_rel_rlo1(t, [a, e]), ev.ev_rel_rlo2(t, [a, e])
        P, Q = p.interp1d(t), s.interp1d(t)
        L2 = cf.roche_lobe_radius(P['mass'], Q['mass'], (1 - e) * a)
        L1 = cf.roche_lobe_radius(Q['mass'], P['mass'], (1 - e) * a)
    S.check('secondary-overflow', S.eq(r1, Q['R'] - 0.95 * L1))
    S.check('primary-overflow', S.eq(r2, P['R'] - 0.95 * L2))
    S.check('relative-secondary', S.eq(q1 * L1, Q['R'] - L1))
    S.check('relative-primary', S.eq(q2 * L2, P['R'] - L2))
    S.check('track-end', S.And(
        S.eq(ev.ev_max_time1(t, [a, e]), s.t_max + s.t_offset - t),
        S.eq(ev.ev_max_time2(t, [a, e]), p.t_max + p.t_offset - t)))
    for f, d in ((ev.ev_rlo1, 1), (ev.ev_rlo2, 1), (ev.ev_max_time1, -1),
                 (ev.ev_max_time2, -1)):
        S.check('terminal', f.terminal is True and f.direction == d)


@harness(REG, 'P15', bounds='failure of either attempt',
         stubs=['scipy solve_ivp'])
def integration(S):
    fail1 = S.pick('first attempt fails', [False, True])
    status = S.pick('status', [0, 1, -1])
    bi = pair()
    t0, tm = S.real('t0', 0, 1e10), S.real('tm', 0, 1e10)
    bi.time, bi.separation, bi.eccentricity = t0, S.real('a', 1, 1e3), \
        S.real('e', 0, 0.9)
    pri, sec = bi.star_1, bi.star_2
    pri.omega0, sec.omega0 = S.real('wp', 0, 10), S.real('ws', 0, 10)
    st = step()
    st.max_time = tm
    calls, app = [], []
    bi.append_state = lambda: app.append((bi.state, bi.event))
    RES = types.SimpleNamespace(status=status)

    def ivp(fun, t_span=None, y0=None, method=None, events=None,
            dense_output=False, **k):
        calls.append(method)
        S.check('same-system', fun is st.evo and events == [
            st.evo.ev_rlo1, st.evo.ev_rlo2, st.evo.ev_max_time1,
            st.evo.ev_max_time2] and dense_output is True)
        S.check('from-the-current-state', S.And(
            S.eq(t_span[0], t0), S.eq(t_span[1], tm),
            S.eq(y0[0], bi.separation), S.eq(y0[1], bi.eccentricity),
            S.eq(y0[2], sec.omega0), S.eq(y0[3], pri.omega0)))
        if fail1 and len(calls) == 1:
            raise RuntimeError('x')
        return RES
    try:
        with replaced(sd, 'solve_ivp', ivp):
            r = st.solve_ODEs(bi, pri, sec)
    except NumericalError:
        S.check('failed-for-a-reason', status == -1)
        S.check('marked', bi.state == 'ERR' and bi.event == 'FAILED'
                and app == [('ERR', 'FAILED')])
        return
    S.check('result', r is RES and status != -1 and not app
            and bi.state == 'detached')
    S.check('attempts', len(calls) == 1 + fail1
            and len(set(calls)) == len(calls))


OMEGA = ('surf_avg_omega', 'surf_avg_omega_div_omega_crit', 'spin',
         'log_total_angular_momentum', 'total_moment_of_inertia', 'lg_mdot',
         'lg_wind_mdot')


@harness(REG, 'P15', bounds='1 to 3 stored times, either star the secondary, '
         'with and without compact objects', world=units,
         stubs=['integration', 'tracks'])
def stored_histories(S):
    n = S.pick('n', [1, 2, 3])
    first = S.pick('secondary is star', [1, 2]) == 1
    kind = S.pick('kind', ['stars', 'CO+star', 'CO+CO'])
    bi = pair()
    sec, pri = (bi.star_1, bi.star_2) if first else (bi.star_2, bi.star_1)
    sec.co, pri.co = kind == 'CO+CO', kind != 'stars'
    sec.interp1d, pri.interp1d = Track(S, 's'), Track(S, 'p')
    objs = [bi, bi.star_1, bi.star_2]
    for o, props in ((bi, BINARYPROPERTIES), (sec, STARPROPERTIES),
                     (pri, STARPROPERTIES)):
        for k in props:
            v = 'old' if k in ('state', 'event', 'mass_transfer_case') else \
                None if k == 'profile' else 7.0
            setattr(o, k, v)
            setattr(o, k + '_history', [v])
    st = step()
    t = np.empty(n, dtype=object)
    t[:] = [S.real('t%d' % i, 0, 1e10) for i in range(n)]
    sol = {k: [S.real(k + str(i), 0 if i == 0 and k != 'sep' else 1e-3, hi)
               for i in range(n)]
           for k, hi in (('sep', 1e5), ('ecc', 0.99), ('ws', 1e4),
                         ('wp', 1e4))}

    def dense(tt):
        r = []
        for k in ('sep', 'ecc', 'ws', 'wp'):
            a = np.empty(n, dtype=object if S.symbolic else float)
            a[:] = sol[k]
            r.append(a)
        return r
    st.res = types.SimpleNamespace(sol=dense)
    st.evo.set_stars(pri, sec)
    if not S.symbolic:
        t = t.astype(float)
    with abstracted(S, cf, roche_lobe_radius=(1e-9, None),
                    orbital_period_from_separation=(1e-9, None)):
        st.update_after_evo(t, bi, pri, sec)
        st.update_co_stars(t, pri, sec)
        lobe = {}
        per = []
        for i in range(n):
            ms = [s.interp1d.one('mass', i) for s in (sec, pri)]
            peri = (1 - sol['ecc'][i]) * sol['sep'][i]
            lobe[sec, i] = cf.roche_lobe_radius(ms[0], ms[1], peri)
            lobe[pri, i] = cf.roche_lobe_radius(ms[1], ms[0], peri)
            per.append(cf.orbital_period_from_separation(
                sol['sep'][i], *ms))
    for o, props in ((bi, BINARYPROPERTIES), (sec, STARPROPERTIES),
                     (pri, STARPROPERTIES)):
        for k in props:
            S.check('aligned', len(getattr(o, k + '_history')) == n)

    def entries(o, k):
        return list(getattr(o, k + '_history'))[1:] + [getattr(o, k)]
    for i in range(n):
        S.check('binary', S.And(
            S.eq(entries(bi, 'time')[i], t[i]),
            S.eq(entries(bi, 'separation')[i], sol['sep'][i]),
            S.eq(entries(bi, 'eccentricity')[i], sol['ecc'][i]),
            S.eq(entries(bi, 'orbital_period')[i], per[i]),
            S.eq(entries(bi, 'state')[i], 'old'),
            S.eq(entries(bi, 'event')[i], 'old')))
        for nm, s in (('1', bi.star_1), ('2', bi.star_2)):
            S.check('relative-overflow-' + nm, S.eq(
                entries(bi, 'rl_relative_overflow_' + nm)[i] * lobe[s, i],
                s.interp1d.one('R', i) - lobe[s, i]))
        for s, w in ((sec, sol['ws'][i]), (pri, sol['wp'][i])):
            tr = s.interp1d
            if s.co:
                for k in ('mass', 'spin', 'surf_avg_omega', 'log_R'):
                    S.check('compact-object-kept', S.eq(
                        entries(s, k)[i], 7.0))
                S.check('compact-object-kept', entries(s, 'state')[i]
                        == 'old')
                continue
            m, R, I = (tr.one(k, i) for k in ('mass', 'R', 'inertia'))
            I = I * const.msol * const.rsol ** 2
            w = w / const.secyer
            S.check('structure', S.And(*[
                S.eq(entries(s, k)[i], tr.one(k, i))
                for k in ('mass', 'log_R', 'center_he4', 'log_L')]))
            S.check('not-on-the-track', S.And(*[
                S.isnan(entries(s, k)[i]) for k in (
                    'center_gamma', 'he_core_mass')]))
            S.check('spin-rate', S.eq(entries(s, 'surf_avg_omega')[i], w))
            S.check('critical', S.eq(
                entries(s, 'surf_avg_omega_div_omega_crit')[i] ** 2
                * const.standard_cgrav * m * const.msol,
                w ** 2 * (R * const.rsol) ** 3))
            S.check('inertia', S.eq(
                entries(s, 'total_moment_of_inertia')[i], I))
            S.check('spin', S.eq(
                entries(s, 'spin')[i] * const.standard_cgrav
                * (m * const.msol) ** 2, const.clight * w * I))
            j = entries(s, 'log_total_angular_momentum')[i]
            S.check('angular-momentum', S.eq(
                j, np.log10(w * I) if S.decide(w * I > 0) else -99.0))
            md = tr.one('mdot', i)
            for k in ('lg_mdot', 'lg_wind_mdot'):
                S.check('mass-loss', S.eq(
                    entries(s, k)[i], np.log10(abs(md)) if
                    S.decide(abs(md) > 0) else -99.0))
