"""Orbital mechanics, Roche geometry, compact objects, accretion."""
import types

import numpy as np

from posydon.utils import common_functions as cf
from posydon.utils import constants as const
from symex.run import harness

REG = []
META = {
    'P07': dict(assumptions=[
        "masses in [0.01, 500] Msun, separations in [0.01, 1e7] Rsun, "
        "periods in [1e-3, 1e6] d; arithmetic over the reals, compared with "
        "a relative tolerance of 1e-9 (conversions between period and "
        "separation: 1e-3, the accuracy of the rounded unit constants)"]),
    'P08': dict(assumptions=[
        "accretor masses in [0.1, 300] Msun, spins in [0, 1], surface "
        "hydrogen in [0, 1]"]),
}
G, c = const.standard_cgrav, const.clight
MS, RS = const.Msun, const.Rsun


def mass(S, n, lo=0.01, hi=500):
    return S.real(n, lo, hi)


def f(x):
    return x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x


# ------------------------------------------------------------------ P07
@harness(REG, 'P07', bounds='period/separation/masses in the stated range')
def kepler(S):
    m1, m2 = mass(S, 'm1'), mass(S, 'm2')
    P = S.real('P', 1e-3, 1e6)
    a = f(cf.orbital_separation_from_period(P, m1, m2))
    A, T = a * RS, P * 86400.
    S.check('kepler-separation', S.eq(A * A * A, G * MS * (m1 + m2) * T * T
                                      / (4 * np.pi**2), rtol=1e-7))
    S.check('symmetric', S.eq(a, f(cf.orbital_separation_from_period(P, m2, m1))))
    S.check('positive', a > 0)


@harness(REG, 'P07', bounds='period/separation/masses in the stated range')
def kepler_inverse(S):
    m1, m2 = mass(S, 'm1'), mass(S, 'm2')
    a = S.real('a', 0.01, 1e7)
    P = f(cf.orbital_period_from_separation(a, m1, m2))
    A, T = a * RS, P * 86400.
    S.check('kepler-period', S.eq(4 * np.pi**2 * A * A * A,
                                  G * MS * (m1 + m2) * T * T, rtol=1.5e-3))
    S.check('symmetric', S.eq(P, f(cf.orbital_period_from_separation(a, m2, m1))))
    S.check('scaling', S.eq(f(cf.orbital_period_from_separation(4 * a, m1, m2)),
                            8 * P))
    S.check('mass-scaling', S.eq(
        2 * f(cf.orbital_period_from_separation(a, 4 * m1, 4 * m2)), P))


def eggleton(S, q):
    t = q**(1. / 3)
    return 0.49 * t * t / (0.6 * t * t + np.log(1 + t))


@harness(REG, 'P07', bounds='scalar arguments, including invalid ones')
def roche_scalar(S):
    a = S.real('a', -10, 1e6, nan=True)
    m1, m2 = S.real('m1', -1, 500, nan=True), S.real('m2', -1, 500, nan=True)
    rl = cf.roche_lobe_radius(m1, m2, a)
    if S.decide(m1 > 0) and S.decide(m2 > 0) and S.decide(a >= 0):
        q = m1 / m2
        S.check('eggleton', S.eq(rl, a * eggleton(S, q)))
        S.check('inside-orbit', S.le(rl, 0.49 / 0.6 * a))
        S.check('non-negative', S.ge(rl, 0))
    else:
        S.check('undefined-for-invalid', S.isnan(rl))
    S.note(rl=rl)


@harness(REG, 'P07', bounds='arrays of 2 entries')
def roche_array(S):
    a = np.array([S.real('a%d' % i, -10, 1e5) for i in range(2)])
    m1 = np.array([S.real('m1_%d' % i, -1, 500) for i in range(2)])
    m2 = np.array([S.real('m2_%d' % i, -1, 500) for i in range(2)])
    if not S.symbolic:
        a, m1, m2 = (x.astype(float) for x in (a, m1, m2))
    kind = S.pick('arrays', ['all', 'separation', 'mass'])
    A, M1, M2 = list(a), list(m1), list(m2)
    if kind == 'separation':
        rl = cf.roche_lobe_radius(M1[0], M2[0], a)
    elif kind == 'mass':
        rl = cf.roche_lobe_radius(m1, m2, A[0])
    else:
        rl = cf.roche_lobe_radius(m1, m2, a)
    S.check('shape', len(rl) == 2)
    for i in range(2):
        x = A[0] if kind == 'mass' else A[i]
        y = M1[0] if kind == 'separation' else M1[i]
        z = M2[0] if kind == 'separation' else M2[i]
        if S.decide(y > 0) and S.decide(z > 0) and S.decide(x >= 0):
            S.check('eggleton', S.eq(rl[i], x * eggleton(S, y / z)))
        else:
            S.check('undefined-for-invalid', S.isnan(rl[i]))


@harness(REG, 'P07', bounds='masses, radii in [0, 1e4], separations')
def rlo_detection(S):
    m1, m2 = mass(S, 'm1'), mass(S, 'm2')
    r1, r2 = S.real('r1', 0, 1e4), S.real('r2', 0, 1e4)
    a = S.real('a', 0.01, 1e6)
    got = cf.check_for_RLO(m1, r1, m2, r2, a)
    L1, L2 = a * eggleton(S, m1 / m2), a * eggleton(S, m2 / m1)
    over = S.decide(r1 - L1 >= 1e-8) or S.decide(r2 - L2 >= 1e-8)
    # leave the rounding of the comparison itself aside
    d1, d2 = r1 - L1 - 1e-8, r2 - L2 - 1e-8
    S.assume((d1 > 1e-6) | (d1 < -1e-6))
    S.assume((d2 > 1e-6) | (d2 < -1e-6))
    S.check('overflow-iff-larger-than-lobe', S.iff(bool(got), over))
    S.check('symmetric', S.iff(bool(cf.check_for_RLO(m2, r2, m1, r1, a)), over))


@harness(REG, 'P07', bounds='masses before/after, companion, orbit')
def wind_loss(S):
    m, m0, mc = mass(S, 'm'), mass(S, 'm0'), mass(S, 'mc')
    x = S.real('orbit', 1e-3, 1e7)
    a = cf.separation_evol_wind_loss(m, m0, mc, x)
    S.check('separation-times-mass-conserved', S.eq(a * (m + mc), x * (m0 + mc)))
    P = cf.period_evol_wind_loss(m, m0, mc, x)
    S.check('period-times-mass-squared-conserved',
            S.eq(P * (m + mc) * (m + mc), x * (m0 + mc) * (m0 + mc)))


@harness(REG, 'P07', bounds='donor/accretor masses, efficiencies on a grid of '
         'rationals', budget=200)
def stable_mt_grid(S):
    di, df = mass(S, 'Mdon_i', 0.1, 200), mass(S, 'Mdon_f', 0.1, 200)
    ai = mass(S, 'Macc_i', 0.1, 200)
    P = S.real('P', 1e-2, 1e5)
    al = S.pick('alpha', [0.0, 1. / 3, 1.0])
    be = S.pick('beta', [0.0, 0.5])
    try:
        p = cf.period_change_stable_MT(P, di, df, ai, alpha=al, beta=be)
    except ValueError:
        S.check('only-gaining-donor-refused', df > di)
        return
    S.check('gaining-donor-refused', S.le(df, di))
    af = ai + (1 - be) * (1 - al) * (di - df)
    # P_f/P_i = (Md_f/Md_i)^(3(al-1)) (Ma_f/Ma_i)^(3/(be-1)) (M_i/M_f)^2
    e1 = int(round(3 * (1 - al)))
    e2 = 3 if be == 0 else 6
    rd, ra, rm = di / df, ai / af, (di + ai) / (df + af)
    r = P * rm * rm
    for _ in range(e1):
        r = r * rd
    for _ in range(e2):
        r = r * ra
    S.check('angular-momentum-balance', S.eq(p, r))


@harness(REG, 'P07', bounds='donor/accretor masses, any efficiencies')
def stable_mt_general(S):
    di, df = mass(S, 'Mdon_i', 0.1, 200), mass(S, 'Mdon_f', 0.1, 200)
    ai = mass(S, 'Macc_i', 0.1, 200)
    P = S.real('P', 1e-2, 1e5)
    al = S.real('alpha', -0.5, 1.5)
    be = S.real('beta', -0.5, 1.5)
    bad = (S.decide(df > di) or S.decide(al < 0) or S.decide(al > 1)
           or S.decide(be < 0) or S.decide(be > 1))
    try:
        p = cf.period_change_stable_MT(P, di, df, ai, alpha=al, beta=be)
    except ValueError:
        S.check('only-invalid-refused', bad)
        return
    S.check('invalid-refused', not bad)
    af = ai + (1. - be) * (1. - al) * (di - df)
    if S.decide(be == 1):
        S.check('all-lost', S.eq(
            p, P * (df / di)**(3. * (al - 1.))
            * np.exp(3. * (1. - al) * (df - di) / af)
            * ((di + ai) / (df + af))**2))


@harness(REG, 'P07', bounds='circular orbits')
def inspiral_circular(S):
    m1, m2 = mass(S, 'm1'), mass(S, 'm2')
    a = S.real('a', 1e-3, 1e5)
    t = cf.inspiral_timescale_from_separation(m1, m2, a, 0.0)
    M1, M2, A = m1 * MS, m2 * MS, a * RS
    ref = 5 * c**5 * A**4 / (256 * G**3 * M1 * M2 * (M1 + M2))
    S.check('peters-circular', S.eq(t * const.secyer * 1e6, ref))
    S.check('symmetric', S.eq(
        t, cf.inspiral_timescale_from_separation(m2, m1, a, 0.0)))
    P = S.real('P', 1e-3, 1e5)
    t2 = cf.inspiral_timescale_from_orbital_period(m1, m2, P, 0.0)
    a2 = f(cf.orbital_separation_from_period(P, m1, m2))
    S.check('same-orbit-same-time', S.eq(
        t2, cf.inspiral_timescale_from_separation(m1, m2, a2, 0.0)))


@harness(REG, 'P07', bounds='eccentric orbits; the quadrature is an '
         'uninterpreted integral of the integrand that the code supplies',
         stubs=['scipy.integrate.quad'])
def inspiral_eccentric(S):
    m1, m2 = mass(S, 'm1'), mass(S, 'm2')
    a = S.real('a', 1e-3, 1e5)
    e = S.real('e', 0, 1, lo_open=True, hi_open=True)
    x = S.real('x', 0, 1, lo_open=True, hi_open=True)
    I = S.real('integral', 1e-9, 1e9)
    cap = []

    def quad(fn, lo, hi, **k):
        cap.append((fn(x), lo, hi))
        return I, 0.0
    orig, cf.quad = cf.quad, quad
    try:
        t = cf.inspiral_timescale_from_separation(m1, m2, a, e)
    finally:
        cf.quad = orig
    S.check('one-integral', len(cap) == 1)
    fx, lo, hi = cap[0]
    S.check('from-zero-to-e', S.And(S.eq(lo, 0.0), S.eq(hi, e)))
    S.check('peters-integrand', S.eq(
        fx, x**(29. / 19) * (1 + (121. / 304) * x**2)**(1181. / 2299)
        / (1 - x**2)**1.5))
    M1, M2, A = m1 * MS, m2 * MS, a * RS
    beta = 64. / 5 * G**3 * M1 * M2 * (M1 + M2) / c**5
    c0 = (A * (1 - e**2) * e**(-12. / 19)
          * (1 + (121. / 304) * e**2)**(-870. / 2299))
    S.check('peters-time', S.eq(t * const.secyer * 1e6 * beta,
                                12. / 19 * c0**4 * I))


@harness(REG, 'P07', bounds='invalid and valid arguments')
def inspiral_invalid(S):
    m1, m2 = S.real('m1', -5, 50), S.real('m2', -5, 50)
    a, e = S.real('a', -5, 50), S.real('e', -0.5, 1.5)
    bad = (S.decide(m1 <= 0) or S.decide(m2 <= 0) or S.decide(a <= 0)
           or S.decide(e < 0) or S.decide(e >= 1))
    orig, cf.quad = cf.quad, lambda *a, **k: (1.0, 0.0)
    try:
        cf.inspiral_timescale_from_separation(m1, m2, a, e)
        ok = True
    except ValueError:
        ok = False
    finally:
        cf.quad = orig
    S.check('unphysical-refused', ok == (not bad))


@harness(REG, 'P07', bounds='arrays of 4 increasing abscissae', budget=150)
def linear_interpolation(S):
    n = 4
    xs = [S.real('x%d' % i, -100, 100) for i in range(n)]
    ys = [S.real('y%d' % i, -100, 100) for i in range(n)]
    for i in range(n - 1):
        S.assume(xs[i + 1] - xs[i] >= 1e-3)
    t = S.real('t', -100, 100)
    S.assume((t >= xs[0]) & (t <= xs[-1]))
    X, Y = np.array(xs), np.array(ys)
    y = cf.linear_interpolation_between_two_cells(Y, X, t)
    k = 0
    while k < n - 2 and S.decide(t > xs[k + 1]):
        k += 1
    if S.decide(S.eq(t, xs[0]).strong if S.symbolic else t == xs[0]):
        S.check('first-node', S.eq(y, ys[0]))
        return
    S.check('on-the-segment', S.eq((y - ys[k]) * (xs[k + 1] - xs[k]),
                                   (ys[k + 1] - ys[k]) * (t - xs[k]),
                                   rtol=1e-6, atol=1e-6))


@harness(REG, 'P07', bounds='explicit cells')
def linear_interpolation_cells(S):
    n = 3
    xs = [S.real('x%d' % i, -100, 100) for i in range(n)]
    ys = [S.real('y%d' % i, -100, 100) for i in range(n)]
    for i in range(n - 1):
        S.assume(xs[i + 1] - xs[i] >= 1e-3)
    t = S.real('t', -100, 100)
    top, bot = S.pick('cells', [(1, 0), (2, 1), (None, 1), (2, None),
                                (1, 1), (5, 1), (0, None), (2, 0)])
    kw = {}
    if top is not None:
        kw['top'] = top
    if bot is not None:
        kw['bot'] = bot
    y = cf.linear_interpolation_between_two_cells(np.array(ys), np.array(xs),
                                                  t, **kw)
    tp = top if top is not None else bot + 1
    bt = bot if bot is not None else top - 1
    tp, bt = min(tp, n - 1), max(bt, 0)
    if tp == bt:
        S.check('single-cell', S.eq(y, ys[tp]))
    else:
        S.check('on-the-line', S.eq((y - ys[bt]) * (xs[tp] - xs[bt]),
                                    (ys[tp] - ys[bt]) * (t - xs[bt]),
                                    rtol=1e-6, atol=1e-4))


# ------------------------------------------------------------------ P08
@harness(REG, 'P08', bounds='masses in [-1, 300], all types')
def radius(S):
    m = S.real('m', -1, 300)
    kind = S.pick('type', ['WD', 'NS', 'BH', 'star'])
    try:
        r = cf.CO_radius(m, kind)
    except ValueError:
        S.check('only-invalid-refused', S.Or(m <= 0, kind == 'star'))
        return
    S.check('invalid-refused', S.And(m > 0, kind != 'star'))
    if kind == 'BH':
        S.check('schwarzschild', S.eq(r * RS, 2 * G * m * MS / c**2))
    elif kind == 'NS':
        S.check('neutron-star', S.eq(r * RS, 12.5e5))
    else:
        R = r * RS
        S.check('white-dwarf', S.eq(R * R * R * m, 2.9e8**3))


def _co_binary(S, kind, who):
    co = types.SimpleNamespace(
        state=kind, mass=S.real('m_acc', 0.1, 300),
        state_history=np.array([None, None], dtype=object),
        mass_history=[S.real('m_acc_h%d' % i, 0.1, 300) for i in range(2)],
        surface_h1=np.nan, surface_h1_history=[np.nan, np.nan])
    don = types.SimpleNamespace(
        state='H-rich_Core_H_burning', mass=S.real('m_don', 0.1, 300),
        state_history=['H-rich_Core_H_burning'] * 2,
        mass_history=[5.0, 5.0],
        surface_h1=S.real('x', 0, 1, nan=True),
        surface_h1_history=[S.real('x_h%d' % i, 0, 1, nan=True) for i in range(2)])
    s1, s2 = (co, don) if who == 1 else (don, co)
    return types.SimpleNamespace(star_1=s1, star_2=s2), co, don


@harness(REG, 'P08', bounds='accretor and donor in either role, current time',
         budget=200)
def eddington(S):
    kind = S.pick('type', ['NS', 'BH', 'WD'])
    who = S.pick('accretor', [1, 2])
    b, co, don = _co_binary(S, kind, who)
    when = S.pick('when', [-1, 0])
    m, x = co.mass, don.surface_h1
    if when == 0:
        co.state_history = [kind, kind]
        m, x = co.mass_history[0], don.surface_h1_history[0]
    mdot, eta = cf.eddington_limit(b, idx=when)
    X = 0.7155 if S.decide(S.isnan(x)) else x
    if kind == 'BH':
        eff = 1 - np.sqrt(8. / 9)
    elif kind == 'NS':
        eff = G * m * MS / (12.5e5 * c**2)
    else:
        eff = G * m * MS / (2.9e8 * m**(-1. / 3) * c**2)
    S.check('efficiency:' + kind, S.eq(eta, eff))
    S.check('eddington-rate:' + kind, S.eq(
        mdot * MS / const.secyer * eff * 0.2 * (1 + X) * c,
        4 * np.pi * G * m * MS))


@harness(REG, 'P08', bounds='neither object compact')
def eddington_refused(S):
    b, co, don = _co_binary(S, 'NS', 1)
    co.state = S.enum('state', ['H-rich_Core_H_burning', 'massless_remnant',
                                'stripped_He_Core_He_burning'])
    try:
        cf.eddington_limit(b)
        S.fail('accepted')
    except ValueError:
        S.check('refused', True)


@harness(REG, 'P08', bounds='log10 rate in [-20, 2] or missing',
         stubs=['eddington_limit (checked separately)'])
def beamed(S):
    edd = S.real('mdot_edd', 1e-9, 1e-5)
    b = types.SimpleNamespace(lg_mtransfer_rate=S.real('lg', -20, 2)
                              if S.flag('has_rate') else None)
    orig, cf.eddington_limit = cf.eddington_limit, lambda *a, **k: (edd, 0.1)
    try:
        md, bb = cf.beaming(b)
    finally:
        cf.eddington_limit = orig
    if b.lg_mtransfer_rate is None:
        S.check('missing-rate', S.And(S.isnan(md), S.eq(bb, 1)))
        return
    r = 10**b.lg_mtransfer_rate
    if not S.decide(r >= edd):
        S.check('below-limit-all-accreted', S.And(S.eq(md, r), S.eq(bb, 1)))
        return
    x = r / edd
    if S.decide(x > 8.5):
        S.check('beaming-factor', S.eq(bb * x * x, 73))
    else:
        S.check('no-beaming', S.eq(bb, 1))
    S.check('super-eddington-rate', S.eq(md * bb, edd * (1 + np.log(x))))


@harness(REG, 'P08', bounds='7 spins in [0, 1] (and invalid ones), masses in [-1, 100], '
         'possibly missing')
def spin_up(S):
    s = S.pick('spin', [None, -0.1, 0.0, 0.25, 0.5, 0.75, 0.9, 0.998, 1.0])
    m0 = S.real('m_pre', -1, 100) if S.flag('has_pre') else None
    m1 = S.real('m_post', -1, 100) if S.flag('has_post') else None
    r = cf.spin_stable_mass_transfer(s, m0, m1)
    if (s is None or m0 is None or m1 is None or s < 0
            or S.decide(m0 <= 0) or S.decide(m1 <= 0)):
        S.check('missing-or-unphysical', r is None)
        return
    S.check('defined', r is not None)
    z1 = 1 + (1 - s**2)**(1 / 3) * ((1 + s)**(1 / 3) + (1 - s)**(1 / 3))
    z2 = (3 * s**2 + z1**2)**0.5
    ri = 3 + z2 - ((3 - z1) * (3 + z1 + 2 * z2))**0.5
    x = m1 / m0
    if S.decide(x < 1):
        S.check('mass-loss-undefined', S.isnan(r))
    elif S.decide(x > ri**0.5):
        S.check('maximal', S.eq(r, 1.0))
    else:
        S.check('bardeen', S.eq(r, ri**0.5 / 3 / x
                                * (4 - (3 * ri / x**2 - 2)**0.5)))


@harness(REG, 'P08', bounds='masses in [-5, 500]')
def he_lifetime(S):
    m = S.real('m', -5, 500)
    try:
        t = cf.He_MS_lifetime(m)
    except ValueError:
        S.check('only-invalid-refused', m <= 0)
        return
    S.check('invalid-refused', m > 0)
    if S.decide(m < 2):
        r = 1e8
    elif S.decide(m < 10):
        r = 10**(-2.6094 * np.log10(m) + 8.7855)
    elif S.decide(m < 100):
        r = 10**(-0.69897 * np.log10(m) + 6.875)
    else:
        r = 3e5
    S.check('lifetime', S.eq(t, r))
