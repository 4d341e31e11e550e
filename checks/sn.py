"""Supernovae: remnant masses, orbits after the kick, collapse bookkeeping."""
import copy
import types

import numpy as np
import scipy.optimize
import scipy.stats

import posydon.binary_evol.SN.step_SN as sn
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.flow_chart import (STAR_STATES_ALL, STAR_STATES_CC,
                                            STAR_STATES_C_DEPLETED,
                                            STAR_STATES_CO)
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.utils import common_functions as cf
from posydon.utils import constants as const
from posydon.utils.posydonerror import ModelError
from symex.run import harness
from symex.stub import replaced

REG = []
META = {
    'P09': dict(assumptions=[
        "CO core <= He core <= stellar mass <= 300 Msun (classification: any "
        "real masses in [-1, 300]); the tabulated core properties (M4, mu4, "
        "compactness, entropy) and the nearest-neighbour classifiers are "
        "arbitrary values"]),
    'P10': dict(assumptions=[
        "masses in [0.1, 200] Msun, separations in [0.1, 1e6] Rsun, "
        "eccentricities in [0, 0.99], kicks in [0, 5000] km/s; the root "
        "finder returns a root of the Kepler equation the code hands it; "
        "sine and cosine are uninterpreted with sin^2+cos^2=1; the code's "
        "rounding of the flight-path angle to 5 digits is kept"]),
    'P11': dict(assumptions=[
        "baryonic remnant masses in [0.1, 200] Msun; the profile collapse "
        "itself is a stub here"]),
}
CCS = list(STAR_STATES_CC)


def units():
    """Symbolic runs of the kick use a system of units with small numbers
    (the code takes its unit constants from one module)."""
    return [(const, 'standard_cgrav', 2.0), (const, 'Msun', 3.0),
            (const, 'Rsun', 5.0), (const, 'km2cm', 7.0),
            (const, 'SNcheck_ERR', 2.0**-30)]




def step(**kw):
    kw.setdefault('mechanism', 'direct')
    kw.setdefault('ECSN', 'Tauris+15')
    kw.setdefault('PISN', None)
    kw.setdefault('use_interp_values', False)
    return sn.StepSN(**kw)


# ------------------------------------------------------------------ P09
def ref_type(S, ecsn, co, he, m):
    """-> type, mass of the white dwarf ('refused' if undefined)"""
    x = he if ecsn == 'Podsiadlowski+04' else co
    lo = 1.4 if ecsn == 'Podsiadlowski+04' else 1.37
    hi = {'Podsiadlowski+04': 2.5, 'Tauris+15': 1.43}.get(ecsn)
    if S.decide(x < lo):
        if S.decide(co > 0):
            return 'WD', co
        if S.decide(he > 0):
            return 'WD', he
        if S.decide(m < 0.5):
            return 'WD', m
        return 'refused', None
    if hi is not None and S.decide(x <= hi):
        return 'ECSN', None
    return 'CCSN', None


ECSNS = ['Tauris+15', 'Podsiadlowski+04', None]


@harness(REG, 'P09', bounds='masses in [-1, 300], all prescriptions')
def sn_type(S):
    e = S.pick('ECSN', ECSNS)
    co, he, m = (S.real(k, -1, 300) for k in ('co', 'he', 'm'))
    st = step(ECSN=e)
    exp, wd = ref_type(S, e, co, he, m)
    try:
        r = st.check_SN_type(m_core=co, m_He_core=he, m_star=m)
    except ModelError:
        S.check('only-coreless-massive-refused', exp == 'refused')
        return
    S.check('type', S.eq(r[3], exp))
    if exp == 'WD':
        S.check('white-dwarf-keeps-core', S.eq(r[0], wd))
        S.check('white-dwarf-no-ejection', S.And(S.eq(r[1], 1.0),
                                                 S.eq(r[2], 'WD')))


def masses(S):
    co = S.real('co', 0.1, 150)
    he = S.real('he', 0.1, 250)
    m = S.real('m', 0.1, 300)
    S.assume(co <= he)
    S.assume(he <= m)
    return co, he, m


def star(S, co, he, m, past=False, anystate=False):
    """a star at (or, `past`, with the previous entry at) core collapse"""
    s = SingleStar(state='H-rich_Core_C_depleted', mass=m)
    s.he_core_mass, s.co_core_mass = he, co
    if anystate:
        s.state = S.enum('state', CCS)
    s.metallicity = 1.0
    if past:
        s.state_history = [CCS[0], s.state]
        s.mass_history = [1., m]
        s.he_core_mass_history = [1., he]
        s.co_core_mass_history = [1., co]
        s.state = 'BH'
        s.mass = s.he_core_mass = s.co_core_mass = 1e3
    else:
        s.state_history = ['WD']
        s.mass_history = s.he_core_mass_history = s.co_core_mass_history = [1e3]
    return s


def fryer_rapid(S, co, mc):
    p = 1.1
    if S.decide(co < 2.5):
        fb = 0.2
    elif S.decide(co < 6):
        fb = 0.286 * co - 0.514
    elif S.decide(co < 7):
        return mc, 1.0
    elif S.decide(co < 11):
        # the fallback fraction is linear in the core mass
        a = 0.25 - 1.275 / (mc - p)
        f = 1 + a * (co - 11)
        return p + f * (mc - p), f
    else:
        return mc, 1.0
    return p + fb, fb / (mc - p)


def fryer_delayed(S, co, mc):
    p = (1.2 if S.decide(co < 3.5) else 1.3 if S.decide(co < 6) else
         1.4 if S.decide(co < 11) else 1.6)
    if S.decide(co < 2.5):
        fb = 0.2
    elif S.decide(co < 3.5):
        fb = 0.5 * co - 1.05
    elif S.decide(co < 11):
        a = 0.133 - 0.093 / (mc - p)
        f = 1 + a * (co - 11)
        return p + f * (mc - p), f
    else:
        return mc, 1.0
    return p + fb, fb / (mc - p)


def pisn_limit(S, m, kind, limit):
    """final baryonic mass and type tag under a pair-instability limit"""
    if kind == 'none':
        return m, None
    if kind == 'disrupted':
        return None, 'PISN'
    if S.decide(m > limit):
        return limit, 'PPISN'
    return m, None


def _rembar(mech, ecsn):
    def f(S):
        co, he, m = masses(S)
        keep = S.flag('conserve_hydrogen_envelope')
        st = step(mechanism=mech, ECSN=ecsn, conserve_hydrogen_envelope=keep)
        past = S.flag('previous_entry')
        s = star(S, co, he, m, past, anystate=mech == 'direct' and not ecsn)
        kind = S.pick('limit_kind', ['none', 'disrupted', 'limit'])
        lim = S.real('limit', 0.1, 200)
        mc = m if keep else he
        typ, wd = ref_type(S, ecsn, co, he, m)
        got, fb, state = st.compute_m_rembar(
            s, {'none': None, 'disrupted': np.nan, 'limit': lim}[kind])
        if typ == 'WD':
            S.check('white-dwarf', S.And(S.eq(got, wd), S.eq(fb, 1.0),
                                         S.eq(state, 'WD')))
            S.check('type', S.eq(s.SN_type, 'WD'))
            return
        if mech == 'direct':
            exp, f_fb = mc, 1.0
        elif mech == 'direct_he_core':
            exp, f_fb = he, 1.0
        elif typ == 'ECSN':
            exp, f_fb = (1.38 if ecsn == 'Podsiadlowski+04' else co), 0.0
        elif mech == 'Fryer+12-rapid':
            exp, f_fb = fryer_rapid(S, co, mc)
        else:
            exp, f_fb = fryer_delayed(S, co, mc)
        exp, tag = pisn_limit(S, exp, kind, lim)
        if exp is None:
            S.check('disrupted', S.isnan(got))
        else:
            S.check('baryonic-remnant-mass', S.eq(got, exp))
            if kind == 'limit':
                S.check('never-above-limit', S.le(got, lim))
        S.check('fallback-fraction', S.eq(fb, f_fb))
        S.check('type', S.eq(s.SN_type, tag or typ))
        S.note(got=got, expected=exp)
    f.__name__ = 'rembar_%s_%s' % (mech.replace('+', '').replace('-', '_'),
                                   str(ecsn).split('+')[0])
    return f


for _m in ('Fryer+12-rapid', 'Fryer+12-delayed', 'direct', 'direct_he_core'):
    for _e in ECSNS:
        harness(REG, 'P09', bounds='mechanism %s, ECSN %s, with/without '
                'pair-instability limit' % (_m, _e), budget=150)(_rembar(_m, _e))


class Fixed:
    """a fitted regressor that returns one arbitrary value"""
    def __init__(self, S, v):
        self.S, self.v, self.seen = S, v, []

    def predict(self, x):
        self.seen.append(x[0])
        return np.array([self.v], dtype=object if self.S.symbolic else float)


KPAR = {'N20': [0.194, 0.0580], 'S19.8': [0.274, 0.0470],
        'W15': [0.225, 0.0495], 'W20': [0.284, 0.0393],
        'W18': [0.283, 0.0430], 'Ertl2020': [0.182, 0.0608]}


class Rng:
    def __init__(self, vals):
        self.vals, self.calls = list(vals), []

    def uniform(self, lo=0., hi=1., *a):
        self.calls.append((lo, hi))
        return self.vals.pop(0)


def _engine(mech, engine):
    def f(S):
        co, he, m = masses(S)
        S.assume(co > 1.43)
        keep = S.flag('conserve_hydrogen_envelope')
        st = step(conserve_hydrogen_envelope=keep)
        u = S.real('u', 0, 1)
        st.mechanism, st.engine, st.RNG = mech, engine, Rng([u])
        v = dict(M4=S.real('M4', 1, 3), mu4=S.real('mu4', 0.001, 1),
                 Xi=S.real('Xi', 0, 1), sc=S.real('sc', 0.5, 2))
        reg = {k: Fixed(S, x) for k, x in v.items()}
        for k in v:
            setattr(st, k + '_interpolator', reg[k])
        s = star(S, co, he, m, anystate=engine in ('N20', 'M16'))
        mode = S.pick('core_at_He_depletion', ['given', 'approximated'])
        if mode == 'given':
            cd, cc = S.real('co_dep', 0.5, 100), S.real('c_dep', 0.01, 1)
            s.co_core_mass_at_He_depletion = cd
            s.avg_c_in_c_core_at_He_depletion = cc
        else:
            st.approx_at_he_depletion = True
            cd = co
            S.assume(S.classify(s.state, lambda x: x.startswith('H-rich') or x.startswith('stripped_He')))
            S.prune()
            if S.classify(s.state, lambda x: x.startswith('H-rich')):
                cc = 0.20 / co + 0.15
            else:
                cc = -0.084 * np.log(co) + 0.4
        got, fb, state = st.compute_m_rembar(s, None)
        for k in v:
            if reg[k].seen:
                S.check('looked-up-at-the-core', S.And(
                    S.eq(reg[k].seen[0][0], cc), S.eq(reg[k].seen[0][1], cd)))
        M4, mu4, Xi, sc = v['M4'], v['mu4'], v['Xi'], v['sc']
        mc = m if keep else he
        if S.decide(cd <= 2.5):
            exp = (1.25, 0.0, 'NS')
        elif S.decide(cd >= 10):
            exp = (mc, 1.0, 'BH')
        elif mech.startswith('Patton'):
            k1, k2 = KPAR[engine]
            exp = ((mc, 1.0, 'BH') if S.decide(mu4 > k1 * mu4 * M4 + k2)
                   else (M4, 0.0, 'NS'))
        else:
            no = S.decide(Xi > 0.544) or S.decide(sc > 1.169)
            yes = S.decide(Xi < 0.314) or S.decide(sc < 0.988)
            x = mu4 * M4
            if yes != no:
                ok = yes
            elif S.decide(x > 0.421):
                ok = False
            elif S.decide(x < 0.247):
                ok = True
            else:
                ok = not S.decide(0.005 + 0.420 * x - mu4 > 0)
            if not ok:
                exp = (mc, 1.0, 'BH')
            elif (S.decide(Xi <= 0.04)
                  or (S.decide(Xi < 1.75 * x - 0.044) and S.decide(Xi <= 0.4))
                  or S.decide(M4 / cd > 0.6)):
                exp = (M4, 0.0, 'NS')
            elif S.decide(u <= 0.15):
                exp = (mc, 0.99, 'BH')
            else:
                exp = (M4, 0.0, 'NS')
        S.check('remnant-mass', S.eq(got, exp[0]))
        S.check('fallback', S.eq(fb, exp[1]))
        S.check('remnant-type', S.eq(state, exp[2]))
        S.check('type', S.eq(s.SN_type, 'CCSN'))
    f.__name__ = mech.split('+')[0].split('&')[0] + '_' + engine.replace('.', '')
    return f


for _k in KPAR:
    harness(REG, 'P09', bounds='engine ' + _k, stubs=['fitted regressors'],
            budget=150)(_engine('Patton&Sukhbold20-engine', _k))
harness(REG, 'P09', bounds='engine M16', stubs=['fitted regressors', 'RNG'],
        budget=150)(_engine('Maltsev+25-engine', 'M16'))


@harness(REG, 'P09', bounds='electron-capture supernovae, every engine')
def ecsn_engines(S):
    co, he, m = masses(S)
    e = S.pick('ECSN', ECSNS[:2])
    st = step(ECSN=e)
    st.mechanism = S.pick('mechanism', [
        'Sukhbold+16-engine', 'Patton&Sukhbold20-engine', 'Couch+20-engine',
        'Maltsev+25-engine', 'Fryer+12-rapid', 'Fryer+12-delayed'])
    typ, _ = ref_type(S, e, co, he, m)
    S.assume(typ == 'ECSN')
    S.prune()
    s = star(S, co, he, m)
    got, fb, state = st.compute_m_rembar(s, None)
    S.check('collapsing-core', S.eq(got, 1.38 if e != 'Tauris+15' else co))
    S.check('no-fallback', S.eq(fb, 0.0))
    S.check('type', S.eq(s.SN_type, 'ECSN'))
    if 'engine' in st.mechanism:
        S.check('neutron-star', S.eq(state, 'NS'))


@harness(REG, 'P09', bounds='table of 3 neutron stars and 3 black holes',
         stubs=['nearest-neighbour classifier'])
def tabulated(S):
    """Sukhbold+16 and Couch+20: classifier decides, the mass follows"""
    co, he, m = masses(S)
    kind = S.pick('class', [13, 14])
    keep = S.flag('keep')
    past = S.flag('previous_entry')
    s = star(S, co, he, m, past)
    which = S.pick('which', ['Sukhbold', 'Couch'])
    if which == 'Couch':
        eng = sn.Couch20_corecollapse.__new__(sn.Couch20_corecollapse)
    else:
        eng = _sukhbold()
    eng.stellar_type_classifier = K = Fixed(S, kind)
    got, fb, state = eng(s, keep)
    S.check('classified-by-helium-core', S.eq(K.seen[0][0], he))
    S.check('type', S.eq(state, {13: 'NS', 14: 'BH'}[kind]))
    S.check('fallback', S.eq(fb, {13: 0.0, 14: 1.0}[kind]))
    mc = m if keep else he
    if which == 'Couch':
        S.check('mass', S.eq(got, 1.4 if kind == 13 else mc))
        return
    X, Y = SUKH[kind]
    v = he if kind == 13 else mc
    if S.decide(v < X[0]):
        exp = Y[0]
    elif S.decide(v > X[-1]):
        exp = Y[-1] if kind == 13 else v
    else:
        i = 0 if S.decide(v <= X[1]) else 1
        exp = Y[i] + (Y[i + 1] - Y[i]) / (X[i + 1] - X[i]) * (v - X[i])
    S.check('mass', S.eq(got, exp))


SUKH = {13: ([2., 3., 5.], [1.4, 1.5, 1.8]), 14: ([6., 8., 12.], [6., 7., 11.])}
_SK = []


def _sukhbold():
    """the real class, trained on a tiny table with that layout"""
    if not _SK:
        import os
        import shutil
        import tempfile
        import pandas
        d = tempfile.mkdtemp()
        rows = [dict(stellar_state=k, He_c_mass=x, Rem_mass=y, fallback_mass=0)
                for k in SUKH for x, y in zip(*SUKH[k])]
        rows.append(dict(stellar_state=14, He_c_mass=20., Rem_mass=3.,
                         fallback_mass=1.))      # must be ignored
        rows.append(dict(stellar_state=10, He_c_mass=1., Rem_mass=1.,
                         fallback_mass=0.))
        pandas.DataFrame(rows).to_csv(os.path.join(d, 'results_N20_table.csv'))
        try:
            _SK.append(sn.Sukhbold16_corecollapse('N20', d, False))
        finally:
            shutil.rmtree(d)
    return copy.copy(_SK[0])


# pair instability
@harness(REG, 'P09', bounds='He core mass in [0.1, 250], Marchant+19')
def pisn_marchant(S):
    he, m = S.real('he', 0.1, 250), S.real('m', 0.1, 300)
    keep = S.flag('keep')
    st = step(PISN='Marchant+19', conserve_hydrogen_envelope=keep)
    s = star(S, 1.0, he, m)
    r = st.PISN_prescription(s)
    if S.decide(he >= 31.99) and S.decide(he <= 61.10):
        p = 0
        for k in reversed([-6.29429263e5, 1.15957797e5, -9.28332577e3,
                           4.21856189e2, -1.19019565e1, 2.13499267e-1,
                           -2.37814255e-3, 1.50408118e-5, -4.13587235e-8]):
            p = p * he + k
        S.check('pulsational', S.eq(r, p, rtol=1e-4))
    elif S.decide(he > 61.10) and S.decide(he < 124.12):
        S.check('disrupted', S.isnan(r))
    else:
        S.check('unaffected', S.eq(r, m if keep else he))


@harness(REG, 'P09', bounds='He core mass in [0.1, 250], fixed limit or none')
def pisn_number(S):
    he, m = S.real('he', 0.1, 250), S.real('m', 0.1, 300)
    lim = S.pick('limit', [None, 40.0, 45, 'unknown'])
    st = step(PISN=lim)
    s = star(S, 1.0, he, m)
    try:
        r = st.PISN_prescription(s)
    except ValueError:
        S.check('only-unknown-refused', lim == 'unknown')
        return
    S.check('unknown-refused', lim != 'unknown')
    if lim is None or not S.decide(he > lim):
        S.check('no-limit', r is None)
    else:
        S.check('limit', S.eq(r, lim))


def _hendriks(mech):
    def f(S):
        co, he, m = masses(S)
        shift = S.pick('shift', [0.0, None, -5.0])
        extra = S.pick('extra', [-20.0, 0.0, 5.0])
        keep = S.flag('keep')
        keepH = S.flag('keep_PPI')
        Z = S.real('Z', 1e-6, 2.0)
        st = step(mechanism=mech, PISN='Hendriks+23', PISN_CO_shift=shift,
                  PPI_extra_mass_loss=extra, conserve_hydrogen_envelope=keep,
                  conserve_hydrogen_PPI=keepH)
        s = star(S, co, he, m)
        s.metallicity = Z
        r = st.PISN_prescription(s)
        d = shift or 0.0
        S.check('star-untouched', S.And(S.eq(s.mass, m), S.eq(s.he_core_mass, he),
                                        S.eq(s.co_core_mass, co)))
        loss = None
        if S.decide(co >= 38 + d) and S.decide(co <= 114 + d):
            z = 1e-4 if S.decide(Z < 1e-4) else Z
            x = co - d - 34.8
            loss = ((0.0006 * np.log10(z * const.Zsun) + 0.0054) * x * x * x
                    - 0.0013 * x * x + extra)
        if loss is None or not S.decide(loss > 0):
            S.check('unaffected', S.eq(r, m if keep else he))
            return
        left = (m if keepH else he) - loss
        if S.decide(left < 0):
            S.check('disrupted', S.isnan(r))
            return
        # direct collapse of what is left
        h2 = left if S.decide(he > left) else he
        c2 = left if S.decide(co > left) else co
        if S.decide(c2 < 1.37):
            exp = c2 if S.decide(c2 > 0) else None
            if exp is None:
                return
        elif mech == 'direct':
            exp = left if keep else h2
        if S.decide(exp > left):
            exp = left
        if S.decide(exp < 10):
            S.check('disrupted', S.isnan(r))
        else:
            S.check('remaining-mass', S.eq(r, exp))
    f.__name__ = 'pisn_hendriks_' + mech
    return f


harness(REG, 'P09', bounds='Hendriks+23 with direct collapse of the remaining '
        'mass', budget=200)(_hendriks('direct'))


@harness(REG, 'P09', bounds='all pairs')
def type_matches_remnant(S):
    t = S.enum('SN_type', ['WD', 'ECSN', 'CCSN', 'PPISN', 'PISN'])
    c = S.enum('state', ['WD', 'NS', 'BH', 'massless_remnant', 'PISN'])
    ok = {'WD': ('WD',), 'NS': ('ECSN', 'CCSN'), 'BH': ('CCSN', 'PPISN'),
          'massless_remnant': ('PISN',), 'PISN': ('PISN',)}
    r = sn.check_SN_CO_match(t, c)
    exp = S.classify(c, lambda v: ok[v])
    S.check('consistent-pairs-only', S.iff(bool(r), S.classify(
        t, lambda v: v in exp)))


# ------------------------------------------------------------------ P10
def kicked(S, which, state='detached', sn_type='CCSN', rem='NS', given=True,
           circular=False, single=False):
    """a binary whose star `which` has just collapsed"""
    m0 = S.real('M_pre', 0.1, 200)
    mr = S.real('M_rem', 0.1, 200)
    mc = S.real('M_comp', 0.1, 200)
    a = S.real('a', 0.1, 1e6)
    e = 0.0 if circular else S.real('e', 0, 0.99)
    V = S.real('Vkick', 0, 5000)
    phi, th = S.real('phi', 0, 2 * np.pi), S.real('theta', 0, np.pi)
    M = S.real('mean_anomaly', 0, 2 * np.pi)
    sc = SingleStar(mass=mr, state='BH')
    sc.state = rem
    so = SingleStar(mass=mc, state='H-rich_Core_H_burning')
    sc.state_history = ['H-rich_Core_H_burning', 'H-rich_Core_C_depleted']
    sc.mass_history = [1e3, m0]
    so.mass_history = [1e3, 1e3]
    sc.SN_type, sc.f_fb = sn_type, 0.5
    if given:
        sc.natal_kick_velocity, sc.natal_kick_azimuthal_angle = V, phi
        sc.natal_kick_polar_angle, sc.natal_kick_mean_anomaly = th, M
    else:
        for k in ('velocity', 'azimuthal_angle', 'polar_angle', 'mean_anomaly'):
            setattr(sc, 'natal_kick_' + k, None)
    b = BinaryStar(star_1=SingleStar(mass=1., state='WD'),
                   star_2=SingleStar(mass=1., state='WD'), state='detached',
                   event='CC1', time=1.0, separation=1., orbital_period=1.)
    b.star_1, b.star_2 = (sc, so) if which == 1 else (so, sc)
    b.event = 'CC%d' % which
    b.state = state
    for k in BINARYPROPERTIES:
        if k not in ('state', 'event'):
            setattr(b, k, 'old_' + k)
    b.separation, b.eccentricity = a, e
    b.time_history, b.eccentricity_history = [1.0, 2.0], [0.9, e]
    b.first_SN_already_occurred = False
    return b, sc, so, dict(m0=m0, mr=mr, mc=mc, a=a, e=e, V=V, phi=phi,
                           th=th, M=M)


class Kepler:
    """Contract of the root finder: some root in the bracket."""
    def __init__(self, S):
        self.S = S
        self.E = S.real('E', 0, 2 * np.pi) if S.symbolic else None

    def __call__(self, fn, lo, hi, *a, **k):
        S = self.S
        if not S.symbolic:
            self.E = self.old(fn, lo, hi, *a, **k)
            return self.E
        S.assume(S.And(self.E >= lo, self.E <= hi).strong)
        S.assume(fn(self.E) == 0)
        return self.E


def run_kick(S, st, b):
    k = Kepler(S)
    with replaced(scipy.optimize, 'brentq', k) as old:
        k.old = old
        st.orbital_kick(b)
    return k.E


def ref_orbit(S, d, E):
    """velocity before + kick -> energy, angular momentum, centre of mass"""
    G, MS, RS, KM = (const.standard_cgrav, const.Msun, const.Rsun,
                     const.km2cm)
    Mpre, Mpost = (d['m0'] + d['mc']) * MS, (d['mr'] + d['mc']) * MS
    A = d['a'] * RS
    r = d['a'] * (1 - d['e'] * np.cos(E)) * RS
    V = d['V'] * KM
    ct = np.cos(d['th'])
    st = (1 - ct * ct)**0.5
    Vr = (G * Mpre * (2 / r - 1 / A))**0.5
    sp = round((G * Mpre * (1 - d['e']**2) * A)**0.5 / (r * Vr), 5)
    cp = (1 - sp * sp)**0.5
    if S.decide(E > np.pi):
        cp = -cp
    # kick components along (x: away from the companion, y: orbital motion)
    sf, cf_ = np.sin(d['phi']), np.cos(d['phi'])
    kx = V * (st * sf * sp + ct * cp)
    ky = V * (ct * sp - st * sf * cp)
    kz = V * st * cf_
    inv = 2 / r - (V * V + Vr * Vr + 2 * V * ct * Vr) / (G * Mpost)
    lam = kz * kz + (ky + Vr * sp) * (ky + Vr * sp)
    m0, mr = d['m0'] * MS, d['mr'] * MS
    vs = [mr * (kx + Vr * cp) / Mpost - m0 * Vr * cp / Mpre,
          mr * (ky + Vr * sp) / Mpost - m0 * Vr * sp / Mpre,
          mr * kz / Mpost]
    return dict(r=r, inv=inv, L2=lam * r * r / (G * Mpost) / RS, x=lam * r * r * inv / (G * Mpost), vs=vs, V=V,
                Vr=Vr, Mpre=Mpre, Mpost=Mpost, kz=kz,
                cost=(ky + Vr * sp) / lam**0.5)


def _kick(which, circular):
    def f(S):
        b, sc, so, d = kicked(S, which, circular=circular)
        st = step()
        prior = S.flag('second') if circular else which == 2
        b.first_SN_already_occurred = prior
        if prior:
            sc.spin_orbit_tilt_first_SN = so.spin_orbit_tilt_first_SN = 0.3
            b.true_anomaly_first_SN = 0.1
            st.get_combined_tilt = lambda **k: 'combined'
        E = run_kick(S, st, b)
        o = ref_orbit(S, d, E)
        S.check('event-cleared', b.event is None)
        S.check('time-kept', S.eq(b.time, 2.0))
        S.check('case-cleared', S.eq(b.mass_transfer_case, 'None'))
        S.check('first-marked', bool(b.first_SN_already_occurred))
        S.check('masses-kept', S.And(S.eq(sc.mass, d['mr']),
                                     S.eq(so.mass, d['mc'])))
        if b.state == 'disrupted':
            S.check('nothing-left-of-the-orbit', S.And(
                S.isnan(b.separation), S.isnan(b.eccentricity),
                S.isnan(b.orbital_period)))
            S.check('system-velocity-zero', list(b.V_sys) == [0, 0, 0])
            n = 'spin_orbit_tilt_%s_SN' % ('second' if prior else 'first')
            S.check('tilt-undefined', S.And(S.isnan(getattr(sc, n)),
                                            S.isnan(getattr(so, n))))
            return
        S.check('survives-detached', S.eq(b.state, 'detached'))
        S.check('energy', S.eq(b.separation * const.Rsun * o['inv'], 1.0))
        S.check('angular-momentum', S.eq(b.eccentricity * b.eccentricity,
                                         1 - o['x'], atol=1e-7))
        S.follows('bound', (b.separation, b.eccentricity, o['L2']),
                  lambda A, e, q: [S.eq(A * (1 - e * e), q, atol=1e-7),
                                   S.ge(q, 0), e >= 0, S.lt(e, 1)],
                  lambda A, e, q: S.ge(A, 0))
        for i in range(3):
            S.check('systemic-velocity-%d' % i,
                    S.eq(b.V_sys[i] * const.km2cm, o['vs'][i], atol=1e-3))
        P = b.orbital_period
        S.check('period', S.eq(P, cf.orbital_period_from_separation(
            b.separation, d['mr'], d['mc'])))
        if not prior:
            S.check('same-tilt', S.eq(sc.spin_orbit_tilt_first_SN,
                                      so.spin_orbit_tilt_first_SN, atol=1e-6))
            t = sc.spin_orbit_tilt_first_SN
        else:
            t = sc.spin_orbit_tilt_second_SN
            S.check('companion-combined', so.spin_orbit_tilt_second_SN
                    == 'combined')
        S.check('tilt', S.eq(np.cos(t), o['cost'], atol=1e-6))
        if S.decide(o['kz'] < 0):
            S.check('tilt-direction', t <= 0)
        else:
            S.check('tilt-direction', t >= 0)
    f.__name__ = 'kick_CC%d%s' % (which, '_circular' if circular else '')
    return f


for _w in (1, 2):
    harness(REG, 'P10', bounds='eccentric orbits', stubs=['root finder'],
            budget=300, feas_ms=0, ob_ms=2000, witnesses=6,
            world=units)(_kick(_w, False))
    harness(REG, 'P10', bounds='circular orbits', stubs=['root finder'],
            budget=300, feas_ms=0, ob_ms=2000, witnesses=6,
            world=units)(_kick(_w, True))


@harness(REG, 'P10', bounds='symbolic kick speed and polar angle; masses, '
         'orbit, phase and azimuth on a grid', budget=120, feas_ms=1000,
         ob_ms=3000, world=units)
def survival(S):
    """the binary survives exactly when the new orbit is bound"""
    which = S.pick('which', [1, 2])
    geo = S.pick('geometry', [
        (10., 6., 10., 100., 0.0, 1.0), (20., 2., 5., 30., 0.0, 4.0),
        (10., 6., 10., 100., 0.5, 0.3), (8., 1.4, 20., 50., 0.3, 4.0)])
    phi = S.pick('phi_', [0.0, 1.0, 4.0])
    b, sc, so, d = kicked(S, which)
    d.update(zip(('m0', 'mr', 'mc', 'a', 'e', 'M'), geo), phi=phi)
    sc.mass_history[-1], sc.mass, so.mass = geo[:3]
    b.separation, b.eccentricity = geo[3:5]
    b.eccentricity_history = [0.9, geo[4]]
    sc.natal_kick_mean_anomaly, sc.natal_kick_azimuthal_angle = geo[5], phi
    E = scipy.optimize.brentq(lambda x: geo[5] - x + geo[4] * np.sin(x), 0,
                              2 * np.pi)
    step().orbital_kick(b)
    o = ref_orbit(S, d, E)
    q = o['r'] * o['inv']
    if b.state == 'disrupted':
        S.check('only-unbound-disrupted', q <= 1e-6)
    else:
        S.check('survivor-is-bound', q > -1e-6)


@harness(REG, 'P10', bounds='white dwarf formation, both stars, all states')
def white_dwarf(S):
    which = S.pick('which', [1, 2])
    state = S.pick('state', ['detached', 'RLO1', 'disrupted', 'merged',
                             'initially_single_star'])
    b, sc, so, d = kicked(S, which, state=state, sn_type='WD', rem='WD')
    step().orbital_kick(b)
    S.check('no-kick-orbit', S.eq(b.separation * (d['mr'] + d['mc']),
                                  d['a'] * (d['m0'] + d['mc'])))
    S.check('period', S.eq(b.orbital_period, cf.orbital_period_from_separation(
        b.separation, d['mr'], d['mc'])))
    S.check('eccentricity-kept', S.eq(b.eccentricity, d['e']))
    S.check('velocity-kept', b.V_sys == 'old_V_sys')
    S.check('state', S.eq(b.state, state if state in (
        'disrupted', 'merged', 'initially_single_star') else 'detached'))
    S.check('event', b.event is None)
    S.check('time', S.eq(b.time, 2.0))


@harness(REG, 'P10', bounds='remnants of single, merged, disrupted systems; '
         'disruption of the star itself')
def without_orbit(S):
    which = S.pick('which', [1, 2])
    state = S.pick('state', ['disrupted', 'merged', 'initially_single_star',
                             'detached', 'contact'])
    massless = S.pick('massless', ['none', 'self', 'other'])
    if state in ('detached', 'contact'):
        S.assume(massless != 'none')
        S.prune()
    b, sc, so, d = kicked(S, which, state=state, sn_type='PISN'
                          if massless == 'self' else 'CCSN')
    if massless == 'self':
        sc.state, sc.mass = 'massless_remnant', 0.0
    elif massless == 'other':
        so.state, so.mass = 'massless_remnant', 0.0
    second = S.flag('second')
    b.first_SN_already_occurred = second
    step().orbital_kick(b)
    S.check('state', S.eq(b.state, state if state in (
        'disrupted', 'merged', 'initially_single_star') else 'disrupted'))
    S.check('no-orbit', S.And(S.isnan(b.separation), S.isnan(b.eccentricity),
                              S.isnan(b.orbital_period)))
    S.check('event', b.event is None)
    S.check('time', S.eq(b.time, 2.0))
    S.check('case', S.eq(b.mass_transfer_case, 'None'))
    S.check('counted', bool(b.first_SN_already_occurred))


NORMS = ['one_minus_fallback', 'one_over_mass', 'NS_one_minus_fallback_BH_one',
         'one', 'zero', 'unknown']


@harness(REG, 'P10', bounds='every prescription, normalisation, type',
         stubs=['the random draws'], budget=250)
def kick_magnitude(S):
    which = S.pick('which', [1, 2])
    rem = S.pick('remnant', ['NS', 'BH', 'massless_remnant'])
    typ = S.pick('type', ['ECSN', 'CCSN', 'PPISN', 'PISN'])
    norm = S.pick('norm', NORMS)
    pres = S.pick('prescription', ['maxwellian', 'log_normal', 'asym_ej',
                                   'linear'])
    b, sc, so, d = kicked(S, which, state='disrupted', sn_type=typ, rem=rem,
                          given=False)
    sc.f_fb = fb = S.real('f_fb', 0, 1)
    co = S.real('co', 0.1, 200)
    sc.co_core_mass_history = [1e3, co]
    sig = {'NS': 111.0, 'BH': 222.0, 'ECSN': 33.0}
    mean = {'NS': 11.0, 'BH': 22.0, 'ECSN': 3.0}
    u = [S.real('u%d' % i, -1, 1) for i in range(3)]
    st = step(kick_normalisation=norm, kick_prescription=pres,
              sigma_kick_CCSN_NS=111.0, sigma_kick_CCSN_BH=222.0,
              sigma_kick_ECSN=33.0, mean_kick_CCSN_NS=11.0,
              mean_kick_CCSN_BH=22.0, mean_kick_ECSN=3.0)
    st.RNG = Rng(u)
    draw = S.real('draw', 0, 5000)
    seen = []

    class Draw:
        def __init__(self, n):
            self.n = n

        def rvs(self, **k):
            seen.append((self.n, k))
            return np.array([draw], dtype=object)
    try:
        with replaced(scipy.stats, 'maxwell', Draw('maxwell')), \
                replaced(scipy.stats, 'lognorm', Draw('lognorm')):
            st.orbital_kick(b)
    except ValueError:
        S.check('only-unknown-refused', norm == 'unknown')
        return
    none = typ != 'ECSN' and rem == 'massless_remnant'
    S.check('unknown-refused', norm != 'unknown' or none)
    if none:
        S.check('no-kick-without-remnant', S.eq(sc.natal_kick_velocity, 0.0))
    else:
        k = 'ECSN' if typ == 'ECSN' else rem
        if pres == 'maxwellian':
            v = draw
            S.check('maxwellian-of-its-type', len(seen) == 1
                    and seen[0][0] == 'maxwell' and seen[0][1]['scale'] == sig[k]
                    and seen[0][1].get('loc', 0) == 0
                    and seen[0][1]['random_state'] is st.RNG)
        elif pres == 'log_normal':
            v = draw
            S.check('log-normal-of-its-type', len(seen) == 1
                    and seen[0][0] == 'lognorm' and seen[0][1]['s'] == sig[k]
                    and seen[0][1]['scale'] == mean[k]
                    and seen[0][1]['random_state'] is st.RNG)
        elif pres == 'asym_ej':
            mb = ((3 * d['mr'] / 20 + 1) * (3 * d['mr'] / 20 + 1) - 1) / 0.3
            ej = d['m0'] - mb
            ej = ej if S.decide(ej >= 0) else -ej
            v = 211 * (0.01)**0.5 * 0.1 * (ej / 0.1) / (d['mr'] / 1.5)
        else:
            v = 115 * (co - d['mr']) / d['mr'] + 15
        n = {'one_minus_fallback': 1 - fb,
             'one_over_mass': 1.4 / d['mr'] if rem == 'BH' else 1.0,
             'NS_one_minus_fallback_BH_one': 1.0 if rem == 'BH' else 1 - fb,
             'one': 1.0, 'zero': 0.0}[norm]
        S.check('magnitude', S.eq(sc.natal_kick_velocity, n * v))
    S.check('uniform-azimuth', S.eq(sc.natal_kick_azimuthal_angle, u[0]))
    S.check('isotropic-polar', S.eq(np.cos(sc.natal_kick_polar_angle), u[1],
                                    atol=1e-9))
    S.check('uniform-anomaly', S.eq(sc.natal_kick_mean_anomaly, u[2]))
    tp = 2 * np.pi
    S.check('ranges', st.RNG.calls == [(0, tp), (-1, 1), (0, tp)])
    S.check('companion-untouched', so.natal_kick_velocity is None
            and so.natal_kick_mean_anomaly is None)


@harness(REG, 'P10', bounds='all angles', feas_ms=500)
def combined_tilt(S):
    t1, t2 = S.real('t1', -np.pi, np.pi), S.real('t2', -np.pi, np.pi)
    n = S.real('nu', -7, 7)
    r = step().get_combined_tilt(tilt_1=t1, tilt_2=t2, true_anomaly_1=0.0,
                                 true_anomaly_2=n)
    # spherical law of cosines
    S.check('law-of-cosines', S.eq(
        np.cos(r), np.cos(t1) * np.cos(t2)
        - np.sin(t1) * np.sin(t2) * np.cos(n), atol=1e-7))
    S.check('range', S.And(r >= 0, S.le(r, np.pi)))


@harness(REG, 'P10', bounds='events other than core collapse')
def refused(S):
    b, sc, so, d = kicked(S, 1)
    b.event = S.pick('event', [None, 'END', 'oRLO1', 'ZAMS'])
    for fn in (step().orbital_kick, step()):
        try:
            fn(b)
            S.fail('accepted')
        except ValueError:
            S.check('refused', True)


# ------------------------------------------------------------------ P11
KEEP_REMNANT = ('state', 'mass', 'spin', 'log_R', 'metallicity',
                'm_disk_accreted', 'm_disk_radiated', 'co_core_mass')
KEEP_WD = ('state', 'mass', 'spin', 'log_R', 'm_disk_accreted',
           'm_disk_radiated', 'center_h1', 'center_he4', 'center_c12',
           'center_n14', 'center_o16')
MECHS = ['direct', 'direct_he_core', 'Fryer+12-rapid', 'Fryer+12-delayed',
         'Sukhbold+16-engine', 'Patton&Sukhbold20-engine',
         'Couch+20-engine', 'Maltsev+25-engine']


def progenitor(S, state):
    s = SingleStar(mass=1., state='H-rich_Core_C_depleted')
    for k in STARPROPERTIES:
        setattr(s, k, 'old_' + k)
    s.state = state
    s.mass, s.he_core_mass, s.co_core_mass = 20., 8., 5.
    s.profile = None
    s.center_he4 = S.real('center_he4', 0, 1)
    s.m_disk_accreted = s.m_disk_radiated = None
    s.metallicity_history = [1e-3, 0.5]
    s.log_total_angular_momentum = 's'
    s.SN_type = 'old'
    s.f_fb = None
    return s


def neutrino(S, m, cap):
    """gravitational mass of a remnant of baryonic mass m"""
    g = (20 / 3) * ((1 + 0.3 * m)**0.5 - 1)
    return m - cap if S.decide(m - g > cap) else g


def log10radius(S, m, state):
    return np.log10(cf.CO_radius(m, state))


def check_wd(S, s, he4, m):
    S.check('wd-mass', S.eq(s.mass, m))
    S.check('wd-state', S.eq(s.state, 'WD'))
    S.check('wd-he-core', S.eq(s.he_core_mass, m))
    S.check('wd-co-core', S.eq(s.co_core_mass,
                               m if S.decide(he4 < 0.01) else 0.0))
    S.check('wd-radius', S.eq(s.log_R, log10radius(S, m, 'WD')))
    S.check('wd-composition-kept', S.And(
        S.eq(s.center_he4, he4), S.eq(s.center_h1, 'old_center_h1'),
        S.eq(s.center_c12, 'old_center_c12')))
    for k in STARPROPERTIES:
        if k not in KEEP_WD + ('he_core_mass', 'co_core_mass'):
            S.check('wd-rest-cleared', getattr(s, k) is None)


def check_massless(S, s):
    S.check('nothing-left', S.And(S.eq(s.state, 'massless_remnant'),
                                  S.eq(s.mass, 0.0)))
    for k in STARPROPERTIES:
        if k not in ('state', 'mass'):
            S.check('nothing-left-rest', S.isnan(getattr(s, k)))


def check_remnant_rest(S, s):
    S.check('metallicity-kept', S.eq(s.metallicity, 0.5))
    S.check('co-core-kept', S.eq(s.co_core_mass, 5.))
    S.check('radius-of-its-type', S.eq(s.log_R, log10radius(
        S, s.mass, s.state)))
    for k in STARPROPERTIES:
        if k not in KEEP_REMNANT:
            S.check('structure-cleared', getattr(s, k) is None)


@harness(REG, 'P11', bounds='every mechanism family, remnant masses in '
         '[0.1, 200] or none, every source of the spin',
         stubs=['remnant mass prescriptions (P09)', 'profile collapse'],
         budget=300)
def collapse(S):
    mech = S.pick('mechanism', MECHS)
    engine = 'engine' in mech
    state = S.pick('state', CCS + ['H-rich_Core_H_burning', 'NS',
                                   'massless_remnant'])
    cap = S.real('max_neutrino_mass_loss', 0, 2)
    mns = S.real('max_NS_mass', 1.4, 3)
    src = S.pick('source', ['profile', 'core_masses', 'no_spin', 'none',
                            'profile-missing'])
    if S.symbolic:
        S.assume(mech in ('direct', 'Patton&Sukhbold20-engine')
                 or state == CCS[0])
        S.prune()
    st = step(max_NS_mass=mns, max_neutrino_mass_loss=cap,
              use_profiles=src.startswith('profile'),
              use_core_masses=src == 'core_masses',
              allow_spin_None=src == 'no_spin')
    st.mechanism = mech
    s = progenitor(S, state)
    he4 = s.center_he4
    L = S.real('log_J', 40, 60)
    s.log_total_angular_momentum = L
    if src == 'profile':
        s.profile = 'a profile'
    m = S.real('m_rembar', 0.1, 200)
    kind = S.pick('SN_type', ['WD', 'ECSN', 'CCSN', 'PPISN', 'PISN'])
    rem = S.pick('engine_state', ['NS', 'BH', 'other']) \
        if engine and src == 'profile' else 'BH'
    fb = S.real('f_fb', 0, 1)
    limit = object()
    seen = []

    def rembar(star, m_PISN):
        seen.append(m_PISN is limit and star is s)
        star.SN_type = kind
        return (np.nan if kind == 'PISN' else m), fb, \
            (rem if engine else None)
    st.PISN_prescription = lambda star: limit
    st.compute_m_rembar = rembar
    bh = dict(M_BH_total=S.real('M_BH', 0.1, 200), a_BH_total=S.real('a_BH',
              0, 1), m_disk_accreted=S.real('mda', 0, 50),
              m_disk_radiated=S.real('mdr', 0, 50), extra_entry=1.25)
    calls = []

    def bhcollapse(star, mass_collapsing, mass_central_BH=None,
                   neutrino_mass_loss=None, max_neutrino_mass_loss=None,
                   verbose=False):
        calls.append((star, mass_collapsing, mass_central_BH,
                      neutrino_mass_loss, max_neutrino_mass_loss))
        return dict(bh)
    ej = []

    def ejecta(star, mass, verbose=False):
        ej.append((star, mass))
        return 0.75, 0.25
    with replaced(sn, 'do_core_collapse_BH', bhcollapse), \
            replaced(sn, 'get_ejecta_element_mass_at_collapse', ejecta):
        err = st.collapse_star(s)
    if state not in CCS:
        S.check('only-evolved-stars-collapse', err is not None)
        S.check('not-collapsed', S.And(S.eq(s.state, state),
                                       S.eq(s.mass, 20.)))
        return
    S.check('prescriptions-used', seen == [True])
    S.check('fallback-recorded', S.eq(s.f_fb, fb))
    if kind == 'WD':
        S.check('wd-accepted', err is None)
        check_wd(S, s, he4, m)
        S.check('wd-spin', S.eq(s.spin, 0.))
        return
    if kind == 'PISN':
        S.check('pisn-accepted', err is None)
        check_massless(S, s)
        return
    g = neutrino(S, m, cap)
    S.check('loss-capped', S.And(S.le(m - g, cap), S.le(g, m)))
    if src in ('none', 'profile-missing'):
        S.check('failure-reported', isinstance(err, str))
        S.check('nothing-kept', all(getattr(s, k) is None
                                    for k in STARPROPERTIES))
        return
    heavy = S.decide(g >= mns)
    if src == 'profile':
        if engine and rem == 'NS':
            heavy = False
        elif engine and (rem == 'other' or not heavy):
            S.check('failure-reported', isinstance(err, str))
            return
    S.check('accepted', err is None)
    S.check('type-by-mass', S.eq(s.state, 'BH' if heavy else 'NS'))
    S.check('neutron-star-below-limit', heavy or engine or S.decide(
        s.mass < mns))
    if src == 'profile':
        if heavy:
            S.check('one-collapse', len(calls) == 1)
            a, b, c, d, e = calls[0]
            S.check('collapse-input', S.And(
                a is s, S.eq(b, m), S.eq(c, mns + (m - g)), S.eq(d, m - g),
                S.eq(e, cap)))
            S.check('collapse-outcome', S.And(
                S.eq(s.mass, bh['M_BH_total']), S.eq(s.spin, bh['a_BH_total']),
                S.eq(s.m_disk_accreted, bh['m_disk_accreted']),
                S.eq(s.m_disk_radiated, bh['m_disk_radiated'])))
        else:
            S.check('no-collapse', not calls)
        S.check('ejecta', len(ej) == 1 and ej[0][0] is s
                and S.decide(S.eq(ej[0][1], s.mass))
                and (s.h1_mass_ej, s.he4_mass_ej) == (0.75, 0.25))
    else:
        S.check('no-profile', not calls and not ej)
        S.check('no-ejecta', S.And(S.isnan(s.h1_mass_ej),
                                   S.isnan(s.he4_mass_ej)))
    if src != 'profile' or not heavy:
        S.check('gravitational-mass', S.eq(s.mass, g))
        S.check('no-disk', S.And(S.eq(s.m_disk_accreted, 0.),
                                 S.eq(s.m_disk_radiated, 0.)))
        if src == 'no_spin':
            S.check('spin-left-open', s.spin is None)
        elif not heavy:
            S.check('ns-spin', S.eq(s.spin, 0.0))
        else:
            a = 10**L * const.clight / const.standard_cgrav \
                / ((g * const.Msun) * (g * const.Msun))
            S.check('spin-of-angular-momentum', S.eq(
                s.spin, 1.0 if S.decide(a > 1) else a))
    check_remnant_rest(S, s)


@harness(REG, 'P11', bounds='all types and remnants, interpolated mass '
         'present or missing', stubs=['remnant mass prescriptions (P09)'])
def interpolated(S):
    """values interpolated at the end of the previous step are used exactly
    if they are consistent"""
    src = S.pick('source', ['core_masses', 'no_spin', 'none'])
    have = S.pick('interpolated', ['yes', 'no', 'unsupported'])
    real = S.pick('type', ['WD', 'ECSN', 'CCSN', 'PPISN', 'PISN'])
    typ = S.pick('i_type', ['WD', 'ECSN', 'CCSN', 'PPISN', 'PISN'])
    cs = S.pick('i_state', ['WD', 'NS', 'BH', 'massless_remnant'])
    mi = S.real('i_mass', 0.1, 200, nan=True)
    st = step(use_interp_values=True, use_profiles=False,
              use_core_masses=src == 'core_masses',
              allow_spin_None=src == 'no_spin')
    s = progenitor(S, 'H-rich_Core_C_depleted')
    he4 = s.center_he4
    s.log_total_angular_momentum = 50.
    props = dict(SN_type=typ, state=cs, mass=mi, spin=0.25, f_fb=0.125,
                 m_disk_accreted=0.5, m_disk_radiated=0.0625, h1_mass_ej=2.,
                 he4_mass_ej=4.)
    s.the_model = dict(props) if have == 'yes' else None
    st.check_SN_type = lambda m_core, m_He_core, m_star: (
        m_core, None, None, real) if (m_core, m_He_core, m_star) == (
        5., 8., 20.) else 1 / 0
    st.PISN_prescription = lambda star: None
    m = 10.

    def rembar(star, m_PISN):
        star.SN_type = real
        return (np.nan if real == 'PISN' else m), 0.5, None
    st.compute_m_rembar = rembar
    seen = []

    def name(d, verbose=False):
        seen.append(d is not None and d.get('mechanism') == 'direct')
        return None if have == 'unsupported' else 'the_model'
    with replaced(sn, 'get_SN_MODEL_NAME', name):
        try:
            err = st.collapse_star(s)
        except ValueError:
            S.check('only-unsupported-refused', have == 'unsupported')
            return
    S.check('unsupported-refused', have != 'unsupported')
    S.check('assumptions-looked-up', seen == [True])
    t2 = real if typ == 'ECSN' else typ
    match = {'WD': ('WD',), 'NS': ('ECSN', 'CCSN'), 'BH': ('CCSN', 'PPISN'),
             'massless_remnant': ('PISN',)}
    use = have == 'yes' and real != 'ECSN' and t2 == real \
        and t2 in match[cs] and not S.decide(S.isnan(mi))
    if not use:
        fell = real in ('WD', 'PISN')
        S.check('failure', isinstance(err, str) == (
            src == 'none' and not fell and not (real == 'ECSN'
                                                and have == 'yes')))
        S.check('interpolated-values-not-used', s.f_fb == 0.5)
        if err is None and not fell:
            # a 10 Msun remnant
            S.check('computed-remnant', s.state == 'BH' and S.decide(S.eq(
                s.mass, neutrino(S, m, st.max_neutrino_mass_loss))))
        return
    S.check('accepted', err is None)
    if real == 'PISN':
        check_massless(S, s)
        return
    S.check('interpolated-values-used', S.And(
        S.eq(s.state, cs), S.eq(s.mass, mi), S.eq(s.spin, 0.25),
        S.eq(s.f_fb, 0.125), S.eq(s.SN_type, real),
        S.eq(s.m_disk_accreted, 0.5), S.eq(s.m_disk_radiated, 0.0625),
        S.eq(s.h1_mass_ej, 2.), S.eq(s.he4_mass_ej, 4.)))
    S.check('radius', S.eq(s.log_R, log10radius(S, mi, cs)))
    if cs == 'WD':
        check_wd(S, s, he4, mi)
    else:
        for k in STARPROPERTIES:
            if k not in KEEP_REMNANT:
                S.check('structure-cleared', getattr(s, k) is None)


AFTER = ['detached', 'disrupted', 'merged', 'initially_single_star']


@harness(REG, 'P11', bounds='both events, every companion state, failures',
         stubs=['collapse and kick'])
def collapse_step(S):
    which = S.pick('which', [1, 2])
    kick = S.flag('kick')
    new = S.pick('remnant', ['WD', 'NS', 'BH', 'massless_remnant'])
    comp = S.pick('companion', ['WD', 'NS', 'BH', 'massless_remnant',
                                'H-rich_Core_H_burning',
                                'H-rich_Core_C_depleted',
                                'H-rich_Core_He_depleted',
                                'stripped_He_Core_C_depleted'])
    after = S.pick('after', AFTER)
    broken = S.flag('broken')
    st = step(kick=kick)
    b, sc, so, d = kicked(S, which, state=after)
    so.state = comp
    sc.lg_mdot = sc.lg_system_mdot = so.lg_mdot = so.lg_system_mdot = -3.
    order = []

    def col(star):
        order.append(('collapse', star is sc))
        if broken:
            return 'broken'
        star.state = new

    def kck(binary):
        order.append(('kick', binary is b))
        binary.event = None
        binary.separation, binary.eccentricity = d['a'], d['e']
        binary.orbital_period = 3.
    st.collapse_star, st.orbital_kick = col, kck
    b.update_star_states = lambda: order.append(('states', True))
    insp = []

    def insptime(m1, m2, a, e):
        insp.append((m1, m2, a, e))
        return 123.
    try:
        with replaced(sn, 'inspiral_timescale_from_separation', insptime):
            st(b)
    except ModelError:
        S.check('only-broken-fails', broken)
        S.check('marked-failed', S.And(S.eq(b.state, 'ERR'),
                                       S.eq(b.event, 'FAILED')))
        S.check('no-kick-after-failure', order == [('collapse', True)])
        return
    S.check('failure-raised', not broken)
    S.check('order', order == [('collapse', True), ('states', True)]
            + ([('kick', True)] if kick else []))
    S.check('other-star-rates-reset', so.lg_mdot is None
            and so.lg_system_mdot is None)
    S.check('own-rates-untouched', S.eq(sc.lg_mdot, -3.))
    if not kick:
        S.check('no-kick-orbit', S.eq(b.separation * (d['mr'] + d['mc']),
                                      d['a'] * (d['m0'] + d['mc'])))
        S.check('no-kick-period', S.eq(
            b.orbital_period, cf.orbital_period_from_separation(
                b.separation, d['mr'], d['mc'])))
        S.check('no-kick-eccentricity', S.eq(b.eccentricity, d['e']))
    S.check('state', S.eq(b.state, after))
    cos = ('WD', 'NS', 'BH')
    gone = after == 'disrupted' or 'massless_remnant' in (new, comp)
    if gone:
        S.check('no-inspiral', S.isnan(b.inspiral_time))
        S.check('no-event', b.event is None)
    elif comp in cos:
        S.check('inspiral', b.inspiral_time == 123. and len(insp) == 1)
        m1, m2, a, e = insp[0]
        S.check('inspiral-of-this-orbit', S.And(
            S.eq(m1, b.star_1.mass), S.eq(m2, b.star_2.mass),
            S.eq(a, b.separation), S.eq(e, d['e'])))
        S.check('no-event', b.event is None)
    elif comp in STAR_STATES_C_DEPLETED:
        S.check('companion-collapses-next', S.eq(b.event, 'CC%d'
                                                 % (3 - which)))
    else:
        S.check('no-event', b.event is None)
        S.check('inspiral-untouched', not insp)
