"""Mergers and isolated stars."""
import numpy as np

import posydon.binary_evol.DT.step_detached as dt
import posydon.binary_evol.DT.step_disrupted as dis
import posydon.binary_evol.DT.step_initially_single as ini
import posydon.binary_evol.DT.step_isolated as iso
import posydon.binary_evol.DT.step_merged as sm
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.flow_chart import (STAR_STATES_ALL, STAR_STATES_CO,
                                            STAR_STATES_H_RICH,
                                            STAR_STATES_HE_RICH)
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.utils import constants as const
from posydon.utils import common_functions as cf
from posydon.utils.posydonerror import FlowError, ModelError
from symex.run import harness
from symex.stub import abstracted, replaced

REG = []
META = {
    'P13': dict(assumptions=[
        "masses in [0.01, 300] Msun, core masses in [0, 300] Msun, abundances "
        "in [0, 1]; the evolution of the product afterwards is a stub (the "
        "detached step)"]),
}
CENTER = ['center_h1', 'center_he4', 'center_c12', 'center_n14', 'center_o16']
SURF = ['surface_h1', 'surface_he4', 'surface_c12', 'surface_n14',
        'surface_o16']
MASSES = ['mass', 'he_core_mass', 'c_core_mass', 'o_core_mass',
          'co_core_mass']
STALE = ['log_R', 'log_L', 'log_LH', 'log_Lnuc', 'lg_mdot', 'lg_wind_mdot',
         'lg_system_mdot', 'c12_c12', 'total_moment_of_inertia', 'spin',
         'lambda_CE_1cent', 'lambda_CE_pure_He_star_10cent', 'profile',
         'conv_env_top_mass', 'mass_conv_reg_fortides',
         'log_total_angular_momentum', 'surf_avg_omega']


class Old(dict):
    __getattr__ = dict.get


def kind(s):
    if s == 'H-rich_Core_H_burning':
        return 'MS'
    if s == 'stripped_He_Core_He_burning':
        return 'HeMS'
    if s in STAR_STATES_H_RICH:
        return 'pMS'
    if s in STAR_STATES_HE_RICH:
        return 'pHe'
    return {'WD': 'WD', 'NS': 'CO', 'BH': 'CO'}.get(s, s)


def star(S, tag, state, mix):
    s = SingleStar(mass=1., state='H-rich_Core_H_burning')
    for k in STARPROPERTIES:
        setattr(s, k, 'old_%s_%s' % (k, tag))
    s.state = state
    s.mass = S.real('m' + tag, 0.01, 300)
    for k in MASSES[1:]:
        setattr(s, k, S.real(k + tag, 0, 300))
    for i, k in enumerate(CENTER + SURF):
        setattr(s, k, (0.01 if tag == 'b' else 0.03) * (i + 1))
    for k in mix:
        setattr(s, k, S.real(k + tag, 0, 1, nan=k == (
            'center_o16' if tag == 'b' else 'surface_o16')))
    return s


def step(S, **k):
    with replaced(dt.detached_step, '__init__', _init):
        return sm.MergedStep(**k)


def _init(self, *a, **k):
    self.verbose = False


MIX = ['center_he4', 'center_o16', 'surface_he4', 'surface_o16',
       'avg_c_in_c_core', 'center_h1', 'surface_c12']


def _product(kb, kc):
    def f(S):
        product(S, kb, kc)
    f.__name__ = 'product_%s_%s' % (kb, kc)
    return f


for _k, _l in [(a, b) for a in ('MS', 'pMS', 'HeMS', 'pHe') for b in (
        'MS', 'pMS', 'HeMS', 'pHe', 'WD', 'CO')]:
    harness(REG, 'P13', bounds='all pairs of stellar states, masses, core '
            'masses, abundances (one of each star may be missing)', feas_ms=0,
            witnesses=8, stubs=['stellar state inference (P01)'],
            max_paths=20000, budget=200)(_product(_k, _l))


def product(S, kb, kc):
    # all states of either star, with one state of the other
    lb = [s for s in STAR_STATES_ALL if kind(s) == kb]
    lc = [s for s in STAR_STATES_ALL if kind(s) == kc]
    if S.flag('vary_base'):
        sb, sc = S.enum('state_base', lb), lc[-1]
    else:
        sb, sc = lb[0], S.enum('state_comp', lc)
    b, c = star(S, 'b', sb, MIX), star(S, 'c', sc, MIX)
    f = S.real('f_lost', 0, 0.9)
    w = S.real('omega', 0, 1)
    B = Old({k: getattr(b, k) for k in STARPROPERTIES})
    C = Old({k: getattr(c, k) for k in STARPROPERTIES})
    st = step(S, rel_mass_lost_HMS_HMS=f, merger_critical_rot=w)
    inferred = []

    def reinfer(s, *a, **k):
        inferred.append((s, s.mass, s.co_core_mass, s.surface_he4,
                         s.center_he4))
        return 'inferred'
    pair = kb + '+' + kc
    try:
        with replaced(sm, 'check_state_of_star', reinfer):
            x, y = st.merged_star_properties(b, c)
    except ModelError:
        S.check('refused-for-a-reason', pair in (
            'MS+HeMS', 'MS+pHe', 'HeMS+MS', 'pHe+MS'))
        return
    S.check('impossible-pairs-refused', pair not in (
        'MS+HeMS', 'MS+pHe', 'HeMS+MS', 'pHe+MS'))
    if kc == 'CO':
        S.check('compact-object-survives', y is c and S.decide(S.And(*[
            S.eq(getattr(c, k), C[k]) for k in ('mass', 'state', 'spin',
                                                'center_he4')])))
        S.check('star-vanishes', x is b)
        gone(S, b)
        return
    swapped = pair in ('MS+pMS', 'HeMS+pMS', 'pHe+pMS')
    S.check('survivor', x is (c if swapped else b) and y is (
        b if swapped else c))
    gone(S, y)
    if kc == 'WD':
        for k in MASSES:
            S.check(k, S.eq(getattr(x, k), B[k] + C.mass))
    elif pair == 'MS+MS':
        S.check('mass', S.eq(x.mass, (B.mass + C.mass) * (1 - f)))
    elif 'MS' in (kb, kc):
        S.check('mass', S.eq(x.mass, B.mass + C.mass))
        for k in MASSES[1:]:
            S.check('core-untouched', S.eq(getattr(x, k),
                                           (C if swapped else B)[k]))
    else:
        for k in MASSES:
            S.check(k, S.eq(getattr(x, k), B[k] + C[k]))
    # abundances
    own = C if swapped else B

    def mixed(k, wb, wc):
        tot = wb + wc
        if S.decide(S.isnan(B[k])) or S.decide(S.isnan(C[k])) \
                or S.decide(S.eq(tot, 0)):
            return np.nan
        return (B[k] * wb + C[k] * wc) / tot
    if pair == 'MS+MS':
        cen = lambda k: mixed(k, B.mass, C.mass)
    elif kc == 'WD':
        cen = (lambda k: C[k]) if S.decide(B.co_core_mass == 0) else (
            lambda k: mixed(k, B.co_core_mass, C.co_core_mass))
    elif 'MS' in (kb, kc):
        cen = lambda k: own[k]
    else:
        zb = S.decide(B.co_core_mass == 0)
        zc = S.decide(C.co_core_mass == 0)
        if zb and zc:
            cen = lambda k: mixed(k, B.he_core_mass, C.he_core_mass)
        elif zc:
            cen = lambda k: B[k]
        elif zb:
            cen = lambda k: C[k]
        else:
            cen = lambda k: mixed(k, B.co_core_mass, C.co_core_mass)
        if 'HeMS' in (kb, kc) and 'pMS' in (kb, kc) and not (
                zc if kc == 'HeMS' else zb):
            cen = None      # a He-MS star with a CO core: not described
    if cen is not None:
        for k in ('center_he4', 'center_o16', 'center_h1'):
            S.check(k, S.eq(getattr(x, k), cen(k)))
        if 'MS' not in (kb, kc) or kc == 'WD':
            S.check('carbon-in-core', S.eq(x.avg_c_in_c_core,
                                           cen('avg_c_in_c_core')))
    sur = lambda k: own[k]
    if pair == 'MS+MS':
        sur = lambda k: mixed(k, B.mass, C.mass)
    elif pair == 'pMS+MS':
        sur = lambda k: mixed(k, B.mass - B.he_core_mass, C.mass)
    elif pair == 'MS+pMS':
        sur = lambda k: mixed(k, B.mass, C.mass - C.he_core_mass)
    elif pair == 'pMS+pMS':
        sur = lambda k: mixed(k, B.mass - B.he_core_mass,
                              C.mass - C.he_core_mass)
    elif kb in ('HeMS', 'pHe') and kc in ('HeMS', 'pHe'):
        sur = lambda k: mixed(k, B.he_core_mass - B.co_core_mass,
                              C.he_core_mass - C.co_core_mass)
    for k in ('surface_he4', 'surface_o16', 'surface_c12'):
        S.check(k, S.eq(getattr(x, k), sur(k)))
    S.check('rotation', S.eq(x.surf_avg_omega_div_omega_crit, w))
    S.check('stale', S.And(*[S.isnan(getattr(x, k)) for k in STALE]))
    if pair in ('pMS+MS', 'MS+pMS'):
        S.check('evolved-core-keeps-burning', S.And(
            S.eq(x.log_LHe, own['log_LHe']), S.eq(x.log_LZ, own['log_LZ'])))
    else:
        S.check('burning-unknown', S.And(S.isnan(x.log_LHe),
                                         S.isnan(x.log_LZ)))
    if pair == 'MS+MS':
        S.check('still-on-the-main-sequence', S.eq(x.state, sb))
    else:
        S.check('reclassified', len(inferred) == 1 and inferred[0][0] is x
                and x.state == 'inferred')
        _, m, co, she, che = inferred[0]
        S.check('reclassified-last', S.And(
            S.eq(m, x.mass), S.eq(co, x.co_core_mass),
            S.eq(she, x.surface_he4), S.eq(che, x.center_he4)))
    S.check('metallicity', S.eq(x.metallicity, own['metallicity']))


def gone(S, s):
    S.check('massless-remnant', S.And(
        S.eq(s.state, 'massless_remnant'), S.eq(s.mass, 0.0),
        *[S.isnan(getattr(s, k)) for k in (
            'log_R', 'he_core_mass', 'center_he4', 'surface_h1', 'spin',
            'profile', 'metallicity')]))


@harness(REG, 'P13', bounds='all pairs of stellar states, binary states and '
         'events', stubs=['merged star (see product)', 'detached step'],
         feas_ms=0, max_paths=30000, witnesses=20, budget=200)
def who_merges(S):
    bs = S.pick('state', ['merged', 'detached', 'RLO1', 'RLO2', 'contact',
                          'disrupted'])
    ev = S.pick('event', ['oMerging1', 'oMerging2', 'oRLO1', 'oRLO2', 'CC1',
                          None])
    s1, s2 = S.enum('s1', STAR_STATES_ALL), S.enum('s2', STAR_STATES_ALL)
    a = SingleStar(mass=3.0, state='H-rich_Core_H_burning')
    b = SingleStar(mass=2.0, state='H-rich_Core_H_burning')
    bi = BinaryStar(star_1=a, star_2=b, state='detached', event=None,
                    time=1.0, separation=10., orbital_period=1.)
    a, b = bi.star_1, bi.star_2
    a.state, b.state = s1, s2
    bi.state, bi.event = bs, ev
    st = step(S)
    calls, det = [], []
    X, Y = SingleStar(mass=4., state='H-rich_Core_H_burning'), \
        SingleStar(mass=1., state='massless_remnant')

    def merge(p, q):
        calls.append((p, q))
        return X, Y
    st.merged_star_properties = merge

    def evolve(self, bb):
        det.append((bb.star_1, bb.star_2, bb.state, bb.orbital_period,
                    bb.eccentricity))
    first = ev in ('oMerging1', 'oRLO1')
    he = S.classify(s1, lambda s: s in STAR_STATES_HE_RICH) and S.classify(
        s2, lambda s: s in STAR_STATES_HE_RICH)
    ok = (bs == 'merged' and ev in ('oMerging1', 'oMerging2')) or (
        bs != 'merged' and he and ev in ('oRLO1', 'oRLO2'))
    try:
        with replaced(dt.detached_step, '__call__', evolve):
            st(bi)
    except ValueError:
        S.check('refused-for-a-reason', not ok)
        S.check('no-merger', not calls and not det)
        return
    S.check('only-mergers', ok)
    S.check('roles', len(calls) == 1 and calls[0] == (
        (a, b) if first else (b, a)))
    S.check('places', (bi.star_1, bi.star_2) == ((X, Y) if first else (Y, X)))
    S.check('evolved-alone', len(det) == 1 and det[0][:3] == (
        bi.star_1, bi.star_2, 'merged') and det[0][3] >= 1e90
        and det[0][4] == 0.0)
    S.check('no-orbit', S.And(*[S.isnan(getattr(bi, k)) for k in (
        'orbital_period', 'separation', 'eccentricity')]))


@harness(REG, 'P13', bounds='all binary states and events; masses in [0.01, '
         '300]', stubs=['detached step'])
def isolated(S):
    which = S.pick('step', ['isolated', 'disrupted', 'single'])
    bs = S.pick('state', ['merged', 'detached', 'initially_single_star',
                          'disrupted', 'RLO1', 'failed'])
    ev = S.pick('event', ['CC1', None, 'ZAMS'])
    a = SingleStar(mass=3.0, state='H-rich_Core_H_burning')
    b = SingleStar(mass=2.0, state='H-rich_Core_H_burning')
    bi = BinaryStar(star_1=a, star_2=b, state='detached', event=None,
                    time=1.0, separation=10., orbital_period=1.)
    for k in BINARYPROPERTIES:
        setattr(bi, k, 'old_' + k)
    a, b = bi.star_1, bi.star_2
    m1, m2 = S.real('m1', 0.01, 300), S.real('m2', 0.01, 300)
    a.mass, b.mass = m1, m2
    bi.state, bi.event = bs, ev
    det = []
    cls = {'isolated': iso.IsolatedStep, 'disrupted': dis.DisruptedStep,
           'single': ini.InitiallySingleStep}[which]
    with replaced(dt.detached_step, '__init__', _init):
        st = cls()

    def evolve(self, bb):
        det.append(bb)
        P, e, A = bb.orbital_period, bb.eccentricity, bb.separation
        S.check('far-apart', S.And(S.eq(e, 0.0), S.ge(P, 1e90)))
        S.check('kepler', S.eq(A, cf.orbital_separation_from_period(
            P, m1, m2)))
        bb.event = 'from the step'
    ok = bs == 'initially_single_star' or (
        which != 'single' and bs in ('merged', 'disrupted'))
    try:
        with replaced(dt.detached_step, '__call__', evolve), abstracted(
                S, cf, orbital_separation_from_period=(1e-12, None)):
            st(bi)
    except (FlowError, AttributeError):
        S.check('refused-for-a-reason', not ok)
        S.check('not-evolved', not det)
        return
    S.check('only-isolated', ok)
    S.check('evolved-once', det == [bi] and bi.event == 'from the step')
    S.check('no-orbit', S.And(*[S.isnan(getattr(bi, k)) for k in (
        'orbital_period', 'separation', 'eccentricity')]))
    S.check('rest-kept', S.And(
        S.eq(bi.state, bs), S.eq(bi.time, 'old_time'), S.eq(a.mass, m1),
        S.eq(b.mass, m2), S.eq(bi.V_sys, 'old_V_sys')))
