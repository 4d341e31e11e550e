"""Common envelopes."""
import types

import numpy as np

import posydon.binary_evol.CE.step_CEE as ce
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.flow_chart import (STAR_STATES_ALL, STAR_STATES_CO,
                                            STAR_STATES_POST_HeMS,
                                            STAR_STATES_POST_MS)
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.utils import common_functions as cf
from posydon.utils import constants as const
from symex.run import harness
from symex.stub import abstracted, replaced

REG = []
META = {
    'P12': dict(assumptions=[
        "masses in [0.5, 150] Msun with core mass below the mass, radii in "
        "[0.01, 3000] Rsun, periods in [0.01, 1e5] d, efficiency in [0.05, "
        "10], lambda in [0.01, 10]; the integration over a profile is a stub "
        "here"]),
}
EVENTS = ['oCE1', 'oCE2', 'oDoubleCE1', 'oDoubleCE2']
STATES = list(STAR_STATES_ALL)


def units():
    return [(const, 'standard_cgrav', 2.0), (const, 'Msun', 3.0),
            (const, 'Rsun', 5.0), (const, 'Zsun', 0.25),
            (ce, 'Zsun', 0.25)]


def star(state='H-rich_Shell_H_burning'):
    s = SingleStar(mass=1., state='H-rich_Core_H_burning')
    for k in STARPROPERTIES:
        setattr(s, k, 'old_' + k)
    s.state = state
    s.profile = None
    s.metallicity = 0.5
    return s


def binary(s1, s2, event):
    b = BinaryStar(star_1=SingleStar(mass=1., state='WD'),
                   star_2=SingleStar(mass=1., state='WD'), state='detached',
                   event=event, time=1.0, separation=1., orbital_period=1.)
    b.star_1, b.star_2 = s1, s2
    for k in BINARYPROPERTIES:
        setattr(b, k, 'old_' + k)
    b.event, b.state, b.time = event, 'contact', 2.5
    b.V_sys = [1, 2, 3]
    return b


CORE = dict(mass=(0.5, 150), log_R=(-2, 3.5))


@harness(REG, 'P12', bounds='all stellar states, events and options',
         stubs=['the envelope ejection itself'])
def which_donors_merge(S):
    ev = S.pick('event', EVENTS + ['oRLO1', 'CC1', None, 'oMerging1'])
    hg = S.pick('HG', ['optimistic', 'pessimistic'])
    pres = S.pick('prescription', ['alpha-lambda', 'other'])
    ds = S.enum('donor', STATES)
    first = ev is not None and ev.endswith('1')
    d, c = star(), star('H-rich_Core_He_burning')
    d.state = ds
    c.log_R, c.mass = 1.0, 7.0
    b = binary(d, c, ev) if first else binary(c, d, ev)
    st = ce.StepCEE(common_envelope_option_for_HG_star=hg, prescription=pres)
    seen, args = [], []

    def lam(s, verbose=False):
        seen.append(s)
        k = len(seen)
        return 0.1 * k, 1.0 * k, 10. * k, 'type%d' % k

    def alpha(bb, don, comp, l1, m1, r1, t1, l2, m2, r2, t2, double_CE=False,
              **k):
        args.append((bb, don, comp, (l1, m1, r1, t1), (l2, m2, r2, t2),
                     double_CE))
    st.calculate_lambda_CE = lam
    st.CEE_simple_alpha_prescription = alpha
    try:
        st(b)
    except ValueError:
        S.check('refused-for-a-reason', ev not in EVENTS
                or pres == 'other')
        S.check('nothing-started', not args)
        return
    S.check('wrong-events-refused', ev in EVENTS)
    merge = S.classify(ds, lambda v: v in (
        'H-rich_Core_H_burning', 'stripped_He_Core_He_burning',
        'accreted_He_Core_He_burning') or (
        hg == 'pessimistic' and v == 'H-rich_Shell_H_burning'))
    if merge:
        S.check('merges', S.And(S.eq(b.state, 'merged'), S.eq(
            b.event, 'oMerging1' if first else 'oMerging2')))
        S.check('no-ejection', not args)
        S.check('stars-kept', S.eq(c.mass, 7.0))
        return
    S.check('unknown-prescription-refused', pres != 'other')
    S.check('one-ejection', len(args) == 1 and args[0][0] is b)
    _, don, comp, a1, a2, dbl = args[0]
    S.check('roles', don is d and comp is c)
    S.check('donor-core', a1 == (0.1, 1.0, 10., 'type1') and seen[0] is d)
    S.check('double', dbl == ('Double' in ev))
    if 'Double' in ev:
        S.check('companion-core', a2 == (0.2, 2.0, 20., 'type2')
                and seen[1] is c)
    else:
        S.check('companion-whole', len(seen) == 1 and S.decide(S.And(
            S.isnan(a2[0]), S.eq(a2[1], 7.0), S.eq(a2[2], 10.0))))


LAMBDAS = ['default_lambda', 'lambda_from_grid_final_values',
           'lambda_from_profile_gravitational',
           'lambda_from_profile_gravitational_plus_internal',
           'lambda_from_profile_gravitational_plus_internal_minus_'
           'recombination', 'nonsense']


@harness(REG, 'P12', bounds='all donor states, lambda options, core '
         'definitions', stubs=['integration over the profile'])
def core_of_the_donor(S):
    opt = S.pick('lambda', LAMBDAS)
    fh = S.pick('core_H', [0.01, 0.1, 0.3, 0.2])
    fhe = S.pick('core_He', [0.1, 0.3])
    prof = S.flag('profile')
    ds = S.enum('donor', STATES)
    d = star()
    v = {}
    for k in ('mass', 'he_core_mass', 'he_core_radius', 'co_core_mass',
              'co_core_radius', 'lambda_CE_1cent', 'lambda_CE_10cent',
              'lambda_CE_30cent', 'lambda_CE_pure_He_star_10cent',
              'm_core_CE_1cent', 'm_core_CE_10cent', 'm_core_CE_30cent',
              'm_core_CE_pure_He_star_10cent', 'r_core_CE_1cent',
              'r_core_CE_10cent', 'r_core_CE_30cent',
              'r_core_CE_pure_He_star_10cent'):
        v[k] = S.real(k, 0.01, 100)
        setattr(d, k, v[k])
    d.log_R = 2.0
    d.state = ds
    d.profile = 'the profile' if prof else None
    lam0 = S.real('lambda0', 0.01, 10)
    ath = S.real('alpha_th', 0, 1)
    st = ce.StepCEE(common_envelope_option_for_lambda=opt,
                    common_envelope_lambda_default=lam0,
                    core_definition_H_fraction=fh,
                    core_definition_He_fraction=fhe,
                    common_envelope_alpha_thermal=ath)
    calls = []

    def integ(**k):
        calls.append(k)
        return 0.375, 1.5, 0.625
    kind = S.classify(ds, lambda x: 'He' if x in STAR_STATES_POST_MS else
                      'CO' if x in STAR_STATES_POST_HeMS else None)
    bad = kind is None or (kind == 'He' and fh == 0.2) \
        or (kind == 'CO' and fhe == 0.3) or (opt == 'nonsense' and prof)
    try:
        with replaced(ce, 'calculate_lambda_from_profile', integ):
            lam, m, r, t = st.calculate_lambda_CE(d)
    except ValueError:
        S.check('refused-for-a-reason', bad)
        return
    S.check('undefined-refused', not bad)
    S.check('type', t == kind + '_core')
    if opt == 'lambda_from_grid_final_values':
        suf = '_CE_pure_He_star_10cent' if kind == 'CO' else {
            0.01: '_CE_1cent', 0.1: '_CE_10cent', 0.3: '_CE_30cent'}[fh]
        exp = v['lambda' + suf], v['m_core' + suf], v['r_core' + suf]
    elif opt == 'default_lambda' or not prof:
        k = 'he' if kind == 'He' else 'co'
        exp = lam0, v[k + '_core_mass'], v[k + '_core_radius']
    else:
        exp = 0.375, 1.5, 0.625
        k = calls[0]
        S.check('profile-call', len(calls) == 1
                and k['profile'] == 'the profile'
                and k['common_envelope_option_for_lambda'] == opt
                and k['core_element_fraction_definition']
                == (fh if kind == 'He' else fhe))
        S.check('profile-values', S.And(
            S.eq(k['m1_i'], v['mass']), S.eq(k['radius1'], 100.0),
            S.eq(k['common_envelope_alpha_thermal'], ath)))
    S.check('lambda', S.eq(lam, exp[0]))
    S.check('core-mass', S.eq(m, exp[1]))
    S.check('core-radius', S.eq(r, exp[2]))


class Matcher:
    def __init__(self, S):
        self.calls = []
        self.R = S.real('R_matched', 0.01, 3000)

    def do_matching(self, b, step_name=None, match_primary=None,
                    match_secondary=None, **k):
        self.calls.append((b, match_primary, match_secondary))
        s = self.comp
        s.interp1d = lambda t: {'R': self.R} if t == b.time else 1 / 0
        return None, None, False


OPTS = {'one': 'one_phase_variable_core_definition',
        'stable': 'two_phases_stableMT', 'wind': 'two_phases_windloss'}


def _energy(opt, double, donor, comp):
    def f(S):
        with abstracted(S, cf, orbital_separation_from_period=(1e-12, 1e12),
                        orbital_period_from_separation=(1e-12, 1e12),
                        roche_lobe_radius=(1e-12, 1e12), check_for_RLO='bool',
                        period_change_stable_MT=(1e-12, 1e12)):
            body(S)

    def body(S):
        which = S.pick('which', [1, 2])
        m2 = S.real('m2', 0.5, 150)
        mc1, rc1 = S.real('mc1', 0.1, 150), S.real('rc1', 0.01, 100)
        m1 = mc1 + S.real('env1', 0, 100)
        lR1, lR2 = S.real('lR1', -2, 3.5), S.real('lR2', -2, 3.5)
        lam1 = S.real('lam1', 0.01, 10, nan=not double)
        al = S.real('alpha', 0.05, 10)
        P = S.real('P', 0.01, 1e5)
        tol = S.real('tol', 0, 0.1)
        d, c = star(donor), star(comp)
        d.mass, c.mass, d.log_R, c.log_R = m1, m2, lR1, lR2
        k = S.pick('definition', [0.01, 0.1, 0.3]) if opt == 'one' \
            and donor.startswith('H-rich') else 0.3
        # cores with the definition of the ejection ...
        for s, m, r, l in ((d, mc1, rc1, lam1),):
            for n in ('1cent', '10cent', '30cent', 'pure_He_star_10cent'):
                setattr(s, 'm_core_CE_' + n, m)
                setattr(s, 'r_core_CE_' + n, r)
                setattr(s, 'lambda_CE_' + n, l)
        mc2 = rc2 = lam2 = None
        if double:
            mc2, rc2 = S.real('mc2', 0.1, 150), S.real('rc2', 0.01, 100)
            m2 = mc2 + S.real('env2', 0, 100)
            c.mass = m2
            lam2 = S.real('lam2', 0.01, 10, nan=True)
            for n in ('1cent', '10cent', '30cent', 'pure_He_star_10cent'):
                setattr(c, 'm_core_CE_' + n, mc2)
                setattr(c, 'r_core_CE_' + n, rc2)
                setattr(c, 'lambda_CE_' + n, lam2)
        # ... and the bare cores
        dt = 'he' if donor in STAR_STATES_POST_MS else 'co'
        ct = 'he' if comp in STAR_STATES_POST_MS else 'co'
        b1, s1 = S.real('bare1', 0.1, 150), S.real('bareR1', 0.01, 100)
        setattr(d, dt + '_core_mass', b1)
        setattr(d, dt + '_core_radius', s1)
        if double:
            b2, s2 = S.real('bare2', 0.1, 150), S.real('bareR2', 0.01, 100)
            setattr(c, ct + '_core_mass', b2)
            setattr(c, ct + '_core_radius', s2)
        ev = 'o%sCE%d' % ('Double' if double else '', which)
        b = binary(d, c, ev) if which == 1 else binary(c, d, ev)
        b.orbital_period = P
        st = ce.StepCEE(common_envelope_efficiency=al, CEE_tolerance_err=tol,
                        core_definition_H_fraction=k,
                        common_envelope_option_after_succ_CEE=OPTS[opt])
        tm = Matcher(S)
        tm.comp = c
        st.track_matcher = tm
        new = []

        def reinfer(s, *a, **kw):
            new.append((s, s.mass, s.surface_h1))
            return 'new_state_%d' % len(new)
        old1, old2 = d.state, c.state
        with replaced(ce, 'check_state_of_star', reinfer):
            st(b)
        # ---- reference
        G, MS, RS = const.standard_cgrav, const.Msun, const.Rsun
        A = cf.orbital_separation_from_period(P, m1, m2) * RS
        R1, R2 = 10**lR1, 10**lR2
        if not double:
            mc2, rc2 = m2, R2
        eb = 0.0
        if not S.decide(S.isnan(lam1)):
            eb = G * m1 * (m1 - mc1) * MS * MS / (lam1 * R1 * RS)
        if double and not S.decide(S.isnan(lam2)):
            eb = eb + G * m2 * (m2 - mc2) * MS * MS / (lam2 * R2 * RS)
        Ef = G * m1 * m2 * MS * MS / (2 * A) + eb / al
        Af = G * mc1 * mc2 * MS * MS / (2 * Ef) / RS
        matched = False
        if not double and comp not in STAR_STATES_CO:
            L1 = cf.roche_lobe_radius(mc1, mc2, Af)
            L2 = cf.roche_lobe_radius(mc2, mc1, Af)
            if S.decide(rc1 - L1 < tol) and S.decide(rc2 - L2 > tol):
                rc2 = tm.R
                matched = True
        S.check('inflated-companion-matched', len(tm.calls) == int(matched))
        if matched:
            S.check('only-the-companion-matched', tm.calls[0][0] is b)
        M1, Q1, M2, Q2 = mc1, rc1, mc2, rc2
        if opt != 'one':
            M1 = mc1 if S.decide(b1 > mc1) else b1
            Q1 = s1
            if double:
                M2 = mc2 if S.decide(b2 > mc2) else b2
                Q2 = s2
        merged = S.decide(cf.check_for_RLO(mc1, Q1, mc2, Q2, Af, tol))
        Pf = cf.orbital_period_from_separation(Af, mc1, mc2)
        af = Af
        if not merged and opt != 'one':
            if opt == 'stable' and not double:
                Pf = cf.period_change_stable_MT(Pf, mc1, M1, mc2, alpha=0.0,
                                                beta=1.0)
            else:
                Pf = cf.period_change_stable_MT(Pf, mc1, M1, mc2, alpha=1.0,
                                                beta=0.0)
                if double:
                    Pf = cf.period_change_stable_MT(Pf, mc2, M2, M1,
                                                    alpha=1.0, beta=0.0)
            af = cf.orbital_separation_from_period(Pf, M1, M2)
            merged = S.decide(cf.check_for_RLO(M1, Q1, M2, Q2, af, tol))
        S.check('time-kept', b.time == 2.5 and b.V_sys == [1, 2, 3])
        if merged:
            S.check('cores-that-touch-merge', S.And(
                S.eq(b.state, 'merged'), S.eq(b.event,
                                              'oMerging%d' % which)))
            S.check('no-mass-lost', S.And(S.eq(d.mass, m1), S.eq(c.mass, m2)))
            S.check('merger-radius-open', S.And(S.isnan(d.log_R),
                                                S.isnan(c.log_R)))
            if dt == 'co':
                S.check('he-star-core', S.eq(d.he_core_mass, m1))
            if double and ct == 'co':
                S.check('he-star-core-2', S.eq(c.he_core_mass, m2))
            S.check('no-reclassification', not new)
            return
        S.check('survivors-detach', S.eq(b.state, 'detached'))
        S.check('event', S.eq(b.event, 'CC%d' % which
                              if old1 == 'stripped_He_Core_He_depleted'
                              else None))
        S.check('circular', S.eq(b.eccentricity, 0.0))
        S.check('separation', S.eq(b.separation, af))
        S.check('period', S.eq(b.orbital_period, Pf))
        S.check('donor-mass', S.eq(d.mass, M1))
        S.check('companion-mass', S.eq(c.mass, M2 if double else m2))
        for i, (s, t, M, Q) in enumerate(((d, dt, M1, Q1), (c, ct, M2, Q2))):
            if i and not double:
                S.check('companion-untouched', S.And(
                    S.eq(c.log_R, lR2), S.eq(c.state, old2),
                    S.eq(c.surface_h1, 'old_surface_h1'),
                    S.eq(c.he_core_mass, 'old_he_core_mass')))
                continue
            S.check('radius', S.eq(s.log_R, np.log10(Q)))
            S.check('he-core', S.And(S.eq(s.he_core_mass, M),
                                     S.eq(s.he_core_radius, Q)))
            S.check('no-shell-burning', S.eq(s.log_LH, -1e99))
            if t == 'he':
                h = k if opt == 'one' else 0.01
                S.check('surface', S.And(
                    S.eq(s.surface_h1, h),
                    S.eq(s.surface_he4, 1 - h - 0.5 * const.Zsun)))
            else:
                S.check('surface', S.And(S.eq(s.surface_h1, 0.0),
                                         S.eq(s.surface_he4, 0.1)))
                S.check('co-core', S.And(S.eq(s.co_core_mass, M),
                                         S.eq(s.co_core_radius, Q),
                                         S.eq(s.log_LHe, -1e99)))
            S.check('center-kept', S.And(
                S.eq(s.center_he4, 'old_center_he4'),
                S.eq(s.metallicity, 0.5)))
            S.check('stale-structure-cleared', S.And(
                S.isnan(s.log_L), S.isnan(s.lambda_CE_10cent),
                S.isnan(s.total_moment_of_inertia), S.isnan(s.spin)))
            S.check('reclassified', any(
                x is s and S.decide(S.eq(mm, M)) for x, mm, h1 in new)
                and s.state.startswith('new_state'))
        S.check('case-kept', S.eq(b.mass_transfer_case,
                                  'old_mass_transfer_case'))
        S.check('stale-orbit-cleared', S.And(
            S.isnan(b.rl_relative_overflow_1), S.isnan(b.lg_mtransfer_rate)))
    f.__name__ = 'energy_%s%s_%s_%s' % (
        opt, '_double' if double else '',
        'he' if donor in STAR_STATES_POST_MS else 'co',
        'CO' if comp in STAR_STATES_CO else
        'he' if comp in STAR_STATES_POST_MS else 'co')
    return f


for _o in OPTS:
    for _d, _dn, _c in (
            (False, 'H-rich_Core_He_burning', 'NS'),
            (False, 'stripped_He_Core_He_depleted', 'H-rich_Core_H_burning'),
            (True, 'H-rich_Core_He_burning', 'stripped_He_Core_C_depleted'),
            (True, 'stripped_He_Core_C_depleted', 'H-rich_Core_He_burning')):
        harness(REG, 'P12', bounds='energy balance and outcome',
                stubs=['stellar state inference (P01)',
                       'matching of an inflated companion'],
                world=units, budget=200, feas_ms=0, ob_ms=2000, witnesses=6,
                search_n=300)(_energy(_o, _d, _dn, _c))


@harness(REG, 'P12', bounds='single and double donors, with and without '
         'profiles', stubs=['binding energy integration'], world=units,
         feas_ms=0, ob_ms=2000, witnesses=10)
def partial_ejection(S):
    """mass lost in a merger: the orbital energy released down to contact of
    the cores, shared between the envelopes"""
    double = S.flag('double')
    p1, p2 = S.flag('profile1'), S.flag('profile2')
    mc1, rc1 = S.real('mc1', 0.1, 150), S.real('rc1', 0.01, 100)
    mc2, rc2 = S.real('mc2', 0.1, 150), S.real('rc2', 0.01, 100)
    m1 = mc1 + S.real('env1', 0.001, 100)
    m2 = mc2 + (S.real('env2', 0.001, 100) if double else 0.0)
    A, al = S.real('A', 0.1, 1e5), S.real('alpha', 0.05, 10)
    ej = [S.real('ej1', 0, 200), S.real('ej2', 0, 200)]
    d, c = star(), star()
    d.profile = 'P1' if p1 else None
    c.profile = 'P2' if p2 else None
    calls = []

    def mej(profile, E, mc, rc, m, R):
        calls.append((profile, E, mc, rc, m, R))
        return ej[len(calls) - 1]
    st = ce.StepCEE()
    with replaced(ce, 'calculate_Mejected_for_integrated_binding_energy',
                  mej):
        x, y = st.CEE_adjust_mass_loss_during_CEE_merged(
            d, m1, mc1, rc1, c, m2, mc2, rc2, A * const.Rsun, al, 10., 20.,
            double)
    if not p1 or (double and not p2):
        S.check('nothing-without-profile', S.And(S.eq(x, 0.0), S.eq(y, 0.0)))
        return
    G, MS, RS = const.standard_cgrav, const.Msun, const.Rsun
    a1 = rc1 / cf.roche_lobe_radius(mc1, mc2, 1)
    a2 = rc2 / cf.roche_lobe_radius(mc2, mc1, 1)
    am = a1 if S.decide(a1 > a2) else a2
    E = al * (G * mc1 * mc2 * MS * MS / (2 * am * RS)
              - G * m1 * m2 * MS * MS / (2 * A * RS))
    e1, e2 = m1 - mc1, m2 - mc2
    w = e1 / (e1 + e2) if double else 1.0
    S.check('number-of-envelopes', len(calls) == (2 if double else 1))
    S.check('donor-envelope', S.And(
        calls[0][0] == 'P1', S.eq(calls[0][1], E * w), S.eq(calls[0][2], mc1),
        S.eq(calls[0][3], rc1), S.eq(calls[0][4], m1), S.eq(calls[0][5], 10.)))
    S.check('donor-loss', S.eq(x, e1 - 0.01 if S.decide(ej[0] > e1)
                               else ej[0]))
    if double:
        S.check('companion-envelope', S.And(
            calls[1][0] == 'P2', S.eq(calls[1][1], E * (1 - w)),
            S.eq(calls[1][2], mc2), S.eq(calls[1][3], rc2),
            S.eq(calls[1][4], m2), S.eq(calls[1][5], 20.)))
        S.check('companion-loss', S.eq(y, e2 - 0.01 if S.decide(ej[1] > e2)
                                       else ej[1]))
    else:
        S.check('companion-loss', S.eq(y, 0.0))
