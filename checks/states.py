"""Stellar states, binary states, mass-transfer cases, label exchange."""
import copy
import types

import numpy as np

from posydon.utils import common_functions as cf
from posydon.binary_evol import flow_chart as fc
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from symex.run import harness

REG = []
META = {
    'P01': dict(assumptions=[
        "abundances in [0, 1], luminosities (log10) in [-99, 10], masses in "
        "[-1, 300] Msun; `round(x, 10)` is round-half-up on reals"]),
    'P02': dict(assumptions=[
        "relative overflows in [-1, 10], log10 mass-transfer rate in "
        "[-99, 2], central Coulomb coupling in [0, 1000]; each may be None"]),
    'P03': dict(assumptions=["histories of at most 5 (quick) mass-transfer "
                             "entries; each entry any defined case"]),
    'P04': dict(assumptions=["histories of 3 entries; every label of the "
                             "binary's state and event vocabulary"]),
}
LRB = -1.5228787452803376       # log10(1 - 0.97)


# ------------------------------------------------------------------ P01
def ref_normal(S, sh, ch, che, cc, LH, LHe, Ln):
    """Documented classification: composition prefix + burning stage."""
    if S.decide(sh > 0.01):
        p = 'H-rich'
    elif S.decide(sh < ch):
        p = 'accreted_He'
    else:
        p = 'stripped_He'
    H, He, C = S.decide(ch > 0.01), S.decide(che > 0.01), S.decide(cc > 0.01)
    bH = S.decide(LH > -10) and S.decide(LH - Ln > cf.REL_LOG10_BURNING_THRESHOLD)
    bHe = S.decide(LHe > -10) and S.decide(LHe - Ln > cf.REL_LOG10_BURNING_THRESHOLD)
    if not H and not He:
        b = 'Core_He_depleted' if C else 'Core_C_depleted'
    elif H:
        b = 'Core_H_burning' if bH else 'non_burning'
    elif bHe:
        b = 'Core_He_burning'
    elif bH:
        b = 'Shell_H_burning'
    else:
        b = 'non_burning'
    return p + '_' + b


def _abund(S, t=''):
    return dict(surface_h1=S.real('surface_h1' + t, 0, 1),
                center_h1=S.real('center_h1' + t, 0, 1),
                center_he4=S.real('center_he4' + t, 0, 1),
                center_c12=S.real('center_c12' + t, 0, 1),
                log_LH=S.real('log_LH' + t, -99, 10),
                log_LHe=S.real('log_LHe' + t, -99, 10),
                log_Lnuc=S.real('log_Lnuc' + t, -99, 10))


def _gap(S, a):
    """keep away from the 1e-10 rounding granularity of the comparison"""
    d = a['center_h1'] - a['surface_h1']
    S.assume((d >= 1e-6) | (d <= 0))


@harness(REG, 'P01', bounds='all finite abundances/luminosities', budget=200)
def normal_star(S):
    a = _abund(S)
    _gap(S, a)
    st = cf.infer_star_state(star_mass=S.real('m', 0.1, 300), star_CO=False, **a)
    exp = ref_normal(S, a['surface_h1'], a['center_h1'], a['center_he4'],
                     a['center_c12'], a['log_LH'], a['log_LHe'],
                     a['log_Lnuc'])
    S.check('state-matches-definition', S.eq(st, exp))
    S.note(state=st, expected=exp)


@harness(REG, 'P01', bounds='surface hydrogen missing (NaN or None)')
def undetermined(S):
    a = _abund(S)
    a['surface_h1'] = S.pick('missing', [None, float('nan')])
    st = cf.infer_star_state(star_mass=S.real('m', 0.1, 300), star_CO=False, **a)
    S.check('missing-surface-is-undetermined',
            S.eq(st, 'undetermined_evolutionary_state'))


@harness(REG, 'P01', bounds='mass in [-1, 300] or NaN, abundances possibly NaN')
def compact_object(S):
    m = S.real('m', -1, 300, nan=True)
    kw = {}
    for k in ('surface_h1', 'center_h1', 'center_he4', 'center_c12'):
        kw[k] = S.real(k, 0, 1, nan=True) if S.flag('has_' + k) else None
    st = cf.infer_star_state(star_mass=m, star_CO=True, **kw)
    hasmat = False
    for k, v in kw.items():
        if v is not None and S.decide(v > 0):
            hasmat = True
    if not S.decide(m > 0):
        exp = 'massless_remnant'
    elif S.decide(m <= 1.46) and (hasmat or S.decide(m < 1.1)):
        exp = 'WD'
    elif S.decide(m <= 2.5):
        exp = 'NS'
    else:
        exp = 'BH'
    S.check('compact-type-by-mass', S.eq(st, exp))
    S.note(state=st, expected=exp)


def _star(**kw):
    st = SingleStar(**kw)
    return st


OTHER = dict(surface_h1=0.7, center_h1=0.0, center_he4=0.0, center_c12=0.0,
             log_LH=-99., log_LHe=-99., log_Lnuc=1.0)


@harness(REG, 'P01', bounds='history of 3 entries + current values; the entry '
         'looked at is symbolic, the others are a depleted star', budget=200)
def star_object(S):
    """The star-level entry points classify the values of the right time."""
    when = S.pick('when', ['current', 'hist0', 'hist1', 'hist2',
                           'co_current', 'co_wd'])
    ab = _abund(S)
    _gap(S, ab)
    m = S.real('m', 0.5, 100)
    star = SingleStar(state='H-rich_Core_H_burning', mass=50.)
    for k in ab:
        setattr(star, k, OTHER[k])
        setattr(star, k + '_history', [OTHER[k]] * 3)
    star.mass_history = [50.] * 3
    star.state_history = ['H-rich_Core_H_burning'] * 3
    if when == 'co_wd':
        star.state = 'WD'
        star.mass = m
        S.check('wd-stays-wd',
                S.eq(cf.check_state_of_star(star, star_CO=True), 'WD'))
        return
    if when == 'co_current':
        star.state = S.pick('co', ['NS', 'BH'])
        star.mass = m
        star.surface_h1 = star.center_h1 = star.center_he4 = \
            star.center_c12 = None
        st = cf.check_state_of_star(star, star_CO=True)
        exp = ('WD' if S.decide(m < 1.1) else 'NS' if S.decide(m <= 2.5)
               else 'BH')
        S.check('co-type-by-mass', S.eq(st, exp))
        return
    if when == 'current':
        for k in ab:
            setattr(star, k, ab[k])
        star.mass = m
        st = cf.check_state_of_star(star)
    else:
        j = int(when[-1])
        for k in ab:
            getattr(star, k + '_history')[j] = ab[k]
        star.mass_history[j] = m
        r = list(cf.check_state_of_star_history_array(star, N=3))
        S.check('history-length', len(r) == 3)
        st = r[j]
        for i in range(3):
            if i != j:
                S.check('other-entries', S.eq(r[i], 'H-rich_Core_C_depleted'))
        S.check('single-entry', S.eq(cf.check_state_of_star(star, i=j - 3), st))
    S.check('state-matches-definition', S.eq(st, ref_normal(
        S, *[ab[k] for k in ('surface_h1', 'center_h1', 'center_he4',
                             'center_c12', 'log_LH', 'log_LHe',
                             'log_Lnuc')])))


# ------------------------------------------------------------------ P02
STATES = list(fc.STAR_STATES_ALL)
CASE_REF = {}
for _s in STATES:
    if 'non_burning' in _s:
        c = 'nonburning'
    elif _s.startswith('H-rich'):
        c = ('A' if 'Core_H_burning' in _s else
             'B' if ('Core_He_burning' in _s or 'Shell_H_burning' in _s) else
             'C' if ('Core_He_depleted' in _s or 'Core_C_depleted' in _s)
             else None)
    elif _s.startswith('stripped_He'):
        c = ('BA' if 'Core_He_burning' in _s else
             'BB' if ('Core_He_depleted' in _s or 'Core_C_depleted' in _s)
             else None)
    else:
        c = None
    CASE_REF[_s] = c
COMP_SINGLE_CE = ["H-rich_Core_H_burning", "stripped_He_Core_He_burning",
                  "WD", "NS", "BH"]


def fake_binary(S, hist=False):
    b = types.SimpleNamespace()

    def val(n, lo, hi):
        return S.real(n, lo, hi) if not S.flag('none_' + n) else None
    b.lg_mtransfer_rate = val('lg_mt', -99, 2)
    b.rl_relative_overflow_1 = val('rl1', -1, 10)
    b.rl_relative_overflow_2 = val('rl2', -1, 10)
    for i in (1, 2):
        st = types.SimpleNamespace(
            state=S.enum('state%d' % i, STATES),
            center_gamma=val('gamma%d' % i, 0, 1000))
        setattr(b, 'star_%d' % i, st)
    if hist:
        # the same values at history index -2; other entries different
        for k in ('lg_mtransfer_rate', 'rl_relative_overflow_1',
                  'rl_relative_overflow_2'):
            setattr(b, k + '_history', [None, getattr(b, k), None])
        for s in (b.star_1, b.star_2):
            s.state_history = ['WD', s.state, 'WD']
            s.center_gamma_history = [None, s.center_gamma, None]
    return b


def ref_binary(S, b, ic):
    """Definition of state / event / mass-transfer case."""
    if ic == 'not_converged':
        return [None, None, 'None']
    if ic == 'initial_MT':
        return ['initial_RLOF', None, 'None']
    rl = (b.rl_relative_overflow_1, b.rl_relative_overflow_2)
    mt = b.lg_mtransfer_rate
    st = (b.star_1.state, b.star_2.state)
    # the star that is (relatively) larger is the donor of the given rate
    if rl[0] is not None and rl[1] is not None:
        dom = 1 if S.decide(rl[0] >= rl[1]) else 2
    elif rl[1] is not None:
        dom = 2
    else:
        dom = 1
    over, case = [], []
    for i in (0, 1):
        if rl[i] is None or mt is None:
            over.append('no')
            case.append(None)
            continue
        fills = S.decide(rl[i] > 0)
        if not fills and (dom == i + 1):
            fills = S.decide(mt > -10)
        if not fills:
            over.append('no')
            case.append(None)
            continue
        c = S.classify(st[i], CASE_REF.get)
        case.append(c)
        over.append('yes' if c is not None else 'undetermined')
    if over == ['yes', 'yes']:
        state, mtc = 'contact', 'None'
    elif over == ['no', 'no']:
        state, mtc = 'detached', 'None'
    elif over[0] == 'yes':
        state, mtc = 'RLO1', 'case_%s1' % case[0]
    elif over[1] == 'yes':
        state, mtc = 'RLO2', 'case_%s2' % case[1]
    else:
        state, mtc = 'undefined', 'None'
    if ic == 'unstable_MT' and state in ('RLO1', 'RLO2'):
        return [state, 'oCE' + state[-1], mtc]
    if ic == 'unstable_MT' and state == 'contact':
        comp = st[1] if dom == 1 else st[0]
        kind = S.classify(comp, lambda v: 'oCE' if v in COMP_SINGLE_CE
                          else 'oDoubleCE')
        return [state, kind + str(dom), mtc]
    for i in (0, 1):
        g = getattr(b, 'star_%d' % (i + 1)).center_gamma
        if (S.classify(st[i], lambda v: 'Core_C_depleted' in v
                       or 'Core_He_depleted' in v)
                or (g is not None and S.decide(g >= 10))):
            return [state, 'CC%d' % (i + 1), mtc]
    return [state, None, mtc]


def _cmp_binary(S, res, exp):
    S.check('binary-state', S.eq(res[0], exp[0]))
    S.check('binary-event', S.eq(res[1], exp[1]))
    S.check('mass-transfer-case', S.eq(res[2], exp[2]))
    S.note(result=res, expected=exp)


for _ic in (None, 'no_MT', 'stable_MT', 'unstable_MT', 'initial_MT',
            'not_converged', 'stable_reverse_MT'):
    def _mk(ic):
        def f(S):
            b = fake_binary(S)
            res = cf.get_binary_state_and_event_and_mt_case(
                b, interpolation_class=ic)
            _cmp_binary(S, res, ref_binary(S, b, ic))
        f.__name__ = 'current_' + str(ic)
        return f
    harness(REG, 'P02', bounds='all values incl. None, 20x20 star states; '
            'interpolation class %s' % _ic, budget=240,
            max_paths=20000)(_mk(_ic))


@harness(REG, 'P02', bounds='history index -2 of 3; star states restricted '
         'to one per burning stage', budget=200, max_paths=20000)
def from_history(S):
    b = fake_binary(S, hist=True)
    keep = ['H-rich_Core_H_burning', 'H-rich_Core_C_depleted',
            'stripped_He_Core_He_burning', 'NS', 'H-rich_non_burning']
    for s in (b.star_1, b.star_2):
        S.assume((s.state == keep[0]) | (s.state == keep[1])
                 | (s.state == keep[2]) | (s.state == keep[3]))
    st, ev, mc = cf.get_binary_state_and_event_and_mt_case_array(b, N=3)
    S.check('array-length', len(st) == len(ev) == len(mc) == 3)
    _cmp_binary(S, [st[1], ev[1], mc[1]], ref_binary(S, b, None))


@harness(REG, 'P02', bounds='array form for the current values; either star '
         'without Coulomb-coupling history; star states restricted to four',
         budget=200, max_paths=20000)
def other_forms(S):
    form = S.pick('form', ['current', 'no-gamma-1', 'no-gamma-2', 'nothing'])
    if form == 'nothing':
        S.check('no-binary', list(cf.get_binary_state_and_event_and_mt_case(
            None)) == [None, None, 'None'])
        return
    b = fake_binary(S, hist=form != 'current')
    keep = ['H-rich_Core_H_burning', 'H-rich_Core_C_depleted',
            'stripped_He_Core_He_burning', 'NS']
    for s in (b.star_1, b.star_2):
        S.assume((s.state == keep[0]) | (s.state == keep[1])
                 | (s.state == keep[2]) | (s.state == keep[3]))
    if form == 'current':
        r = cf.get_binary_state_and_event_and_mt_case_array(b)
    else:
        s = getattr(b, 'star_' + form[-1])
        s.center_gamma_history = []
        s.center_gamma = None
        r = cf.get_binary_state_and_event_and_mt_case(b, i=-2)
    _cmp_binary(S, list(r), ref_binary(S, b, None))


# ------------------------------------------------------------------ P03
NO, UND = 0, 9
NAMES = {1: 'A', 2: 'B', 3: 'C', 4: 'BA', 5: 'BB', 6: 'BC', 8: 'nonburning'}
RLO = sorted(NAMES)
ALLC = [NO] + RLO + [UND] + [c + 10 for c in RLO]


def ref_numeric(S, cases):
    und = False
    kept = []
    anyno = False
    for c in cases:
        if S.decide(c == UND):
            und = True
        elif S.decide(c == NO):
            anyno = True
        else:
            kept.append(c)
    out = [UND] if und else []
    if not kept:
        return out + ([NO] if anyno else [])
    out.append(kept[0])
    for c in kept[1:]:
        if S.decide(c != out[-1]):
            out.append(c)
    return out


def tok(c):
    return NAMES[c] + '1' if c < 10 else NAMES[c - 10] + '2'


def ref_string(S, cases):
    r = ''
    first = True
    for c in cases:
        if S.decide(c == UND):
            r += '?'
        elif S.decide(c == NO):
            r += 'no_RLO'
        else:
            t = S.classify(c, lambda v: tok(v) if v not in (UND, NO) else None)
            r += ('case_' if first else '/') + t
            first = False
    return r


def ref_shift(S, cases):
    lo = {1: NO, 2: NO + 10}
    out = []
    for c in cases:
        k = 1 if S.decide(c <= UND) else 2
        if S.decide(c < lo[k]):
            out.append(lo[k])
        else:
            out.append(c)
            lo[k] = c
    return out


def _cmp_list(S, label, a, b):
    S.check(label + '-length', len(a) == len(b))
    if len(a) == len(b):
        for x, y in zip(a, b):
            S.check(label, S.eq(x, y))


def _numeric(n):
    def f(S):
        cases = [S.intenum('c%d' % i, ALLC) for i in range(n)]
        keep = list(cases)
        r = cf.cumulative_mass_transfer_numeric(cases)
        _cmp_list(S, 'summary', r, ref_numeric(S, keep))
        S.check('input-untouched', len(cases) == n and all(
            a is b for a, b in zip(cases, keep)))
    f.__name__ = 'numeric_%d' % n
    return f


def _string(n, vals):
    def f(S):
        cases = [S.intenum('c%d' % i, vals) for i in range(n)]
        r = cf.cumulative_mass_transfer_string(cases)
        S.check('string', S.eq(r, ref_string(S, cases)))
        S.note(result=r)
    f.__name__ = 'string_%d' % n
    return f


def _flag(n, vals):
    def f(S):
        cases = [S.intenum('c%d' % i, vals) for i in range(n)]
        shift = S.flag('shift')
        r = cf.cumulative_mass_transfer_flag(list(cases), shift_cases=shift)
        c = ref_shift(S, cases) if shift else cases
        exp = ref_string(S, ref_numeric(S, c))
        S.check('flag', S.eq(r, exp))
        S.note(result=r, expected=exp)
    f.__name__ = 'flag_%d_%d' % (n, len(vals))
    return f


for _n in (1, 2, 3, 4, 5):
    harness(REG, 'P03', bounds='all case sequences of length %d' % _n,
            budget=240, max_paths=60000)(_numeric(_n))
harness(REG, 'P03', bounds='all case sequences of length 2',
        budget=240)(_string(2, ALLC))
harness(REG, 'P03', bounds='length 3, seven cases',
        budget=240)(_string(3, [NO, 1, 2, 5, UND, 11, 14]))
harness(REG, 'P03', bounds='all case sequences of length 2, shift on/off',
        budget=240, max_paths=20000)(_flag(2, ALLC))
harness(REG, 'P03', bounds='length 4, six cases, shift on/off', budget=240,
        max_paths=20000)(_flag(4, [NO, 1, 2, UND, 11, 12]))


@harness(REG, 'P03', bounds='empty history; case names instead of numbers')
def names_and_empty(S):
    S.check('empty-is-undetermined',
            cf.cumulative_mass_transfer_numeric([]) == [UND])
    S.check('empty-string', cf.cumulative_mass_transfer_string([]) == '?')
    nm = {v: k for k, v in NAMES.items()}
    nm['no_RLO'], nm['undetermined_MT'] = NO, UND
    seq = [S.enum('n%d' % i, sorted(nm)) for i in range(3)]
    r = cf.cumulative_mass_transfer_numeric(seq)
    num = [S.classify(x, nm.get) for x in seq]
    _cmp_list(S, 'summary-from-names', r, ref_numeric(S, num))


# ------------------------------------------------------------------ P04
EVENTS = ['ZAMS', 'CC1', 'CC2', 'oRLO1', 'oRLO2', 'oCE1', 'oCE2',
          'oDoubleCE1', 'oDoubleCE2', 'CO_contact', 'redirect_from_ZAMS',
          'END', 'maxtime', 'MaxTime_exceeded', 'FAILED']
BSTATES = ['initially_single_star', 'detached', 'RLO1', 'RLO2', 'contact',
           'disrupted', 'merged', 'initial_RLOF', 'maxtime']


def swap12(v):
    if v in ('RLO1', 'CC1', 'oRLO1', 'oCE1', 'oDoubleCE1'):
        return v[:-1] + '2'
    if v in ('RLO2', 'CC2', 'oRLO2', 'oCE2', 'oDoubleCE2'):
        return v[:-1] + '1'
    return v


PAIR = ['t_sync_rad_', 't_sync_conv_', 'rl_relative_overflow_']
SHARED = tuple(k for k in BINARYPROPERTIES if k not in ('state', 'event')
               and k[:-1] not in PAIR)


def _mkbin(S, n=2):
    b = BinaryStar(star_1=SingleStar(state='WD', mass=1.0),
                   star_2=SingleStar(state='NS', mass=1.4),
                   separation=10.0, orbital_period=1.0)
    for i in (1, 2):
        st = getattr(b, 'star_%d' % i)
        for k in STARPROPERTIES:
            setattr(st, k, 'S%d_%s' % (i, k))
            setattr(st, k + '_history', ['S%d_%s_h%d' % (i, k, j)
                                         for j in range(n)])
    for k in PAIR:
        for i in (1, 2):
            setattr(b, k + str(i), S.real('%s%d' % (k, i), -10, 10))
            setattr(b, k + str(i) + '_history',
                    [S.real('%s%d_h%d' % (k, i, j), -10, 10)
                     for j in range(n)])
    for k in SHARED:
        setattr(b, k, 'B_' + k)
        setattr(b, k + '_history', ['B_%s_h%d' % (k, j) for j in range(n)])
    return b


def _flip_case(sub):
    def f(S):
        n = 2
        b = _mkbin(S, n)
        b.state = S.enum('state', BSTATES)
        b.state_history = [S.enum('state_h%d' % j, BSTATES) for j in range(n)]
        ev = EVENTS
        if sub == 'none':
            b.event = None
            b.event_history = [S.enum('ev_h0', ev), None]
        else:
            b.event = S.enum('event', ev)
            b.event_history = [S.enum('ev_h%d' % j, ev) for j in range(n)]
        if sub == 'state':
            b.event, b.event_history = 'CC1', ['oRLO2', 'CC1']
        else:
            b.state, b.state_history = 'RLO1', ['detached', 'RLO2']
        before = {k: copy.copy(v) for k, v in b.__dict__.items()}
        s1, s2 = dict(b.star_1.__dict__), dict(b.star_2.__dict__)
        cf.flip_stars(b)

        def same(label, x, y):
            if isinstance(x, list):
                S.check(label + '-len', len(x) == len(y))
                for p, q in zip(x, y):
                    S.check(label, S.eq(p, q))
            else:
                S.check(label, S.eq(x, y))

        def sw(v):
            return S.classify(v, swap12) if v is not None else None
        same('state-label', b.state, sw(before['state']))
        same('event-label', b.event, sw(before['event']))
        same('state-history', b.state_history,
             [sw(v) for v in before['state_history']])
        same('event-history', b.event_history,
             [sw(v) for v in before['event_history']])
        # concrete tags: compared in one go
        tags = [k + x for k in STARPROPERTIES for x in ('', '_history')]

        def differs(star, d):
            return [k for k in tags if getattr(star, k) != d[k]]
        S.check('star1-takes-star2', not differs(b.star_1, s2))
        S.check('star2-takes-star1', not differs(b.star_2, s1))
        for k in PAIR:
            for suf in ('', '_history'):
                same('pair-' + k, getattr(b, k + '1' + suf),
                     before[k + '2' + suf])
                same('pair-' + k, getattr(b, k + '2' + suf),
                     before[k + '1' + suf])
        shared = [k + x for k in SHARED for x in ('', '_history')]
        S.check('shared-untouched', not [
            k for k in shared if getattr(b, k) != before[k]])
        # twice is the identity
        cf.flip_stars(b)
        for k in ('state', 'event', 'state_history', 'event_history'):
            same('involution-' + k, getattr(b, k), before[k])
        S.check('involution-stars', not differs(b.star_1, s1)
                and not differs(b.star_2, s2))
        S.check('involution-shared', not [
            k for k in shared if getattr(b, k) != before[k]])
        for k in PAIR:
            for i in '12':
                for suf in ('', '_history'):
                    same('involution-pair', getattr(b, k + i + suf),
                         before[k + i + suf])
    f.__name__ = 'flip_' + sub
    return f


for _s in ('event', 'state', 'none'):
    harness(REG, 'P04', bounds='2 history entries, full label vocabulary',
            budget=240, max_paths=20000)(_flip_case(_s))
