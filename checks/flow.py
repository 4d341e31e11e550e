"""Flow of a binary through the evolutionary steps; its recorded history."""
import copy
import signal
import types

import numpy as np

from posydon.binary_evol import binarystar as bs
from posydon.binary_evol import flow_chart as fc
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.simulationproperties import (
    EvolveHooks, SimulationProperties, StepNamesHooks, TimingHooks)
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.binary_evol.step_end import step_end
from posydon.utils.posydonerror import FlowError
from symex.run import harness

REG = []
META = {
    'P05': dict(assumptions=[
        "star states, binary states and events range over the complete "
        "vocabulary of the flow chart; the chart itself is the dictionary "
        "built by the current source at import"]),
    'P06': dict(assumptions=[
        "at most 4 steps per evolution; each step is a stand-in that sets the "
        "binary's state, event, time and masses to arbitrary values"]),
}

# ------------------------------------------------------------------ P05
CO = ('BH', 'NS', 'WD')
HRICH = ('H-rich_Core_H_burning', 'H-rich_Core_He_burning',
         'H-rich_Shell_H_burning', 'H-rich_Core_He_depleted',
         'H-rich_Shell_He_burning', 'H-rich_Core_C_burning',
         'H-rich_Core_C_depleted', 'H-rich_non_burning',
         'accreted_He_Core_H_burning', 'accreted_He_Shell_H_burning',
         'accreted_He_non_burning')
HESTAR = ('accreted_He_Core_He_burning', 'stripped_He_Core_He_burning',
          'stripped_He_Core_He_depleted', 'stripped_He_Core_C_depleted',
          'stripped_He_non_burning')
NORMAL = HRICH + HESTAR
# non-burning stars with an envelope may also be followed with helium grids
HERICH = HESTAR + ('H-rich_non_burning', 'accreted_He_non_burning')
ENDS = ('H-rich_Core_C_depleted', 'H-rich_Core_He_depleted',
        'stripped_He_Core_He_depleted', 'stripped_He_Core_C_depleted',
        'stripped_He_non_burning', 'H-rich_non_burning',
        'H-rich_Shell_H_burning', 'accreted_He_Shell_H_burning',
        'accreted_He_non_burning')
STARS = CO + ('massless_remnant',) + NORMAL
BSTATES = ('initially_single_star', 'detached', 'RLO1', 'RLO2', 'contact',
           'disrupted', 'merged', 'initial_RLOF')
EVENTS = ('CC1', 'CC2', 'ZAMS', 'oRLO1', 'oRLO2', 'oCE1', 'oCE2',
          'oDoubleCE1', 'oDoubleCE2', 'CO_contact', 'redirect_from_ZAMS',
          'redirect_from_CO_HMS_RLO', 'redirect_from_CO_HeMS',
          'redirect_from_CO_HeMS_RLO', 'MaxTime_exceeded', 'maxtime',
          'oMerging1', 'oMerging2', 'Match1', 'Match2', 'Match12')
UNDEF = object()


def inset(S, x, names):
    return S.classify(x, lambda v: v in names)


def ref_step(S, s1, s2, b, e):
    """Documented routing, or None where the chart defines no step."""
    H = 'H-rich_Core_H_burning'
    m1, m2 = inset(S, s1, ('massless_remnant',)), inset(S, s2, ('massless_remnant',))
    if m1 and m2:
        return 'step_end'
    c1, c2 = (not m1 and inset(S, s1, CO)), (not m2 and inset(S, s2, CO))
    if (m1 and c2) or (m2 and c1):
        return 'step_end'
    if e is not None:
        e = S.classify(e, lambda v: v)
    b = S.classify(b, lambda v: v)
    if e in ('maxtime', 'MaxTime_exceeded', 'CO_contact'):
        return 'step_end'
    if b == 'initial_RLOF':
        return 'step_end'
    if b == 'merged' and e in ('oMerging1', 'oMerging2'):
        return 'step_merged'
    if b == 'disrupted' and c1 and c2:
        return 'step_end'
    if b == 'disrupted' and e not in ('CC1', 'CC2'):
        return 'step_disrupted'
    if b == 'initially_single_star' and e == 'ZAMS':
        return 'step_initially_single'
    if e in ('CC1', 'CC2'):
        return ('step_SN' if inset(S, s1 if e == 'CC1' else s2, ENDS)
                else None)
    n1, n2 = not c1 and not m1, not c2 and not m2
    if b == 'detached':
        if e is None:
            if c1 and c2:
                return 'step_dco'
            if n1 and n2:
                return 'step_detached'
            if (c1 and n2) or (c2 and n1):
                return S.classify(s2 if c1 else s1, lambda v:
                                  None if v == 'stripped_He_Core_C_depleted'
                                  else 'step_CO_HeMS' if v in HERICH
                                  else 'step_detached')
            return None
        if e in ('ZAMS', 'redirect_from_ZAMS'):
            if inset(S, s1, (H,)) and inset(S, s2, (H,)):
                return 'step_HMS_HMS' if e == 'ZAMS' else 'step_detached'
            return None
        if e.startswith('redirect_from_CO') and ((c1 and n2) or (c2 and n1)):
            fam = HRICH if e == 'redirect_from_CO_HMS_RLO' else HERICH
            return 'step_detached' if inset(S, s2 if c1 else s1, fam) else None
        return None
    if b in ('RLO1', 'RLO2') and e is not None and e[-1] == b[-1]:
        donor, other = (s1, s2) if b == 'RLO1' else (s2, s1)
        nd, co = (n1, c2) if b == 'RLO1' else (n2, c1)
        if e.startswith(('oCE', 'oDoubleCE')):
            return 'step_CE' if nd else None
        if e.startswith('oRLO') and nd:
            if co:
                return S.classify(donor, lambda v:
                                  None if 'C_depleted' in v
                                  else 'step_CO_HeMS_RLO' if v in HERICH
                                  else 'step_CO_HMS_RLO')
            if inset(S, donor, HERICH) and inset(S, other, HERICH):
                return 'step_merged'
        return None
    if b == 'contact' and e in ('oCE1', 'oCE2', 'oDoubleCE1', 'oDoubleCE2'):
        if n1 and n2:
            return 'step_CE'
        return UNDEF
    return None


def _key(S, stars=STARS):
    s1, s2 = S.enum('star_1', stars), S.enum('star_2', stars)
    b = S.enum('state', BSTATES)
    e = S.enum('event', EVENTS) if S.flag('has_event') else None
    return s1, s2, b, e


def _binary(S, key, flow):
    bn = BinaryStar.__new__(BinaryStar)
    bn.star_1, bn.star_2 = types.SimpleNamespace(), types.SimpleNamespace()
    bn.star_1.state, bn.star_2.state, bn.state, bn.event = key
    bn.properties = types.SimpleNamespace(flow=flow)
    return bn


@harness(REG, 'P05', bounds='all 20 x 20 x 8 x 22 total states', budget=300,
         max_paths=20000)
def routing(S):
    key = _key(S)
    chart = S.table(fc.flow_chart())
    got = _binary(S, key, chart).get_next_step_name()
    exp = ref_step(S, *key)
    if exp is not UNDEF:
        S.check('documented-step', S.eq(got, exp))
    S.note(got=got, expected=exp)


SWAP = {'RLO1': 'RLO2', 'RLO2': 'RLO1'}


def mirror_label(v):
    if v is None:
        return None
    if v == 'Match12':
        return v
    return (v[:-1] + {'1': '2', '2': '1'}[v[-1]]) if v[-1:] in ('1', '2') else v


@harness(REG, 'P05', bounds='all 20 x 20 x 8 x 22 total states', budget=300)
def label_symmetry(S):
    s1, s2, b, e = _key(S)
    for which in ('default', 'eccentric'):
        chart = S.table(fc.flow_chart() if which == 'default'
                        else fc.initial_eccentricity_flow_chart())
        contact = S.decide(b == 'contact')
        if contact and not (inset(S, s1, NORMAL) and inset(S, s2, NORMAL)):
            return
        def m(x):
            if x is None:
                return None
            return (x._map(mirror_label) if hasattr(x, '_map')
                    else mirror_label(x))
        a = chart.get((s1, s2, b, e))
        c = chart.get((s2, s1, m(b), m(e)))
        S.check('mirror-image-goes-to-the-same-step:' + which, S.eq(a, c))
        S.note(a=a, c=c)


@harness(REG, 'P05', bounds='all total states')
def no_dead_end(S):
    """Every situation produced during regular evolution has a next step."""
    s1, s2, b, e = _key(S)
    chart = S.table(fc.flow_chart())
    case = S.pick('case', ['final', 'collapse', 'ce', 'single', 'merger',
                           'detached'])
    if case == 'final':
        S.assume(S.decide(True))
        if e is None or not inset(S, e, ('maxtime', 'MaxTime_exceeded',
                                         'CO_contact')):
            return
        S.check('evolution-can-end', S.eq(chart.get((s1, s2, b, e)), 'step_end'))
        return
    if case == 'collapse':
        if e is None or not inset(S, e, ('CC1', 'CC2')):
            return
        s = s1 if S.decide(e == 'CC1') else s2
        if not inset(S, s, ENDS):
            return
    elif case == 'ce':
        d = S.pick('donor', ['1', '2'])
        b, e = 'RLO' + d, S.enum('ce', ['oCE' + d, 'oDoubleCE' + d])
        if not inset(S, s1 if d == '1' else s2, NORMAL):
            return
    elif case == 'single':
        b = 'disrupted'
        if e is not None and inset(S, e, ('CC1', 'CC2')):
            return
    elif case == 'merger':
        b, e = 'merged', S.enum('om', ['oMerging1', 'oMerging2'])
    else:
        b, e = 'detached', None
        if not (inset(S, s1, NORMAL) or inset(S, s2, NORMAL)):
            if not (inset(S, s1, CO) and inset(S, s2, CO)):
                return
        elif (inset(S, s1, ('massless_remnant', 'stripped_He_Core_C_depleted'))
              or inset(S, s2, ('massless_remnant',
                               'stripped_He_Core_C_depleted'))):
            return
    S.check('next-step-defined:' + case, chart.get((s1, s2, b, e)) is not None)


DEF_KEY = ('H-rich_Core_H_burning', 'NS', 'detached', None)
NOKEY = ('H-rich_Core_H_burning', 'NS', 'detached', 'no_such_event')


@harness(REG, 'P05', bounds='all total states; overrides of a defined and of '
         'an undefined entry', stubs=['the override key is one of 3'])
def overrides(S):
    key = _key(S)
    ch = S.pick('override', [DEF_KEY,
                             ('BH', 'BH', 'disrupted', 'ZAMS'),
                             NOKEY])
    ecc = S.flag('eccentric_variant')
    before = fc.flow_chart()
    n0 = dict(before)
    if ecc:
        new = fc.initial_eccentricity_flow_chart(
            CHANGE_FLOW_CHART={ch: 'step_user'})
        base = fc.initial_eccentricity_flow_chart()
    else:
        new = fc.flow_chart(CHANGE_FLOW_CHART={ch: 'step_user'})
        base = n0
    again = fc.flow_chart()
    a = S.table(new).get(key)
    same = True
    for x, y in zip(key, ch):
        same = same and (x is None and y is None
                         or (x is not None and y is not None
                             and S.decide(x == y)))
    if same and ch is not NOKEY:
        S.check('override-applied', S.eq(a, 'step_user'))
    else:
        S.check('rest-unchanged', S.eq(a, S.table(base).get(key)))
    S.check('default-chart-not-modified',
            S.eq(S.table(again).get(key), S.table(n0).get(key)))
    own = {DEF_KEY: 'step_mine'}
    mine = fc.flow_chart(FLOW_CHART=own)
    S.check('own-chart-used', S.eq(mine.get(DEF_KEY), 'step_mine'))
    S.check('own-chart-only', len(mine) == 1)


@harness(REG, 'P05', bounds='all total states')
def eccentric_variant(S):
    """Initially eccentric binaries start detached, RLO between two stars goes
    to the HMS-HMS RLO grid; everything else as in the default chart."""
    key = s1, s2, b, e = _key(S)
    a = S.table(fc.initial_eccentricity_flow_chart()).get(key)
    d = S.table(fc.flow_chart()).get(key)
    evol = tuple(x for x in NORMAL if 'C_depleted' not in x)
    if e is not None and S.decide(e == 'ZAMS') and S.decide(b == 'detached'):
        S.check('zams-detached', S.eq(a, None if d is None
                                      else 'step_detached'))
        return
    if e is not None and (
            S.decide(b == 'RLO1') and S.decide(e == 'oRLO1')
            or S.decide(b == 'RLO2') and S.decide(e == 'oRLO2')):
        if inset(S, s1, evol) and inset(S, s2, evol):
            S.check('rlo-of-two-stars', S.eq(a, 'step_HMS_HMS_RLO'))
            return
    S.check('else-default', S.eq(a, d))


@harness(REG, 'P05', bounds='all pairs of stars, 10 state/event pairs')
def refused(S):
    """Total states without a step raise, defined ones run exactly that
    step, once."""
    s1, s2 = S.enum('star_1', STARS), S.enum('star_2', STARS)
    b, e = S.pick('where', [('detached', None), ('detached', 'ZAMS'),
                            ('detached', 'CC2'), ('disrupted', 'CC2'),
                            ('disrupted', 'CC1'), ('disrupted', None),
                            ('RLO1', 'oRLO1'), ('RLO2', 'oCE2'),
                            ('merged', 'oMerging1'), ('contact', 'maxtime')])
    key = s1, s2, b, e
    ran = []
    chart = S.table(fc.flow_chart())
    bn = _binary(S, key, chart)
    kinds = sorted(set(fc.POSYDON_FLOW_CHART.values()))
    for k in kinds:
        setattr(bn.properties, k, lambda x, k=k: ran.append((k, x)))
    log = []
    bn.properties.pre_step = lambda x, n: log.append(('pre', n, len(ran)))
    bn.properties.post_step = lambda x, n: log.append(('post', n, len(ran)))
    bn.append_state = lambda: log.append(('append', None, len(ran)))
    und = (e == 'CC2' and b in ('disrupted', 'detached')
           and inset(S, s1, CO) and S.decide(s2 == 'H-rich_Core_H_burning'))
    exp = chart.get(key)
    if exp is not None and not isinstance(exp, str):
        exp = None
    if exp is not None:
        exp = S.classify(exp, lambda v: v)
    try:
        bn.run_step()
        out = 'ran'
    except FlowError:
        out = 'flow-error'
    except ValueError:
        out = 'value-error'
    if und:
        S.check('undefined-state-reported', S.eq(out, 'flow-error'))
    elif exp is None:
        S.check('missing-step-reported', S.eq(out, 'value-error'))
    else:
        S.check('runs', S.eq(out, 'ran'))
        S.check('runs-that-step-once', ran == [(exp, bn)])
        S.check('hooks-around-step', log == [('pre', exp, 0),
                                             ('append', None, 1),
                                             ('post', exp, 1)])
    if exp is None or und:
        S.check('nothing-run', not ran and not log)


@harness(REG, 'P05', bounds='all total states')
def no_function(S):
    """A step name without function is refused"""
    name = S.pick('name', ['step_missing', None])
    bn = _binary(S, ('NS', 'NS', 'detached', None),
                 {('NS', 'NS', 'detached', None): name})
    bn.append_state = lambda: None
    try:
        bn.run_step()
        S.fail('missing-function-accepted')
    except ValueError:
        S.check('refused', True)


# ------------------------------------------------------------------ P06
SKIP = ('profile',)
FINAL = ('END', 'FAILED')
STEP_EVENTS = ('ZAMS', 'CC1', 'oRLO1', 'redirect_from_ZAMS', 'userstop',
               'END', 'FAILED')
STEP_STATES = ('detached', 'RLO1', 'merged', 'userstate')


class _Flow:
    def get(self, k, d=None):
        return 'step_any'


def _real_binary(S, prop, mass=True):
    s1 = SingleStar(mass=S.real('m1_0', 1, 100) if mass else 10.,
                    state='H-rich_Core_H_burning')
    s2 = SingleStar(mass=S.real('m2_0', 1, 100) if mass else 5.,
                    state='H-rich_Core_H_burning')
    bn = BinaryStar(star_1=s1, star_2=s2, state='detached', event='ZAMS',
                    time=0.0, separation=100.0, orbital_period=10.0,
                    eccentricity=0.0, properties=None)
    bn.properties = prop
    return bn


class Log(EvolveHooks):
    def __init__(self, log): self.log = log
    def pre_evolve(self, b): self.log.append('pre_evolve'); return b
    def pre_step(self, b, n): self.log.append(('pre', n)); return b
    def post_step(self, b, n): self.log.append(('post', n)); return b
    def post_evolve(self, b): self.log.append('post_evolve'); return b


def _props(S, step, log, hooks=(), max_n=None):
    p = SimulationProperties.__new__(SimulationProperties)
    p.flow = _Flow()
    p.step_any = step
    p.all_hooks_classes = [Log(log)] + list(hooks)
    p.max_simulation_time = 1.38e10
    p.end_events = ['userstop']
    p.end_states = ['userstate']
    p.max_n_steps_per_binary = max_n
    return p


def _alarm_state():
    t = signal.alarm(0)
    return t


@harness(REG, 'P06', bounds='up to 4 steps with arbitrary outcomes, step '
         'limits 1..4 or none, verbose or not', budget=400, max_paths=4000)
def evolve_loop(S):
    log, done = [], []
    N = 4
    lim = S.pick('limit', [None, 1, 2, 3])
    verbose = S.flag('history_verbose')

    def step(b):
        i = len(done)
        done.append(i)
        if i >= N:
            b.event = 'END'
            return
        b.event = (S.enum('event%d' % i, STEP_EVENTS)
                   if S.flag('event_set%d' % i) else None)
        b.state = S.enum('state%d' % i, STEP_STATES)
        b.time = S.real('time%d' % i, 0, 1e9)
        b.star_1.mass = S.real('mass1_%d' % i, 1, 100)
        b.star_2.mass = S.real('mass2_%d' % i, 1, 100)
        want.append((b.time, b.star_1.mass, b.star_2.mass, b.state, b.event))

    p = _props(S, step, log, max_n=lim)
    bn = _real_binary(S, p)
    bn.history_verbose = verbose
    want = [(0.0, bn.star_1.mass, bn.star_2.mass, 'detached', 'ZAMS')]
    exceeded = False
    try:
        bn.evolve()
    except RuntimeError:
        exceeded = True
    S.check('timer-is-off', _alarm_state() == 0)
    n = len(done)
    # when should it have stopped?
    stop = None
    for i in range(min(n, N)):
        w = want[i + 1]
        fin = w[4] is not None and (S.decide(w[4] == 'END')
                                    or S.decide(w[4] == 'FAILED')
                                    or S.decide(w[4] == 'userstop'))
        fin = fin or S.decide(w[3] == 'userstate')
        if fin:
            stop = i + 1
            break
    if stop is None and n > N:
        stop = N + 1
    if exceeded:
        S.check('limit-respected', lim is not None and n == lim + 1)
    else:
        S.check('stops-exactly-at-end', stop is not None and n == stop)
        S.check('limit-not-passed', lim is None or n <= lim)
    steps = [x for x in log if isinstance(x, tuple)]
    S.check('pre-evolve-first', log[0] == 'pre_evolve'
            and log.count('pre_evolve') == 1)
    S.check('post-evolve-last', exceeded
            or (log[-1] == 'post_evolve' and log.count('post_evolve') == 1))
    S.check('pre-hook-each-step',
            len([x for x in steps if x[0] == 'pre']) == n)
    # history: one entry per step, redirections left out unless verbose
    kept, nredir = [], 0
    for i, w in enumerate(want):
        red = i > 0 and w[4] is not None and S.decide(w[4] == 'redirect_from_ZAMS')
        if not red or verbose:
            kept.append(w)
        else:
            nredir += 1
    extra = 1 if n > N else 0
    S.check('post-hook-each-recorded-step',
            len([x for x in steps if x[0] == 'post']) == n - nredir)
    L = len(kept) + extra
    for k in BINARYPROPERTIES:
        S.check('history-length', len(getattr(bn, k + '_history')) == L)
    for st in (bn.star_1, bn.star_2):
        for k in STARPROPERTIES:
            S.check('star-history-length', len(getattr(st, k + '_history')) == L)
    for j, w in enumerate(kept):
        got = (bn.time_history[j], bn.star_1.mass_history[j],
               bn.star_2.mass_history[j], bn.state_history[j],
               bn.event_history[j])
        for a, b in zip(got, w):
            S.check('history-entry', S.eq(a, b))
    last = kept[-1] if not extra else None
    if last is not None:
        S.check('final-is-last', S.eq(bn.time, want[-1][0]))


@harness(REG, 'P06', bounds='birth time and time limit in [0, 1e11]')
def birth_after_end(S):
    log = []
    p = _props(S, lambda b: setattr(b, 'event', 'END'), log)
    p.max_simulation_time = S.real('tmax', 0, 1e11)
    bn = _real_binary(S, p)
    bn.time = S.real('t0', 0, 1e11)
    late = S.decide(bn.time > p.max_simulation_time)
    try:
        bn.evolve()
        S.check('late-birth-refused', not late)
        S.check('evolved', S.eq(bn.event, 'END'))
    except ValueError:
        S.check('only-late-birth-refused', late)


@harness(REG, 'P06', bounds='an arbitrary error raised in step 1..2')
def failure_in_step(S):
    """A failing step propagates and leaves the timer off and the history of
    the completed steps."""
    at = S.pick('fail_at', [0, 1])
    log, n = [], []

    def step(b):
        n.append(1)
        if len(n) - 1 == at:
            raise FlowError('x')
        b.time = S.real('t', 0, 1e9)
        b.event = 'CC1'
    bn = _real_binary(S, _props(S, step, log))
    try:
        bn.evolve()
        S.fail('error-swallowed')
    except FlowError:
        S.check('error-propagates', True)
    S.check('timer-is-off', _alarm_state() == 0)
    for k in BINARYPROPERTIES:
        S.check('history-length', len(getattr(bn, k + '_history')) == at + 1)
    for st in (bn.star_1, bn.star_2):
        for k in STARPROPERTIES:
            S.check('history-length', len(getattr(st, k + '_history')) == at + 1)


@harness(REG, 'P06', bounds='history of 4 entries, every restore index',
         budget=200)
def restore(S):
    log, n = [], []

    def step(b):
        i = len(n)
        n.append(1)
        for k in BINARYPROPERTIES:
            if k in ('state', 'event', 'mass_transfer_case'):
                setattr(b, k, '%s_%d' % (k, i))
            elif k in ('V_sys', 'nearest_neighbour_distance'):
                setattr(b, k, [float(i)] * 3)
            else:
                setattr(b, k, S.real('%s_%d' % (k, i), -1e6, 1e6))
        for w, st in (('a', b.star_1), ('b', b.star_2)):
            for j, k in enumerate(STARPROPERTIES):
                setattr(st, k, 'st%d' % i if k == 'state' else
                        S.real('%s_%s_%d' % (w, k, i), -1e6, 1e6)
                        if j % 7 == 0 or k == 'mass' else 100 * i + j)
        if i == 2:
            b.event = 'END'
    tt, sn = TimingHooks(), StepNamesHooks()
    p = _props(S, step, log, hooks=(tt, sn))
    bn = _real_binary(S, p)
    bn.evolve()
    snap = lambda: ({k: list(getattr(bn, k + '_history')) for k in BINARYPROPERTIES},
                    [{k: list(getattr(st, k + '_history')) for k in STARPROPERTIES}
                     for st in (bn.star_1, bn.star_2)])
    H, HS = snap()
    S.check('hook-columns-aligned', len(bn.step_names) == 4
            and len(bn.step_times) == 4)
    S.check('hook-step-names', bn.step_names == ['initial_cond'] + ['step_any'] * 3)
    i = S.pick('index', [0, 1, 2, 3])
    if i == 0 and S.flag('use_reset'):
        bn.reset()
    else:
        bn.restore(i)

    def same(a, b):
        if isinstance(a, (list, np.ndarray)):
            return list(a) == list(b)
        return S.eq(a, b)
    for k in BINARYPROPERTIES:
        S.check('restored:binary', same(getattr(bn, k), H[k][i]))
        h = getattr(bn, k + '_history')
        S.check('truncated:binary', len(h) == i + 1)
        for a, b in zip(h, H[k]):
            S.check('kept:binary', same(a, b))
    for st, hs in zip((bn.star_1, bn.star_2), HS):
        for k in STARPROPERTIES:
            S.check('restored:star', same(getattr(st, k), hs[k][i]))
            h = getattr(st, k + '_history')
            S.check('truncated:star', len(h) == i + 1)
            for a, b in zip(h, hs[k]):
                S.check('kept:star', same(a, b))
    S.check('hook-columns-truncated', len(bn.step_names) == i + 1
            and len(bn.step_times) == i + 1)
    # and it can be evolved again from there
    n.clear()
    n.extend([1, 1])
    bn.event = 'ZAMS'
    bn.evolve()
    for k in BINARYPROPERTIES:
        S.check('re-evolved', len(getattr(bn, k + '_history')) == i + 2)
    S.check('re-evolved-columns', len(bn.step_names) == i + 2
            and len(bn.step_times) == i + 2)


@harness(REG, 'P06', bounds='all pairs of states')
def existence(S):
    bn = BinaryStar.__new__(BinaryStar)
    bn.star_1, bn.star_2 = types.SimpleNamespace(), types.SimpleNamespace()
    bn.star_1.state = S.enum('s1', STARS)
    bn.star_2.state = S.enum('s2', STARS)
    if S.flag('no_star_2'):
        bn.star_2 = None
    bn.check_who_exists()
    e1 = not S.decide(bn.star_1.state == 'massless_remnant')
    e2 = bn.star_2 is not None and not S.decide(
        bn.star_2.state == 'massless_remnant')
    S.check('exists', bool(bn.companion_1_exists) == e1
            and bool(bn.companion_2_exists) == e2)
    S.check('who-is-missing', bn.non_existent_companion
            == {(True, True): 0, (True, False): 2, (False, True): 1,
                (False, False): -1}[(e1, e2)])


@harness(REG, 'P06', bounds='all binary states', stubs=[
    'star-state inference replaced by a recorder'])
def end_step(S):
    bn = BinaryStar.__new__(BinaryStar)
    bn.star_1, bn.star_2 = types.SimpleNamespace(), types.SimpleNamespace()
    bn.star_1.state = S.enum('s1', STARS)
    bn.star_2.state = S.enum('s2', STARS)
    bn.state = S.enum('b', BSTATES)
    bn.event = 'maxtime'
    s1, s2, b0 = bn.star_1.state, bn.star_2.state, bn.state
    calls = []
    orig = bs.check_state_of_star
    bs.check_state_of_star = lambda st, *a, **k: (
        calls.append((st, k.get('star_CO'))), 'NEW')[1]
    try:
        step_end()(bn)
    finally:
        bs.check_state_of_star = orig
    S.check('ends', S.eq(bn.event, 'END'))
    S.check('state-kept', S.eq(bn.state, b0))
    if S.decide(b0 == 'disrupted'):
        for st, old in ((bn.star_1, s1), (bn.star_2, s2)):
            if S.decide(old == 'massless_remnant'):
                S.check('massless-kept', S.eq(st.state, 'massless_remnant'))
            else:
                S.check('reclassified', S.eq(st.state, 'NEW'))
                co = [c for x, c in calls if x is st]
                S.check('as-compact', len(co) == 1 and S.iff(
                    bool(co[0]), inset(S, old, CO)))
    else:
        S.check('stars-kept', S.And(S.eq(bn.star_1.state, s1),
                                    S.eq(bn.star_2.state, s2)))


@harness(REG, 'P06', bounds='periods in [0.1, 1e4] d, masses in [0.1, 300]')
def construction(S):
    """A binary given either period or separation gets the other; both kept
    consistent with the recorded first history entry."""
    m1, m2 = S.real('m1', 0.1, 300), S.real('m2', 0.1, 300)
    kind = S.pick('kind', ['period', 'separation', 'both'])
    kw = {}
    if kind != 'separation':
        kw['orbital_period'] = S.real('p', 0.1, 1e4)
    if kind != 'period':
        kw['separation'] = S.real('a', 1, 1e5)
    s1, s2 = SingleStar(mass=m1), SingleStar(mass=m2)
    bn = BinaryStar(s1, s2, state='detached', event='ZAMS', time=0., **kw)
    if kind == 'both':
        S.check('kept', S.And(S.eq(bn.orbital_period, kw['orbital_period']),
                              S.eq(bn.separation, kw['separation'])))
    else:
        from posydon.utils import constants as const
        # Kepler III, independent of the code's own conversion
        a = bn.separation * const.Rsun
        P = bn.orbital_period * 86400.
        lhs = (P / (2 * np.pi))**2 * const.standard_cgrav * const.Msun * (m1 + m2)
        S.check('kepler', S.eq(lhs, a * a * a, rtol=1e-3))
        for k, v in kw.items():
            S.check('given-kept', S.eq(getattr(bn, k), v))
    S.check('history', S.And(
        S.eq(bn.separation_history[0], bn.separation),
        S.eq(bn.orbital_period_history[0], bn.orbital_period)))
    S.check('history-length', all(
        len(getattr(bn, k + '_history')) == 1 for k in BINARYPROPERTIES))
    S.check('own-copies', bn.star_1 is not s1 and bn.star_2 is not s2)
    S.check('masses', S.And(S.eq(bn.star_1.mass, m1), S.eq(bn.star_2.mass, m2)))
