"""Steps that take a binary through a precomputed grid."""
import types

import numpy as np

import posydon.binary_evol.MESA.step_mesa as sm
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.utils.posydonerror import FlowError, GridError
from symex.run import harness
from symex.stub import replaced

REG = []
META = {
    'P20': dict(assumptions=[
        "grid tracks of 2-3 rows (nearest neighbour), the interpolator's "
        "final values and classes are arbitrary; star and binary "
        "classification (P01, P02), wind accretion, the Eddington limit, the "
        "radius and the spin-up of compact objects (P08) are stand-ins with "
        "arbitrary values; masses in [0.1, 300] Msun, periods in "
        "[0.01, 1e5] d; grid limits arbitrary"]),
}
CO = ['WD', 'NS', 'BH']
HMS = ["H-rich_Core_H_burning", "H-rich_Shell_H_burning",
       "H-rich_Core_He_burning", "H-rich_Core_He_depleted",
       "H-rich_Core_C_burning", "accreted_He_Core_H_burning",
       "H-rich_Core_C_depleted", "H-rich_non_burning",
       "accreted_He_non_burning"]
HE = ['accreted_He_Core_He_burning', 'stripped_He_Core_He_burning',
      'stripped_He_Shell_He_burning', 'stripped_He_Core_He_depleted',
      'stripped_He_Core_C_depleted', 'stripped_He_non_burning',
      'H-rich_non_burning', 'accreted_He_non_burning']
EVENTS = ['ZAMS', 'oRLO1', 'oRLO2', None, 'CC1', 'redirect_from_ZAMS']


def star(mass, state):
    return types.SimpleNamespace(mass=mass, state=state)


def prepared(S, cls, ratio):
    o = cls.__new__(cls)
    o.verbose = False
    for k, lo, hi in (('m1', 0.1, 300), ('m2', 0.1, 300), ('p', 0.01, 1e5)):
        a, b = S.real(k + '_min', lo, hi), S.real(k + '_max', lo, hi)
        S.assume(a < b)
        setattr(o, k + '_min', a)
        setattr(o, k + '_max', b)
    if ratio:
        o.q_min, o.q_max = S.real('q_min', .01, .5), S.real('q_max', .6, 1)
        o.minimum_star_mass = o.m2_min
    return o


def run(S, o, b):
    """(outcome, flip): 'grid' when the base step is run"""
    got = []

    def base(self, binary):
        got.append((binary is b, bool(self.flip_stars_before_step),
                    self.star_1_CO, self.star_2_CO))
    state, event = b.state, b.event
    b.append_state = lambda: None
    with replaced(sm.MesaGridStep, '__call__', base):
        try:
            o(b)
        except GridError:
            S.check('failed', b.state == 'ERR' and not got)
            return 'outside', None
        except FlowError:
            S.check('failed', b.state == 'ERR' and not got)
            return 'unsupported', None
    if got:
        S.check('grid-step', len(got) == 1 and got[0][0])
        S.check('untouched', b.state == state and b.event == event)
        return 'grid', got[0][1:]
    return b.event, None


def co_grid(cls, stars, events, depleted, redirect):
    def f(S):
        o = prepared(S, cls, False)
        pool = CO + stars + ['H-rich_Core_H_burning',
                             'stripped_He_Core_He_burning', 'massless_remnant']
        s1, s2 = S.pick('s1', pool), S.pick('s2', pool)
        ev = S.pick('event', EVENTS)
        m1, m2 = S.real('m1', 0.1, 300), S.real('m2', 0.1, 300)
        p, e = S.real('p', 0.01, 1e5), S.real('e', 0, 0.9)
        b = types.SimpleNamespace(
            star_1=star(m1, s1), star_2=star(m2, s2), orbital_period=p,
            eccentricity=e, event=ev, state='RLO1')
        out, how = run(S, o, b)
        if s1 in stars and s2 in CO and ev == events[0]:
            flip = False
        elif s2 in stars and s1 in CO and ev == events[1]:
            flip = True
        else:
            S.check('supported', out == 'unsupported')
            return
        S.check('supported', out != 'unsupported')
        if (s2 if flip else s1) == depleted:
            S.check('collapse', out == ('CC2' if flip else 'CC1')
                    and b.state == 'RLO1')
            return
        md, mc = (m2, m1) if flip else (m1, m2)
        inp = S.And(o.p_min <= p, p <= o.p_max)
        inm = S.And(o.m1_min <= md, md <= o.m1_max, o.m2_min <= mc,
                    mc <= o.m2_max)
        S.check('in-grid', S.iff(out == 'grid', S.And(
            inp, inm, S.eq(e, 0.0))))
        S.check('masses-outside', S.iff(out == 'outside', S.And(
            inp, S.Not(inm))))
        if out == 'grid':
            S.check('order', how == (flip, False, True))
        elif out != 'outside':
            S.check('redirected', out == redirect and b.state == 'detached')
    return f


for _c, _s, _e, _d, _r in (
        (sm.CO_HMS_RLO_step, HMS, ('oRLO1', 'oRLO2'),
         'H-rich_Core_C_depleted', 'redirect_from_CO_HMS_RLO'),
        (sm.CO_HeMS_RLO_step, HE, ('oRLO1', 'oRLO2'),
         'stripped_He_Core_C_depleted', 'redirect_from_CO_HeMS_RLO'),
        (sm.CO_HeMS_step, HE, (None, None),
         'stripped_He_Core_C_depleted', 'redirect_from_CO_HeMS')):
    _f = co_grid(_c, _s, _e, _d, _r)
    _f.__name__ = 'dispatch_' + _c.__name__[:-5]
    harness(REG, 'P20', bounds='all pairs of stars, events, masses, orbits '
            'and grid limits', stubs=['the base step'])(_f)


@harness(REG, 'P20', bounds='all pairs of stars, events, masses, orbits and '
         'grid limits', stubs=['the base step'])
def dispatch_MS_MS(S):
    o = prepared(S, sm.MS_MS_step, True)
    pool = ['H-rich_Core_H_burning', 'H-rich_Core_C_depleted',
            'H-rich_Shell_H_burning', 'BH']
    s1, s2 = S.pick('s1', pool), S.pick('s2', pool)
    ev = S.pick('event', EVENTS)
    m1, m2 = S.real('m1', 0.1, 300), S.real('m2', 0.1, 300)
    p = S.real('p', 0.01, 1e5)
    b = types.SimpleNamespace(
        star_1=star(m1, s1), star_2=star(m2, s2), orbital_period=p,
        eccentricity=S.real('e', 0, 0.9), event=ev, state='detached')
    out, how = run(S, o, b)
    if s1 == s2 == pool[0] and ev == 'ZAMS':
        S.check('supported', out != 'unsupported')
    else:
        S.check('collapse', out == ('CC1' if s1 == pool[1] else 'CC2' if
                                    s2 == pool[1] else 'unsupported'))
        return

    def fits(ma, mb):
        return S.And(o.m1_min <= ma, ma <= o.m1_max, o.q_min * ma <= mb,
                     mb >= 0.5, mb <= o.q_max * ma)
    inp = S.And(o.p_min <= p, p <= o.p_max)
    S.check('in-grid', S.iff(out == 'grid', S.And(inp, S.Or(
        fits(m1, m2), fits(m2, m1)))))
    if out == 'grid':
        S.check('order', S.And(how[1:] == (False, False),
                               fits(m2, m1) if how[0] else fits(m1, m2)))
    S.check('period-outside', S.iff(out == 'redirect_from_ZAMS', S.Not(inp)))


@harness(REG, 'P20', bounds='all pairs of stars, events, masses, orbits and '
         'grid limits', stubs=['the base step'])
def dispatch_HMS_HMS_RLO(S):
    o = prepared(S, sm.HMS_HMS_RLO_step, True)
    pool = ["H-rich_Core_H_burning", "H-rich_Core_He_burning",
            "H-rich_Core_C_depleted", 'NS', 'stripped_He_Core_He_burning']
    s1, s2 = S.pick('s1', pool), S.pick('s2', pool)
    ev = S.pick('event', EVENTS)
    m1, m2 = S.real('m1', 0.1, 300), S.real('m2', 0.1, 300)
    p, e = S.real('p', 0.01, 1e5), S.real('e', 0, 0.9)
    b = types.SimpleNamespace(
        star_1=star(m1, s1), star_2=star(m2, s2), orbital_period=p,
        eccentricity=e, event=ev, state='RLO1')
    out, how = run(S, o, b)
    if not (s1 in pool[:3] and s2 in pool[:3] and ev in ('oRLO1', 'oRLO2')):
        S.check('supported', out == 'unsupported')
        return
    S.check('supported', out != 'unsupported')
    if (s1 if ev == 'oRLO1' else s2) == pool[2]:
        S.check('collapse', out == 'CC' + ev[-1])
        return
    flip = o.flip_stars_before_step
    ma, mb = (m2, m1) if flip else (m1, m2)
    fits = S.And(o.m1_min <= ma, ma <= o.m1_max, o.q_min * ma <= mb,
                 o.m2_min <= mb, mb <= o.q_max * ma)
    inp = S.And(o.p_min <= p, p <= o.p_max)
    S.check('in-grid', S.iff(out == 'grid', S.And(inp, fits, S.eq(e, 0.0))))
    if out == 'grid':
        S.check('order', how == (flip, False, False))
    elif S.decide(S.Not(inp)):
        S.check('redirected', out == 'redirect_from_HMS_HMS_RLO'
                and b.state == 'detached')


@harness(REG, 'P20', bounds='2-3 grid models, finite or not')
def grid_limits(S):
    n = S.pick('n', [2, 3])
    o = sm.MS_MS_step.__new__(sm.MS_MS_step)
    names = ['star_1_mass', 'star_2_mass', 'period_days']
    fixed = S.pick('which', [0, 1, 2])
    ini, fin, ok = {}, {}, {}
    for k, c in enumerate(names):
        ini[c] = np.empty(n, dtype=object if S.symbolic else float)
        fin[c] = np.empty(n, dtype=object if S.symbolic else float)
        ok[c] = []
        for i in range(n):
            good = i == 0 or k != fixed or S.pick('ok%d' % i, [True, False])
            ini[c][i] = S.real('i%d_%d' % (k, i), 0.1, 100) \
                if k == fixed else float(i)
            fin[c][i] = float('nan') if not good else S.real(
                'f%d_%d' % (k, i), 0.1, 100) if k == fixed else 1.0
            ok[c].append(good)
    o._psyTrackInterp = types.SimpleNamespace(grid=types.SimpleNamespace(
        initial_values=ini, final_values=fin))
    o._find_boundaries()
    for c, a in zip(names, ('m1', 'm2', 'p')):
        v = [ini[c][i] for i in range(n) if ok[c][i]]
        lo, hi = getattr(o, a + '_min'), getattr(o, a + '_max')
        S.check('limits', S.And(
            S.And(*[S.And(lo <= x, x <= hi) for x in v]),
            S.Or(*[S.eq(x, lo) for x in v]), S.Or(*[S.eq(x, hi) for x in v])))


@harness(REG, 'P20', bounds='any times, methods and outcomes', stubs=[
    'the parts of the step'])
def sequence(S):
    method = S.pick('method', ['nearest_neighbour', 'linear3c_kNN'])
    stop = S.pick('stop', ['stop_at_max_time', 'stop_at_condition',
                           'stop_at_end'])
    track = method == 'nearest_neighbour' and S.pick('track', [False, True])
    flip = S.pick('flip', [False, True])
    t0, tmax = S.real('t0', 0, 100), S.real('tmax', 0, 100)
    S.assume(t0 <= tmax)
    missing = S.pick('missing', [None, 'nan', 'value'])
    dt = {None: None, 'nan': float('nan'),
          'value': S.real('dt', 0.1, 100)}[missing]
    b = BinaryStar.__new__(BinaryStar)
    b.time, b.state, b.event = t0, 's', 'v'
    b.properties = types.SimpleNamespace(max_simulation_time=tmax)
    o = sm.CO_HMS_RLO_step.__new__(sm.CO_HMS_RLO_step)
    o.verbose, o.flip_stars_before_step = False, flip
    o.star_1_CO, o.star_2_CO = False, True
    o.stop_method, o.interpolation_method = stop, method
    o.track_interpolation, o.flush_history = track, 'unset'
    o.stop_star, o.stop_var_name, o.stop_value = 'star_2', 'mass', 7.0
    o.stop_interpolate = False
    o.binary = b
    o.supported_interp_methods = ['linear3c_kNN']
    o._psyTrackInterp = types.SimpleNamespace(
        evaluate=lambda x: (log.append('NN') or ('CB', 'D', 'TF')))
    log = []
    parts = {
        'get_final_MESA_step_time': lambda self: dt,
        'update_properties_NN': lambda self, **k: (
            log.append(('NN-track', k['star_1_CO'], k['star_2_CO'],
                        k['track_interpolation'])),
            setattr(b, 'time', b.time + dt)),
        'initial_final_interpolation': lambda self, **k: (
            log.append(('IF', k['star_1_CO'], k['star_2_CO'])),
            setattr(b, 'time', b.time + dt)),
        'stop_at_condition': lambda self, x, **k: (
            log.append(('stop', k['property'], k['star'], k['value'],
                        k['star_1_CO'], k['star_2_CO'])),
            setattr(b, 'time', k['value'] if k['property'] == 'time'
                    else b.time)),
        'stop_at_end': lambda self, x, **k: log.append('end')}
    import contextlib
    with contextlib.ExitStack() as st:
        for k, v in parts.items():
            st.enter_context(replaced(sm.MesaGridStep, k, v))
        st.enter_context(replaced(sm, 'flip_stars',
                                  lambda x: log.append('flip')))
        sm.MesaGridStep.__call__(o, b)
    if missing != 'value':
        S.check('no-track', b.state == 'initial_RLOF' and log in (
            [], ['flip', 'flip']) and (len(log) == 2) == flip)
        return
    if flip:
        S.check('order', log[0] == 'flip' and log[-1] == 'flip'
                and log.count('flip') == 2)
        log = log[1:-1]
    else:
        S.check('order', 'flip' not in log)
    over = S.decide(t0 + dt > tmax)
    if over and stop == 'stop_at_max_time':
        want = ([] if method == 'nearest_neighbour' else ['NN']) + [
            ('NN-track', False, True, True)]
        S.check('history', o.flush_history is (not track))
        if method != 'nearest_neighbour':
            S.check('neighbour', o.closest_binary == 'CB'
                    and o.termination_flags == 'TF'
                    and o.nearest_neighbour_distance == 'D')
    elif method == 'nearest_neighbour':
        want = [('NN-track', False, True, track)]
        S.check('history', o.flush_history is (not track))
    else:
        want = [('IF', False, True)]
    S.check('evolution', log[:-1] == want)
    t1 = t0 + dt
    if stop == 'stop_at_max_time' and S.decide(t1 >= tmax):
        last = log[-1]
        S.check('time-limit', last[0] == 'stop' and last[1] == 'time'
                and last[4:] == (False, True)
                and S.decide(S.eq(last[3], tmax)))
        S.check('ends', S.And(S.eq(b.time, tmax), b.event == 'maxtime'))
    elif stop == 'stop_at_condition':
        S.check('condition', log[-1] == ('stop', 'mass', 'star_2', 7.0,
                                         False, True))
    else:
        S.check('end', log[-1] == 'end')
    if not (stop == 'stop_at_max_time' and S.decide(t1 >= tmax)):
        S.check('ends', b.event == (
            'MaxTime_exceeded' if S.decide(t1 > tmax)
            else 'maxtime' if S.decide(S.eq(t1, tmax)) else 'v'))


# ---------------------------------------------------------------------------
# taking over the outcome
# ---------------------------------------------------------------------------
SAME = [k for k in STARPROPERTIES if k not in (
    'state', 'metallicity', 'mass', 'lg_mdot', 'lg_system_mdot',
    'lg_wind_mdot', 'spin', 'profile', 'avg_c_in_c_core')]
BSAME = {'separation': 'binary_separation', 'orbital_period': 'period_days'}
BSAME.update({k: k for k in (
    'rl_relative_overflow_1', 'rl_relative_overflow_2', 'lg_mtransfer_rate',
    'trap_radius', 'acc_radius', 't_sync_rad_1', 't_sync_conv_1',
    't_sync_rad_2', 't_sync_conv_2')})
MDOT = {'lg_mdot': 'lg_mstar_dot', 'lg_system_mdot': 'lg_system_mdot',
        'lg_wind_mdot': 'lg_wind_mdot'}
POST = ['avg_c_in_c_core_at_He_depletion', 'co_core_mass_at_He_depletion',
        'm_core_CE_1cent', 'm_core_CE_10cent', 'm_core_CE_30cent',
        'm_core_CE_pure_He_star_10cent', 'r_core_CE_1cent',
        'r_core_CE_10cent', 'r_core_CE_30cent',
        'r_core_CE_pure_He_star_10cent']
SNKEYS = ['f_fb', 'mass', 'spin', 'm_disk_accreted', 'm_disk_radiated', 'M4',
          'mu4', 'h1_mass_ej', 'he4_mass_ej']


class Values(dict):
    """A table whose columns come into being when they are asked for."""

    def __init__(self, make):
        super().__init__()
        self.make = make

    def __missing__(self, k):
        self[k] = v = self.make(k)
        return v

    def __contains__(self, k):
        return True


def before(S, co, n):
    """A binary with n history entries; distinguishable concrete values but
    for the ones that enter formulae"""
    b = types.SimpleNamespace()
    for j, k in enumerate(BINARYPROPERTIES):
        setattr(b, k, 'old_b_' + k)
        setattr(b, k + '_history', ['hist_b_%s_%d' % (k, i)
                                    for i in range(n)])
    b.time = S.real('t0', 0, 10)
    b.time_history = [0.0] * n
    for s in (1, 2):
        x = types.SimpleNamespace()
        for k in STARPROPERTIES:
            setattr(x, k, 'old_%d_%s' % (s, k))
            setattr(x, k + '_history', ['hist_%d_%s_%d' % (s, k, i)
                                        for i in range(n)])
        x.mass = S.real('mass%d' % s, 0.1, 100)
        x.spin = S.real('spin%d' % s, 0, 1)
        setattr(b, 'star_%d' % s, x)
    return b


class World:
    """Stand-ins for classification, accretion and compact objects."""

    def __init__(self, S, b):
        self.S, self.b = S, b
        self.edd = S.real('edd', 1e-3, 10)
        self.wind = S.real('wind', 1e-4, 5)
        self.calls = []
        self.asked = []

    def state(self, star, i=None, star_CO=False):
        n = '1' if star is self.b.star_1 else '2'
        return 'state%s@%s%s' % (n, i, '*' if star_CO else '')

    def binary(self, b, cls=None, i=None, verbose=False):
        self.calls.append((cls, i))
        if cls == 'initial_MT':
            return 'initial_RLOF', None, None
        return 'B@%s' % i, 'E@%s' % i, 'M@%s' % i

    def array(self, b, N=None, verbose=False):
        r = [self.binary(b, None, i) for i in range(-N, 0)]
        return [x[0] for x in r], [x[1] for x in r], [x[2] for x in r]

    def stars(self, star, N=1, star_CO=False):
        return [self.state(star, i, star_CO) for i in range(-N, 0)]

    def bh(self, b, acc, don, idx=-1, **k):
        self.asked.append((acc, don, idx))
        return self.wind

    def ed(self, b, idx=-1):
        self.asked.append(idx)
        return self.edd, 0.1

    def infer(self, star_mass=None, star_CO=False):
        return 'CO'

    def radius(self, m, st):
        self.S.check('compact-radius', st == 'CO')
        return m * 0.5

    @staticmethod
    def spin(a, m0, m1):
        return a + (m1 - m0)

    def __enter__(self):
        import contextlib
        self.st = contextlib.ExitStack()
        cf = sm.cf
        for m, k, v in ((cf, 'check_state_of_star', self.state),
                        (cf, 'get_binary_state_and_event_and_mt_case',
                         self.binary),
                        (cf, 'get_binary_state_and_event_and_mt_case_array',
                         self.array),
                        (cf, 'check_state_of_star_history_array', self.stars),
                        (cf, 'bondi_hoyle', self.bh),
                        (cf, 'eddington_limit', self.ed),
                        (cf, 'spin_stable_mass_transfer', self.spin),
                        (sm, 'infer_star_state', self.infer),
                        (sm, 'CO_radius', self.radius),
                        (sm, 'SN_MODELS', {'MODEL1': 0, 'MODEL2': 0})):
            self.st.enter_context(replaced(m, k, v))

    def __exit__(self, *a):
        self.st.close()


def capped(S, w, lg):
    """log10 of the accretion rate with wind, limited to Eddington"""
    t = np.log10(10 ** lg + w.wind)
    return t, np.log10(w.edd), S.decide(10 ** t > w.edd)


@harness(REG, 'P20', bounds='all final values and classes; compact object '
         'first, second or none', stubs=[
             'classification; accretion; interpolator'])
def interpolated_outcome(S):
    co = S.pick('compact', [None, 1, 2])
    cls = S.pick('class', ['stable_MT', 'no_MT', 'unstable_MT',
                           'initial_MT'])
    types_ = {'S%d_%s_CO_type' % (i, m): S.pick(
        'type%d%s' % (i, m[-1]), ['None', 'BH'])
        for i in (1, 2) for m in ('MODEL1', 'MODEL2')
        if cls == 'no_MT' and i != co}
    n = 2
    b = before(S, co, n)
    m0 = [b.star_1.mass, b.star_2.mass]
    a0 = [b.star_1.spin, b.star_2.spin]
    fv = Values(lambda k: S.real('fv_' + k, -1, 1)
                if k.startswith('lg_mstar') else S.real('fv_' + k, 0.1, 100))
    o = sm.CO_HMS_RLO_step.__new__(sm.CO_HMS_RLO_step)
    o.binary, o.final_values, o.verbose, o.RNG = b, fv, False, 'RNG'
    o.grid_type = 'CO_HMS_RLO'
    classes = {'interpolation_class': cls, 'mt_history': 'H'}
    for i in (1, 2):
        for m in ('MODEL1', 'MODEL2'):
            classes['S%d_%s_CO_type' % (i, m)] = types_.get(
                'S%d_%s_CO_type' % (i, m), 'None')
            classes['S%d_%s_SN_type' % (i, m)] = 'SN%d%s' % (i, m)
    o.classes = classes
    w = World(S, b)
    t0 = b.time
    with w:
        o.initial_final_interpolation(star_1_CO=co == 1, star_2_CO=co == 2)
    S.check('time', S.eq(b.time, t0 + fv['age']))
    for k, c in BSAME.items():
        S.check('binary', S.eq(getattr(b, k), fv[c]))
    for k in ('eccentricity', 'V_sys'):
        S.check('binary-kept', getattr(b, k) == 'hist_b_%s_%d' % (k, n - 1))
    S.check('labels', b.interp_class_CO_HMS_RLO == cls
            and b.mt_history_CO_HMS_RLO == 'H')
    S.check('classified', ((b.state, b.event) == ('initial_RLOF', None)
                           if cls == 'initial_MT' else
                           (b.state, b.event, b.mass_transfer_case) ==
                           ('B@None', 'E@None', 'M@None'))
            and w.calls == [(cls, None)])
    for s, x in ((1, b.star_1), (2, b.star_2)):
        S.check('mass', S.eq(x.mass, fv['star_%d_mass' % s]))
        S.check('metallicity', x.metallicity == 'old_%d_metallicity' % s)
        S.check('profile', x.profile is None)
        S.check('star-state', x.state == (
            'old_%d_state' % s if cls == 'initial_MT' else
            'state%d@None%s' % (s, '*' if s == co else '')))
        for k, c in MDOT.items():
            if s == co and k == 'lg_mdot' and cls != 'initial_MT':
                t, e, lim = capped(S, w, fv['lg_mstar_dot_%d' % s])
                S.check('accretion', S.eq(x.lg_mdot, e if lim else t))
                S.check('accretor', w.asked[0][0] is x and w.asked[0][1]
                        is (b.star_2 if s == 1 else b.star_1))
            else:
                S.check('rates', S.eq(getattr(x, k), fv['%s_%d' % (c, s)]))
        if s == co:
            S.check('spin-up', S.eq(x.spin, a0[s - 1] + fv[
                'star_%d_mass' % s] - m0[s - 1]))
            S.check('compact-radius', S.eq(x.log_R, np.log10(
                fv['star_%d_mass' % s] * 0.5)))
            for k in SAME:
                if k != 'log_R':
                    S.check('compact-kept', getattr(x, k)
                            == 'old_%d_%s' % (s, k))
        else:
            S.check('spin', S.eq(x.spin, fv['S%d_spin_parameter' % s]))
            for k in SAME:
                S.check('structure', S.eq(getattr(x, k), fv[
                    'S%d_%s' % (s, k)]))
        if cls == 'initial_MT':
            continue
        if s != co:
            for k in POST:
                if cls == 'unstable_MT' and k in POST[:2]:
                    S.check('post', getattr(x, k) is None)
                else:
                    S.check('post', S.eq(getattr(x, k),
                                         fv['S%d_%s' % (s, k)]))
        for m in ('MODEL1', 'MODEL2'):
            if cls == 'unstable_MT':
                S.check('collapse-values', not hasattr(x, m))
                continue
            v = getattr(x, m)
            t = classes['S%d_%s_CO_type' % (s, m)]
            if s == co or t == 'None':
                S.check('collapse-values', v is None)
            else:
                S.check('collapse-values', S.And(
                    v['state'] == t, v['SN_type'] == 'SN%d%s' % (s, m),
                    *[S.eq(v[k], fv['S%d_%s_%s' % (s, m, k)])
                      for k in SNKEYS]))


def neighbour_outcome(S, co):
    n, track, save, flush, cls = S.pick('case', [
        (n, t, s, f, c) for n in (3, 2) for t in (True, False)
        for s in (True, False) for f in (True, False)
        for c in ('stable_MT', 'unstable_MT', 'initial_MT')
        if (t or not f) and (n == 2 or c == 'stable_MT' and t)
        and (c == 'stable_MT' or s and not f)])
    h0 = 2
    b = before(S, co, h0)
    t0, m0, a0 = b.time, [b.star_1.mass, b.star_2.mass], [
        b.star_1.spin, b.star_2.spin]

    def table(tag, rows):
        def make(k):
            a = np.empty(rows, dtype=object if S.symbolic else float)
            for i in range(rows):
                a[i] = S.real('%s_%s_%d' % (tag, k, i), -1, 1) if 'lg_ms' in \
                    k else S.real('%s_%s_%d' % (tag, k, i), 0.1, 100)
            return a
        return Values(make)
    bh = table('b', n)
    hs = [table('s1', n), table('s2', n)]
    fin = Values(lambda k: S.real('fin_' + k, 0.1, 100))
    snrow = {'S%d_%s' % (i, k): 'sn%d%s' % (i, k) for i in (1, 2)
             for k in SNKEYS + ['SN_type']}
    snrow.update(S1_CO_type='BH', S2_CO_type=S.pick(
        'type', ['None', 'NS']) if cls == 'stable_MT' else 'None')
    cb = types.SimpleNamespace(
        binary_history=bh, history1=hs[0], history2=hs[1],
        final_profile1='P1', final_profile2='P2', final_values=fin,
        get_SN_data=lambda m: snrow if m == 'MODEL1' else None)
    o = sm.CO_HMS_RLO_step.__new__(sm.CO_HMS_RLO_step)
    o.binary, o.closest_binary, o.verbose, o.RNG = b, cb, False, 'RNG'
    o.grid_type, o.save_initial_conditions = 'CO_HMS_RLO', save
    o.termination_flags = [cls, 'CUM', 'MTH']
    o.nearest_neighbour_distance = 'DIST'
    o.flush_history, o.flush_entries = flush, None
    w = World(S, b)
    with w, replaced(sm, 'Pwarn', lambda *a: None):
        o.update_properties_NN(star_1_CO=co == 1, star_2_CO=co == 2,
                               track_interpolation=track)
    if cls == 'initial_MT':
        S.check('no-track', b.state == 'initial_RLOF' and b.time is t0
                and b.star_1.state == 'old_1_state')
        return
    rows = ([0] if save else []) + (list(range(n - 1)) if track else [])
    N = h0 + len(rows)
    S.check('labels', b.interp_class_CO_HMS_RLO == cls
            and b.mt_history_CO_HMS_RLO == 'MTH'
            and b.cumulative_mt_case_CO_HMS_RLO == 'CUM')
    S.check('classified', (b.state, b.event, b.mass_transfer_case) ==
            ('B@None', 'E@None', 'M@None') and all(
                c[0] == cls for c in w.calls if c[1] is None))
    # aligned histories
    for k in BINARYPROPERTIES:
        S.check('aligned', len(getattr(b, k + '_history')) == N)
    for x in (b.star_1, b.star_2):
        for k in STARPROPERTIES:
            S.check('aligned', len(getattr(x, k + '_history')) == N)
    if track:
        S.check('track-start', o.flush_entries == h0 + save)

    def record(label, obj, k, col, f=lambda v: v):
        S.check(label, S.eq(getattr(obj, k), f(col[-1])))
        h = getattr(obj, k + '_history')
        S.check('earlier', all(isinstance(v, (str, float)) for v in h[:h0]))
        for j, r in enumerate(rows):
            S.check(label + '-history', S.eq(h[h0 + j], f(col[r])))
    record('time', b, 'time', bh['age'], lambda v: t0 + v)
    for k, c in BSAME.items():
        record('binary', b, k, bh[c])
    for k in ('eccentricity', 'V_sys'):
        S.check('binary-kept', set(getattr(b, k + '_history')[h0 - 1:h0 + len(
            rows)]) | {getattr(b, k)} == {'hist_b_%s_%d' % (k, h0 - 1)})
    S.check('distance', b.nearest_neighbour_distance == 'DIST')
    for s, x in ((1, b.star_1), (2, b.star_2)):
        record('mass', x, 'mass', bh['star_%d_mass' % s])
        S.check('metallicity', x.metallicity == 'old_%d_metallicity' % s)
        S.check('star-state', x.state == 'state%d@None%s' % (
            s, '*' if s == co else ''))
        for k in ('lg_system_mdot', 'lg_wind_mdot'):
            record('rates', x, k, bh['%s_%d' % (MDOT[k], s)])
        if s == co:
            record('spin-up', x, 'spin', bh['star_%d_mass' % s],
                   lambda v: a0[s - 1] + v - bh['star_%d_mass' % s][0])
            record('compact-radius', x, 'log_R', bh['star_%d_mass' % s],
                   lambda v: np.log10(v * 0.5))
            for k in SAME:
                if k != 'log_R':
                    S.check('compact-kept', {getattr(x, k)} | set(getattr(
                        x, k + '_history')[h0:]) == {'old_%d_%s' % (s, k)})
            col = bh['lg_mstar_dot_%d' % s]
            t, e, lim = capped(S, w, col[-1])
            S.check('accretion', S.eq(x.lg_mdot, e if lim else t))
            for j, r in enumerate(rows):
                t, e, lim = capped(S, w, col[r])
                S.check('accretion-history', S.eq(
                    x.lg_mdot_history[h0 + j], e if lim else t))
            S.check('accretor', all(
                a[0] is x and a[1] is (b.star_2 if s == 1 else b.star_1)
                for a in w.asked if isinstance(a, tuple)))
        else:
            record('rates', x, 'lg_mdot', bh['lg_mstar_dot_%d' % s])
            S.check('profile', x.profile == 'P%d' % s)
            record('spin', x, 'spin', hs[s - 1]['spin_parameter'])
            for k in SAME:
                record('structure', x, k, hs[s - 1][k])
            for k in POST:
                S.check('post', S.eq(getattr(x, k), fin['S%d_%s' % (s, k)]))
        if cls == 'unstable_MT':
            S.check('collapse-values', not hasattr(x, 'MODEL1'))
            continue
        S.check('collapse-values', x.MODEL2 is None)
        t = snrow['S%d_CO_type' % s]
        if s == co or t == 'None':
            S.check('collapse-values', x.MODEL1 is None)
        else:
            S.check('collapse-values', x.MODEL1 == dict(
                state=t, **{k: 'sn%d%s' % (s, k)
                            for k in SNKEYS + ['SN_type']}))
    # labels of the recorded entries
    i0 = [h0] if save else []
    ir = ([None] * (n - 1) if flush else list(range(-(n - 1), 0))) \
        if track else []
    for s, x in ((1, b.star_1), (2, b.star_2)):
        S.check('state-history', x.state_history[h0:] == [
            'state%d@%d%s' % (s, i, '*' if s == co else '') for i in i0] + [
            None if i is None else 'state%d@%d%s' % (
                s, i, '*' if s == co else '') for i in ir])
    S.check('state-history', b.state_history[h0:] == [
        'B@%d' % i for i in i0] + [
        None if i is None else 'B@%d' % i for i in ir])


for _c in (None, 1, 2):
    def _f(S, _c=_c):
        neighbour_outcome(S, _c)
    _f.__name__ = 'neighbour_outcome_%s' % (_c or 'stars')
    harness(REG, 'P20', bounds='tracks of 2-3 rows with any values; compact '
            'object: %s; with and without the track and the initial values; '
            'star and binary tables of equal length' % (_c or 'none'), stubs=[
                'classification; accretion; nearest neighbour'],
            budget=250)(_f)


@harness(REG, 'P20', bounds='histories of 2-4 entries with increasing times; '
         'the limit anywhere from the first entry on', stubs=[
             'classification'])
def stopped_at_time(S):
    n = S.pick('entries', [2, 3, 4])
    flush = S.pick('flush', [False, True])
    fe = S.pick('flush_entries', [0, 1]) if flush else None
    co = S.pick('compact', [None, 2])
    b = types.SimpleNamespace()
    T = [S.real('t%d' % i, 0, 100) for i in range(n)]
    for i in range(n - 1):
        S.assume(T[i + 1] >= T[i] + 1e-3)
    t = S.real('t', 0, 100)
    S.assume(S.And(t >= T[0], t <= T[-1]))
    S.prune()
    none = S.pick('none', [None, 0, n - 1])
    watch = {'separation': None, 'orbital_period': None}
    for k in BINARYPROPERTIES:
        v = T if k == 'time' else [S.real('b_%s_%d' % (k, i), -9, 9)
                                   for i in range(n)] if k in watch else \
            ['%s%d' % (k, i) for i in range(n)] if k in (
                'state', 'event', 'mass_transfer_case') else \
            [[S.real('V%d_%d' % (i, j), -9, 9) for j in range(3)]
             for i in range(n)] if k == 'V_sys' else [1.0] * n
        if none is not None and k == 'orbital_period':
            v[none] = None
        if k in watch:
            watch[k] = list(v)
        if k == 'V_sys':
            V = list(v)
        setattr(b, k, v[-1])
        setattr(b, k + '_history', list(v[:-1]))
    ws = {}
    for s in (1, 2):
        x = types.SimpleNamespace()
        for k in STARPROPERTIES:
            v = [S.real('s%d_%s_%d' % (s, k, i), -9, 9) for i in range(n)] \
                if k in ('mass', 'log_R', 'spin') else [
                    '%s%d_%d' % (k, s, i) for i in range(n)] if k in (
                    'state', 'profile', 'metallicity') else [2.0] * n
            if none is not None and k == 'spin':
                v[none] = None
            ws[s, k] = list(v)
            setattr(x, k, v[-1])
            setattr(x, k + '_history', list(v[:-1]))
        setattr(b, 'star_%d' % s, x)
    o = sm.CO_HMS_RLO_step.__new__(sm.CO_HMS_RLO_step)
    o.binary, o.verbose = b, False
    o.flush_history, o.flush_entries = flush, fe
    w = World(S, b)
    with w:
        o.stop_at_condition(b, property='time', value=t, star='star_1',
                            interpolate=True, star_1_CO=False,
                            star_2_CO=co == 2)
    i = [j for j in range(n - 1) if S.decide(
        S.And(T[j] <= t, t < T[j + 1]))]
    i = i[0] if i else n - 2
    f = (t - T[i]) / (T[i + 1] - T[i])

    def at(v):
        if v[i] is None or v[i + 1] is None:
            return None
        return v[i] + f * (v[i + 1] - v[i])

    def same(a, c):
        if a is None or c is None:
            return a is None and c is None
        return S.eq(a, c, 1e-6, 1e-6)
    S.check('time', S.eq(b.time, t))
    for k, v in watch.items():
        S.check('binary', same(getattr(b, k), at(v)))
    for j in range(3):
        S.check('velocity', same(b.V_sys[j], at([v[j] for v in V])))
    for s, x in ((1, b.star_1), (2, b.star_2)):
        for k in ('mass', 'log_R', 'spin'):
            S.check('star', same(getattr(x, k), at(ws[s, k])))
        S.check('star-state', x.state == (
            'state%d@None%s' % (s, '*' if co == s else '') if flush
            else 'state%d_%d' % (s, n - 2)))
    S.check('classified', (b.state, b.event, b.mass_transfer_case) == (
        ('B@None', 'E@None', 'M@None') if flush else (
            'state%d' % (n - 2), 'event%d' % (n - 2),
            'mass_transfer_case%d' % (n - 2))))
    N = min(fe, i + 1) if flush else i + 1
    for k in BINARYPROPERTIES:
        S.check('truncated', len(getattr(b, k + '_history')) == N)
    for j in range(N):
        S.check('kept', S.And(S.eq(b.time_history[j], T[j]), *[
            S.eq(getattr(b, 'star_%d' % s).mass_history[j], ws[s, 'mass'][j])
            for s in (1, 2)]))
    for x in (b.star_1, b.star_2):
        for k in STARPROPERTIES:
            S.check('truncated', len(getattr(x, k + '_history')) == N)


@harness(REG, 'P20', bounds='0-3 entries to keep; any times')
def stopped_at_end(S):
    flush = S.pick('flush', [False, True])
    fe = S.pick('flush_entries', [None, 0, 2])
    t, tmax = S.real('t', 0, 100), S.real('tmax', 0, 100)
    b = types.SimpleNamespace(
        time=t, event='v', star_1=types.SimpleNamespace(),
        star_2=types.SimpleNamespace(), properties=types.SimpleNamespace(
            max_simulation_time=tmax))
    for k in BINARYPROPERTIES:
        setattr(b, k + '_history', [k + str(i) for i in range(3)])
    for x in (b.star_1, b.star_2):
        for k in STARPROPERTIES:
            setattr(x, k + '_history', [k + str(i) for i in range(3)])
    o = sm.CO_HMS_RLO_step.__new__(sm.CO_HMS_RLO_step)
    o.flush_history, o.flush_entries = flush, fe
    o.stop_at_end(b)
    if S.decide(t > tmax):
        S.check('exceeded', b.event == 'MaxTime_exceeded')
        return
    N = fe if flush and fe is not None else 3
    S.check('event', b.event == 'v')
    for obj, keys in ((b, BINARYPROPERTIES), (b.star_1, STARPROPERTIES),
                      (b.star_2, STARPROPERTIES)):
        for k in keys:
            S.check('kept', getattr(obj, k + '_history') == [
                k + str(i) for i in range(N)])


@harness(REG, 'P20', bounds='every method, with and without track', stubs=[
    'interpolators'])
def duration(S):
    method = S.pick('method', ['nearest_neighbour', 'linear3c_kNN', 'other'])
    has = S.pick('track', [True, False])
    age = np.empty(2, dtype=object if S.symbolic else float)
    age[:] = [S.real('a0', 0, 9), S.real('a1', 0, 9)]
    o = sm.CO_HMS_RLO_step.__new__(sm.CO_HMS_RLO_step)
    o.binary, o.interpolation_method = 'B', method
    o.supported_interp_methods = ['linear3c_kNN']
    cb = types.SimpleNamespace(binary_history={'age': age} if has else None)
    o._psyTrackInterp = types.SimpleNamespace(
        evaluate=lambda b: (cb, 'D', 'TF') if b == 'B' else None)
    fv = {'age': S.real('fa', 0, 9)}
    o._Interp = types.SimpleNamespace(
        evaluate=lambda b: (fv, 'C') if b == 'B' else None)
    try:
        r = o.get_final_MESA_step_time()
    except ValueError:
        S.check('unknown', method == 'other')
        return
    S.check('unknown', method != 'other')
    if method == 'nearest_neighbour':
        S.check('neighbour', o.closest_binary is cb
                and o.nearest_neighbour_distance == 'D'
                and o.termination_flags == 'TF')
        S.check('duration', S.eq(r, age[1]) if has else r is None)
    else:
        S.check('duration', S.And(S.eq(r, fv['age']), o.classes == 'C',
                                  o.final_values is fv))
