"""Records of binaries: tables written from a binary and binaries read back."""
import contextlib

import numpy as np
import pandas as pd

import posydon.binary_evol.binarystar as bs
import posydon.binary_evol.singlestar as ss
import posydon.popsyn.io as pio
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.utils.limits_thresholds import (
    STATE_NS_STARMASS_LOWER_LIMIT, STATE_NS_STARMASS_UPPER_LIMIT,
    STATE_WD_STARMASS_UPPER_LIMIT)
from symex.run import harness
from symex.shims import has_sym
from symex.stub import replaced

REG = []
META = {
    'P23': dict(assumptions=[
        "histories of 1-3 steps, also of unequal lengths; two of the columns "
        "of a harness symbolic at a time, the rest distinct constants; the "
        "conversion of columns to the type float64 is skipped while values "
        "are symbolic (it is applied in the replay)"]),
}

FLOATS = [k for k, t in ss.STARPROPERTIES_DTYPES.items() if t == 'float64']
BFLOATS = [k for k, t in pio.BINARYPROPERTIES_DTYPES.items()
           if t == 'float64']


@contextlib.contextmanager
def tables(S):
    """keep float columns as objects while they hold symbolic values"""
    with contextlib.ExitStack() as st:
        if S.symbolic:
            real = pd.DataFrame.astype

            def astype(self, dtype, *a, **k):
                if isinstance(dtype, dict):
                    dtype = {c: t for c, t in dtype.items() if not (
                        t in ('float64', None) and has_sym(self[c]))}
                return real(self, dtype, *a, **k)
            pd.DataFrame.astype = astype
            st.callback(setattr, pd.DataFrame, 'astype', real)
        st.enter_context(replaced(ss, 'Pwarn', lambda *a: None))
        yield


class Values:
    """distinct constants, except for the named columns"""

    def __init__(self, S, names):
        self.S, self.names, self.c = S, names, 0

    def __call__(self, name, i):
        if name in self.names:
            return self.S.real('%s%d' % (name, i), 0.01, 1000)
        self.c += 1
        return 0.25 + self.c

    def array(self, name, i):
        return np.array([self('%s%d' % (name, j), i) for j in range(3)],
                        dtype=object if self.S.symbolic else float)


def star(S, k, n, val):
    s = ss.SingleStar()
    for p in ss.STARPROPERTIES:
        if p == 'state':
            h = ['%s-state-%d' % (k, i) for i in range(n)]
        elif p == 'profile':
            h = [None] * n
        else:
            h = [val('%s_%s' % (k, p), i) for i in range(n)]
        setattr(s, p + '_history', h)
        setattr(s, p, h[-1])
    return s


def binary(S, n, val, index=7):
    b = bs.BinaryStar(ss.SingleStar(), ss.SingleStar(), index=index,
                      properties=SimulationProperties())
    b.star_1 = star(S, 'S1', n, val)
    b.star_2 = star(S, 'S2', n, val)
    for p in bs.BINARYPROPERTIES:
        if p in ('state', 'event', 'mass_transfer_case'):
            h = ['%s-%d' % (p, i) for i in range(n)]
        elif p in ('V_sys', 'nearest_neighbour_distance'):
            h = [val.array(p, i) for i in range(n)]
        else:
            h = [val(p, i) for i in range(n)]
        setattr(b, p + '_history', h)
        setattr(b, p, h[-1])
    return b


SPLIT = {'V_sys': 'V_sys_', 'nearest_neighbour_distance': 'NN_dist_'}


def same(S, a, b):
    if isinstance(b, str) or isinstance(a, str):
        return a == b
    return S.eq(a, b)


def holes(S, b, n):
    """None at one place of the histories"""
    w = S.pick('hole', ['none', 'binary', 'S1', 'S2'])
    i = S.pick('hole_at', list(range(n))) if w != 'none' else None
    if w == 'binary':
        b.acc_radius_history[i] = None
        if i == n - 1:
            b.acc_radius = None
    elif w != 'none':
        s = b.star_1 if w == 'S1' else b.star_2
        s.spin_history[i] = None
        if i == n - 1:
            s.spin = None
    return w, i


def lists(b):
    out = {}
    for p in bs.BINARYPROPERTIES:
        out[p] = list(getattr(b, p + '_history'))
    for k, s in (('S1_', b.star_1), ('S2_', b.star_2)):
        for p in ss.STARPROPERTIES:
            out[k + p] = list(getattr(s, p + '_history'))
    return out


SYM = ['separation', 'S1_mass', 'S2_mass', 'S2_total_moment_of_inertia',
       'V_sys1']


@harness(REG, 'P23', bounds='1-3 steps; a missing value at any place; any '
         'null value; profile and stars included or not')
def history_table(S):
    n = S.pick('n', [1, 2, 3])
    val = Values(S, SYM)
    b = binary(S, n, val, index=7 if n > 1 else 0)
    holes(S, b, n)
    mode = S.pick('mode', ['both', 'null', 'S1', 'S2', 'extra'])
    null = S.real('null', -5, -1) if mode == 'null' else None
    kw = {} if null is None else dict(null_value=null)
    inc = mode if mode in ('S1', 'S2') else 'both'
    if inc == 'S1':
        kw['include_S2'] = False
    if inc == 'S2':
        kw['include_S1'] = False
    extra = mode == 'extra'
    if extra:
        b.step_names = ['step%d' % i for i in range(n)]
        b.step_times = [val('step_times', i) for i in range(n)]
        kw['extra_columns'] = {'step_names': 'string',
                               'step_times': 'float64'}
    before = lists(b)
    with tables(S):
        df = b.to_df(**kw)
    S.check('rows', len(df) == n and list(df.index) == [b.index] * n
            and df.index.name == 'binary_index')
    exp = {}
    for c, h in before.items():
        if c[:2] in ('S1', 'S2'):
            if inc in ('both', c[:2]) and not c.endswith('_profile'):
                exp[c] = h
        elif c in SPLIT:
            for j, x in enumerate('xyz'):
                exp[SPLIT[c] + x] = [v[j] for v in h]
        else:
            exp[c] = h
    if extra:
        exp['step_names'], exp['step_times'] = b.step_names, b.step_times
    S.check('columns', sorted(df.columns) == sorted(exp))
    for c, h in exp.items():
        g = list(df[c])
        for i in range(n):
            if h[i] is None:
                S.check('missing', S.isnan(g[i]) if null is None
                        else S.eq(g[i], null))
            else:
                S.check('value:' + c.split('_')[0], same(S, g[i], h[i]))
    after = lists(b)
    S.check('binary-unchanged', all(
        len(after[c]) == len(before[c])
        and all(x is y for x, y in zip(after[c], before[c]))
        for c in before))


@harness(REG, 'P23', bounds='3 steps; one column shorter than the others; '
         'columns ignored or selected')
def uneven_table(S):
    n = 3
    val = Values(S, SYM)
    b = binary(S, n, val)
    short = S.pick('short', ['none', 'state', 'time', 'V_sys', 'S1_mass',
                             'S2_state'])
    cut = S.pick('cut', [1, 2])
    if short in bs.BINARYPROPERTIES:
        del getattr(b, short + '_history')[cut:]
    elif short[:2] in ('S1', 'S2'):
        s = b.star_1 if short[:2] == 'S1' else b.star_2
        del getattr(s, short[3:] + '_history')[cut:]
    sel = S.pick('columns', ['all', 'ignore', 'select'])
    kw = {}
    if sel == 'ignore':
        kw = dict(ignore_columns=['separation'], S1_kwargs=dict(
            ignore_columns=['log_R']))
    if sel == 'select':
        kw = dict(only_select_columns=['state', 'separation', 'time'],
                  S1_kwargs=dict(only_select_columns=['mass', 'state']),
                  S2_kwargs=dict(only_select_columns=['state']))
    before = lists(b)
    with tables(S):
        df = b.to_df(**kw)
    S.check('rows', len(df) == n)
    if sel == 'select':
        S.check('selected', sorted(df.columns) == sorted(
            ['state', 'separation', 'time', 'S1_mass', 'S1_state',
             'S2_state']))
    if sel == 'ignore':
        S.check('ignored', 'separation' not in df and 'S1_log_R' not in df
                and 'S2_log_R' in df)
    for c in df.columns:
        src = before.get(c)
        if src is None:
            src = [v['xyz'.index(c[-1])] for v in before[
                'V_sys' if c.startswith('V_sys')
                else 'nearest_neighbour_distance']]
        g = list(df[c])
        for i in range(n):
            if i < len(src):
                S.check('value', same(S, g[i], src[i]))
            elif isinstance(src[0], str):
                S.check('padding', pd.isna(g[i]) or g[i] == '')
            else:
                S.check('padding', S.isnan(g[i]))
    after = lists(b)
    S.check('binary-unchanged', all(len(after[c]) == len(before[c])
                                    for c in before))


@harness(REG, 'P23', bounds='1-3 steps; failed, warned or plain binaries; '
         'any natal kick and scalars', budget=200)
def oneline_table(S):
    n = S.pick('n', [1, 3])
    val = Values(S, SYM)
    b = binary(S, n, val, index=7 if n > 1 else 0)
    kick = ['natal_kick_velocity', 'natal_kick_azimuthal_angle',
            'natal_kick_polar_angle', 'natal_kick_mean_anomaly']
    for k, s in ((1, b.star_1), (2, b.star_2)):
        for p in kick:
            setattr(s, p, S.real('%s%d' % (p, k), 0, 500))
        s.natal_kick_array = [getattr(s, p) for p in kick]
        s.SN_type = 'type%d' % k
        s.f_fb = S.real('f_fb%d' % k, 0, 1)
    arr = S.pick('array', [False, True])
    names = (['natal_kick_array'] if arr else kick) + ['SN_type', 'f_fb']
    b.inspiral_time = S.real('inspiral_time', 0, 1e9)
    b.step_info = ['a%d' % i for i in range(n)]
    ty = S.pick('failed', ['no', 'traceback', 'warnings', 'both'])
    if ty in ('traceback', 'both'):
        b.traceback = 'x'
    if ty in ('warnings', 'both'):
        b.warnings = 'x'
    before = lists(b)
    kw = dict(scalar_names=['inspiral_time', 'no_such_name'],
              extra_columns={'step_info': 'string'},
              S1_kwargs=dict(scalar_names=names),
              S2_kwargs=dict(scalar_names=names))
    with tables(S):
        df = b.to_oneline_df(**kw)
    S.check('one-row', len(df) == 1 and list(df.index) == [b.index])
    S.check('no-duplicates', len(set(df.columns)) == len(df.columns))
    r = df.iloc[0]
    S.check('failed', r['FAILED'] == (1 if ty in ('traceback', 'both')
                                      else 0))
    S.check('warning', r['WARNING'] == (1 if ty in ('warnings', 'both')
                                        else 0))
    for c, h in before.items():
        if c.endswith('_profile'):
            continue
        for end, v in (('_i', h[0]), ('_f', h[-1])):
            if c in SPLIT:
                for j, x in enumerate('xyz'):
                    S.check('value', S.eq(r[SPLIT[c] + x + end], v[j]))
            else:
                S.check('value', same(S, r[c + end], v))
    S.check('extra', r['step_info_i'] == 'a0'
            and r['step_info_f'] == 'a%d' % (n - 1))
    S.check('scalar', S.eq(r['inspiral_time'], b.inspiral_time))
    for k, s in (('S1_', b.star_1), ('S2_', b.star_2)):
        S.check('scalar', S.And(r[k + 'SN_type'] == s.SN_type,
                                S.eq(r[k + 'f_fb'], s.f_fb)))
        for i, p in enumerate(kick):
            S.check('kick', S.eq(r[k + p], getattr(s, p)))
            if arr:
                S.check('kick', S.eq(r[k + 'natal_kick_array_%d' % i],
                                     getattr(s, p)))
    # read the initial state back
    with tables(S):
        c = bs.BinaryStar.from_oneline_df(
            df, extra_columns={'step_info': 'string'})
    S.check('index', c.index == b.index)
    S.check('event', c.event == ('FAILED' if ty in ('traceback', 'both')
                                 else before['event'][0]))
    for name, h in before.items():
        if name in SPLIT or name.endswith('_profile') or name == 'event':
            continue
        o, p = ((c, name) if name[:2] not in ('S1', 'S2') else
                (c.star_1 if name[:2] == 'S1' else c.star_2, name[3:]))
        S.check('initial', same(S, getattr(o, p), h[0]))
        S.check('initial-history', same(
            S, getattr(o, p + '_history')[0], h[0])
            and len(getattr(o, p + '_history')) == 1)
    S.check('scalar-back', S.eq(c.inspiral_time, b.inspiral_time))
    for s, o in ((c.star_1, b.star_1), (c.star_2, b.star_2)):
        S.check('scalar-back', S.And(s.SN_type == o.SN_type,
                                     S.eq(s.f_fb, o.f_fb)))
        for p in kick:
            S.check('kick-back', S.eq(getattr(s, p), getattr(o, p)))


@harness(REG, 'P23', bounds='1-3 steps; separation, period or eccentricity '
         'left out; any index; extra columns', budget=200)
def read_history(S):
    n = S.pick('n', [1, 2, 3])
    val = Values(S, SYM + ['orbital_period'])
    b = binary(S, n, val)
    drop = S.pick('drop', ['none', 'separation', 'orbital_period',
                           'eccentricity', 'spin'])
    idx = S.pick('given', [None, 0, 12])
    b.step_names = ['step%d' % i for i in range(n)]
    kw = dict(extra_columns={'step_names': 'string'})
    if drop == 'spin':
        kw['S1_kwargs'] = dict(ignore_columns=['spin'])
    elif drop != 'none':
        kw['ignore_columns'] = [drop]
    before = lists(b)
    with tables(S):
        df = b.to_df(**kw)
        c = bs.BinaryStar.from_df(df, extra_columns={'step_names': 'string'},
                                  **({} if idx is None else {'index': idx}))
    S.check('index', c.index == (7 if idx is None else idx))
    S.check('extra', list(c.step_names) == b.step_names)
    after = lists(c)
    for name, h in before.items():
        if name in SPLIT or name.endswith('_profile'):
            continue
        o, p = ((c, name) if name[:2] not in ('S1', 'S2') else
                (c.star_1 if name[:2] == 'S1' else c.star_2, name[3:]))
        g = after[name]
        S.check('length', len(g) == n)
        if name == drop or (drop == 'spin' and name == 'S1_spin'):
            if drop == 'eccentricity':
                S.check('circular', all(v == 0 for v in g)
                        and c.eccentricity == 0)
            elif drop == 'separation':
                for i in range(n):
                    a = bs.orbital_separation_from_period(
                        before['orbital_period'][i], before['S1_mass'][i],
                        before['S2_mass'][i])
                    S.check('separation-from-period', S.eq(g[i], a, 1e-9))
                S.check('current', S.eq(c.separation, g[-1]))
            elif drop == 'orbital_period':
                for i in range(n):
                    P = bs.orbital_period_from_separation(
                        before['separation'][i], before['S1_mass'][i],
                        before['S2_mass'][i])
                    S.check('period-from-separation', S.eq(g[i], P, 1e-9))
                S.check('current', S.eq(c.orbital_period, g[-1]))
            continue
        for i in range(n):
            S.check('history', same(S, g[i], h[i]))
        S.check('current', same(S, getattr(o, p), h[-1]))


@harness(REG, 'P23', bounds='any mass in [0.1, 100], orbit and metallicity '
         'of the grid; every stellar state; any of the quantities given')
def new_binary(S):
    """a star or binary as described by its arguments, the rest inferred"""
    m1, m2 = S.real('m1', 0.1, 100), S.real('m2', 0.1, 100)
    given = S.pick('given', ['period', 'separation', 'both', 'none'])
    P, a = S.real('P', 0.01, 1e4), S.real('a', 0.1, 1e5)
    e = S.real('e', 0, 0.99)
    kw = dict(eccentricity=e)
    if given in ('period', 'both'):
        kw['orbital_period'] = P
    if given in ('separation', 'both'):
        kw['separation'] = a
    nomass = S.pick('unknown_mass', [None, 1, 2])
    s1 = ss.SingleStar(mass=None if nomass == 1 else m1)
    s2 = ss.SingleStar(mass=None if nomass == 2 else m2)
    b = bs.BinaryStar(s1, s2, index=3, properties=SimulationProperties(),
                      **kw)
    S.check('stars-are-own-copies', b.star_1 is not s1 and b.star_2 is not s2)
    S.check('eccentricity', S.eq(b.eccentricity, e))
    wantP = P if given in ('period', 'both') else None
    wanta = a if given in ('separation', 'both') else None
    if nomass is None and given == 'period':
        wanta = bs.orbital_separation_from_period(P, m1, m2)
    if nomass is None and given == 'separation':
        wantP = bs.orbital_period_from_separation(a, m1, m2)
    for nme, w in (('orbital_period', wantP), ('separation', wanta)):
        g, h = getattr(b, nme), getattr(b, nme + '_history')
        S.check(nme, g is None if w is None else g is not None
                and S.eq(g, w, 1e-9))
        S.check('history', len(h) == 1 and (
            h[0] is None if w is None else h[0] is not None
            and S.eq(h[0], w, 1e-9)))
    for p in bs.BINARYPROPERTIES:
        S.check('history', len(getattr(b, p + '_history')) == 1)


STATES = ['H-rich_Core_H_burning', 'H-rich_Core_He_burning',
          'H-rich_Core_C_burning', 'H-rich_Shell_H_burning',
          'H-rich_Core_C_depleted', 'H-rich_non_burning',
          'stripped_He_Core_H_burning', 'stripped_He_Core_He_burning',
          'stripped_He_Core_C_burning', 'stripped_He_Shell_H_burning',
          'stripped_He_Core_He_depleted', 'stripped_He_non_burning',
          'accreted_He_Core_H_burning', 'accreted_He_non_burning',
          'WD', 'NS', 'BH', 'massless_remnant']


@harness(REG, 'P23', bounds='any mass and given quantities, 18 states, all '
         'metallicities')
def new_star(S):
    st = S.pick('state', STATES)
    m = S.real('m', 0.1, 100)
    given = {}
    some = ['log_R', 'center_h1', 'center_he4', 'he_core_mass',
            'co_core_mass', 'spin', 'surface_h1']
    give = S.pick('give', ['none', 'all'] + some)
    for p in some:
        if give in (p, 'all'):
            given[p] = S.real(p, 0.05, 0.9)
    Z = S.pick('Z', [1.0, 0.01] if give in ('none', 'all') else [1.0])
    kick = [S.real('k%d' % i, 0, 500) for i in range(4)]
    how = S.pick('kick', ['none', 'array', 'named']) if give == 'none' \
        else 'array'
    kw = dict(state=st, mass=m, metallicity=Z, **given)
    names = ['natal_kick_velocity', 'natal_kick_azimuthal_angle',
             'natal_kick_polar_angle', 'natal_kick_mean_anomaly']
    if how == 'array':
        kw['natal_kick_array'] = kick
    if how == 'named':
        kw.update(zip(names, kick))
    with replaced(ss, 'Pwarn', lambda *a: None):
        s = ss.SingleStar(**kw)
    S.check('mass', S.eq(s.mass, m))
    S.check('metallicity', s.metallicity == Z)
    for p, v in given.items():
        S.check('given', S.eq(getattr(s, p), v))
    for p in ss.STARPROPERTIES:
        h = getattr(s, p + '_history')
        S.check('history', len(h) == 1)
        if p in given or p == 'mass':
            S.check('history', S.eq(h[0], getattr(s, p)))
    for p, v in zip(names, kick):
        g = getattr(s, p)
        S.check('kick', g is None if how == 'none'
                else g is not None and S.eq(g, v))
    CO = st in ('WD', 'NS', 'BH', 'massless_remnant')
    if st in ('WD', 'NS', 'BH'):
        comp = any(p in given for p in ('surface_h1', 'center_h1',
                                        'center_he4'))
        lim = (STATE_WD_STARMASS_UPPER_LIMIT if comp
               else STATE_NS_STARMASS_LOWER_LIMIT)
        if S.decide(m <= STATE_WD_STARMASS_UPPER_LIMIT) and (
                comp or S.decide(m < lim)):
            want = 'WD'
        else:
            want = 'NS' if S.decide(m <= STATE_NS_STARMASS_UPPER_LIMIT) \
                else 'BH'
        S.check('compact-state', s.state == want)
    else:
        S.check('state', s.state == st)
    Y = ss.zams_table[Z]
    ZZ = Z * ss.Zsun
    if 'center_h1' not in given:
        x = s.center_h1
        if CO:
            S.check('no-composition', S.isnan(x))
        elif 'Core_H_burning' in st:
            S.check('initial-hydrogen', S.eq(x, 1 - Y - ZZ))
        else:
            S.check('hydrogen-exhausted', S.le(x, 0.011) and S.ge(x, 0))
    if 'center_he4' not in given:
        y = s.center_he4
        if CO:
            S.check('no-composition', S.isnan(y))
        elif 'Core_H_burning' in st:
            S.check('initial-helium', S.eq(y, Y))
        elif 'Core_He_burning' in st or st == 'H-rich_Shell_H_burning' \
                or st in ('H-rich_non_burning', 'accreted_He_non_burning'):
            x = s.center_h1 if 'center_h1' not in given else None
            if x is not None:
                S.check('core-sums-to-one', S.eq(x + y + ZZ, 1.0))
        elif 'C_burning' in st or 'stripped_He_non' in st \
                or 'stripped_He_Shell' in st:
            S.check('helium-exhausted', S.le(y, 0.01))
    if 'he_core_mass' not in given:
        c = s.he_core_mass
        if CO:
            S.check('no-helium-core', S.isnan(c))
        elif 'Core_H_burning' in st:
            S.check('no-helium-core', c == 0)
        elif 'Core_He_burning' in st or 'C_burning' in st:
            S.check('helium-core', S.eq(c, m))
