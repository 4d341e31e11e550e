"""Selection of transients from a population."""
import contextlib
import types

import numpy as np
import pandas as pd

import posydon.popsyn.GRB as grb
import posydon.popsyn.selection_effects as se
import posydon.popsyn.synthetic_population as sp
import posydon.popsyn.transient_select_funcs as tsf
import posydon.utils.constants as const
from symex.run import harness
from symex.stub import replaced

REG = []
META = {
    'P21': dict(assumptions=[
        "1-3 binaries of 2-4 history rows, in chunks of 1-3; masses in "
        "[0.1, 100] Msun, spins in [0, 1], tilts in [0, pi]; sine, cosine and "
        "powers uninterpreted; the detection-probability regressor and the "
        "HDF5 store are stand-ins with arbitrary content"]),
}


def col(S, v):
    a = np.empty(len(v), dtype=object if S.symbolic else float)
    a[:] = v
    return a


@harness(REG, 'P21', bounds='1-2 binaries, any masses, spins (also missing) '
         'and tilts')
def derived(S):
    n = S.pick('n', [1, 2])
    gap = S.pick('missing', [None, 'a1', 'a2', 't1', 't2']) if n == 1 \
        else None
    m1 = [S.real('m1%d' % i, 0.1, 100) for i in range(n)]
    m2 = [S.real('m2%d' % i, 0.1, 100) for i in range(n)]
    a1 = [S.real('a1%d' % i, 0, 1) for i in range(n)]
    a2 = [S.real('a2%d' % i, 0, 1) for i in range(n)]
    t1 = [S.real('t1%d' % i, 0, 3.14159) for i in range(n)]
    t2 = [S.real('t2%d' % i, 0, 3.14159) for i in range(n)]
    v = dict(a1=a1, a2=a2, t1=t1, t2=t2)
    if gap:
        v[gap][0] = float('nan')
    idx = [7 * i + 3 for i in range(n)]

    def ser(x):
        return pd.Series(col(S, x), index=idx)
    with replaced(tsf, 'Pwarn', lambda *a: None):
        x = tsf.chi_eff(ser(m1), ser(m2), ser(a1), ser(a2), ser(t1), ser(t2))
    mc = tsf.m_chirp(ser(m1), ser(m2))
    q = tsf.mass_ratio(ser(m1), ser(m2))
    for i, k in enumerate(idx):
        z = {g: (0.0 if gap == g and i == 0 else v[g][i]) for g in v}
        M = m1[i] + m2[i]
        S.check('chi-eff', S.eq(
            x[k] * M, m1[i] * z['a1'] * np.cos(z['t1'])
            + m2[i] * z['a2'] * np.cos(z['t2'])))
        S.check('chirp-mass', S.eq(mc[k], (m1[i] * m2[i]) ** (3 / 5)
                                   / M ** (1 / 5)))
        hi = m1[i] if S.decide(m1[i] >= m2[i]) else m2[i]
        S.check('mass-ratio', S.eq(q[k] * hi, M - hi))
    if not gap and n == 1:
        p = tsf.effective_precession(col(S, t1), col(S, t2), col(S, a1),
                                     col(S, a2), col(S, m1), col(S, m2))
        for i in range(n):
            S.assume(S.And(np.sin(t1[i]) >= 0, np.sin(t2[i]) >= 0))
            r = m2[i] / m1[i]
            A = a1[i] * np.sin(t1[i])
            B = r * (4 * r + 3) / (4 + 3 * r) * a2[i] * np.sin(t2[i])
            S.check('precession', S.eq(p[i], A if S.decide(A >= B) else B))


def population(S, n, story, extra):
    """history and oneline of n binaries with the given stories (lists of
    rows), symbolic numeric columns"""
    idx, rows = [], []
    for k in range(n):
        for j, r in enumerate(story[k]):
            idx.append(10 + 5 * k)
            d = dict(r)
            for c, (lo, hi) in extra.items():
                d[c] = S.real('%s_%d_%d' % (c, k, j), lo, hi)
            rows.append(d)
    h = pd.DataFrame({c: pd.Series(
        [r[c] for r in rows], index=idx,
        dtype=object if S.symbolic or isinstance(rows[0][c], str) else None)
        for c in rows[0]})
    return h, rows


NUM = dict(time=(0, 1e9), S1_mass=(0.1, 100), S2_mass=(0.1, 100),
           S1_spin=(0, 1), S2_spin=(0, 1), orbital_period=(0.1, 100),
           eccentricity=(0, 0.9))


def row(step, s1, s2, event=None, state='detached'):
    return dict(step_names=step, S1_state=s1, S2_state=s2,
                event=event or 'x', state=state)


H = 'H-rich_Core_H_burning'


@harness(REG, 'P21', bounds='1-2 binary black holes with any numbers; either '
         'star collapses last; with and without formation channels')
def black_hole_mergers(S):
    n = S.pick('n', [1, 2])
    last = [S.pick('last%d' % i, [1, 2]) for i in range(n)]
    chan = S.pick('channels', [True, False])
    story = []
    for i in range(n):
        a, b = ('BH', H) if last[i] == 2 else (H, 'BH')
        story.append([row('initial_cond', H, H, 'ZAMS'),
                      row('step_SN', a, b),
                      row('step_detached', a, b),
                      row('step_SN', 'BH', 'BH'),
                      row('step_dco', 'BH', 'BH', 'CO_contact', 'contact'),
                      row('step_end', 'BH', 'BH', 'END', 'contact')])
    h, rows = population(S, n, story, NUM)
    idx = [10 + 5 * k for k in range(n)]
    o = {c: [S.real('%s%d' % (c, k), 0, 3) for k in range(n)] for c in (
        'metallicity', 'S1_spin_orbit_tilt_second_SN',
        'S2_spin_orbit_tilt_second_SN')}
    one = pd.DataFrame({c: pd.Series(v, index=idx, dtype=object if S.symbolic
                                     else None) for c, v in o.items()})
    fc = pd.DataFrame({'channel': ['c%d' % k for k in range(n)],
                       'channel_debug': ['d'] * n}, index=idx)
    df = tsf.BBH_selection_function(h, one, fc if chan else None)
    S.check('selected', list(df.index) == idx)
    S.check('channel', list(df['channel']) == list(fc['channel']) if chan
            else 'channel' not in df)
    for k in range(n):
        g, end, r = idx[k], rows[6 * k + 5], rows[6 * k + 3]
        S.check('time', S.And(
            S.eq(df['time'][g], end['time'] * 1e-6),
            S.eq(df['t_inspiral'][g] * 1e6, end['time'] - r['time'],
                 1e-6, 1e-3)))
        S.check('states', df['S1_state'][g] == df['S2_state'][g] == 'BH')
        for c in ('S1_mass', 'S2_mass', 'S1_spin', 'S2_spin',
                  'orbital_period', 'eccentricity'):
            S.check('second-collapse', S.eq(df[c][g], r[c]))
        S.check('metallicity', S.eq(df['metallicity'][g],
                                    o['metallicity'][k]))
        t = [o['S%d_spin_orbit_tilt_second_SN' % s][k] for s in (1, 2)]
        for s in (1, 2):
            S.check('tilt', S.eq(df['S%d_spin_orbit_tilt_at_merger' % s][g],
                                 t[s - 1]))
        M = r['S1_mass'] + r['S2_mass']
        S.check('chi-eff', S.eq(
            df['chi_eff'][g] * M, r['S1_mass'] * r['S1_spin'] * np.cos(t[0])
            + r['S2_mass'] * r['S2_spin'] * np.cos(t[1])))
        S.check('chirp-mass', S.eq(
            df['chirp_mass'][g], (r['S1_mass'] * r['S2_mass']) ** (3 / 5)
            / M ** (1 / 5)))
        hi = r['S1_mass'] if S.decide(r['S1_mass'] >= r['S2_mass']) \
            else r['S2_mass']
        S.check('mass-ratio', S.eq(df['mass_ratio'][g] * hi, M - hi))


@harness(REG, 'P21', bounds='1-3 binaries, disc masses of either sign, any '
         'order of the collapses')
def gamma_ray_bursts(S):
    n = S.pick('n', [1, 2, 3])
    which = S.pick('star', ['S1', 'S2'])
    chan = S.pick('channels', [True, False])
    first = [S.pick('first%d' % i, [1, 2]) for i in range(n)]
    story = []
    for i in range(n):
        a, b = ('BH', H) if first[i] == 1 else (H, 'BH')
        story.append([row('initial_cond', H, H, 'ZAMS'),
                      row('step_SN', a, b), row('step_SN', 'BH', 'BH'),
                      row('step_end', 'BH', 'BH', 'END')])
    num = dict(time=(0, 1e9), S1_mass=(0.1, 100), S2_mass=(0.1, 100),
               S1_spin=(0, 1), S2_spin=(0, 1), orbital_period=(0.1, 100),
               eccentricity=(0, 0.9))
    h, rows = population(S, n, story, num)
    idx = [10 + 5 * k for k in range(n)]
    disc = {s: [S.real('disc%s%d' % (s, k), -1, 1) for k in range(n)]
            for s in ('S1', 'S2')}
    Z = [S.real('Z%d' % k, 0, 1) for k in range(n)]
    one = pd.DataFrame({
        'metallicity': Z, 'S1_m_disk_radiated': disc['S1'],
        'S2_m_disk_radiated': disc['S2']}, index=idx,
        dtype=object if S.symbolic else None)
    fc = pd.DataFrame({'channel': [
        'A%d_CC1_B_CC2_END' % k if first[k] == 1 else 'A%d_CC2_B_CC1_END' % k
        for k in range(n)]}, index=idx)
    df = tsf.GRB_selection(h, one, fc if chan else None, S1_S2=which)
    sel = [k for k in range(n) if S.decide(disc[which][k] > 0)]
    if not sel:
        S.check('selected', len(df) == 0)
        return
    S.check('selected', list(df.index) == [idx[k] for k in sel])
    other = 'S2' if which == 'S1' else 'S1'
    S.check('columns', '%s_m_disk_radiated' % other not in df)
    for k in sel:
        g = idx[k]
        post = 1 if first[k] == int(which[1]) else 2
        r1, r0 = rows[4 * k + post], rows[4 * k + post - 1]
        for c in ('orbital_period', 'eccentricity', 'S1_spin', 'S2_spin',
                  which + '_mass'):
            S.check('before-and-after', S.And(
                S.eq(df[c + '_preSN'][g], r0[c]),
                S.eq(df[c + '_postSN'][g], r1[c])))
        S.check('companion', S.eq(df[other + '_mass'][g], r1[other + '_mass']))
        S.check('time', S.eq(df['time'][g], r1['time'] * 1e-6))
        S.check('oneline', S.And(
            S.eq(df['metallicity'][g], Z[k]),
            S.eq(df[which + '_m_disk_radiated'][g], disc[which][k])))
        if chan:
            S.check('channel', df['channel'][g] == (
                'A%d_CC%s' % (k, which[1]) if post == 1 else
                'A%d_CC%s_B_CC%s' % (k, other[1], which[1])))


@harness(REG, 'P21', bounds='1-2 binaries, disc masses of either sign or '
         'missing, any efficiency and beaming, three prescriptions', stubs=[
             'random opening angle'])
def burst_energies(S):
    n = S.pick('n', [1, 2])
    beam = S.pick('beaming', ['number', 'Goldstein+15', 'Pescalli+15', 'no'])
    eta = S.real('eta', -0.5, 1.5)
    fb = S.real('fb', 0.01, 1) if beam == 'number' else beam
    emin = S.pick('emin', [0.0, 1e50])
    d = {s: [S.real('d%d%d' % (s, k), -1, 5) for k in range(n)]
         for s in (1, 2)}
    df = pd.DataFrame({'S%d_m_disk_radiated' % s: pd.Series(
        d[s], dtype=object if S.symbolic else None) for s in (1, 2)})
    ang = S.real('angle', -1, 1)
    fake = types.SimpleNamespace(random=types.SimpleNamespace(
        normal=lambda m, s, k: np.array([ang] * k, dtype=object
                                        if S.symbolic else float)))
    import numpy.random as nr
    try:
        with replaced(grb, 'Pwarn', lambda *a: None), replaced(
                nr, 'normal', fake.random.normal):
            r = grb.get_GRB_properties(df, eta, fb, emin)
    except ValueError:
        S.check('refused', S.Or(eta < 0, eta > 1, beam == 'no'))
        return
    S.check('refused', S.And(eta >= 0, eta <= 1, beam != 'no'))
    for s in (1, 2):
        for k in range(n):
            g = {c: r['S%d_%s' % (s, c)][k] for c in (
                'eta', 'f_beaming', 'E_GRB', 'E_GRB_iso', 'L_GRB_iso')}
            if not S.decide(d[s][k] > 0):
                S.check('no-burst', S.And(
                    S.isnan(g['eta']), S.isnan(g['f_beaming']),
                    S.eq(g['E_GRB'], 0.0), S.eq(g['E_GRB_iso'], 0.0),
                    S.eq(g['L_GRB_iso'], 0.0), S.Not(r['GRB%d' % s][k])))
                continue
            E = eta * d[s][k] * const.Msun * const.clight ** 2
            S.check('energy', S.And(S.eq(g['eta'], eta), S.eq(g['E_GRB'], E)))
            if beam == 'number':
                S.check('beaming', S.eq(g['f_beaming'], fb))
            elif beam == 'Goldstein+15':
                S.check('beaming', S.eq(g['f_beaming'], 1 - np.cos(
                    10 ** ang / 180. * np.pi)))
            if S.decide(g['f_beaming'] > 0):
                S.check('isotropic', S.And(
                    S.eq(g['E_GRB_iso'] * g['f_beaming'], g['E_GRB']),
                    S.eq(g['L_GRB_iso'] * 25, g['E_GRB_iso'])))
                S.check('threshold', S.iff(r['GRB%d' % s][k],
                                           g['E_GRB_iso'] >= emin))


@harness(REG, 'P21', bounds='1-2 binaries, 1-2 redshift bins, redshifts '
         'possibly undefined, with and without given mass ratios and spins',
         stubs=['detection probability: arbitrary per binary and bin'])
def detectability(S):
    n, nz = S.pick('n', [1, 2]), S.pick('nz', [1, 2])
    given = S.pick('given', [(), ('q',), ('chi_eff',)])
    key = S.pick('sensitivity', ['O3actual_H1L1V1', 'O4low_H1L1V1',
                                 'O4high_H1L1V1', 'design_H1L1V1', 'other'])
    if key != 'O3actual_H1L1V1':
        n = nz = 1
    cols = dict(S1_mass=(0.1, 100), S2_mass=(0.1, 100), S1_spin=(0, 1),
                S2_spin=(0, 1), S1_spin_orbit_tilt_at_merger=(0, 3),
                S2_spin_orbit_tilt_at_merger=(0, 3), q=(0.1, 1),
                chi_eff=(-1, 1))
    d = {c: [S.real('%s%d' % (c, k), lo, hi) for k in range(n)]
         for c, (lo, hi) in cols.items()
         if c not in ('q', 'chi_eff') or c in given}
    idx = [3, 8][:n]
    dt = object if S.symbolic else None
    pop = pd.DataFrame(d, index=idx, dtype=dt)
    z = [[float('nan') if S.pick('zn%d%d' % (k, j), [False, True]) else
          S.real('z%d%d' % (k, j), 0.01, 10) for j in range(nz)]
         for k in range(n)]
    w = [[S.real('w%d%d' % (k, j), 0, 9) for j in range(nz)]
         for k in range(n)]
    Z = pd.DataFrame(z, index=idx, dtype=dt)
    W = pd.DataFrame(w, index=idx, dtype=dt)
    asked = []

    class Model:
        def __init__(self, grid_path=None, sensitivity_key=None):
            self.key = sensitivity_key

        def predict_pdet(self, data):
            out = []
            for i in range(len(data)):
                r = data.iloc[i]
                asked.append((self.key, r))
                out.append(S.real('p%d' % (len(asked) - 1), 0, 1))
            return col(S, out)
    with replaced(se, 'KNNmodel', Model):
        try:
            r = tsf.DCO_detectability(key, pop, Z, W.copy())
        except ValueError:
            S.check('sensitivity', key == 'other')
            return
    S.check('sensitivity', key != 'other')
    S.check('index', list(r.index) == idx and r.shape == (n, nz))
    m = 0
    for j in range(nz):
        for k in range(n):
            if isinstance(z[k][j], float) and np.isnan(z[k][j]):
                S.check('undefined', S.eq(r.iloc[k, j], w[k][j]))
                continue
            p = S.real('p%d' % m, 0, 1)
            kk, a = asked[m]
            m += 1
            S.check('weight', S.eq(r.iloc[k, j], w[k][j] * p))
            m1, m2 = d['S1_mass'][k], d['S2_mass'][k]
            S.check('redshift', S.And(kk == key, S.eq(a['z'], z[k][j])))
            if 'q' in given:
                S.check('given', S.eq(a['q'], d['q'][k]))
            else:
                hi = m1 if S.decide(m1 >= m2) else m2
                S.check('primary', S.And(
                    S.eq(a['m1'], hi), S.eq(a['q'] * hi, m1 + m2 - hi)))
            if 'chi_eff' in given:
                S.check('given', S.eq(a['chieff'], d['chi_eff'][k]))
            else:
                S.check('spin', S.eq(
                    a['chieff'] * (m1 + m2),
                    m1 * d['S1_spin'][k] * np.cos(
                        d['S1_spin_orbit_tilt_at_merger'][k])
                    + m2 * d['S2_spin'][k] * np.cos(
                        d['S2_spin_orbit_tilt_at_merger'][k])))
    S.check('once', m == len(asked))


class Table:
    """Stand-in for the history and oneline tables on disk."""

    def __init__(self, df):
        self.df = df
        self.columns = list(df.columns)

    def select(self, start=None, stop=None, columns=None):
        return self.df.iloc[start:stop][list(columns)].copy()


class Store:
    data = {}

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def keys(self):
        return list(self.data)

    def append(self, key, df, **k):
        if len(df):
            self.data.setdefault('/' + key, []).append(df.copy())

    def __delitem__(self, key):
        del self.data['/' + key]


class Pd:
    HDFStore = Store

    def __getattr__(self, k):
        return getattr(pd, k)


EV = ['ZAMS', 'oRLO1', 'CC1', 'redirect_from_ZAMS', 'redirect_from_CO_HMS_RLO',
      'redirect_from_CO_HeMS_RLO', 'redirect_from_CO_HeMS', 'CO_contact']


def pop_object(n, events, extra, chunk):
    idx = [10 + 5 * k for k in range(n)]
    hi = [i for i, e in zip(idx, events) for _ in e]
    p = sp.Population.__new__(sp.Population)
    p.verbose, p.filename, p.chunksize = False, 'f', chunk
    p.history = Table(pd.DataFrame(
        {'event': [e for ev in events for e in ev],
         'time': np.arange(float(len(hi)))}, index=hi))
    p.oneline = Table(pd.DataFrame(extra, index=idx))
    return p, idx, pd.DataFrame({'length': [len(e) for e in events]},
                                index=idx)


@harness(REG, 'P21', bounds='1-3 binaries of 2-3 events each out of the '
         'vocabulary, chunks of 1-3, every mass-transfer class', stubs=[
             'HDF5 store'])
def formation_channels(S):
    vary = S.pick('vary', ['events', 'class'])
    n = S.pick('n', [1, 2] if vary == 'events' else [1, 2, 3])
    chunk = S.pick('chunk', [1, 2] if vary == 'events' else [1, 2, 3])
    mt = vary == 'class' and S.pick('mt_history', [False, True])
    names = {'initial_MT': 'initial_MT', 'stable_MT': 'oRLO1',
             'stable_reverse_MT': 'oRLO1-reverse', 'no_MT': 'None',
             'unstable_MT': 'oCE1/oDoubleCE1', None: None}
    v = S.pick('varied', list(range(n)))
    cls, events, his = [], [], []
    for k in range(n):
        cls.append(S.pick('class', list(names)) if k == v and vary == 'class'
                   else 'stable_MT')
        events.append(['ZAMS'] + [None] * (k % 2) + (
            [S.pick('e1', EV[1:]), S.pick('e2', [None] + EV[3:])]
            if k == v and vary == 'events' else ['oRLO1', 'CC1']) + ['END'])
        his.append(S.pick('his', [None, 'Stable contact phase', 'x'])
                   if k == v and mt else 'Stable contact phase')
    p, idx, lengths = pop_object(n, events, {
        'interp_class_HMS_HMS': cls, 'mt_history_HMS_HMS': his}, chunk)
    Store.data = {'/formation_channels': ['old']} if n == 1 and \
        S.pick('existing', [False, True]) else {}

    class P(sp.Population):
        indices = idx
        history_lengths = lengths
    p.__class__ = P
    with replaced(sp, 'pd', Pd()), contextlib.redirect_stdout(None):
        p.calculate_formation_channels(mt_history=mt)
    got = pd.concat(Store.data['/formation_channels'])
    S.check('complete', list(got.index) == idx)
    for k in range(n):
        ev = [e for e in events[k] if e is not None]
        c = names[cls[k]]
        if c in ('oRLO1', 'oRLO1-reverse'):
            ev[0] += '_' + c
        S.check('events', got['channel_debug'][idx[k]] == '_'.join(ev))
        w = '_'.join(e for e in ev if not e.startswith('redirect_from')
                     and e != 'CO_contact')
        if mt and his[k] == 'Stable contact phase':
            w = w.replace('oRLO1', 'oRLO1-contact')
        S.check('channel', got['channel'][idx[k]] == w)


@harness(REG, 'P21', bounds='1-4 binaries of 1-3 rows in chunks of 1-3; any '
         'subset of chunks without a selected binary', stubs=['HDF5 store'])
def selection_by_chunks(S):
    n, chunk = S.pick('n', [1, 2, 3, 4]), S.pick('chunk', [1, 2, 3])
    have = S.pick('channels', [True, False])
    bad = S.pick('bad', [None, 'time', 'metallicity'])
    events = [['a%d%d' % (k, j) for j in range(1 + k % 3)] for k in range(n)]
    none = [S.pick('none%d' % k, [False, 'bare']) for k in range(n)]
    p, idx, lengths = pop_object(n, events, {
        'metallicity': [0.1 * k for k in range(n)]}, chunk)
    fc = pd.DataFrame({'channel': ['c%d' % k for k in range(n)]}, index=idx)
    Store.data = {'/transients/T': ['old']} if S.pick(
        'existing', [False, True]) else {}

    class P(sp.Population):
        indices = idx
        history_lengths = lengths
        formation_channels = fc if have else None
    p.__class__ = P
    seen = []

    def func(h, o, c):
        seen.append((list(h['event']), list(h.index), list(o.index),
                     None if c is None else list(c.index)))
        ks = [idx.index(i) for i in o.index if not none[idx.index(i)]]
        if not ks:
            return pd.DataFrame()
        d = pd.DataFrame({'time': [1.0 * k for k in ks],
                          'metallicity': [2.0 * k for k in ks]},
                         index=[idx[k] for k in ks])
        return d.drop(columns=[bad]) if bad else d
    with replaced(sp, 'pd', Pd()), replaced(
            sp, 'TransientPopulation', lambda *a, **k: ('T', a)), replaced(
            sp, 'Pwarn', lambda *a: None), contextlib.redirect_stdout(
            None):
        try:
            r = p.create_transient_population(func, 'T')
        except ValueError:
            S.check('columns', bad is not None and not all(none))
            return
    S.check('columns', bad is None or all(none))
    m = [list(range(i, min(i + chunk, n))) for i in range(0, n, chunk)]
    S.check('chunks', seen == [(
        [e for k in c for e in events[k]],
        [idx[k] for k in c for e in events[k]], [idx[k] for k in c],
        [idx[k] for k in c] if have else None) for c in m])
    if all(none):
        S.check('empty', r is None and '/transients/T' not in Store.data)
        return
    got = pd.concat(Store.data['/transients/T'])
    ks = [k for k in range(n) if not none[k]]
    S.check('selected', list(got.index) == [idx[k] for k in ks]
            and list(got['time']) == [1.0 * k for k in ks]
            and r[0] == 'T')
