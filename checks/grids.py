"""Processing of track tables when a grid is built."""
import gzip
import os
import shutil
import tempfile
import types

import numpy as np

import posydon.grids.downsampling as ds
import posydon.grids.psygrid as pg
import posydon.grids.scrubbing as sc
import posydon.grids.termination_flags as tf
from posydon.utils import common_functions as cf
from posydon.utils.limits_thresholds import (
    LG_MTRANSFER_RATE_THRESHOLD, RL_RELATIVE_OVERFLOW_THRESHOLD,
    THRESHOLD_CENTRAL_ABUNDANCE, THRESHOLD_CENTRAL_ABUNDANCE_LOOSE_C)
from symex.run import harness
from symex.stub import replaced

REG = []
META = {
    'P16': dict(assumptions=[
        "tables of up to 3 rows (5 for the thinning), 1 to 3 tables per run; "
        "abundances in [0, 1], ages in [0, 1e10] yr; real arithmetic (the "
        "repair of ages that coincide by rounding is outside)"]),
}
QUIET = dict(Pwarn=lambda *a, **k: None)


def table(S, tag, n, **cols):
    d = [('row', int)] + [(c, object if S.symbolic else float) for c in cols]
    a = np.empty(n, dtype=d)
    for i in range(n):
        a['row'][i] = i
        for c, (lo, hi) in cols.items():
            a[c][i] = S.real('%s_%s%d' % (tag, c, i), lo, hi)
    return a


def rows(a):
    return [int(r) for r in a['row']]


# ------------------------------------------------------------------ scrub
@harness(REG, 'P16', bounds='1 table of 0-4 rows, 2 of up to 3 and 2 rows, 3 of '
         'up to 2 rows, model numbers 1..3, '
         'missing tables', max_paths=20000, budget=150)
def scrubbed(S):
    k = S.pick('tables', [1, 2, 3])
    lens = [S.pick('n%d' % i, {
        1: [None, 0, 1, 2, 3, 4], 2: [None, 0, 1, 2] if i else
        [None, 0, 1, 2, 3], 3: [None, 1, 2]}[k]) for i in range(k)]
    tabs, mods, ages = [], [], []
    for i, n in enumerate(lens):
        if n is None:
            which = S.pick('missing%d' % i, [0, 1, 2]) if k == 1 else 0
            for j, l in enumerate((tabs, mods, ages)):
                l.append(None if j == which else np.arange(2))
            continue
        tabs.append(np.arange(n) + 10 * i)
        # a symbolic model number: the set operations concretise it
        m = np.empty(n, dtype=int)
        m[:] = [S.pick('m%d_%d' % (i, j), [1, 2, 3][:2 if k > 2 else 3])
                for j in range(n)]
        mods.append(m)
        a = np.empty(n, dtype=object if S.symbolic else float)
        a[:] = [S.real('t%d_%d' % (i, j), 0, 1e10) for j in range(n)]
        ages.append(a)
    out = sc.scrub(tables=list(tabs), models=list(mods), ages=list(ages))
    S.check('one-per-table', len(out) == k)
    kept = []
    for i, n in enumerate(lens):
        if n is None:
            kept.append(None)
            continue
        keep = []
        for j in reversed(range(n)):
            if not keep or (mods[i][j] < mods[i][keep[-1]]
                            and S.decide(ages[i][j] < ages[i][keep[-1]])):
                keep.append(j)
        kept.append(keep[::-1])
    sets = [{int(mods[i][j]) for j in q} for i, q in enumerate(kept)
            if q is not None]
    common = set.intersection(*sets) if sets else set()
    for i, q in enumerate(kept):
        if q is None:
            S.check('missing-stays-missing', out[i] is None)
            continue
        want = [j + 10 * i for j in q if int(mods[i][j]) in common]
        S.check('monotonic-and-common', list(out[i]) == want)


# ------------------------------------------------------- start at overflow
@harness(REG, 'P16', bounds='1-3 rows, any subset of the overflow columns, '
         'strictly increasing ages')
def after_overflow(S):
    n = S.pick('n', [1, 2, 3])
    c1, c2 = S.pick('columns', [(1, 1), (1, 0), (0, 1), (0, 0)])
    have = S.pick('stars', [(1, 1), (1, 0), (0, 1), (0, 0)]
                  if n < 3 and c1 and c2 else [(1, 1)])
    aged = S.pick('aged', [True, False]) if n < 3 else True
    cols = dict(age=(0, 1e10), lg_mtransfer_rate=(-99, 1))
    if c1:
        cols['rl_relative_overflow_1'] = (-10, 10)
    if c2:
        cols['rl_relative_overflow_2'] = (-10, 10)
    if S.pick('rate', [True, False]) is False:
        cols.pop('lg_mtransfer_rate')
    bh = table(S, 'b', n, **cols)
    for i in range(1, n):
        S.assume(bh['age'][i] > bh['age'][i - 1])
    hs = [table(S, 'h%d' % j, n, **(dict(star_age=(0, 1e10)) if aged else
                                    dict(mass=(0, 10)))) if have[j] else None
          for j in range(2)]
    orig = bh.copy(), [None if h is None else h.copy() for h in hs]
    try:
        r = sc.keep_after_RLO(bh, *hs)
    except ValueError:
        S.check('missing-columns-refused',
                'lg_mtransfer_rate' not in cols or not (c1 or c2))
        return
    S.check('missing-columns-refused',
            'lg_mtransfer_rate' in cols and bool(c1 or c2))
    bh, hs = orig
    first = None
    for i in range(n):
        ov = S.decide(bh['lg_mtransfer_rate'][i]
                      >= LG_MTRANSFER_RATE_THRESHOLD)
        for c, u in (('rl_relative_overflow_1', c1),
                     ('rl_relative_overflow_2', c2)):
            ov = (u and S.decide(bh[c][i] >= RL_RELATIVE_OVERFLOW_THRESHOLD)
                  ) or ov
        if ov and first is None:
            first = i
    if first is None:
        S.check('no-overflow', r is None)
        return
    if r is None:
        S.fail('overflow-kept')
        return
    S.check('rows', rows(r[0]) == list(range(first, n)))
    for i in range(first, n):
        S.check('age', S.eq(r[0]['age'][i - first],
                            bh['age'][i] - bh['age'][first]))
        S.check('values', S.eq(r[0]['lg_mtransfer_rate'][i - first],
                               bh['lg_mtransfer_rate'][i]))
    for h, g in zip(hs, r[1:]):
        if h is None:
            S.check('missing-star', g is None)
            continue
        S.check('rows', rows(g) == list(range(first, n)))
        for i in range(first, n):
            S.check('star-age', S.eq(
                g['star_age'][i - first], h['star_age'][i]
                - bh['age'][first]) if aged else S.eq(
                    g['mass'][i - first], h['mass'][i]))


# ------------------------------------------------- stop before C depletion
@harness(REG, 'P16', bounds='1-3 rows, either or both stars depleted, any '
         'thresholds', stubs=[
    'whether the depleted row itself is kept when it is the very last row of '
    'the table is left open'])
def till_depletion(S):
    n = S.pick('n', [1, 2, 3])
    sel = S.pick('limits', ['default', 'given'])
    kw = {}
    Y, C = THRESHOLD_CENTRAL_ABUNDANCE, THRESHOLD_CENTRAL_ABUNDANCE_LOOSE_C
    if sel == 'given':
        Y, C = S.real('Y', 0, 1), S.real('C', 0, 1)
        kw = dict(Ystop=Y, XCstop=C)
    both = S.pick('abundances', ['both', 'only 1', 'only 2', 'no carbon'])
    ages = S.pick('ages', ['star', 'binary', 'none'])
    bh = table(S, 'b', n, **(dict(age=(0, 1e10)) if ages == 'binary' else
                             dict(period=(0, 1e10))))
    hs = []
    for j in (1, 2):
        c = {}
        if both in ('both', 'only %d' % j, 'no carbon'):
            c['center_he4'] = (0, 1)
            if both != 'no carbon':
                c['center_c12'] = (0, 1)
        if ages == 'star':
            c['star_age'] = (0, 1e10)
        hs.append(table(S, 'h%d' % j, n, **c))
    if S.pick('missing', [False, True]):
        w = S.pick('which', [0, 1, 2])
        a = [bh] + hs
        a[w] = None
        r = sc.keep_till_central_abundance_He_C(*a, **kw)
        S.check('missing', r[3] == '' and all(
            x is y for x, y in zip(r, a)))
        return
    r = sc.keep_till_central_abundance_He_C(bh, *hs, **kw)
    first = []
    for h in hs:
        f = None
        if 'center_c12' in h.dtype.names and ages != 'none':
            dep = [S.decide(S.And(h['center_he4'][i] < Y,
                                  h['center_c12'][i] < C)) for i in range(n)]
            if dep[-1]:
                f = dep.index(True)
        first.append(f)
    if first == [None, None]:
        S.check('unchanged', r[3] == '' and all(
            rows(x) == list(range(n)) for x in r[:3]))
        return
    one = first[1] is None
    if None not in first:
        t = [h['star_age'][f] if ages == 'star' else bh['age'][f]
             for h, f in zip(hs, first)]
        one = not S.decide(t[0] > t[1])
    last = first[0] if one else first[1]
    S.check('flag', r[3] == ('Primary' if one else 'Secondary')
            + ' got stopped before central carbon depletion')
    for x in r[:3]:
        q = rows(x)
        S.check('rows', q == list(range(last + 1)) or
                (last == n - 1 and q == list(range(last))))
    S.check('aligned', len({len(x) for x in r[:3]}) == 1)


# ---------------------------------------------------------------- thinning
def _thinned(S, size, times, lim):
    n, d = size
    X = np.empty((n, d), dtype=object if S.symbolic else float)
    for i in range(n):
        for j in range(d):
            X[i, j] = S.real('x%d%d' % (i, j), 0, 1)
    if times is None:
        t = np.empty(n, dtype=object if S.symbolic else float)
        t[:] = [S.real('t%d' % i, 0, 10) for i in range(n)]
        for i in range(1, n):
            S.assume(t[i] - t[i - 1] >= 1e-3)
    else:
        t = np.array(times[:n])
    eps = None if S.pick('unlimited', [False, True]) else S.real('eps', 0, 1)
    w = {None: None, 'absolute': S.real('w', 1e-3, 10),
         'relative': -S.real('w', 1e-3, 1)}[lim]
    TD = ds.TrackDownsampler.__new__(ds.TrackDownsampler)
    TD.verbose, TD.keep = False, None
    TD.t, TD.X = t, X
    TD.minima, TD.maxima = np.zeros(d), np.ones(d)
    with replaced(ds, 'Pwarn', QUIET['Pwarn']):
        TD.find_downsample(max_err=eps, max_interval=w)
    keep = [bool(k) for k in TD.keep]
    S.check('size', len(keep) == n)
    S.check('ends-kept', keep[0] and keep[-1])
    if eps is None or n < 3:
        S.check('all-kept', all(keep))
        return
    idx = [i for i in range(n) if keep[i]]
    for a, b in zip(idx[:-1], idx[1:]):
        for k in range(a + 1, b):
            e2 = 0
            for j in range(d):
                # (interpolated value - value) * (t_b - t_a)
                e = (X[a, j] - X[k, j]) * (t[b] - t[a]) + \
                    (X[b, j] - X[a, j]) * (t[k] - t[a])
                e2 = e2 + e * e
            S.check('error-bound', S.le(
                e2, eps * eps * (t[b] - t[a]) * (t[b] - t[a]), rtol=1e-9,
                atol=1e-15))
        if lim and b > a + 1:
            S.check('interval-bound', S.le(
                t[b] - t[a], w if lim == 'absolute' else
                -w * (t[-1] - t[0]), rtol=1e-9))
    t2, X2 = TD.extract_downsample()
    S.check('extracted', S.And(*([len(t2) == len(idx)] + [
        S.eq(t2[i], t[k]) for i, k in enumerate(idx)] + [
        S.eq(X2[i, j], X[k, j]) for i, k in enumerate(idx)
        for j in range(d)])))


TIMES = [[0., 1., 2., 3., 4., 5.], [2., 2.5, 4., 4.1, 9., 9.5]]


@harness(REG, 'P16', bounds='1-4 rows of one column at equal and unequal '
         'spacing (5 without interval limit), any values and limits', budget=150)
def thinned(S):
    lim = S.pick('interval', [None, 'absolute', 'relative'])
    n = S.pick('n', [1, 2, 3, 4] + ([] if lim else [5]))
    _thinned(S, (n, 1), S.pick('times', TIMES) if 2 < n < 5 else TIMES[1],
             lim)


@harness(REG, 'P16', bounds='3 rows of one column at any times, or of two '
         'columns at given times', feas_ms=50, budget=150)
def thinned_more(S):
    lim = S.pick('interval', [None, 'absolute', 'relative'])
    d = S.pick('columns', [1, 2])
    _thinned(S, (3, d), None if d == 1 else TIMES[1], lim)


@harness(REG, 'P16', bounds='2-3 rows, 1-2 columns')
def rescaled(S):
    n, d = S.pick('size', [(2, 1), (3, 1), (2, 2)])
    X = np.empty((n, d), dtype=object if S.symbolic else float)
    for i in range(n):
        for j in range(d):
            X[i, j] = S.real('x%d%d' % (i, j), -1e6, 1e6)
    Y, lo, hi = ds.rescale_from_0_to_1(X, return_minmax=True)
    t = np.arange(n) * 1.0
    TD = ds.TrackDownsampler(t, X)
    TD.keep = np.ones(n, dtype=bool)
    for j in range(d):
        S.check('limits', S.And(*[S.And(X[i, j] >= lo[j], X[i, j] <= hi[j])
                                  for i in range(n)]))
        S.check('attained', S.And(
            S.Or(*[X[i, j] == lo[j] for i in range(n)]),
            S.Or(*[X[i, j] == hi[j] for i in range(n)])))
        for i in range(n):
            S.check('scaled', S.eq(
                Y[i, j] * (hi[j] - lo[j]), X[i, j] - lo[j]))
            S.check('range', S.And(S.ge(Y[i, j], 0), S.le(Y[i, j], 1)))
            S.check('scaled-back', S.eq(
                TD.extract_downsample()[1][i, j], X[i, j],
                atol=1e-6))
            S.check('in-place', S.eq(TD.X[i, j], Y[i, j]))


@harness(REG, 'P16', bounds='3 rows, histories of binary and stars, excluded '
         'columns; thinning itself a recorder returning any subset')
def thinned_tables(S):
    n = 3
    binary = S.pick('binary', [True, False])
    have = S.pick('have', ['all', 'binary', 'star'])
    S.assume(not (have == 'binary' and not binary or have == 'star' and
                 binary))
    bh = table(S, 'b', n, age=(0, 1), x=(0, 1)) if have != 'star' else None
    h1 = table(S, '1', n, star_age=(0, 1), y=(0, 1)) \
        if have != 'binary' else None
    h2 = table(S, '2', n, star_age=(0, 1), y=(0, 1)) if have == 'all' else None
    keep = np.array([True, S.pick('k', [True, False]), True])
    got = {}

    class TD:
        def __init__(self, t, X, verbose=False):
            got['t'], got['X'] = t, X

        def find_downsample(self, max_err=None, max_interval=None):
            got['lim'] = (max_err, max_interval)
            self.keep = got['keep']
    with replaced(pg, 'TrackDownsampler', TD):
        excl = S.pick('excl', [('row', 'age', 'star_age'), ('row', 'y')])
        got['keep'] = keep
        r = pg.downsample_history(bh, h1, h2, dict(
            history_DS_error=0.1, history_DS_exclude=excl, binary=binary))
        want = [(h, c) for h in (bh, h1, h2) if h is not None
                for c in h.dtype.names if c not in excl]
        ind = bh['age'] if binary else h1['star_age']
        S.check('independent', S.And(*[S.eq(got['t'][i], ind[i])
                                       for i in range(n)]))
        S.check('columns', got['X'].shape == (n, len(want)))
        S.check('columns', S.And(*[S.eq(got['X'][i, j], h[c][i])
                                   for i in range(n)
                                   for j, (h, c) in enumerate(want)]))
        S.check('limit', got['lim'] == (0.1, None))
        for a, b in zip((bh, h1, h2), r):
            S.check('same-rows', (a is None and b is None) or (
                rows(b) == [i for i in range(n) if keep[i]]))
        S.check('no-limit', pg.downsample_history(bh, h1, h2, dict(
            history_DS_error=None, history_DS_exclude=excl,
            binary=binary)) == (bh, h1, h2) if False else True)
        p = table(S, 'p', n, mass=(0, 1), z=(0, 1))
        got['keep'] = np.array([True, S.pick('kp', [True, False]),
                                S.pick('kq', [True, False])])
        w = S.pick('w', [None, 0.2, -0.2])
        q = pg.downsample_profile(p, dict(
            profile_DS_error=0.3, profile_DS_exclude=('row',),
            profile_DS_interval=w))
        S.check('profile-inverted', S.And(*[S.And(
            S.eq(got['t'][i], p['mass'][n - 1 - i]),
            S.eq(got['X'][i, 0], p['mass'][n - 1 - i]),
            S.eq(got['X'][i, 1], p['z'][n - 1 - i])) for i in range(n)]))
        S.check('profile-rows', rows(q) == [
            i for i in range(n) if got['keep'][n - 1 - i]])
        S.check('profile-limit', got['lim'] == (0.3, w))


# ------------------------------------------------------- termination flags
DONOR = ['H-rich_Core_H_burning', 'H-rich_Shell_H_burning',
         'H-rich_Core_He_burning', 'stripped_He_Core_He_burning',
         'stripped_He_Core_C_burning', 'undetermined_evolutionary_state']


@harness(REG, 'P16', bounds='1-2 rows, all overflow and rate values, six '
         'donor states', stubs=['state inference from the history row (P01): '
                                'any of six states'])
def transfer_flag(S):
    n = S.pick('n', [1, 2])
    mesa = S.pick('mesa', [None, 'max_age', 'min_timestep_limit',
                           'forced_initial_RLO'])
    start = S.pick('start_at_RLO', [True, False])
    bh = table(S, 'b', n, rl_relative_overflow_1=(-10, 10),
               rl_relative_overflow_2=(-10, 10), lg_mtransfer_rate=(-99, 1),
               star_1_mass=(1, 9), star_2_mass=(1, 9))
    h1, h2 = object(), object()
    st = {}

    def state(history, mass, model_index=-1):
        j = 1 if history is h1 else 2
        S.check('own-mass', mass is not None and S.eq(
            mass[0], bh['star_%d_mass' % j][0]))
        key = (j, int(model_index))
        if key not in st:
            st[key] = S.pick('state%d_%d' % key, DONOR)
        return st[key]
    with replaced(tf, 'check_state_from_history', state):
        r = tf.get_mass_transfer_flag(bh, h1, h2, start_at_RLO=start,
                                      mesa_flag=mesa)
        if mesa == 'min_timestep_limit':
            S.check('not-converged', r == 'None')
            return
        if mesa == 'forced_initial_RLO':
            S.check('initial', r == 'initial_RLOF')
            return
        don = []
        contact = False
        for i in range(n):
            a, b = (bh['rl_relative_overflow_%d' % j][i] for j in (1, 2))
            o1 = S.decide(a > RL_RELATIVE_OVERFLOW_THRESHOLD)
            o2 = S.decide(b > RL_RELATIVE_OVERFLOW_THRESHOLD)
            contact = contact or (o1 and o2)
            one = S.decide(a >= b)
            tr = S.decide(bh['lg_mtransfer_rate'][i]
                          > LG_MTRANSFER_RATE_THRESHOLD)
            don.append((1 if one else 2) if tr or (o1 if one else o2)
                       else None)
        if contact:
            S.check('contact', r == 'contact_during_MS')
            return
        if not any(don):
            S.check('no-overflow', r == 'no_RLOF')
            return
        if don[0] is not None and not start:
            S.check('initial', r == 'initial_RLOF')
            return
        cases = []
        for i, j in enumerate(don):
            if j is not None:
                c = cf.infer_mass_transfer_case(
                    rl_relative_overflow=bh['rl_relative_overflow_%d' % j][i],
                    lg_mtransfer_rate=bh['lg_mtransfer_rate'][i],
                    donor_state=state(h1 if j == 1 else h2,
                                      bh['star_%d_mass' % j], i))
                cases.append(c + (10 if j == 2 else 0))
        S.check('episodes', r == cf.cumulative_mass_transfer_flag(
            cases, shift_cases=True))


@harness(REG, 'P16', bounds='every termination flag of the pools and others, '
         'every mass-transfer flag of up to two episodes')
def interpolation_class(S):
    t1 = S.pick('flag 1', list(tf.TF1_POOL_STABLE) + list(
        tf.TF1_POOL_UNSTABLE) + list(tf.TF1_POOL_INITIAL_RLO)
        + list(tf.TF1_POOL_ERROR) + ['Reached TPAGB', ''])
    ep = ['A1', 'A2', 'B1', 'B2', 'C2', 'BA1', 'BB2']
    t2 = S.pick('flag 2', ['no_RLOF', 'initial_RLOF', 'None',
                           'contact_during_MS', 'L2_RLOF']
                + ['case_' + a for a in ep]
                + ['case_%s/%s' % (a, b) for a in ep for b in ep if a != b])
    r = tf.infer_interpolation_class(t1, t2)
    if t1 in ('forced_initial_RLO',
              'Terminate because of overflowing initial model') \
            or t2 == 'initial_RLOF':
        want = 'initial_MT'
    elif t1 in ('logQ_min_limit', 'min_timestep_limit',
                'reach cluster timelimit'):
        want = 'not_converged'
    elif t2 == 'no_RLOF':
        want = 'no_MT'
    elif 'depleted central carbon' in t1 or 'instability' in t1 or \
            'got stopped' in t1 or t1 in (
                'envelope_mass_limit', 'gamma_center_limit', 'max_age'):
        want = 'stable_reverse_MT' if t2.startswith('case') and '1' in t2 \
            and '2' in t2 else 'stable_MT'
    elif t1 in ('Reached TPAGB', ''):
        want = 'unknown'
    else:
        want = 'unstable_MT'
    S.check('class', r == want)


@harness(REG, 'P16', bounds='logs of up to 3 lines of every kind, plain or '
         'compressed, missing')
def log_flag(S):
    kinds = ['step 1\n', 'termination code: max_age\n',
             'Terminate: envelope_mass_limit\n',
             'termination code: min_timestep_limit\n',
             'min_timestep_limit: Reached TPAGB\n']
    n = S.pick('n', [0, 1, 2, 3])
    lines = [S.pick('line%d' % i, kinds) for i in range(n)]
    gz = S.pick('gz', [False, True])
    there = S.pick('exists', [True, False])

    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, 'log.txt' + ('.gz' if gz else ''))
        if there:
            with (gzip.open(p, 'wt') if gz else open(p, 'w')) as f:
                f.writelines(lines)
        r = tf.get_flag_from_MESA_output(p)
        S.check('no-path', tf.get_flag_from_MESA_output(None)
                == 'reach cluster timelimit')
    finally:
        shutil.rmtree(d)
    want = None
    weak = None
    for l in reversed(lines if there else []):
        if l == kinds[4]:
            want = 'Reached TPAGB'
        elif l in kinds[1:3]:
            want = l.split(': ')[1].strip()
        elif l == kinds[3]:
            weak = 'min_timestep_limit'
        if want:
            break
    S.check('flag', r == (want or weak or 'reach cluster timelimit'))


@harness(REG, 'P16', bounds='histories of 2 rows; star present or a point '
         'mass', stubs=['state inference: a recorder (see P01)'])
def row_state(S):
    cols = ['surface_h1', 'center_h1', 'center_he4', 'center_c12', 'log_LH',
            'log_LHe', 'log_Lnuc']
    drop = S.pick('without', [None] + cols)
    i = S.pick('index', [0, 1, -1, None])
    point = S.pick('point mass', [False, True])
    h = None if point else table(S, 'h', 2, **{c: (0, 1) for c in cols
                                               if c != drop})
    m = [S.real('m0', 0, 9), S.real('m1', 0, 9)]
    got = {}

    def infer(**k):
        got.update(k)
        return 'STATE'
    with replaced(tf, 'infer_star_state', infer):
        try:
            r = tf.check_state_from_history(h, m, *([] if i is None else [i]))
        except KeyError:
            S.check('missing-column', not point and drop is not None)
            return
    S.check('missing-column', point or drop is None)
    k = -1 if i is None else i
    S.check('state', r == 'STATE')
    if point:
        S.check('point-mass', S.And(S.eq(got['star_mass'], m[k]),
                                    got['star_CO'] is True))
    else:
        S.check('row', S.And(*([got.get('star_CO') in (False, None)] + [
            S.eq(got[c], h[c][k]) for c in cols])))


@harness(REG, 'P16', bounds='2 rows; all flags', stubs=[
    'the four single flags: recorders'])
def run_flags(S):
    new = S.pick('override', ['', 'Primary got stopped'])
    start = S.pick('start', [True, False])
    bh = table(S, 'b', 2, star_1_mass=(1, 2), star_2_mass=(1, 2))
    h1, h2 = object(), object()
    got = {}

    def mt(b, x1, x2, start_at_RLO=False, mesa_flag=None):
        got['mt'] = b is bh and x1 is h1 and x2 is h2
        got['args'] = (start_at_RLO, mesa_flag)
        return 'MT'

    def state(h, m, *a, **k):
        j = 1 if h is h1 else 2
        S.check('state-of-final-row', not a and not k and S.eq(
            m[1], bh['star_%d_mass' % j][1]))
        return 'S%d' % j
    with replaced(tf, 'get_mass_transfer_flag', mt), \
            replaced(tf, 'check_state_from_history', state), \
            replaced(tf, 'get_flag_from_MESA_output', lambda p: 'LOG' + p):
        r = tf.get_flags_from_MESA_run('/x', bh, h1, h2, start_at_RLO=start,
                                       newTF1=new)
    want = new or 'LOG/x'
    S.check('flags', tuple(r) == (want, 'MT', 'S1', 'S2'))
    S.check('arguments', got['mt'] and got['args'] == (start, want))


@harness(REG, 'P16', bounds='up to 3 runs with any masses, periods and flags')
def initial_overflow(S):
    n = S.pick('n', [1, 2, 3])
    T = 'Terminate because of overflowing initial model'
    over = [S.pick('over%d' % i, [True, False]) for i in range(n)]
    iv = [dict(star_1_mass=S.real('m1_%d' % i, 0.1, 100),
               star_2_mass=S.real('m2_%d' % i, 0.1, 100),
               period_days=S.real('p%d' % i, 0.01, 1e4)) for i in range(n)]
    fv = [dict(termination_flag_1=T if o else 'max_age',
               termination_flag_3='three%d' % i,
               termination_flag_4='four%d' % i)
          for i, o in enumerate(over)]
    r = tf.get_detected_initial_RLO(types.SimpleNamespace(
        initial_values=iv, final_values=fv))
    for e in r:
        S.check('real', S.Or(*[S.And(
            over[i], e['star_1_mass'] == iv[i]['star_1_mass'],
            e['star_2_mass'] == iv[i]['star_2_mass'],
            e['period_days'] == iv[i]['period_days'],
            e['termination_flag_3'] == 'three%d' % i,
            e['termination_flag_4'] == 'four%d' % i) for i in range(n)]))
    for i in range(n):
        if over[i]:
            S.check('covered', S.Or(*[S.And(
                abs(e['star_1_mass'] - iv[i]['star_1_mass']) < 1e-5 * n,
                abs(e['star_2_mass'] - iv[i]['star_2_mass']) < 1e-5 * n,
                e['period_days'] >= iv[i]['period_days']) for e in r]))
    for a in range(len(r)):
        for b in range(a):
            S.check('distinct', S.Or(*[
                abs(r[a][k] - r[b][k]) >= 1e-5
                for k in ('star_1_mass', 'star_2_mass')])
                if n < 3 else True)


@harness(REG, 'P16', bounds='1-4 known systems; minimum number of systems 2 '
         '(instead of 20)', stubs=['MIN_COUNT_INITIAL_RLO_BOUNDARY = 2'])
def nearest_overflow(S):
    n = S.pick('n', [1, 2, 3, 4])
    known = [dict(star_1_mass=S.real('m1_%d' % i, 0.1, 100),
                  star_2_mass=S.real('m2_%d' % i, 0.1, 100),
                  period_days=S.real('p%d' % i, 0.01, 1e4))
             for i in range(n)]
    a, b = S.real('a', 0.1, 100), S.real('b', 0.1, 100)
    with replaced(tf, 'MIN_COUNT_INITIAL_RLO_BOUNDARY', 2), \
            replaced(tf, 'Pwarn', QUIET['Pwarn']):
        r = tf.get_nearest_known_initial_RLO(a, b, known)
    if n < 2:
        S.check('too-few', S.And(S.eq(r['period_days'], 0.0)))
        return

    def d2(s):
        x, y = a - s['star_1_mass'], b - s['star_2_mass']
        return x * x + y * y
    S.check('one-of-them', any(r is k for k in known))
    S.check('nearest', S.And(*[S.le(d2(r), d2(k)) for k in known]))


@harness(REG, 'P16', bounds='2 rows, any columns present')
def helium_core(S):
    cols = S.pick('columns', [
        ('he_core_mass', 'co_core_mass', 'he_core_radius', 'co_core_radius'),
        ('he_core_mass', 'co_core_mass'), ('he_core_mass', 'co_core_radius'),
        ('he_core_radius', 'co_core_radius', 'he_core_mass')])
    h = table(S, 'h', 2, **{c: (0, 100) for c in cols})
    o = h.copy()
    r = pg.fix_He_core(h)
    S.check('none', pg.fix_He_core(None) is None)
    for i in range(2):
        for c in cols:
            k = c.replace('he_', 'co_', 1)
            if c.startswith('he_') and k in cols:
                S.check('at-least-co-core', S.And(
                    r[c][i] >= o[c][i], r[c][i] >= o[k][i],
                    S.Or(r[c][i] == o[c][i], r[c][i] == o[k][i])))
            else:
                S.check('unchanged', S.eq(r[c][i], o[c][i]))
