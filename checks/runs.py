"""A run of a population: every binary evolved, saved and counted once."""
import contextlib
import io

import numpy as np
import pandas as pd

import posydon.popsyn.binarypopulation as bp
import posydon.popsyn.synthetic_population as sp
from posydon.utils.posydonerror import FlowError
from posydon.utils.posydonwarning import Pwarn
from symex.run import harness
from symex.stub import replaced

from checks.hdf import Files, filesystem

REG = []
META = {
    'P24': dict(assumptions=[
        "1-4 binaries (single stars among them), on 1-3 ranks; the evolution "
        "of a binary, its initial conditions, the memory in use, HDF5 files "
        "and the file system are stand-ins; any initial masses"]),
}


def frame(S, d, index):
    return pd.DataFrame({k: pd.Series(
        v, index=index, dtype=object if S.symbolic or any(
            isinstance(x, str) for x in v) else None)
        for k, v in d.items()})


class Binary(bp.BinaryStar):
    """a binary with two columns; `outcome` is what its evolution does"""

    def __init__(self, S, index, m1, m2, outcome, log):
        self.S, self.index, self.m1, self.m2 = S, index, m1, m2
        self.outcome, self.log = outcome, log
        self.state = 'detached' if m2 is not None else \
            'initially_single_star'
        self.event = 'ZAMS'
        self.rows = [(self.state, self.event)]

    def append_state(self):
        self.rows.append((self.state, self.event))

    def restore(self, i=0):
        self.rows = self.rows[:i + 1]

    def evolve(self):
        self.log.append(self.index)
        self.state = 'RLO1'
        self.event = None
        self.append_state()
        if self.outcome == 'flow':
            raise FlowError('flow')
        if self.outcome == 'error':
            raise ValueError('value')
        if self.outcome == 'warn':
            Pwarn('careful', 'ApproximationWarning')
        self.event = 'END'
        self.append_state()

    def initial_condition_message(self, *a):
        return 'm'

    def to_df(self, **kw):
        n = len(self.rows)
        f = 1 if n == 1 else 0.5
        df = frame(self.S, dict(
            state=[r[0] for r in self.rows], event=[r[1] for r in self.rows],
            S1_mass=[self.m1] + [self.m1 * f] * (n - 1),
            S2_mass=[np.nan if self.m2 is None else self.m2] * n),
            [self.index] * n)
        df.index.name = 'binary_index'
        return df

    def to_oneline_df(self, **kw):
        df = frame(self.S, dict(
            state_i=[self.rows[0][0]], S1_mass_i=[self.m1],
            S2_mass_i=[np.nan if self.m2 is None else self.m2],
            FAILED=[1 if hasattr(self, 'traceback') else 0],
            WARNING=[1 if hasattr(self, 'warnings') else 0]), [self.index])
        df.index.name = 'binary_index'
        return df

    def __str__(self):
        return 'binary %d' % self.index


class Properties:
    steps_loaded = True
    kwargs = {}
    loaded = closed = 0

    def load_steps(self, **k):
        self.loaded += 1
        self.steps_loaded = True

    def close(self):
        self.closed += 1


class Comm:
    def __init__(self, rank, size):
        self.r, self.s = rank, size

    def Get_rank(self):
        return self.r

    def Get_size(self):
        return self.s


class Memory:
    """psutil: resident memory in bytes after each binary"""

    def __init__(self, values):
        self.v, self.i = values, -1

    def Process(self, *a):
        return self

    def memory_info(self):
        self.i += 1
        self.rss = self.v[min(self.i, len(self.v) - 1)]
        return self


def alarm_log(log):
    class Signal:
        SIGALRM = 14

        def alarm(self, t):
            log.append(t)

        def signal(self, *a):
            pass
    return Signal()


INI = {k: 0.0 for k in bp.saved_ini_parameters}


def population(S, N, how, rank, size, kw, binaries, S_prop):
    k = dict(INI)
    k.update(number_of_binaries=N, population_properties=S_prop,
             metallicities=[1.0, 0.1], metallicity=0.1, entropy=12,
             temp_directory='/scratch/batches', **kw)
    if how == 'mpi':
        k['comm'] = Comm(rank, size)
    elif how == 'job':
        k.update(JOB_ID=5, RANK=rank, size=size)

    class Generator:
        entropy = 1
        Z_div_Zsun = 0.1

        def __init__(self, *a, **k):
            pass

        def draw_initial_binary(self, index=None, **k):
            return binaries[int(index)]

    class Exit:
        @staticmethod
        def register(*a, **k):
            pass
    with replaced(bp, 'BinaryGenerator', Generator), \
            replaced(bp, 'atexit', Exit):
        return bp.BinaryPopulation(**k)


OUT = ['ok', 'flow', 'error', 'warn']


def members(S, N, log):
    what = S.pick('outcome', OUT)
    v = S.pick('special', list(range(N))) if what != 'ok' else 0
    out = []
    for i in range(N):
        single = i == N - 1 and N > 1
        out.append(Binary(S, i, S.real('m1_%d' % i, 1, 100), None if single
                          else S.real('m2_%d' % i, 1, 100),
                          what if i == v else 'ok', log))
    return out


def expected_rows(b):
    first = 'detached' if b.m2 is not None else 'initially_single_star'
    rows = [(first, 'ZAMS'), ('RLO1', None)]
    if b.outcome in ('flow', 'error'):
        return rows + [('ERR', 'FAILED')]
    return rows + [('RLO1', 'END')]


def check_tables(S, hist, one, bins):
    """history and oneline hold the binaries, in order"""
    exp = [(b, r) for b in bins for r in expected_rows(b)]
    S.check('all-histories', list(hist.index) == [b.index for b, _ in exp])
    S.check('histories', [(x, y if isinstance(y, str) else None) for x, y in
                          zip(hist['state'], hist['event'])]
            == [r for _, r in exp])
    S.check('all-onelines', list(one.index) == [b.index for b in bins])
    S.check('failed-flag', list(one['FAILED']) == [
        int(b.outcome in ('flow', 'error')) for b in bins])
    S.check('warning-flag', list(one['WARNING']) == [
        int(b.outcome == 'warn') for b in bins])
    for g, b in zip(one['S1_mass_i'], bins):
        S.check('values', S.eq(g, b.m1))


def check_mass(S, t, bins):
    S.check('one-metallicity', list(t.index) == [0.1])
    t = t.iloc[0]
    sing = sum((b.m1 for b in bins if b.m2 is None), 0.0)
    dbl = sum((b.m1 + b.m2 for b in bins if b.m2 is not None), 0.0)
    S.check('mass', S.And(S.eq(t['simulated_mass_single'], sing),
                          S.eq(t['simulated_mass_binaries'], dbl),
                          S.eq(t['simulated_mass'], sing + dbl)))
    S.check('count', t['number_of_systems'] == len(bins))


@harness(REG, 'P24', bounds='1-4 binaries; plain, MPI or job-array run on 1-3 '
         'ranks; any one binary failing or warning; batches of any size, by '
         'memory or none', budget=250, stubs=['evolution', 'HDF5', 'os'])
def run(S):
    N = S.pick('N', [1, 2, 3, 4])
    how, size = S.pick('how', [('plain', 1), ('mpi', 2), ('job', 3)])
    kind = S.pick('kind', ['default', 'dump1', 'dump2', 'memory',
                           'breakdown-dump2', 'breakdown'])
    log, alarms = [], []
    bins = members(S, N, log)
    kw = dict(optimize_ram=kind != 'breakdown')
    if 'dump' in kind:
        kw['dump_rate'] = int(kind[-1])
    if 'breakdown' in kind:
        kw['breakdown_to_df'] = True
    if kind == 'memory':
        if N > 2:
            return
        kw['ram_per_cpu'] = 1.0
    rss = [S.real('rss%d' % i, 0, 2 * 1024 ** 3) for i in range(N)] \
        if kind == 'memory' else [0]
    fs = Files()
    shares = []
    prop = Properties()
    with filesystem(fs, bp, sp), replaced(bp, 'psutil', Memory(rss)), \
            replaced(bp, 'signal', alarm_log(alarms)), \
            contextlib.redirect_stdout(None), \
            contextlib.redirect_stderr(io.StringIO()):
        for rank in range(size):
            start = len(log)
            pop = population(S, N, how, rank, size, kw, bins, prop)
            pop.evolve()
            shares.append([bins[i] for i in log[start:]])
            S.check('nothing-kept-in-memory', len(pop.manager.binaries) == 0
                    and len(pop.manager.indices) == 0)
        S.check('each-evolved-once', sorted(log) == list(range(N)))
        S.check('in-order', log == list(range(N)))
        S.check('alarm-cleared', len(alarms) >= N and all(
            a == 0 for a in alarms))
        d = '/scratch/batches/evolution.combined.'
        names = [d + 'h5'] if how == 'plain' else [
            d + '%d.h5' % r for r in range(size)]
        S.check('only-the-combined-files', sorted(fs.files) == sorted(
            f for f, s in zip(names, shares) if s))
        for f, s in zip(names, shares):
            if s:
                check_tables(S, fs.table(f, 'history'),
                             fs.table(f, 'oneline'), s)
                check_mass(S, fs.table(f, 'mass_per_metallicity'), s)
                m = fs.table(f, 'oneline')
                S.check('metallicity', list(m['metallicity']) == [0.1]
                        * len(s))
        # merge into one file
        if how == 'job' or how == 'plain' and kind in ('dump1', 'dump2',
                                                       'breakdown'):
            r = sp.PopulationRunner.__new__(sp.PopulationRunner)
            r.verbose = False
            r.merge_parallel_runs(pop)
            f = '1e-01_Zsun_population.h5'
            S.check('temporary-directory-removed', not fs.dirs)
        else:
            pop.save('/scratch/out.h5')
            f = '/scratch/out.h5'
        S.check('only-the-result', list(fs.files) == [f])
        check_tables(S, fs.table(f, 'history'), fs.table(f, 'oneline'), bins)
        check_mass(S, fs.table(f, 'mass_per_metallicity'), bins)


@harness(REG, 'P24', bounds='2-3 files of 1-2 binaries, any one unreadable; '
         'with and without a metallicity column', stubs=['HDF5', 'os'])
def merge_with_faults(S):
    n = S.pick('n', [2, 3])
    bad = S.pick('unreadable', [None] + list(range(1, n)))
    col = S.pick('metallicity', [False, True])
    fs = Files()
    log, groups, names = [], [], []
    prop = Properties()
    with filesystem(fs, bp, sp), contextlib.redirect_stdout(None):
        Store = bp.pd.HDFStore
        k = 0
        for i in range(n):
            g = []
            for j in range(1 + (i + n) % 2):
                b = Binary(S, 10 + k, S.real('m1_%d' % k, 1, 100),
                           S.real('m2_%d' % k, 1, 100), 'ok', log)
                b.evolve()
                g.append(b)
                k += 1
            f = '/scratch/batches/f%d' % i
            one = pd.concat([b.to_oneline_df() for b in g])
            if col:
                one['metallicity'] = [0.3] * len(one)
            with Store(f, mode='w') as st:
                st.append('history', pd.concat([b.to_df() for b in g]))
                st.append('oneline', one)
            groups.append(g)
            names.append(f)
        if bad is not None:
            fs.unreadable.add(names[bad])
        pop = population(S, 3, 'plain', 0, 1, {}, [], prop)
        pop.combine_saved_files('/scratch/all.h5', list(names))
        good = [b for i, g in enumerate(groups) if i != bad for b in g]
        f = '/scratch/all.h5'
        S.check('unreadable-kept', sorted(fs.files) == sorted(
            [f] + ([names[bad]] if bad is not None else [])))
        check_tables(S, fs.table(f, 'history'), fs.table(f, 'oneline'), good)
        check_mass(S, fs.table(f, 'mass_per_metallicity'), good)
        S.check('metallicity', list(fs.table(f, 'oneline')['metallicity'])
                == [0.3 if col else 0.1] * len(good))
        ini = fs.table(f, 'ini_parameters')
        S.check('parameters', len(ini) == 1 and sorted(ini.columns)
                == sorted(bp.saved_ini_parameters))


@harness(REG, 'P24', bounds='1-3 binaries appended singly or as a list, one '
         'removed; any selection', stubs=['HDF5'])
def manager(S):
    n = S.pick('n', [1, 2, 3])
    log = []
    bins = members(S, n, log)
    prop = Properties()
    pop = population(S, n, 'plain', 0, 1, {}, bins, prop)
    m = pop.manager
    if S.pick('as_list', [False, True]):
        m.append(list(bins))
    else:
        for b in bins:
            m.append(b)
    S.check('held', len(m) == n and list(m) == bins
            and m.indices == [b.index for b in bins])
    for b in bins:
        try:
            b.evolve()
        except Exception:
            bp.set_binary_to_failed(b)
            b.traceback = 'x'
        b.warned = False
    gone = S.pick('removed', [None] + list(range(n)))
    if gone is not None:
        if S.pick('rm_list', [False, True]):
            m.remove([bins[gone]])
        else:
            m.remove(bins[gone])
    left = [b for i, b in enumerate(bins) if i != gone]
    S.check('left', list(m) == left and m.indices == [b.index for b in left])
    S.check('failed', m.find_failed() == ([] if left else None) or
            m.find_failed() == [b for b in left
                                if b.outcome in ('flow', 'error')])
    lim = S.real('limit', 1, 100)
    sel = (lambda b: S.decide(b.m1 > lim)) if S.pick('select', [
        False, True]) else None
    want = [b for b in left if sel is None or sel(b)]
    h, o = m.to_df(sel), m.to_oneline_df(sel)
    if not want:
        S.check('empty', h is None and o is None)
        return
    S.check('selected', list(o.index) == [b.index for b in want])
    S.check('selected-histories', list(h.index) == [
        b.index for b in want for _ in b.rows])
    for b in list(left):
        with contextlib.redirect_stdout(None):
            m.breakdown_to_df(b)
    S.check('broken-down', len(m) == 0 and m.indices == []
            and len(m.history_dfs) == len(left) == len(m.oneline_dfs))
    h, o = m.to_df(), m.to_oneline_df()
    S.check('broken-down-tables', list(o.index) == [b.index for b in left]
            and len(h) == sum(len(b.rows) for b in left))
    f = m.find_failed()
    fl = [b.index for b in left if b.outcome in ('flow', 'error')]
    S.check('failed', sorted(set(f.index)) == fl if fl else len(f) == 0)
    m.clear_dfs()
    S.check('cleared', m.to_df() is None and m.to_oneline_df() is None)


@harness(REG, 'P24', bounds='any sampled values; single stars and binaries; '
         'both orbital schemes; kicks drawn or read; indices given or '
         'counted')
def initial_binary(S):
    scheme = S.pick('scheme', ['separation', 'period'])
    orb = S.real('orbit', 1, 1e4)
    e, m1 = S.real('e', 0, 0.9), S.real('m1', 1, 100)
    single = S.pick('single', [False, True])
    m2 = np.nan if single else S.real('m2', 1, 100)
    t = S.real('t', 0, 1e10)
    kicks = S.pick('kicks', [False, True])
    k1 = [S.real('k1%d' % i, 0, 500) for i in range(4)]
    k2 = [S.real('k2%d' % i, 0, 500) for i in range(4)]
    index = S.pick('index', [None, 0, 9])
    dt = object if S.symbolic else float

    def sampler(orbital_scheme, **k):
        S.check('one-sample', k.get('number_of_binaries') == 1)
        return tuple(np.array([v], dtype=dt) for v in (orb, e, m1, m2))
    g = bp.BinaryGenerator(sampler=sampler, metallicity=0.1,
                           RNG=np.random.default_rng(1),
                           history_verbose=True)
    kw = dict(orbital_scheme=scheme, metallicity=0.1, number_of_binaries=5)
    if kicks:
        kw['read_samples_from_file'] = 'f'
    if index is not None:
        kw['index'] = index
    with replaced(bp, 'get_formation_times',
                  lambda n, **k: np.array([t] * n, dtype=dt)), \
            replaced(bp, 'get_kick_samples_from_file', lambda **k: (
                np.array([k1], dtype=dt), np.array([k2], dtype=dt))):
        b0 = g.draw_initial_binary(**kw)
        b = g.draw_initial_binary(**kw)
    S.check('index', (b0.index, b.index) == ((0, 1) if index is None
                                             else (index, index)))
    S.check('start', b.event == 'ZAMS' and b.state == (
        'initially_single_star' if single else 'detached'))
    S.check('time', S.eq(b.time, t))
    S.check('primary', S.And(S.eq(b.star_1.mass, m1), b.star_1.state
                             == 'H-rich_Core_H_burning'))
    S.check('metallicity', b.star_1.metallicity == 0.1)
    names = ['natal_kick_velocity', 'natal_kick_azimuthal_angle',
             'natal_kick_polar_angle', 'natal_kick_mean_anomaly']
    for i, nme in enumerate(names):
        v = getattr(b.star_1, nme)
        S.check('kick', S.eq(v, k1[i]) if kicks else v is None)
    if single:
        S.check('no-companion', b.star_2.state == 'massless_remnant'
                and b.star_2.mass == 0)
        S.check('no-orbit', S.And(S.isnan(b.separation), S.isnan(
            b.orbital_period), S.isnan(b.eccentricity)))
        return
    S.check('secondary', S.And(S.eq(b.star_2.mass, m2), b.star_2.state
                               == 'H-rich_Core_H_burning',
                               b.star_2.metallicity == 0.1))
    S.check('eccentricity', S.eq(b.eccentricity, e))
    a = orb if scheme == 'separation' else \
        bp.orbital_separation_from_period(orb, m1, m2)
    P = orb if scheme == 'period' else \
        bp.orbital_period_from_separation(orb, m1, m2)
    S.check('orbit', S.And(S.eq(b.separation, a, 1e-9),
                           S.eq(b.orbital_period, P, 1e-9)))
    for i, nme in enumerate(names):
        v = getattr(b.star_2, nme)
        S.check('kick', S.eq(v, k2[i]) if kicks else v is None)


@harness(REG, 'P24', bounds='1-4 ranks, MPI and job arrays, with and without '
         'entropy, two metallicities')
def random_streams(S):
    """ranks never share a random stream and the same settings repeat it"""
    how = S.pick('how', ['mpi', 'job', 'job-entropy'])
    size = S.pick('size', [1, 2, 3, 4])
    met = S.pick('met', [1.0, 0.1])

    class Exit:
        @staticmethod
        def register(*a, **k):
            pass

    def draw(rank, met=met):
        k = dict(INI)
        k.update(number_of_binaries=3, metallicities=[1.0, 0.1],
                 metallicity=met, population_properties=Properties())
        if how == 'mpi':
            k.update(comm=Comm(rank, size), entropy=12)
        else:
            k.update(JOB_ID=5, RANK=rank, size=size,
                     entropy=12 if how == 'job-entropy' else None)
        with replaced(bp, 'atexit', Exit):
            p = bp.BinaryPopulation(**k)
        S.check('generator-uses-it', p.manager.binary_generator.RNG is p.RNG)
        return tuple(p.RNG.random(4))
    d = [draw(r) for r in range(size)]
    S.check('ranks-differ', len(set(d)) == size)
    S.check('reproducible', draw(size - 1) == d[-1])
    if how != 'job-entropy':
        S.check('metallicities-differ', draw(0, 0.1 if met == 1.0 else 1.0)
                != d[0])
