"""Reading and exporting population files."""
import contextlib

import numpy as np
import pandas as pd

import posydon.popsyn.synthetic_population as sp
from posydon.utils.constants import Zsun
from symex.run import harness
from symex.stub import replaced

from checks.hdf import Files, filesystem

REG = []
META = {
    'P25': dict(assumptions=[
        "files of 2-4 systems with 1-3 history rows each, read in chunks of "
        "1-4 rows; one numeric column per table symbolic; the HDF5 file is a "
        "stand-in which selects rows by index, range and column"]),
}


def col(S, v):
    return pd.Series(v, dtype=object if S.symbolic or any(
        isinstance(x, str) for x in v) else None)


def write(S, Store, path, idx, lengths, tag='', metallicity=True,
          channels=True, mass=None, stored_lengths=False, single=None):
    """a population file; returns its content"""
    hist, hi = [], []
    for i, n in zip(idx, lengths):
        for j in range(n):
            hi.append(i)
            hist.append(S.real('h%s_%d_%d' % (tag, i, j), 0, 100))
    h = pd.DataFrame({'time': col(S, hist).values,
                      'state': ['%s%d-%d' % (tag, i, k)
                                for k, i in enumerate(hi)]}, index=hi)
    one = pd.DataFrame({
        'S1_mass_i': col(S, [S.real('m1%s_%d' % (tag, i), 1, 100)
                             for i in idx]).values,
        'S2_mass_i': col(S, [np.nan if i == single else S.real(
            'm2%s_%d' % (tag, i), 1, 100) for i in idx]).values,
        'state_i': ['initially_single_star' if i == single else 'detached'
                    for i in idx]}, index=idx)
    if metallicity:
        one['metallicity'] = [0.1] * len(idx)
    h.index.name = one.index.name = 'binary_index'
    ini = pd.DataFrame({c: ['ini-' + c] for c in sp.saved_ini_parameters})
    with Store(path, mode='w') as st:
        st.append('history', h)
        st.append('oneline', one)
        st.put('ini_parameters', ini)
        if mass is not None:
            st.put('mass_per_metallicity', mass)
        if channels:
            fc = pd.DataFrame({'channel_debug': ['d%s%d' % (tag, i)
                                                 for i in idx],
                               'channel': ['c%s%d' % (tag, i) for i in idx]},
                              index=idx)
            fc.index.name = 'binary_index'
            st.append('formation_channels', fc)
        if stored_lengths:
            st.put('history_lengths', pd.DataFrame(
                {'length': lengths}, index=pd.Index(
                    idx, name='binary_index')))
    return h, one


def masses(S, met, tag='', n=3):
    d = {}
    for c in ('simulated_mass', 'simulated_mass_single',
              'simulated_mass_binaries'):
        d[c] = col(S, [S.real('%s%s' % (c, tag), 1, 1e6)]).values
    d['number_of_systems'] = [n]
    t = pd.DataFrame(d, index=[met])
    t.index.name = 'metallicity'
    return t


def same_rows(S, got, want, label, reindex=None):
    """same index, strings and numbers in the same order"""
    wi = [i if reindex is None else reindex[i] for i in want.index]
    S.check(label + ':index', [int(i) for i in got.index] == wi)
    for c in got.columns:
        if c not in want.columns:
            continue
        for a, b in zip(got[c], want[c]):
            if isinstance(b, str):
                S.check(label + ':values', a == b)
            else:
                S.check(label + ':values', S.Or(S.eq(a, b), S.And(
                    S.isnan(a), S.isnan(b))))


LEN = {2: [2, 1], 3: [1, 3, 2], 4: [2, 1, 1, 3]}


@harness(REG, 'P25', bounds='2-4 systems, chunks of 1-4 rows, every way of '
         'indexing, any column value', stubs=['HDF5'], budget=200)
def indexing(S):
    n = S.pick('n', [2, 4])
    chunk = S.pick('chunk', [1, 2, 3, 100])
    idx = list(range(n)) if S.pick('contiguous', [True, False]) \
        else [3, 5, 8, 9][:n]
    fs = Files()
    with filesystem(fs, sp), contextlib.redirect_stdout(None):
        h, one = write(S, sp.pd.HDFStore, 'f.h5', idx, LEN[n],
                       stored_lengths=S.pick('lengths', [False, True]))
        which = S.pick('table', ['history', 'oneline'])
        t = (sp.History if which == 'history' else sp.Oneline)(
            'f.h5', chunksize=chunk)
        src = h if which == 'history' else one
        S.check('systems', t.number_of_systems == n)
        S.check('indices', list(t.indices) == idx)
        S.check('columns', list(t.columns) == list(src.columns))
        S.check('length', len(t) == len(src))
        if which == 'history':
            S.check('lengths', list(t.lengths['length'] if 'length'
                                    in t.lengths else
                                    t.lengths.iloc[:, 0]) == LEN[n]
                    and list(t.lengths.index) == idx)
        how = S.pick('how', ['int', 'list', 'array', 'mask', 'slice',
                             'column', 'columns', 'all', 'head', 'tail',
                             'where', 'bad'])
        if how == 'int':
            i = S.pick('i', idx)
            got, want = t[i], src.loc[[i]]
        elif how in ('list', 'array', 'where'):
            w = S.pick('w', [[0], [n - 1], [n - 1, 0], list(range(n))])
            ks = [idx[j] for j in w]
            got = t[ks] if how == 'list' else t[np.array(ks)] \
                if how == 'array' else t.select(
                    where='index in ' + str(ks), columns=list(src.columns))
            want = src[[i in ks for i in src.index]]
        elif how == 'mask':
            m = [S.pick('b%d' % (j % 5), [True, False])
                 for j in range(len(src))]
            if not any(m):
                return
            got, want = t[np.array(m)], src[m]
        elif how == 'slice':
            if idx[0] != 0:
                return
            a, b = S.pick('ab', [(0, 2), (1, 2), (None, 1), (1, None),
                                 (None, None)])
            got = t[a:b]
            want = src[[i in idx[a:b] for i in src.index]]
        elif how == 'column':
            c = src.columns[0]
            got, want = t[c], src[[c]]
            S.check('only', list(got.columns) == [c])
        elif how == 'columns':
            c = list(src.columns[:2])[::-1]
            got, want = t[c], src[c]
            S.check('only', sorted(got.columns) == sorted(c))
        elif how == 'all':
            got, want = t.select(), src
        elif how == 'head':
            got, want = t.head(2), src.iloc[:2]
        elif how == 'tail':
            got, want = t.tail(2), src.iloc[-2:]
        else:
            for k in ('nope', ['nope', 'time'], 1.5):
                try:
                    t[k]
                    S.fail('rejected')
                except ValueError:
                    pass
            return
        same_rows(S, got, want, how)


@harness(REG, 'P25', bounds='2-3 systems, any masses, one possibly single; '
         'metallicity given or stored', stubs=['HDF5', 'ini file'])
def opening(S):
    n = S.pick('n', [2, 3])
    idx = [3, 5, 8][:n]
    single = S.pick('single', [None] + idx)
    how = S.pick('how', ['stored', 'given', 'both', 'neither'])
    fs = Files()
    m0 = masses(S, 0.1, n=n)
    with filesystem(fs, sp), contextlib.redirect_stdout(None), \
            replaced(sp, 'Pwarn', lambda *a, **k: None), \
            replaced(sp, 'binarypop_kwargs_from_ini', lambda *a, **k: {
                c: 'new-' + c for c in sp.saved_ini_parameters[:4]}):
        h, one = write(S, sp.pd.HDFStore, 'f.h5', idx, LEN[n], single=single,
                       channels=single is None, mass=m0 if how in
                       ('stored', 'both') else None)
        if how == 'neither':
            try:
                sp.Population('f.h5')
                S.fail('metallicity-required')
            except ValueError:
                return
        kw = {} if how == 'stored' else dict(metallicity=0.5, ini_file='x.ini')
        p = sp.Population('f.h5', **kw)
        Z = 0.1 if how == 'stored' else 0.5
        S.check('metallicity', list(p.solar_metallicities) == [Z])
        S.check('absolute-metallicity', S.eq(p.metallicities[0], Z * Zsun))
        S.check('systems', p.number_of_systems == n
                and list(p.indices) == idx and len(p) == n)
        S.check('channels', p.formation_channels is None if single is not None
                else list(p.formation_channels.index) == idx)
        t = p.mass_per_metallicity
        S.check('one-row', list(t.index) == [Z])
        t = t.iloc[0]
        if how == 'stored':
            for c in m0.columns:
                S.check('stored', S.eq(t[c], m0.iloc[0][c]))
            S.check('parameters', p.ini_params == {
                c: 'ini-' + c for c in sp.saved_ini_parameters})
            return
        sing = sum((one['S1_mass_i'][i] for i in idx if i == single), 0.0)
        dbl = sum((one['S1_mass_i'][i] + one['S2_mass_i'][i] for i in idx
                   if i != single), 0.0)
        S.check('mass', S.And(S.eq(t['simulated_mass_single'], sing),
                              S.eq(t['simulated_mass_binaries'], dbl),
                              S.eq(t['simulated_mass'], sing + dbl)))
        S.check('count', t['number_of_systems'] == n)
        S.check('parameters', p.ini_params == {
            c: 'new-' + c for c in sp.saved_ini_parameters[:4]})
        q = sp.Population('f.h5')
        S.check('written', list(q.mass_per_metallicity.index) == [Z]
                and S.eq(q.mass_per_metallicity.iloc[0]['simulated_mass'],
                         sing + dbl))


@harness(REG, 'P25', bounds='selections of 1-3 out of 3 systems in any order, '
         'to a new or an existing file of the same or another metallicity, '
         'chunks of 1-3', stubs=['HDF5'], budget=250)
def export(S):
    idx = [3, 5, 8]
    sel = S.pick('selection', [[3], [8], [3, 8], [8, 3], [5, 3, 8],
                               [3, 5, 8]])
    target = S.pick('target', ['new', 'overwrite', 'append', 'append-other',
                               'exists'])
    chunk = S.pick('chunk', [1, 2, 100])
    hchunk = S.pick('history_chunk', [1, 100])
    ch = S.pick('channels', [True, False])
    col_met = S.pick('metallicity', [True, False])
    fs = Files()
    m0, m1 = masses(S, 0.1, 'a'), masses(
        S, 0.1 if target == 'append' else 1.0, 'b', n=2)
    with filesystem(fs, sp), contextlib.redirect_stdout(None), \
            replaced(sp, 'Pwarn', lambda *a, **k: None):
        Store = sp.pd.HDFStore
        h, one = write(S, Store, 'f.h5', idx, LEN[3], 'a', mass=m0,
                       channels=ch, metallicity=col_met)
        old = None
        if target != 'new':
            old = write(S, Store, 'out.h5', [0, 1], [2, 1], 'b', mass=m1,
                        channels=ch, stored_lengths=True)
        p = sp.Population('f.h5', chunksize=chunk)
        before = p.mass_per_metallicity.copy()
        kw = dict(history_chunksize=hchunk)
        if target == 'overwrite':
            kw['overwrite'] = True
        if target.startswith('append'):
            kw['append'] = True
        if target == 'exists':
            try:
                p.export_selection(sel, 'out.h5', **kw)
                S.fail('refuses-to-overwrite')
            except FileExistsError:
                S.check('untouched', list(
                    fs.table('out.h5', 'oneline').index) == [0, 1])
            return
        p.export_selection(sel, 'out.h5', **kw)
        app = target.startswith('append')
        base = 2 if app else 0
        re = {i: base + k for k, i in enumerate(sel)}
        keep = [i in sel for i in h.index]
        got = {k: fs.table('out.h5', k) for k in (
            'history', 'oneline', 'history_lengths', 'mass_per_metallicity',
            'ini_parameters')}

        def new(t):
            return t.iloc[[i >= base for i in t.index]]

        def rows(t, want, label):
            """the rows of each system, in their order"""
            S.check(label + ':systems', sorted(set(int(i) for i in t.index))
                    == sorted(re[i] for i in sel))
            for i in sel:
                same_rows(S, t.loc[[re[i]]], want.loc[[i]], label, re)
        rows(new(got['history']), h[keep], 'history')
        rows(new(got['oneline']), one.loc[sel], 'oneline')
        Z = new(got['oneline'])['metallicity']
        S.check('metallicity', all(S.eq(z, 0.1 if col_met else 0.1 * Zsun)
                                   for z in Z))
        L = new(got['history_lengths'])
        S.check('lengths', {int(i): int(v) for i, v in zip(
            L.index, L.iloc[:, 0])} == {
                re[i]: LEN[3][idx.index(i)] for i in sel})
        if ch:
            c = fs.table('out.h5', 'formation_channels')
            S.check('channels', {int(i): v for i, v in zip(
                new(c).index, new(c)['channel'])} == {
                    re[i]: 'ca%d' % i for i in sel})
        if app:
            same_rows(S, got['history'].iloc[:3], old[0], 'kept-history')
            same_rows(S, got['oneline'].iloc[:2], old[1], 'kept-oneline')
        t = got['mass_per_metallicity']
        for c in ('simulated_mass', 'simulated_mass_single',
                  'simulated_mass_binaries', 'number_of_systems'):
            a = m0.iloc[0][c] if c != 'number_of_systems' else len(sel)
            b = m1.iloc[0][c]
            if target == 'append':
                S.check('mass', len(t) == 1 and S.eq(t.iloc[0][c], a + b))
            elif target == 'append-other':
                S.check('mass', sorted(t.index) == [0.1, 1.0] and S.And(
                    S.eq(t.loc[0.1][c], a), S.eq(t.loc[1.0][c], b)))
            else:
                S.check('mass', list(t.index) == [0.1]
                        and S.eq(t.iloc[0][c], a))
        S.check('source-unchanged', S.And(*[
            S.eq(p.mass_per_metallicity.iloc[0][c], before.iloc[0][c])
            for c in before.columns]))
        S.check('parameters', got['ini_parameters'].iloc[0].to_dict() == {
            c: 'ini-' + c for c in sp.saved_ini_parameters})
        same_rows(S, fs.table('f.h5', 'history'), h, 'source')
