"""Star formation history, population weights and cosmic rates."""
import contextlib
import math

import numpy as np
import pandas as pd

import posydon.popsyn.IMFs as IMFs
import posydon.popsyn.norm_pop as nrm
import posydon.popsyn.star_formation_history as sfh
import posydon.popsyn.synthetic_population as sp
from posydon.utils import constants as const
from posydon.utils.common_functions import orbital_separation_from_period
from symex.run import harness
from symex.stub import replaced

REG = []
META = {
    'P18': dict(assumptions=[
        "up to 4 metallicity edges, 3 redshifts, 3 tabulated redshifts and "
        "metallicities and 3 events; listed metallicity edges (limits, "
        "redshifts, rates, masses and weights are arbitrary reals); the "
        "normal distribution, the cosmology and the HDF5 store are stand-ins "
        "with arbitrary values"]),
}


def arr(S, *v):
    a = np.empty(len(v), dtype=object if S.symbolic else float)
    a[:] = v
    return a


def mat(S, rows):
    a = np.empty((len(rows), len(rows[0])),
                 dtype=object if S.symbolic else float)
    for i, r in enumerate(rows):
        a[i, :] = r
    return a


class Plain(sfh.SFHBase):
    def CSFRD(self, z):
        return self.rate

    def mean_metallicity(self, z):
        return z

    def fSFR(self, z, bins):
        return self.frac


EDGES = [[0.001, 0.02], [0.001, 0.01, 0.02], [0.0, 0.004, 0.01, 0.03]]


def fractions(S, edges, zmin, zmax, cdf):
    """Star formation between each pair of edges, the outer bins reaching out
    to the limits."""
    out = []
    n = len(edges) - 1
    for i in range(n):
        lo, hi = edges[i], edges[i + 1]
        if zmax is not None:
            if i == n - 1 and S.decide(zmax >= edges[-1]):
                hi = zmax
            elif S.decide(zmax < hi):
                hi = zmax
        if zmin is not None:
            if i == 0 and S.decide(zmin <= edges[0]):
                lo = zmin
            elif S.decide(zmin > lo):
                lo = zmin
        out.append(cdf(hi) - cdf(lo) if S.decide(hi > lo) else 0.0)
    return out


@harness(REG, 'P18', bounds='edges out of %s; any limits; linear plus '
         'quadratic cumulative distributions' % EDGES)
def metallicity_bins(S):
    edges = S.pick('edges', EDGES)
    a, b = S.real('a', 0.1, 1), S.real('b', 0, 1)

    def cdf(x):
        return x * a + x * x * b
    m = {}
    zmin = zmax = None
    if S.pick('has Z_min', [False, True]):
        zmin = m['Z_min'] = S.real('Z_min', 0, 0.05)
    if S.pick('has Z_max', [False, True]):
        zmax = m['Z_max'] = S.real('Z_max', 0, 0.05)
    if zmin is not None and zmax is not None:
        S.assume(zmin < zmax)
    norm = S.pick('normalise', [False, True])
    m['normalise'] = norm
    want = fractions(S, edges, zmin, zmax, cdf)
    tot = sum(want)
    if norm:
        S.assume(tot > 1e-6)
    with replaced(sfh, 'Pwarn', lambda *x, **k: None):
        got = Plain(m)._distribute_cdf(cdf, np.array(edges))
    S.check('bins', len(got) == len(edges) - 1)
    for i, w in enumerate(want):
        S.check('fraction', S.eq(got[i] * tot if norm else got[i], w))


@harness(REG, 'P18', bounds='3 edges in any order')
def unsorted_bins(S):
    e = arr(S, *[S.real('e%d' % i, 0, 1) for i in range(3)])
    asc = S.And(e[0] < e[1], e[1] < e[2])
    try:
        Plain({})._distribute_cdf(lambda x: x, e)
        S.check('refused', asc)
    except ValueError:
        S.check('refused', S.Not(asc))


@harness(REG, 'P18', bounds='any limits')
def metallicity_limits(S):
    m = {}
    bad = False
    for k in ('Z_min', 'Z_max'):
        if S.pick(k, [False, True]):
            m[k] = S.real(k + ' value', -1, 2)
            bad = S.Or(bad, m[k] < 0, m[k] > 1)
    if len(m) == 2:
        bad = S.Or(bad, m['Z_min'] >= m['Z_max'])
    try:
        o = Plain(m)
        S.check('refused', S.Not(bad))
        for k in ('Z_min', 'Z_max'):
            S.check('kept', S.eq(getattr(o, k), m[k]) if k in m
                    else getattr(o, k) is None)
    except ValueError:
        S.check('refused', bad)


MADAU = {'Madau+Fragos17': (sfh.MadauFragos17, .01, 2.6, 3.2, 6.2),
         'Madau+Dickinson14': (sfh.MadauDickinson14, .015, 2.7, 2.9, 5.6),
         'Fujimoto+24': (sfh.Fujimoto24, .01, 2.8, 3.3, 6.6),
         'Neijssel+19': (sfh.Neijssel19, .01, 2.77, 2.9, 4.7)}


@harness(REG, 'P18', bounds='any redshift', max_root=1)
def rate_density(S):
    k = S.pick('SFR', sorted(MADAU))
    c, a, b, d, e = MADAU[k]
    z = S.real('z', 0, 50)
    o = sfh.get_SFH_model({'SFR': k, 'sigma': 0.5})
    S.check('model', type(o) is c)
    r = o.CSFRD(arr(S, z))
    S.check('rate', S.eq(r[0] * (1.0 + ((1.0 + z) / d) ** e),
                         a * (1.0 + z) ** b))
    m = o.mean_metallicity(arr(S, z))[0]
    S.check('mean-metallicity', S.eq(
        m, 0.035 * 10 ** (-0.23 * z) if k[0] == 'N'
        else 10 ** (0.153 - 0.074 * z ** 1.34) * const.Zsun))


@harness(REG, 'P18', bounds='1-2 redshifts; listed spreads or any number; '
         'no further limits', stubs=['normal distribution: any increasing '
                                     'function of (x - mean) / spread'])
def lognormal_metallicities(S):
    k = S.pick('SFR', sorted(MADAU))
    sg = S.pick('sigma', ['Bavera+20', 'Neijssel+19', 'x', 'number', None])
    n = S.pick('n', [1, 2])
    v = S.real('spread', 0.1, 2) if sg == 'number' else 0
    if sg == 'number' and S.symbolic:
        v = S.pick('spread number', [0.2, 0.5, 1])
    elif sg == 'number':
        v = S.pick('spread number', [0.2, 0.5, 1])
    edges = S.pick('edges', [[0.001, 0.02], [0.001, 0.01, 0.02]])
    mean = arr(S, *[S.real('Z%d' % i, 1e-4, 0.05) for i in range(n)])
    o = sfh.get_SFH_model({'SFR': k, 'sigma': v if sg == 'number' else sg})
    g = S.real('slope', 0.1, 1)

    class N:
        @staticmethod
        def cdf(x, loc=0, scale=1):
            x = np.asarray(x)
            return g * ((x - loc) / scale)

    class St:
        norm = N
    with contextlib.ExitStack() as st:
        st.enter_context(replaced(sfh, 'stats', St))
        o.mean_metallicity = lambda z: mean
        try:
            f = o.fSFR(arr(S, *[1.0] * n), np.array(edges))
        except ValueError:
            S.check('refused', sg in ('x', None))
            return
    S.check('refused', sg not in ('x', None))
    s = {'Bavera+20': .5, 'Neijssel+19': .39}.get(sg, v)
    S.check('shape', f.shape == (n, len(edges) - 1))
    for i in range(n):
        for j in range(len(edges) - 1):
            if k[0] == 'N':
                mu = np.log(mean[i]) - s ** 2 / 2
                c = [g * ((math.log(e) - mu) / s) for e in edges]
            else:
                mu = np.log10(mean[i]) - s ** 2 * math.log(10) / 2
                c = [g * ((math.log10(e) - mu) / s) for e in edges]
            # same mean metallicity: mean = exp(mu + s^2 / 2)
            S.check('fraction', S.eq(f[i, j], c[j + 1] - c[j]))
    got = {}

    class N2:
        @staticmethod
        def cdf(x, loc=0, scale=1):
            got['mu'], got['s'], got['x'] = loc, scale, np.ravel(x)
            return np.asarray(x) * 0.1

    class St2:
        norm = N2
    with replaced(sfh, 'stats', St2):
        o.fSFR(arr(S, *[1.0] * n), np.array(edges))
    S.check('distribution', S.And(S.eq(got['s'], s), S.eq(got['mu'], mu)))


@harness(REG, 'P18', bounds='2-3 tabulated redshifts in either order, any '
         'rates')
def tabulated_rates(S):
    kind = S.pick('model', ['Zavala', 'Illustris', 'Chruslinska'])
    n = S.pick('n', [2, 3])
    zs = np.array([0.5, 2.0, 5.0][:n])
    r = [S.real('r%d' % i, 0, 5) for i in range(n)]
    z = S.real('z', 0, 8)
    c = {'Zavala': sfh.Zavala21, 'Illustris': sfh.IllustrisTNG,
         'Chruslinska': sfh.Chruslinska21}[kind]
    o = c.__new__(c)
    down = kind == 'Chruslinska' or (kind == 'Zavala'
                                     and S.pick('descending', [False, True]))
    if kind == 'Chruslinska':
        o.redshifts = zs[::-1].copy()
        o.dFOH = 0.5
        x = [S.real('x%d' % i, 0, 1) for i in range(n)]
        o.SFR_data = mat(S, [[r[i], x[i]] for i in range(n)][::-1])
        y = [(r[i] + x[i]) * 0.5 for i in range(n)]
    else:
        y = r
        d = arr(S, *(r[::-1] if down else r))
        o.redshifts = zs[::-1].copy() if down else zs
        o.SFR_data = o.CSFRD_data = d
    got = np.ravel(o.CSFRD(arr(S, z)))[0]
    i = 0
    while i < n - 1 and S.decide(z >= zs[i + 1]):
        i += 1
    if S.decide(z <= zs[0]):
        w = y[0]
    elif i == n - 1:
        w = y[-1]
    else:
        w = y[i] + (y[i + 1] - y[i]) / (zs[i + 1] - zs[i]) * (z - zs[i])
    S.check('rate', S.eq(got, w))


@harness(REG, 'P18', bounds='2-3 tabulated redshifts, 2-3 tabulated '
         'metallicities with any star formation, 1 redshift',
         feas_ms=300)
def tabulated_metallicities(S):
    kind = S.pick('model', ['Illustris', 'Chruslinska'])
    n, k = S.pick('redshifts', [2, 3]), S.pick('metallicities', [2, 3])
    zs = np.array([0.5, 2.0, 5.0][:n])
    Z = np.array([1e-4, 1e-3, 1e-2][:k])
    M = [[S.real('m%d%d' % (i, j), 0, 9) for j in range(k)]
         for i in range(n)]
    c = {'Illustris': sfh.IllustrisTNG,
         'Chruslinska': sfh.Chruslinska21}[kind]
    o = c.__new__(c)
    sfh.SFHBase.__init__(o, {})
    o.Z = Z
    if kind == 'Illustris':
        o.redshifts, o.M = zs, mat(S, M)
    else:
        o.redshifts, o.SFR_data, o.dFOH = zs[::-1].copy(), mat(
            S, M[::-1]), 0.5
    what = S.pick('what', ['mean', 'fractions'])
    z = S.real('z', 0.6 if kind == 'Illustris' else 0.1, 8)
    if what == 'mean':
        for i in range(n):
            S.assume(sum(M[i]) > 1e-3)
        g = np.ravel(o.mean_metallicity(arr(S, z)))[0]
        y = [sum(M[i][j] * Z[j] for j in range(k)) / sum(M[i])
             for i in range(n)]
        i = 0
        while i < n - 1 and S.decide(z >= zs[i + 1]):
            i += 1
        if S.decide(z <= zs[0]):
            w = y[0]
        elif i == n - 1:
            w = y[-1]
        else:
            w = y[i] + (y[i + 1] - y[i]) / (zs[i + 1] - zs[i]) * (z - zs[i])
        S.check('mean', S.eq(g, w))
        return
    edges = np.array([1e-4, 3e-4, 2e-3])
    with replaced(sfh, 'Pwarn', lambda *x, **k: None):
        f = o.fSFR(arr(S, z), edges)
    i = 0
    while i < n - 1 and S.decide(z >= zs[i + 1]):
        i += 1
    S.check('shape', f.shape == (1, 2))
    tot = sum(M[i])
    if S.decide(tot == 0):
        S.check('nothing', S.And(S.eq(f[0, 0], 0.0), S.eq(f[0, 1], 0.0)))
        return
    X = list(np.append(np.log10(Z), 0))
    C = [sum(M[i][:j + 1]) / tot for j in range(k)] + [1.0]

    def cdf(e):
        e = math.log10(e)
        for j in range(k):
            if e <= X[j + 1]:
                return C[j] + (C[j + 1] - C[j]) / (X[j + 1] - X[j]) * (
                    e - X[j])
    for j in range(2):
        S.check('fraction', S.eq(f[0, j] * tot, (
            cdf(edges[j + 1]) - cdf(edges[j])) * tot))


@harness(REG, 'P18', bounds='1-3 redshifts, 1-3 metallicity bins')
def rate_per_metallicity(S):
    n, k = S.pick('n', [1, 2, 3]), S.pick('k', [1, 2, 3])
    o = Plain({})
    o.rate = arr(S, *[S.real('r%d' % i, 0, 9) for i in range(n)])
    o.frac = mat(S, [[S.real('f%d%d' % (i, j), 0, 1) for j in range(k)]
                     for i in range(n)])
    name = S.pick('name', sorted(MADAU) + ['IllustrisTNG', 'Chruslinska+21',
                                           'Zavala+21', 'unknown'])
    with contextlib.ExitStack() as st:
        for c in ('MadauFragos17', 'MadauDickinson14', 'Fujimoto24',
                  'Neijssel19', 'IllustrisTNG', 'Chruslinska21', 'Zavala21'):
            st.enter_context(replaced(
                sfh, c, lambda m, c=c: (asked.append(c), o)[1]))
        asked = []
        try:
            g = sfh.SFR_per_met_at_z(arr(S, *[1.0] * n), np.zeros(k + 1),
                                     {'SFR': name})
        except ValueError:
            S.check('refused', name == 'unknown')
            return
    S.check('refused', name != 'unknown')
    S.check('model', asked == [name.replace('+', '')])
    for i in range(n):
        for j in range(k):
            S.check('rate', S.eq(g[i, j], o.rate[i] * o.frac[i, j]))


@harness(REG, 'P18', bounds='0-3 systems, every scenario, any times')
def formation_times(S):
    n = S.pick('n', [0, 1, 3])
    sc = S.pick('scenario', sfh.SFH_SCENARIOS + ['Burst', 'CONSTANT', 'x'])
    kw = {}
    t = {}
    for k in ('burst_time', 'max_simulation_time', 'max_time', 'min_time'):
        if S.pick(k, [False, True]):
            t[k] = kw[k] = S.real(k + ' value', 0, 1e10)
    u = [S.real('u%d' % i, 0, 1) for i in range(n)]
    calls = []

    class R:
        def uniform(self, low=0.0, high=1.0, size=None):
            calls.append((low, high))
            return arr(S, *[low + (high - low) * x for x in u[:size]])
    kw['RNG'] = R()
    kw['custom_ages_file'] = 'file'
    age = arr(S, *[S.real('age%d' % i, 0, 10) for i in range(n)])
    seen = {}

    def smp(kind):
        def f(x=None, y=None, size=1, x_lim=None, pdf=None, rng=None):
            seen.update(kind=kind, x=x, y=y, rng=rng)
            return age[:size]
        return f

    class NP:
        def __getattr__(self, k):
            return getattr(np, k)
    with contextlib.ExitStack() as st:
        st.enter_context(replaced(sfh, 'rejection_sampler', smp('r')))
        st.enter_context(replaced(sfh, 'histogram_sampler', lambda x_edges=
                                  None, y=None, size=1, rng=None:
                                  smp('h')(x_edges, y, size, rng=rng)))
        st.enter_context(replaced(sfh, 'read_histogram_from_file',
                                  lambda f: ('X', 'Y')))
        p = NP()
        p.loadtxt = lambda f, **k: ('X', 'Y')
        if not S.symbolic:
            st.enter_context(replaced(sfh, 'np', p))
        else:
            st.enter_context(replaced(sfh, 'np', Proxy(sfh.np, p.loadtxt)))
        try:
            g = sfh.get_formation_times(n, star_formation=sc, **kw)
        except ValueError:
            S.check('refused', sc == 'x')
            return
    S.check('refused', sc != 'x')
    s = sc.lower()
    S.check('count', len(g) == n)
    end = t.get('max_time', t.get('max_simulation_time',
                                  const.age_of_universe))
    if 'custom' in s:
        S.check('sampler', seen['kind'] == ('h' if 'histogram' in s else 'r')
                and seen['x'] == 'X' and seen['y'] == 'Y'
                and seen['rng'] is kw['RNG'])
    for i in range(min(n, len(g))):
        if s == 'burst':
            w = t.get('burst_time', 0.0)
        elif s == 'constant':
            lo = t.get('min_time', 0.0)
            w = lo + (end - lo) * u[i]
        else:
            w = end - (10 ** age[i] if 'log10' in s else age[i])
        S.check('time', S.eq(g[i], w))


class Proxy:
    def __init__(self, m, loadtxt):
        self._m, self.loadtxt = m, loadtxt

    def __getattr__(self, k):
        return getattr(self._m, k)


# ------------------------------------------------------------- weights
@harness(REG, 'P18', bounds='any masses, mass ratios and limits')
def mass_ratio_density(S):
    kind = S.pick('scheme', ['flat by mass', 'flat by ratio', 'power', 'x'])
    q = S.real('q', 0, 1.5)
    m1 = S.real('m1', 0.5, 200)
    lo, hi = S.real('lo', 0.01, 0.4), S.real('hi', 0.5, 300)
    kw = {'secondary_mass_scheme': {'flat by mass': 'flat_mass_ratio',
                                    'flat by ratio': 'flat_mass_ratio',
                                    'power': 'power_law_mass_ratio'}.get(
                                        kind, 'x'),
          'secondary_mass_min': lo, 'secondary_mass_max': hi,
          'mass_ratio_slope': 1.0}
    if kind in ('flat by ratio', 'power'):
        kw['q_min'], kw['q_max'] = a, b = 0.1, 0.8
    with replaced(nrm, 'Pwarn', lambda *x, **k: None):
        p = np.ravel(nrm.get_mass_ratio_pdf(kw)(arr(S, q), arr(S, m1)))[0]
    if kind == 'flat by mass':
        a = lo / m1
        b = hi / m1 if S.decide(hi / m1 < 1) else 1.0
    elif kind == 'x':
        a, b = 0.0, 1.0
    if S.decide(S.And(q > a, q <= b)):
        S.check('density', S.eq(p * (b * b - a * a), 2 * q, rtol=1e-6)
                if kind == 'power' else S.eq(p * (b - a), 1.0))
    else:
        S.check('outside', S.eq(p, 0.0))


@harness(REG, 'P18', bounds='any periods, masses; listed limits')
def period_density(S):
    kind = S.pick('scheme', ['Sana', 'power', 'separation', 'x', 'y', 'z'])
    P, m1, q = S.real('P', 0.1, 1e5), S.real('m1', 1, 100), S.real('q', .1, 1)
    kw = {'orbital_scheme': 'period', 'orbital_period_min': 0.5,
          'orbital_period_max': 1e3, 'power_law_slope': -1.0,
          'orbital_separation_min': 3.0, 'orbital_separation_max': 3e3}
    kw['orbital_period_scheme'] = {
        'Sana': 'Sana+12_period_extended', 'power': 'power_law'}.get(
            kind, 'x')
    kw['orbital_separation_scheme'] = 'log_uniform'
    if kind in ('separation', 'y'):
        kw['orbital_scheme'] = 'separation'
    if kind == 'y':
        kw['orbital_separation_scheme'] = 'x'
    if kind == 'z':
        kw['orbital_scheme'] = 'z'
    made = []

    def D(name):
        class X:
            def __init__(self, **k):
                made.append((name, k))

            def pdf(self, p, *a):
                made.append([p] + list(a))
                p = np.ravel(np.asarray(p))
                r = arr(S, *[1.0 / (5.0 * v) for v in p]) \
                    if name == 'LogUniform' else arr(S, *[v + 1 for v in p])
                return r
        return X
    a = S.real('a', 1, 1e4)
    with contextlib.ExitStack() as st:
        for k in ('Sana12Period', 'PowerLawPeriod', 'LogUniform'):
            st.enter_context(replaced(nrm, k, D(k)))
        st.enter_context(replaced(
            nrm, 'orbital_separation_from_period',
            lambda p, x, y: (sep.append((p, x, y)), arr(S, a))[1]))
        sep = []
        try:
            g = np.ravel(nrm.get_period_pdf(kw)(arr(S, P), arr(S, m1),
                                                arr(S, q)))[0]
        except ValueError:
            S.check('refused', kind in 'xyz')
            return
    S.check('refused', kind not in 'xyz')
    if kind == 'separation':
        S.check('limits', made[0] == ('LogUniform', dict(min=3.0, max=3e3)))
        p, x, y = [np.ravel(v)[0] for v in sep[0]]
        S.check('separation', S.And(S.eq(p, P), S.eq(x, m1),
                                    S.eq(y, q * m1)))
        # d log P = 1.5 d log a: the density per logarithmic interval
        S.check('jacobian', S.eq(g * 7.5, 1.0))
    else:
        S.check('limits', made[0][1]['p_min'] == .5
                and made[0][1]['p_max'] == 1e3
                and (kind == 'Sana' or made[0][1]['slope'] == -1.0)
                and made[0][0] == {'Sana': 'Sana12Period',
                                   'power': 'PowerLawPeriod'}[kind])
        S.check('density', S.eq(g, P + 1))
        if kind == 'Sana':
            S.check('mass', S.eq(np.ravel(made[1][1])[0], m1))


@harness(REG, 'P18', bounds='1-3 systems, any densities, binary fraction')
def joint_density(S):
    n = S.pick('n', [1, 2, 3])
    only = S.pick('mass only', [False, True])
    f = S.real('f', 0, 1)
    m, q, P = [arr(S, *[S.real('%s%d' % (k, i), 0.1, 9) for i in range(n)])
               for k in 'mqP']
    b = np.array([S.pick('b%d' % i, [False, True]) for i in range(n)])
    kw = {'binary_fraction_scheme': S.pick('scheme', ['const', 'x']),
          'binary_fraction_const': f}
    with contextlib.ExitStack() as st:
        st.enter_context(replaced(nrm, 'get_IMF_pdf',
                                  lambda k: lambda m1: m1 + 1))
        st.enter_context(replaced(nrm, 'get_mass_ratio_pdf',
                                  lambda k: lambda q, m1=None: q + 2 * m1))
        st.enter_context(replaced(
            nrm, 'get_period_pdf',
            lambda k: lambda P, m1=None, q=None: P + 3 * m1 + q))
        try:
            g = nrm.get_pdf(kw, mass_pdf=only)(m1=m, q=q, P=P, binary=b)
        except ValueError:
            S.check('refused', kw['binary_fraction_scheme'] == 'x')
            return
    S.check('refused', kw['binary_fraction_scheme'] == 'const')
    S.check('count', len(g) == n)
    for i in range(n):
        if not b[i]:
            w = (1 - f) * (m[i] + 1)
        else:
            w = f * (m[i] + 1) * (q[i] + 2 * m[i])
            if not only:
                w = w * (P[i] + 3 * m[i] + q[i])
        S.check('density', S.eq(g[i], w))


@harness(REG, 'P18', bounds='1-2 systems, any densities and masses')
def model_weights(S):
    n = S.pick('n', [1, 2])
    fs, fp = S.pick('f sim', [0, 0.5, 1]), S.pick('f pop', [0, 0.5, 1])
    ps, pp = {'binary_fraction_const': fs}, {'binary_fraction_const': fp}
    kind = [S.pick('s%d' % i, ['initially_single_star', 'detached'])
            for i in range(n)]
    m1, m2, P = [arr(S, *[S.real('%s%d' % (k, i), 0.1, 9) for i in range(n)])
                 for k in ('m1', 'm2', 'P')]
    df = pd.DataFrame({'state_i': kind})
    df['S1_mass_i'], df['S2_mass_i'], df['orbital_period_i'] = m1, m2, P
    Ms, ms, mp = S.real('M', 1, 1e6), S.real('ms', .1, 9), S.real('mp', .1, 9)
    d = {id(ps): arr(S, *[S.real('ds%d' % i, 0, 5) for i in range(n)]),
         id(pp): arr(S, *[S.real('dp%d' % i, 0, 5) for i in range(n)])}
    seen = []

    def pdf(k, mass_pdf=False):
        def f(m1, q=0, P=0, binary=False):
            seen.append((m1, q, P, binary, mass_pdf))
            return d[id(k)]
        return f
    with contextlib.ExitStack() as st:
        st.enter_context(replaced(nrm, 'get_pdf', pdf))
        st.enter_context(replaced(nrm, 'get_mean_mass',
                                  lambda p: ms if p is ps else mp))
        for i in range(n):
            S.assume(d[id(ps)][i] > 1e-3)
        try:
            w = nrm.calculate_model_weights(df, Ms, ps, pp)
        except ValueError:
            S.check('refused', (fs, fp) in ((1, 0), (0, 1)))
            return
    S.check('refused', (fs, fp) not in ((1, 0), (0, 1)))
    for a, q, p, b, mm in seen:
        S.check('arguments', S.And(not mm, *[S.And(
            S.eq(list(a)[i], m1[i]), S.eq(list(q)[i] * m1[i], m2[i]),
            S.eq(list(p)[i], P[i]),
            bool(list(b)[i]) == (kind[i] == 'detached'))
            for i in range(n)]))
    S.check('count', len(w) == n and len(seen) == 2)
    for i in range(n):
        S.check('weight', S.eq(
            list(w)[i] * d[id(ps)][i] * Ms * mp, d[id(pp)][i] * ms))


# --------------------------------------------------------------- rates
@harness(REG, 'P18', bounds='1-4 metallicities with any values')
def metallicity_edges(S):
    n = S.pick('n', [1, 2, 3, 4])
    Z = arr(S, *[S.real('Z%d' % i, 1e-4, 0.05) for i in range(n)])
    o = sp.Rates.__new__(sp.Rates)
    for i in range(n - 1):
        S.assume(Z[i] < Z[i + 1])
    order = list(range(n))
    if S.pick('reversed', [False, True]):
        order = order[::-1]
    o.metallicities = arr(S, *[Z[i] for i in order])
    d = S.pick('dlogZ', [None, 0.5, [-3.0, -1.0]])
    o.MODEL = {'dlogZ': d}
    c = o.centers_metallicity_bins
    for i in range(n):
        S.check('centres', S.eq(c[i], Z[i]))
    e = o.edges_metallicity_bins
    S.check('count', len(e) == n + 1)
    l = [np.log10(z) for z in Z]
    if n == 1:
        w = [-9, 0] if d is None else d if isinstance(d, list) else \
            [l[0] - d / 2, l[0] + d / 2]
    else:
        w = [l[0] - (l[1] - l[0]) / 2] + [
            l[i] + (l[i + 1] - l[i]) / 2 for i in range(n - 1)] + [
                l[-1] + (l[-1] - l[-2]) / 2]
    for i in range(n + 1):
        S.check('edges', S.eq(e[i], 10 ** w[i]))


class Store:
    """Stand-in for the HDF5 file."""
    data = None

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def keys(self):
        return list(Store.data)

    def remove(self, k):
        Store.data.pop(k)

    __delitem__ = remove

    def put(self, k, v, **kw):
        Store.data[k] = [v]

    def append(self, k, v, **kw):
        Store.data.setdefault(k, []).append(v)


@harness(REG, 'P18', bounds='1-3 events in chunks of 1-3, 2 birth times, 2 '
         'metallicities', stubs=['cosmology: arbitrary ages and distances',
                                 'HDF5 store: dictionary'], feas_ms=500)
def cosmic_weights(S):
    n, chunk = S.pick('n', [1, 2, 3]), S.pick('chunk', [1, 2, 3])
    tb = [S.real('t%d' % i, 0.1, 13) for i in range(2)]
    sfr = mat(S, [[S.real('sfr%d%d' % (i, j), 0, 1) for j in range(2)]
                  for i in range(2)])
    delay = [S.real('delay%d' % i, 0, 1e4) for i in range(n)]
    met = [S.pick('met%d' % i, [0.1, 1.0]) for i in range(n)]
    w = [S.real('w%d' % i, 0, 9) for i in range(n)]
    AGE = 13.8
    Store.data = {}
    idx = [7, 3, 9][:n]
    df = pd.DataFrame(index=idx)
    df['time'] = arr(S, *delay)
    df['metallicity'] = met

    class PD:
        def __getattr__(self, k):
            return getattr(pd, k)
        HDFStore = Store

    class R:
        def __init__(self, *a, **k):
            self.MODEL = dict(delta_t=100)
        centers_redshift_bins = np.array([0.1, 1.0])
        edges_metallicity_bins = np.array([1e-4, 5e-3, 1.0])
        centers_metallicity_bins = np.array([0.1, 1.0]) * const.Zsun

    class C:
        class age:
            def __init__(self, z):
                self.value = AGE
    o = sp.TransientPopulation.__new__(sp.TransientPopulation)
    o.filename, o.transient_name, o.verbose, o.chunksize = 'f', 't', False, \
        chunk
    written = {}

    class Self(sp.TransientPopulation):
        def __init__(self):
            self.filename, self.transient_name = 'f', 't'
            self.verbose, self.chunksize = False, chunk
            self.indices = idx

        def model_weights(self, model_weights_identifier=None):
            d = pd.DataFrame(index=idx)
            d['m'] = arr(S, *w)
            return d if model_weights_identifier is None else d[['m']]

        def select(self, where=None, start=None, stop=None, columns=None):
            d = df.iloc[start:stop]
            return d[[]] if columns == ['index'] else d[columns]

        def _write_MODEL_data(self, f, p, M):
            written.update(M)
    default = dict(sp.DEFAULT_SFH_MODEL)
    with contextlib.ExitStack() as st:
        st.enter_context(replaced(sp, 'pd', PD()))
        st.enter_context(replaced(sp, 'Rates', R))
        st.enter_context(replaced(sp, 'cosmology', C))
        st.enter_context(replaced(sp, 'get_cosmic_time_from_redshift',
                                  lambda z: arr(S, *tb)))
        st.enter_context(replaced(
            sp, 'redshift_from_cosmic_time_interpolator',
            lambda: lambda t: arr(S, *[20.0 - x for x in t])))
        st.enter_context(replaced(sp, 'SFR_per_met_at_z',
                                  lambda z, e, M: sfr))
        st.enter_context(replaced(
            sp, 'get_comoving_distance_from_redshift',
            lambda z: z * 100.0))
        try:
            Self().calculate_cosmic_weights('SFH', 'm', dict(delta_t=100,
                                                             mine=1))
        finally:
            now = dict(sp.DEFAULT_SFH_MODEL)
            sp.DEFAULT_SFH_MODEL.clear()
            sp.DEFAULT_SFH_MODEL.update(default)
    S.check('defaults-kept', now == default)
    S.check('model', written.get('mine') == 1 and all(
        written.get(k) == v for k, v in default.items() if k != 'delta_t'))
    W, Z = [pd.concat(Store.data['/transients/t/rates/SFH/' + k])
            for k in ('weights', 'z_events')]
    S.check('index', list(W.index) == idx and list(Z.index) == idx)
    from astropy import constants as ac
    c = ac.c.to('Mpc/yr').value
    for i in range(n):
        for j in range(2):
            t = tb[j] + delay[i] * 1e-3
            z, g = Z.iloc[i, j], W.iloc[i, j]
            if S.decide(t <= AGE * 0.9999999):
                S.check('event-redshift', S.eq(z, 20.0 - t))
                D = (20.0 - t) * 100.0
                S.check('weight', S.eq(g, 4.0 * math.pi * c * D ** 2 * 1e8
                                       * sfr[j, [0.1, 1.0].index(met[i])]
                                       * w[i]))
            else:
                S.check('too-late', S.And(S.isnan(z), S.isnan(g)))


@harness(REG, 'P18', bounds='1-2 events, 2 birth times, 2 redshift bins, 1-2 '
         'channels', stubs=['shell volumes: arbitrary', 'HDF5 store: '
                            'dictionary'], max_paths=3000)
def rate_densities(S):
    n = S.pick('n', [1, 2])
    ch = S.pick('channels', [False, True])
    z = mat(S, [[S.real('z%d%d' % (i, j), 0, 4) for j in range(2)]
                for i in range(n)])
    w = mat(S, [[S.real('w%d%d' % (i, j), 0, 9) for j in range(2)]
                for i in range(n)])
    V = [S.real('V%d' % i, 0.1, 9) for i in range(2)]
    names = [S.pick('c%d' % i, ['A', 'B']) for i in range(n)] if ch else []
    Store.data = {}

    class PD:
        def __getattr__(self, k):
            return getattr(pd, k)
        HDFStore = Store

        @staticmethod
        def DataFrame(data=None, index=None, columns=None, dtype=None):
            return pd.DataFrame(data, index=index, columns=columns,
                                dtype=object if S.symbolic else dtype)

    class Self(sp.Rates):
        def __init__(self):
            self.base_path, self.verbose = '/b/', False
            self.filename = 'f'
        z_events = pd.DataFrame(z)
        weights = pd.DataFrame(w)
        edges_redshift_bins = np.array([0.0, 1.0, 3.0])

        def select(self, columns=None, **k):
            return pd.DataFrame({'channel': names})
    with contextlib.ExitStack() as st:
        st.enter_context(replaced(sp, 'pd', PD()))
        st.enter_context(replaced(
            sp, 'get_shell_comoving_volume',
            lambda a, b, s='infinite': V[0] if (a, b) == (0.0, 1.0)
            else V[1] if (a, b) == (1.0, 3.0) else 0.0))
        g = Self().calculate_intrinsic_rate_density(channels=ch)
    e = [0.0, 1.0, 3.0]
    for k in range(2):
        tot = {'total': 0.0}
        for i in range(n):
            for j in range(2):
                if S.decide(S.And(z[i, j] > e[k], z[i, j] <= e[k + 1])):
                    tot['total'] = tot['total'] + w[i, j]
                    if ch:
                        tot[names[i]] = tot.get(names[i], 0.0) + w[i, j]
        for c in ['total'] + sorted(set(names)):
            S.check('rate', S.eq(g.loc[e[k], c] * V[k], tot.get(c, 0.0)))
    S.check('columns', set(g.columns) == {'total'} | set(names)
            and len(g) == 2)
    S.check('stored', Store.data['/b/intrinsic_rate_density'][0] is g)
