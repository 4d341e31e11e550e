"""Initial conditions of a population."""
import math

import numpy as np
from scipy import integrate, special

import posydon.popsyn.IMFs as IMFs
import posydon.popsyn.distributions as D
import posydon.popsyn.independent_sample as ind
import posydon.popsyn.norm_pop as nrm
import posydon.popsyn.sample_from_file as sff
from posydon.utils import common_functions as cf
from symex.run import harness
from symex.stub import replaced

REG = []
META = {
    'P17': dict(assumptions=[
        "distribution limits and slopes out of the listed sets (the drawn "
        "uniform deviates, masses, periods and densities are arbitrary reals "
        "within the limits); normalising integrals are computed numerically "
        "by the code for the listed limits and compared with the analytic "
        "value; the random generator is an arbitrary source of uniform "
        "deviates; up to 3 draws at a time; Moe & Di Stefano 2017 sampling is "
        "outside"]),
}


class RNG:
    """Arbitrary deviates u in [0, 1)."""

    def __init__(self, S, tag='u', lo=0.0, hi=1.0):
        self.S, self.tag, self.n = S, tag, 0
        self.u, self.calls = [], []
        self.lo, self.hi = lo, hi

    def one(self):
        self.n += 1
        v = self.S.real('%s%d' % (self.tag, self.n), self.lo, self.hi)
        self.u.append(v)
        return v

    def uniform(self, low=0.0, high=1.0, size=None):
        self.calls.append((low, high, size))
        if size is None:
            return low + (high - low) * self.one()
        n = int(size)
        a = np.empty(n, dtype=object if self.S.symbolic else float)
        a[:] = [low + (high - low) * self.one() for _ in range(n)]
        return a

    def random(self, size=None):
        return self.uniform(size=size)

    def choice(self, a, size=None, replace=True, p=None):
        self.p = p
        self.picked = [self.S.pick('bin%d' % i, list(range(a)))
                       for i in range(size)]
        return np.array(self.picked)


def arr(S, *v):
    a = np.empty(len(v), dtype=object if S.symbolic else float)
    a[:] = v
    return a


LIMITS = [(7.0, 120.0), (0.01, 200.0), (0.1, 0.4), (0.3, 8.0)]


# ---------------------------------------------------------------- IMFs
def shape(kind, a, m, lo, hi):
    """Reference initial mass function, up to a constant factor."""
    if kind == 'Chabrier2003':
        def ln(x):
            return np.exp(-(np.log10(x) - np.log10(.22)) ** 2
                          / (2 * .57 ** 2)) / x
        if m < 1.0:
            return ln(m)
        return float(ln(1.0)) * m ** (-2.3)
    if kind == 'Kroupa2001':
        c = 0.08 ** (-0.3 + 1.3)
        d = c * 0.5 ** (-1.3 + 2.3)
        if m < 0.08:
            return m ** (-0.3)
        if m < 0.5:
            return c * m ** (-1.3)
        return d * m ** (-2.3)
    return m ** (-a)


def area(kind, a, lo, hi):
    """Its integral over [lo, hi], analytically."""
    def pw(k, s, x, y):
        x, y = max(x, lo), min(y, hi)
        return 0.0 if y <= x else k * (y ** (1 - s) - x ** (1 - s)) / (1 - s)
    if kind == 'Chabrier2003':
        x, y = lo, min(hi, 1.0)
        r = 0.0
        if y > x:
            z = [(math.log10(t) - math.log10(.22)) / .57 / math.sqrt(2)
                 for t in (x, y)]
            r = math.log(10) * .57 * math.sqrt(math.pi / 2) * (
                special.erf(z[1]) - special.erf(z[0]))
        return r + pw(math.exp(-math.log10(.22) ** 2 / (2 * .57 ** 2)), 2.3,
                      1.0, 1e9)
    if kind == 'Kroupa2001':
        c = 0.08 ** (-0.3 + 1.3)
        d = c * 0.5 ** (-1.3 + 2.3)
        return pw(1.0, .3, 0, .08) + pw(c, 1.3, .08, .5) + pw(d, 2.3, .5, 1e9)
    return pw(1.0, a, 0, 1e9)


def make(kind, a, lo, hi):
    if kind in ('Salpeter', 'Kroupa1993'):
        return getattr(IMFs, kind)(alpha=a, m_min=lo, m_max=hi)
    return getattr(IMFs, kind)(m_min=lo, m_max=hi)


KINDS = ['Salpeter', 'Kroupa1993', 'Kroupa2001', 'Chabrier2003']


@harness(REG, 'P17', bounds='any mass; limits out of %s; slopes 1.5, 2, '
         '1.3' % LIMITS, max_root=1)
def mass_function(S):
    kind = S.pick('IMF', KINDS)
    a = S.pick('slope', [2.35, 2.7, 1.3]) if kind[0] == 'S' or '3' in kind \
        and kind[0] == 'K' else 2.35
    lo, hi = S.pick('limits', LIMITS)
    m = S.real('m', 1e-3, 500)
    with replaced(IMFs, 'Pwarn', lambda *x, **k: None):
        p = make(kind, a, lo, hi).pdf(arr(S, m))[0]
    if S.decide(S.And(m >= lo, m <= hi)):
        S.check('density', S.eq(p * area(kind, a, lo, hi),
                                shape(kind, a, m, lo, hi), rtol=1e-5))
    else:
        S.check('outside', S.eq(p, 0.0))


@harness(REG, 'P17', bounds='any mass limits and deviates, slopes 1.5, 2, '
         '2.5, 3', feas_ms=0)
def mass_draw(S):
    kind = S.pick('IMF', ['Salpeter', 'Kroupa1993'])
    a = S.pick('slope', [1.5, 2.0, 2.5, 3.0])
    lo, hi = S.real('min', 0.01, 50), S.real('max', 60, 300)
    imf = getattr(IMFs, kind).__new__(getattr(IMFs, kind))
    imf.alpha, imf.m_min, imf.m_max = a, lo, hi
    r = RNG(S)
    m = imf.rvs(size=1, rng=r)[0]
    b = 1.0 - a
    S.check('inverse-CDF', S.eq(
        m ** b - lo ** b, r.u[0] * (hi ** b - lo ** b)))
    S.check('count', len(imf.rvs(size=2, rng=r)) == 2)


@harness(REG, 'P17', bounds='listed limits')
def tabulated_draws(S):
    kind = S.pick('IMF', ['Kroupa2001', 'Chabrier2003', 'q', 'P'])
    lo, hi = S.pick('limits', LIMITS)
    got = {}

    def sampler(x, y, size=1, rng=None):
        got.update(x=x, y=y, size=size, rng=rng)
        return np.array([x[0], x[-1]])
    r = RNG(S)
    a = S.pick('slope', [0.0, -0.5, 1.0])
    with replaced(cf, 'inverse_sampler', sampler):
        if kind == 'q':
            lo, hi = S.pick('q', [(0.05, 1.0), (0.2, 0.6)])
            out = D.PowerLawMassRatio(alpha=a, q_min=lo, q_max=hi).rvs(
                size=2, rng=r)

            def ref(q):
                return q ** a
        elif kind == 'P':
            lo, hi = S.pick('P', [(1.4, 3e6), (0.35, 6e3)])
            out = D.PowerLawPeriod(slope=a, p_min=lo, p_max=hi).rvs(
                size=2, rng=r)
            lo, hi = math.log10(lo), math.log10(hi)

            def ref(p):
                return 10.0 ** (p * a)
        else:
            with replaced(IMFs, 'Pwarn', lambda *x, **k: None):
                out = make(kind, 0, lo, hi).rvs(size=2, rng=r)

            def ref(m):
                return shape(kind, 0, m, lo, hi)
    S.check('size', got['size'] == 2 and got['rng'] is r)
    x, y = np.asarray(got['x'], float), np.asarray(got['y'], float)
    S.check('grid', bool(np.isclose(x[0], lo) and np.isclose(x[-1], hi)
                         and np.all(np.diff(x) > 0) and len(x) >= 500))
    k = np.array([float(ref(v)) for v in x[1:-1]])
    S.check('density', bool(np.allclose(y[1:-1] / k, y[1] / k[0])
                            and np.all(y[1:-1] > 0)))
    S.check('values', bool(np.allclose(
        out, 10 ** x[[0, -1]] if kind == 'P' else x[[0, -1]])))


@harness(REG, 'P17', bounds='any limits')
def mass_limits(S):
    kind = S.pick('IMF', KINDS)
    lo, hi = S.real('min', 0.01, 100), S.real('max', 0.01, 100)
    c = getattr(IMFs, kind)
    with replaced(c, '_calculate_normalization', lambda self: 1.0):
        try:
            o = c(m_min=lo, m_max=hi)
            S.check('order', lo < hi)
            S.check('kept', S.And(S.eq(o.m_min, lo), S.eq(o.m_max, hi)))
        except ValueError:
            S.check('order', lo >= hi)


# ------------------------------------------------------ other distributions
@harness(REG, 'P17', bounds='any value; listed limits and slopes')
def densities(S):
    kind = S.pick('kind', ['flat q', 'power q', 'power P', 'Sana low',
                           'Sana high', 'log a', 'thermal', 'uniform',
                           'zero', 'normal a'])
    x = S.real('x', 1e-3, 1e6 if kind[-1] in 'aP' or 'S' in kind else 1)
    v = arr(S, x)
    if kind == 'flat q':
        lo, hi = S.pick('lim', [(0.05, 1.0), (0.0, 1.0), (0.2, 0.7)])
        p = D.FlatMassRatio(q_min=lo, q_max=hi).pdf(v)[0]
        want, ins = 1 / (hi - lo), S.And(x > lo, x <= hi)
    elif kind == 'power q':
        lo, hi = S.pick('lim', [(0.05, 1.0), (0.2, 0.7)])
        a = S.pick('slope', [0.0, -0.5, 1.0, 2.0])
        p = D.PowerLawMassRatio(alpha=a, q_min=lo, q_max=hi).pdf(v)[0]
        want = x ** a * ((1 + a) / (hi ** (1 + a) - lo ** (1 + a)))
        ins = S.And(x > lo, x <= hi)
    elif kind == 'power P':
        lo, hi = S.pick('lim', [(1.4, 3e6), (0.5, 100.0)])
        a = S.pick('slope', [-0.55, -1.0, 0.5])
        p = D.PowerLawPeriod(slope=a, p_min=lo, p_max=hi).pdf(v)[0]
        want = x ** a * (a * math.log(10) / (hi ** a - lo ** a))
        ins = S.And(x >= lo, x <= hi)
    elif kind.startswith('Sana'):
        lo, hi = S.pick('lim', [(0.35, 6e3), (1.0, 1e4)])
        low = kind == 'Sana low'
        m = S.real('m', 0.1, 15) if low else S.real('m', 15.001, 300)
        a, b = float(np.log10(lo)), float(np.log10(hi))
        ins = S.And(x >= lo, x <= hi)
        if S.decide(ins):
            # the logarithm is monotonic
            S.assume(S.And(np.log10(x) >= a, np.log10(x) <= b))
        p = D.Sana12Period(p_min=lo, p_max=hi).pdf(v, arr(S, m))[0]
        A = 0.15 ** -0.55 * (0.15 - a) + (b ** .45 - 0.15 ** .45) / .45
        if low:
            want = 1 / (b - a)
        elif S.decide(ins):
            l = np.log10(x)
            want = 0.15 ** -0.55 / A if S.decide(l < 0.15) else \
                l ** -0.55 / A
        else:
            want = 0.0
    elif kind == 'log a':
        lo, hi = S.pick('lim', [(5.0, 1e5), (1.0, 100.0)])
        p = D.LogUniform(min=lo, max=hi).pdf(v)[0]
        ins = S.And(x >= lo, x <= hi)
        if S.decide(ins):
            S.check('log-flat', S.eq(p * x * (math.log10(hi)
                                              - math.log10(lo)), 1.0))
            S.check('log-uniform-normalised', S.eq(
                p * x * math.log(hi / lo), 1.0))
        else:
            S.check('outside', S.eq(p, 0.0))
        return
    elif kind == 'thermal':
        lo, hi = S.pick('lim', [(0.0, 1.0), (0.1, 0.8)])
        p = D.ThermalEccentricity(e_min=lo, e_max=hi).pdf(v)[0]
        want, ins = 2 * x / (hi ** 2 - lo ** 2), S.And(x >= lo, x <= hi)
    elif kind == 'uniform':
        lo, hi = S.pick('lim', [(0.0, 1.0), (0.1, 0.8)])
        p = D.UniformEccentricity(e_min=lo, e_max=hi).pdf(v)[0]
        want, ins = 1 / (hi - lo), S.And(x >= lo, x <= hi)
    elif kind == 'zero':
        x = S.pick('e', [0.0, 0.5])
        p = D.ZeroEccentricity().pdf(np.array([x]))[0]
        S.check('density', p == (1.0 if x == 0.0 else 0.0))
        return
    else:
        lo, hi = S.pick('lim', [(5.0, 1e5), (2.0, 50.0)])
        mu, sg = S.pick('par', [(0.85, 0.37), (2.0, 1.0)])
        got = {}

        class TN:
            def pdf(self, z, a, b, loc=0, scale=1):
                got.update(a=a, b=b, loc=loc, scale=scale)
                return arr(S, *[2.0 + q for q in z])
        with replaced(D, 'truncnorm', TN()):
            p = D.LogNormalSeparation(mean=mu, sigma=sg, min=lo, max=hi).pdf(
                v)[0]
        ins = S.And(x >= lo, x <= hi)
        if S.decide(ins):
            S.check('truncated-normal', S.eq(
                p * x * math.log(10), 2.0 + np.log10(x)))
            S.check('parameters', S.And(
                S.eq(got['a'], (math.log10(lo) - mu) / sg),
                S.eq(got['b'], (math.log10(hi) - mu) / sg),
                S.eq(got['loc'], mu), S.eq(got['scale'], sg)))
        else:
            S.check('outside', S.eq(p, 0.0))
        return
    if S.decide(ins):
        S.check('density', S.eq(p, want, rtol=1e-5))
    else:
        S.check('outside', S.eq(p, 0.0))


@harness(REG, 'P17', bounds='any limits, masses and deviates; 2 draws')
def draws(S):
    kind = S.pick('kind', ['flat q', 'log a', 'thermal', 'uniform', 'zero',
                           'Sana', 'normal a'])
    r = RNG(S)
    if kind in ('flat q', 'thermal', 'uniform'):
        lo, hi = S.real('lo', 0, 0.99), S.real('hi', 0.01, 1)
        S.assume(lo < hi)
        c = {'flat q': D.FlatMassRatio, 'thermal': D.ThermalEccentricity,
             'uniform': D.UniformEccentricity}[kind]
        o = c.__new__(c)
        o.q_min = o.e_min = lo
        o.q_max = o.e_max = hi
        x = o.rvs(size=2, rng=r)
        for i in range(2):
            S.check('inverse-CDF', S.eq(x[i] ** 2 - lo ** 2, r.u[i] * (
                hi ** 2 - lo ** 2)) if kind == 'thermal' else
                S.eq(x[i] - lo, r.u[i] * (hi - lo)))
        S.check('count', len(x) == 2)
    elif kind == 'zero':
        x = D.ZeroEccentricity().rvs(size=3, rng=r)
        S.check('count', len(x) == 3 and not np.any(np.asarray(x, float)))
    elif kind == 'log a':
        lo, hi = S.real('lo', 0.1, 50), S.real('hi', 100, 1e6)
        o = D.LogUniform.__new__(D.LogUniform)
        o.min, o.max = lo, hi
        x = o.rvs(size=2, rng=r)
        a, b = np.log10(lo), np.log10(hi)
        for i in range(2):
            S.check('inverse-CDF', S.eq(
                x[i], 10 ** (a + r.u[i] * (b - a))))
    elif kind == 'Sana':
        lo, hi = S.pick('lim', [(0.35, 6e3), (1.0, 1e4)])
        n = S.pick('n', [1, 2, 3])
        one = S.pick('single mass', [False, True])
        m = [S.real('m%d' % i, 1, 100) for i in range(1 if one else n)]
        got = {}

        def rej(x=None, y=None, size=1, x_lim=None, pdf=None, rng=None):
            got.update(size=size, lim=x_lim, pdf=pdf, rng=rng)
            return arr(S, *[0.1 * (i + 1) for i in range(int(size))])
        o = D.Sana12Period(p_min=lo, p_max=hi)
        with replaced(cf, 'rejection_sampler', rej):
            p = o.rvs(size=n, m1=arr(S, *m), rng=r)
        m = m * n if one else m
        S.check('count', len(p) == n)
        k = j = 0
        for i in range(n):
            if S.decide(m[i] <= 15):
                a, b = float(np.log10(lo)), float(np.log10(hi))
                S.check('log-flat', S.eq(
                    p[i], 10 ** (a + r.u[k] * (b - a))))
                k += 1
            else:
                j += 1
                S.check('high-mass', S.eq(p[i], 10 ** (0.1 * j)))
        if j:
            z = S.pick('z', [-0.1, 0.0, 0.15, 0.5, 2.0, 3.5])
            a, b = float(np.log10(lo)), float(np.log10(hi))
            S.check('sampled-density', S.And(
                int(got['size']) == j, S.eq(got['lim'][0], a),
                S.eq(got['lim'][1], b), got['rng'] is r))
            if not S.symbolic or a <= z <= b:
                f = np.ravel(np.asarray(got['pdf'](np.array([z, 1.0])),
                                        float))
                S.check('sampled-density', S.eq(
                    f[0] / f[1], max(z, 0.15) ** -0.55 if z >= a else 0.0))
        else:
            S.check('sampled-density', not got)
    else:
        got = {}

        class TN:
            def rvs(self, a, b, loc=0, scale=1, size=1, random_state=None):
                got.update(a=a, b=b, loc=loc, scale=scale, size=size,
                           rs=random_state)
                return arr(S, 1.5, 2.5)
        with replaced(D, 'truncnorm', TN()):
            x = D.LogNormalSeparation(mean=1.0, sigma=0.5, min=5.0,
                                      max=1e4).rvs(size=2, rng=r)
        S.check('parameters', S.And(
            S.eq(got['a'], (math.log10(5) - 1) / .5), S.eq(got['b'], 6.0),
            S.eq(got['loc'], 1.0), S.eq(got['scale'], .5),
            got['size'] == 2, got['rs'] is r, S.eq(x[0], 10 ** 1.5),
            S.eq(x[1], 10 ** 2.5)))


@harness(REG, 'P17', bounds='any limits')
def limits(S):
    kind = S.pick('kind', ['flat q', 'power q', 'thermal', 'uniform',
                           'Sana', 'power P', 'log a', 'normal a'])
    unit = kind in ('flat q', 'power q', 'thermal', 'uniform')
    lo = S.real('lo', -1, 2) if unit else S.real('lo', -10, 100)
    hi = S.real('hi', -1, 2) if unit else S.real('hi', -10, 100)
    c, kw = {'flat q': (D.FlatMassRatio, ('q_min', 'q_max')),
             'power q': (D.PowerLawMassRatio, ('q_min', 'q_max')),
             'thermal': (D.ThermalEccentricity, ('e_min', 'e_max')),
             'uniform': (D.UniformEccentricity, ('e_min', 'e_max')),
             'Sana': (D.Sana12Period, ('p_min', 'p_max')),
             'power P': (D.PowerLawPeriod, ('p_min', 'p_max')),
             'log a': (D.LogUniform, ('min', 'max')),
             'normal a': (D.LogNormalSeparation, ('min', 'max'))}[kind]
    a = S.pick('slope', [-2.0, -1.0, 0.5]) if kind == 'power q' else 0.5
    ok = S.And(lo >= 0, lo < 1, hi > 0, hi <= 1, lo < hi) if unit else \
        S.And(lo > 0, hi > lo)
    if kind == 'power q' and a <= -1:
        ok = S.And(ok, lo > 0)
    k = {kw[0]: lo, kw[1]: hi}
    if kind == 'power q':
        k['alpha'] = a
    import contextlib
    with replaced(c, '_calculate_normalization', lambda self, *x: 1.0) \
            if hasattr(c, '_calculate_normalization') \
            else contextlib.nullcontext():
        try:
            o = c(**k)
            S.check('accepted', ok)
            S.check('kept', S.And(S.eq(getattr(o, kw[0]), lo),
                                  S.eq(getattr(o, kw[1]), hi)))
        except ValueError:
            S.check('refused', S.Not(ok))


# ------------------------------------------------------------- samplers
@harness(REG, 'P17', bounds='tabulated densities of 2-3 nodes with any '
         'values; 2 draws', feas_ms=200, budget=200)
def inverse_sampling(S):
    n = S.pick('n', [2, 3])
    x = np.array([1.0, 1.5, 4.0][:n])
    y = arr(S, *[S.real('y%d' % i, 0, 10) for i in range(n)])
    tot = 0
    cum = [0]
    for i in range(n - 1):
        tot = tot + (y[i] + y[i + 1]) * ((x[i + 1] - x[i]) * 0.5)
        cum.append(tot)
    S.assume(tot >= 1e-3)
    r = RNG(S, lo=1e-6, hi=1 - 1e-6)
    z = cf.inverse_sampler(x, y, size=1, rng=r)
    u = r.u[0]
    S.check('count', len(z) == 1)
    for i in range(1):
        k = 0
        while k < n - 2 and S.decide(u * tot > cum[k + 1]):
            k += 1
        d = z[i] - x[k]
        dx = x[k + 1] - x[k]
        S.check('range', S.And(S.ge(d, 0, atol=1e-9), S.le(d, dx)))
        if S.decide(y[k + 1] == y[k]):
            S.check('flat', S.eq(d, dx * r.u[-1]))
        else:
            # area up to the draw = u * total area
            S.check('inverse-CDF', S.eq(
                d * y[k] + d * d * (y[k + 1] - y[k]) / (2 * dx),
                u * tot - cum[k], rtol=1e-6, atol=1e-6))


@harness(REG, 'P17', bounds='histograms of 1-3 bins, 1-3 draws')
def histogram_sampling(S):
    n, k = S.pick('bins', [1, 2, 3]), S.pick('draws', [1, 2, 3])
    e = arr(S, *[S.real('e%d' % i, i, i + 1) for i in range(n + 1)])
    y = arr(S, *[S.real('y%d' % i, 0, 10) for i in range(n)])
    S.assume(sum(y) > 1e-3)
    r = RNG(S)
    z = np.atleast_1d(cf.histogram_sampler(e, y, size=k, rng=r))
    S.check('count', len(z) == k)
    S.check('probabilities', S.And(*[S.eq(r.p[i] * sum(y), y[i])
                                     for i in range(n)]))
    seen = []
    for i in range(k):
        b = r.picked[i]
        S.check('in-bin', S.And(S.ge(z[i], e[b]), S.le(z[i], e[b + 1])))
        S.check('uniform-in-bin', S.Or(*[S.eq(
            z[i] - e[b], u * (e[b + 1] - e[b])) for u in r.u]))
        seen.append(z[i])
    S.check('one-deviate-each', len(r.u) == k)


@harness(REG, 'P17', bounds='densities of 2 nodes, 1-2 draws, up to 3 '
         'attempts', max_paths=2000)
def rejection_sampling(S):
    n = S.pick('draws', [1, 2])
    y = arr(S, S.real('y0', 0, 5), S.real('y1', 0, 5))
    x = np.array([1.0, 3.0])
    hi = np.max(y) if not S.symbolic else (
        y[0] if S.decide(y[0] >= y[1]) else y[1])
    S.assume(hi > 0.1)

    class R(RNG):
        def uniform(self, low=0.0, high=1.0, size=None):
            if self.n >= 6 * n:
                S.assume(False)
            return RNG.uniform(self, low, high, size)
    r = R(S)
    z = cf.rejection_sampler(x=x, y=y, size=n, rng=r)
    S.check('count', len(z) == n)
    # calls come in pairs: positions and heights
    acc = []
    pos = 0
    ok = True
    for (l, h, s), (l2, h2, s2) in zip(r.calls[0::2], r.calls[1::2]):
        xs = [l + (h - l) * v for v in r.u[pos:pos + s]]
        ys = [l2 + (h2 - l2) * v for v in r.u[pos + s:pos + s + s2]]
        pos += s + s2
        S.check('range', S.And(S.eq(l, 1.0), S.eq(h, 3.0), S.eq(l2, 0),
                               S.eq(h2, hi), s == s2))
        for a, b in zip(xs, ys):
            if S.decide(b <= y[0] + (y[1] - y[0]) / 2.0 * (a - 1.0)):
                acc.append(a)
    S.check('accepted', len(acc) == n)
    S.check('accepted', S.And(*[S.eq(p, q) for p, q in zip(z, acc)]))


# ------------------------------------------------------- sampling of a set
@harness(REG, 'P17', bounds='1-2 systems, every scheme; any limits', stubs=[
    'draws of the single distributions (decided by the other harnesses): '
    'arbitrary values'])
def dispatch(S):
    what = S.pick('what', ['m1', 'm2', 'P', 'a', 'e'])
    n = S.pick('n', [1, 2])
    r = RNG(S)
    made = []

    def fake(name, **conv):
        class X:
            def __init__(self, **k):
                made.append((name, k))

            def rvs(self, size=1, rng=None, **k):
                made.append(('rvs', dict(k, size=size, rng=rng)))
                return arr(S, *[S.real('%s_%d_%d' % (name, len(made), i),
                                       0.01, 1) for i in range(size)])
        return X
    names = ['FlatMassRatio', 'Sana12Period', 'LogUniform',
             'LogNormalSeparation', 'ThermalEccentricity',
             'UniformEccentricity', 'ZeroEccentricity']
    import contextlib
    with contextlib.ExitStack() as st:
        for c in names:
            st.enter_context(replaced(D, c, fake(c)))
        for c in ('Salpeter', 'Kroupa1993', 'Kroupa2001'):
            st.enter_context(replaced(IMFs, c, fake(c)))
        if what == 'm1':
            sch = S.pick('scheme', ['Salpeter', 'Kroupa1993', 'Kroupa2001',
                                    'unknown'])
            lo, hi = S.real('lo', 1, 10), S.real('hi', 20, 100)
            try:
                x = ind.generate_primary_masses(
                    number_of_binaries=n, primary_mass_min=lo,
                    primary_mass_max=hi, primary_mass_scheme=sch, RNG=r)
            except ValueError:
                S.check('refused', sch == 'unknown')
                return
            S.check('refused', sch != 'unknown')
            k = made[0][1]
            S.check('scheme', made[0][0] == sch and S.decide(S.And(
                S.eq(k['m_min'], lo), S.eq(k['m_max'], hi))))
            S.check('slope', k.get('alpha') == {
                'Salpeter': 2.35, 'Kroupa1993': 2.7}.get(sch)
                or (sch == 'Kroupa1993' and 'alpha' not in k)
                or (sch == 'Salpeter' and 'alpha' not in k))
        elif what == 'm2':
            sch = S.pick('scheme', ['flat_mass_ratio', 'q=1', 'unknown'])
            m1 = arr(S, *[S.real('m%d' % i, 0.1, 150) for i in range(n)])
            lo, hi = S.real('lo', 0.05, 2), S.real('hi', 2, 100)
            try:
                x = ind.generate_secondary_masses(
                    m1, number_of_binaries=n, secondary_mass_min=lo,
                    secondary_mass_max=hi, secondary_mass_scheme=sch, RNG=r)
            except ValueError:
                S.check('refused', S.Or(sch == 'unknown', *[
                    m <= lo for m in m1]))
                return
            S.check('refused', S.And(sch != 'unknown', *[
                m >= lo for m in m1]))
            S.check('count', len(x) == n)
            if sch == 'q=1':
                S.check('equal-mass', S.And(*[S.eq(a, b)
                                              for a, b in zip(x, m1)]))
                keep = list(m1)
                x[0] = np.nan
                S.check('independent', S.eq(m1[0], keep[0]))
                return
            qs = [p for p in made if p[0] == 'FlatMassRatio']
            S.check('one-each', len(qs) == n)
            for i in range(n):
                k = qs[i][1]
                up = hi / m1[i] if S.decide(hi / m1[i] < 1) else 1.0
                S.check('mass-ratio-limits', S.And(
                    S.eq(k['q_min'] * m1[i], lo), S.eq(k['q_max'], up)))
                S.check('mass', S.eq(x[i], m1[i] * S.real(
                    'FlatMassRatio_%d_0' % (2 * i + 2), 0.01, 1)))
            return
        elif what == 'P':
            sch = S.pick('scheme', ['Sana+12_period_extended', 'unknown'])
            m1 = arr(S, *[S.real('m%d' % i, 1, 100) for i in range(n)])
            try:
                x = ind.generate_orbital_periods(
                    m1, number_of_binaries=n, orbital_period_min=1.0,
                    orbital_period_max=9.0, orbital_period_scheme=sch, RNG=r)
            except ValueError:
                S.check('refused', sch == 'unknown')
                return
            S.check('scheme', made[0] == ('Sana12Period', dict(
                p_min=1.0, p_max=9.0)) and made[1][1]['m1'] is m1)
        elif what == 'a':
            sch = S.pick('scheme', ['log_uniform', 'log_normal', 'unknown'])
            mu = S.pick('mean', [None, 1.0])
            try:
                x = ind.generate_orbital_separations(
                    number_of_binaries=n, orbital_separation_min=2.0,
                    orbital_separation_max=50.0,
                    log_orbital_separation_mean=mu,
                    log_orbital_separation_sigma=0.5,
                    orbital_separation_scheme=sch, RNG=r)
            except ValueError:
                S.check('refused', sch == 'unknown' or (
                    sch == 'log_normal' and mu is None))
                return
            S.check('scheme', made[0] == (
                ('LogUniform', dict(min=2.0, max=50.0))
                if sch == 'log_uniform' else
                ('LogNormalSeparation', dict(mean=1.0, sigma=0.5, min=2.0,
                                             max=50.0))))
        else:
            sch = S.pick('scheme', ['thermal', 'uniform', 'zero', 'unknown'])
            try:
                x = ind.generate_eccentricities(
                    number_of_binaries=n, eccentricity_scheme=sch, RNG=r)
            except ValueError:
                S.check('refused', sch == 'unknown')
                return
            S.check('refused', sch != 'unknown')
            S.check('scheme', made[0][0] == {
                'thermal': 'ThermalEccentricity',
                'uniform': 'UniformEccentricity',
                'zero': 'ZeroEccentricity'}[sch])
        S.check('generator', made[1][0] == 'rvs' and len(made) == 2
                and made[1][1]['size'] == n and made[1][1]['rng'] is r)
        S.check('count', len(x) == n)


@harness(REG, 'P17', bounds='1-3 systems, every scheme, any binary fraction',
         stubs=['single draws: arbitrary values'])
def independent_set(S):
    fb = S.pick('binary fraction', ['const', 'Moe+17-massdependent',
                                    'unknown'])
    n = S.pick('n', [1, 2, 3] if fb == 'const' else [1, 2])
    sch = S.pick('orbit', ['period', 'separation', 'unknown'])
    alias = n < 3 and S.pick('q=1', [False, True])
    f = S.real('f', 0, 1)
    r = RNG(S)
    v = {k: arr(S, *[S.real(k + str(i), 0.1, 99) for i in range(n)])
         for k in ('m1', 'm2', 'P', 'a', 'e')}
    orig = {k: list(x) for k, x in v.items()}
    kw = dict(number_of_binaries=n, RNG=r, binary_fraction_const=f,
              binary_fraction_scheme=fb, x=1)
    if alias:
        kw.update(secondary_mass_scheme='q=1', secondary_mass_min=0.01)
    seen = {}

    def give(k):
        def g(*a, **q):
            seen[k] = (a, q)
            return v[k]
        return g
    import contextlib
    with contextlib.ExitStack() as st:
        for fn, k in (('generate_primary_masses', 'm1'),
                      ('generate_orbital_periods', 'P'),
                      ('generate_orbital_separations', 'a'),
                      ('generate_eccentricities', 'e')) + (
                          () if alias else
                          (('generate_secondary_masses', 'm2'),)):
            st.enter_context(replaced(ind, fn, give(k)))
        try:
            o, e, m1, m2 = ind.generate_independent_samples(
                orbital_scheme=sch, **kw)
        except ValueError:
            S.check('refused', 'unknown' in (sch, fb))
            return
    S.check('refused', 'unknown' not in (sch, fb))
    for k in seen:
        q = seen[k][1]
        S.check('options', q.get('number_of_binaries') == n
                and q.get('RNG') is r and q.get('x') == 1)
    for k in ('m2', 'P'):
        if k in seen:
            S.check('primary-handed-over', len(seen[k][0]) > 0
                    and seen[k][0][0] is v['m1']
                    or 'primary_masses' in seen[k][1])
    S.check('one-deviate-each', len(r.u) == n)
    for i in range(n):
        m = orig['m1'][i]
        if fb == 'const':
            fi = f
        else:
            fi = 0.94 if S.decide(m > 16) else 0.84 if S.decide(m > 9) else \
                0.76 if S.decide(m > 5) else 0.59 if S.decide(m > 2) else 0.4
        S.check('primary', S.eq(m1[i], m))
        if S.decide(r.u[i] > fi):
            S.check('single', S.And(S.isnan(o[i]), S.isnan(e[i]),
                                    S.isnan(m2[i])))
        else:
            S.check('binary', S.And(
                S.eq(o[i], orig['P' if sch == 'period' else 'a'][i]),
                S.eq(e[i], orig['e'][i]),
                S.eq(m2[i], m if alias else orig['m2'][i])))


@harness(REG, 'P17', bounds='tables of 1-3 rows, 0-5 systems requested from '
         'any start; missing columns', stubs=['single draws: arbitrary values',
                                              'the table on disk: arbitrary '
                                              'values'])
def from_file(S):
    import pandas as pd
    n = S.pick('rows', [1, 2, 3])
    want = S.pick('requested', [None, 0, 1, 2, 5])
    start = S.pick('index', [None, 0, 1, 2])
    sch = S.pick('orbit', ['period', 'separation', 'x'])
    miss = S.pick('missing', [None, 'eccentricity', 'm1', 'm2', 'orbit'])
    cols = dict(eccentricity='e', m1='m1', m2='M2', orbit={
        'period': 'period', 'separation': 'a', 'x': 'p'}[sch])
    names = {'eccentricity': sff.ECCENTRICITY_NAMES,
             'm1': sff.PRIMARY_MASS_NAMES, 'm2': sff.SECONDARY_MASS_NAMES,
             'orbit': sff.SEPARATION_NAMES if sch == 'separation'
             else sff.PERIOD_NAMES}
    v = {k: [S.real('%s_%d' % (k, i), 0, 9) for i in range(n)] for k in names}
    d = {}
    for k in names:
        if k != miss:
            d[names[k][-1].upper()] = v[k]
    df = pd.DataFrame({'other': [0.0] * n})
    for k in d:
        df[k] = np.array(d[k], dtype=object if S.symbolic else float)

    class PD:
        def read_csv(self, f, **k):
            return df

    class OS:
        class path:
            @staticmethod
            def isfile(f):
                return True
    kw = dict(read_samples_from_file='x.csv')
    if want is not None:
        kw['number_of_binaries'] = want
    if start is not None:
        kw['index'] = start
    asked = {}

    def give(k):
        def g(*a, **q):
            asked[k] = q.get('number_of_binaries')
            return arr(S, *v[k])
        return g
    import contextlib
    with contextlib.ExitStack() as st:
        st.enter_context(replaced(sff, 'pd', PD()))
        st.enter_context(replaced(sff, 'os', OS))
        st.enter_context(replaced(sff, 'Pwarn', lambda *a, **k: None))
        for f, k in (('generate_eccentricities', 'eccentricity'),
                     ('generate_primary_masses', 'm1'),
                     ('generate_secondary_masses', 'm2'),
                     ('generate_orbital_periods', 'orbit'),
                     ('generate_orbital_separations', 'orbit')):
            st.enter_context(replaced(sff, f, give(k)))
        try:
            out = sff.get_samples_from_file(orbital_scheme=sch, **kw)
        except ValueError:
            S.check('refused', sch == 'x')
            return
    S.check('refused', sch != 'x')
    S.check('generated', asked == ({} if miss is None else {miss: n}))
    for k, x in zip(('orbit', 'eccentricity', 'm1', 'm2'), out):
        m = n if not want else want
        S.check('count', len(x) == m)
        for i in range(min(m, len(x))):
            j = ((start or 0) if want else 0) + i
            S.check('row', S.eq(x[i], v[k][j % n]))
