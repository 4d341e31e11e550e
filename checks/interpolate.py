"""Interpolation of grid outcomes, scaling and physical constraints."""
import contextlib
import types

import numpy as np

import posydon.interpolation.constraints as con
import posydon.interpolation.data_scaling as ds
import posydon.interpolation.IF_interpolation as IF
import posydon.interpolation.interpolation as gi
import posydon.utils.common_functions as cf
import posydon.utils.interpolators as ui
from symex.run import harness
from symex.stub import replaced

REG = []
META = {
    'P22': dict(assumptions=[
        "2-3 training values per column, 2 columns, 2 classes, 1-2 systems; "
        "values in [0.1, 100] (or their negatives); grids of 2-4 masses and "
        "tracks of 2-4 rows; powers, logarithms and roots uninterpreted up to "
        "their identities; the learned classifiers, Delaunay/Pchip "
        "interpolators and nearest-neighbour searches are stand-ins with "
        "arbitrary results"]),
}


def arr(S, v):
    a = np.empty(np.shape(v), dtype=object if S.symbolic else float)
    a[...] = v
    return a


METHODS = ['none', 'min_max', 'max_abs', 'standarize', 'log', 'log_min_max',
           'log_max_abs', 'log_standarize', 'neg_log_min_max',
           'neg_log_standarize']


@harness(REG, 'P22', bounds='2-3 training values, any new value, every method '
         'and range', feas_ms=2000)
def scaling(S):
    meth = S.pick('method', METHODS + ['other', None])
    n = S.pick('n', [2, 3]) if meth in ('min_max', 'max_abs', 'none') else 2
    neg = meth is not None and meth.startswith('neg')
    x = [S.real('x%d' % i, 0.1, 100) for i in range(n)]
    new = S.real('new', 0.1, 100)
    if meth == 'max_abs':
        x = [v - 50 for v in x]
    if neg:
        x, new = [-v for v in x], -new
    lo = S.real('lower', -5, 5)
    hi = S.real('upper', -5, 5)
    d = ds.DataScaler()
    try:
        if meth is None:
            if S.pick('call', [0, 1]):
                d.transform(arr(S, x))
            else:
                d.inv_transform(arr(S, x))
        else:
            d.fit(arr(S, x), meth, lo, hi)
    except ValueError:
        S.check('refused', meth == 'other')
        return
    except AssertionError:
        S.check('refused', S.Or(meth is None, S.And(
            meth is not None and meth.endswith('min_max'), hi <= lo)))
        return
    S.check('refused', meth not in ('other', None))
    if meth.endswith('min_max'):
        S.check('refused', hi > lo)
    log = meth.startswith(('log', 'neg'))
    u = [np.log10(-v if neg else v) if log else v for v in x]
    w = np.log10(-new if neg else new) if log else new
    if not S.symbolic:
        S.assume(max(u) - min(u) > 1e-3 and max(abs(v) for v in u) > 1e-3)
    t = d.transform(arr(S, [new]))
    if meth in ('none', 'log'):
        S.check('definition', S.eq(t[0], w))
    elif meth.endswith('min_max'):
        a = b = u[0]
        if log:
            # log10 is increasing
            S.assume(S.iff(u[0] < u[1], abs(x[0]) < abs(x[1])))
            S.assume(S.iff(u[0] > u[1], abs(x[0]) > abs(x[1])))
        for v in u[1:]:
            a = v if S.decide(v < a) else a
            b = v if S.decide(v > b) else b
        S.assume(b - a > 1e-3)
        S.assume(hi - lo > 1e-3)
        S.check('definition', S.eq((t[0] - lo) * (b - a),
                                   (w - a) * (hi - lo), 1e-6, 1e-6))
    elif meth.endswith('max_abs'):
        m = abs(u[0])
        for v in u[1:]:
            m = abs(v) if S.decide(abs(v) > m) else m
        S.assume(m > 1e-3)
        S.check('definition', S.eq(t[0] * m, w))
    else:
        mean = (u[0] + u[1]) / 2
        dev = abs(u[0] - u[1]) / 2
        S.assume(dev > 1e-3)
        S.check('definition', S.eq(t[0] * dev, w - mean, 1e-6, 1e-6))
    back = d.inv_transform(t)
    if log:
        S.assume(S.eq(10 ** w, -new if neg else new, 1e-9))
    S.check('inverse', S.eq(back[0], new, 1e-6, 1e-6))


class Rec:
    """Stand-in for a trained interpolator in the normalised space."""

    def __init__(self, S, name, m):
        self.S, self.name, self.m, self.asked = S, name, m, []

    def predict(self, X, *a, **k):
        self.asked.append(X)
        return arr(self.S, [[self.S.real('%s_%d_%d' % (self.name, i, j), 0, 1)
                             for j in range(self.m)] for i in range(len(X))])


def norm(S, v, a, b):
    return (v - a) / (b - a) * 2 - 1


@harness(REG, 'P22', bounds='1-2 systems of any predicted class (also '
         'untrained or initial overflow), interpolation by class or common, '
         '2 inputs and 2 outputs, any range per class', stubs=[
             'classifier', 'interpolators in the normalised space'])
def by_class(S):
    n = S.pick('n', [1, 2])
    per = S.pick('per_class', [True, False])
    cm = S.pick('class_method', ['kNN', '1NN'])
    names = ['stable_MT', 'no_MT', 'initial_MT', 'None']
    cls = [S.pick('c%d' % i, names if i == 0 else names[:2])
           for i in range(n)]
    rng = {}
    ic = ['stable_MT', 'stable_MT', 'no_MT', 'no_MT']

    def data(tag):
        rows = []
        for k in range(2):
            r = []
            for j in range(2):
                a = S.real('%s%d%d' % (tag, k, j), 1, 20)
                r.append((a, a + S.real('%sd%d%d' % (tag, k, j), 1, 20)))
            rng[tag, names[k]] = r
            rows += [[v[0] for v in r], [v[1] for v in r]]
        # common limits
        lo, hi = [], []
        for j in range(2):
            (a, b), (c, d) = rng[tag, names[0]][j], rng[tag, names[1]][j]
            S.assume(S.And(a <= c, d <= b))
            lo.append(a), hi.append(b)
        rng[tag, None] = list(zip(lo, hi))
        return arr(S, rows)
    XT, YT = data('x'), data('y')
    ic = np.array(ic)
    m = IF.BaseIFInterpolator.__new__(IF.BaseIFInterpolator)
    m.out_keys, m.in_keys, m.n_in, m.n_out = ['a', 'b'], ['p', 'q'], 2, 2
    m.c_key, m.class_method, m.constraints = 'k', cm, []
    common = ['min_max', 'min_max']
    norms = ({c: common for c in names[:2]}, common) if per \
        else (common, common)
    m.X_scaler = IF.Scaler(norms, XT, ic)
    m.Y_scaler = IF.Scaler(norms, YT, ic)
    seen = []
    clf = types.SimpleNamespace(D=2, predict=lambda X: (
        seen.append(X), np.array(cls))[1])
    m.classifiers = {'k': clf, 'other': None}
    recs = [Rec(S, 'r%d' % i, 2) for i in range(2)]
    if per:
        m.interp_method = ['linear', '1NN']
        mc = IF.MC_Interpolator(clf, names[:2], m.interp_method)
        mc.interpolators, mc.M = recs, 2
        m.interpolator = mc
    else:
        m.interp_method = 'linear'
        m.interpolator = recs[0]
    X = [[S.real('X%d%d' % (i, j), 1, 40) for j in range(2)]
         for i in range(n)]
    with replaced(IF, 'Pwarn', lambda *a: None):
        num, cat = m.evaluate_mat(arr(S, X))
    S.check('classes', list(cat['k']) == cls and cat['other'] is None)
    for s in seen:
        for i in range(n):
            for j in range(2):
                a, b = rng['x', None][j]
                S.check('classifier-input', S.eq(s[i][j], norm(
                    S, X[i][j], a, b), 1e-6, 1e-6))
    for i in range(n):
        if cls[i] == 'initial_MT' and cm != '1NN' or \
                per and cls[i] not in names[:2]:
            for j in range(2):
                S.check('undefined', S.isnan(num[i][j]))
            continue
        k = names.index(cls[i]) if per else 0
        row = sum(1 for h in range(i) if not per or cls[h] == cls[i])
        key = cls[i] if per else None
        S.check('asked', len(recs[k].asked) == 1
                and len(recs[k].asked[0]) > row)
        for j in range(2):
            a, b = rng['x', key][j]
            S.check('input', S.eq(recs[k].asked[0][row][j],
                                  norm(S, X[i][j], a, b), 1e-6, 1e-6))
            p = S.real('r%d_%d_%d' % (k, row, j), 0, 1)
            a, b = rng['y', key][j]
            S.check('output', S.eq(num[i][j], (p + 1) / 2 * (b - a) + a,
                                   1e-6, 1e-6))


@harness(REG, 'P22', bounds='1-2 systems in or out of the convex hull', stubs=[
    'Delaunay interpolator', 'nearest-neighbour search'])
def out_of_hull(S):
    n = S.pick('n', [1, 2])
    out = [S.pick('out%d' % i, [False, True]) for i in range(n)]
    scal = S.pick('scaler', [True, False])
    lin = [[float('nan') if out[i] else S.real('l%d%d' % (i, j), 0, 1)
            for j in range(2)] for i in range(n)]
    L = IF.LinInterpolator()
    L.D = 2
    X = arr(S, [[S.real('X%d%d' % (i, j), 0, 1) for j in range(2)]
                for i in range(n)])
    T = arr(S, [[0.1, 0.2], [0.3, 0.4]])
    asked = []

    class NN:
        _tree = types.SimpleNamespace(data=types.SimpleNamespace(base=T))
        _fit_X = T

        def predict(self, X):
            asked.append(X)
            return arr(S, [[S.real('n%d%d' % (i, j), 0, 1) for j in range(2)]
                           for i in range(len(X))])

        def kneighbors(self, X):
            return np.array([[0.5]] * len(X)), np.array([[0]] * len(X))
    L.interpolator = [lambda X: arr(S, lin), NN()]
    sc = types.SimpleNamespace(denormalize=lambda x: x)
    with replaced(IF, 'Pwarn', lambda *a: None):
        y = L.predict(X, scaler=sc) if scal else L.predict(X)
    k = 0
    for i in range(n):
        for j in range(2):
            if out[i]:
                S.check('nearest', S.And(
                    S.eq(y[i][j], S.real('n%d%d' % (k, j), 0, 1)),
                    S.eq(asked[0][k][j], X[i][j])))
            else:
                S.check('linear', S.eq(y[i][j], lin[i][j]))
        k += out[i]


@harness(REG, 'P22', bounds='up to 4 runs with any classes and missing inputs')
def training_rows(S):
    names = ['stable_MT', 'no_MT', 'initial_MT', 'not_converged',
             'ignored_no_RLO']
    q = S.pick('in_q', [False, True])
    cls = [S.pick('c%d' % i, names) for i in range(2)] + ['no_MT']
    gap = S.pick('gap', [None, 0, 2])
    m1 = [S.real('m1%d' % i, 1, 50) for i in range(3)]
    m2 = [S.real('m2%d' % i, 1, 50) for i in range(3)]
    p = [S.real('p%d' % i, 1, 50) for i in range(3)]
    if gap is not None:
        p[gap] = float('nan')
    y = [S.real('y%d' % i, -1, 1) for i in range(3)]
    m = IF.BaseIFInterpolator.__new__(IF.BaseIFInterpolator)
    m.in_keys = ['star_1_mass', 'star_2_mass', 'period_days']
    m.out_keys, m.interp_in_q = ['y'], q
    m.valid_classes = ['no_MT', 'stable_MT']
    g = types.SimpleNamespace(
        initial_values=dict(star_1_mass=arr(S, m1), star_2_mass=arr(S, m2),
                            period_days=arr(S, p)),
        final_values=dict(y=arr(S, y)), SN_MODELS={})
    with replaced(IF, '_get_grid_column', lambda g, k: g.final_values[k]):
        X, Y = m._grid2array(g)
    with contextlib.redirect_stdout(None):
        v = m._setValid(np.array(cls), X)
    b = types.SimpleNamespace(
        star_1=types.SimpleNamespace(mass=m1[0]),
        star_2=types.SimpleNamespace(mass=m2[0]), orbital_period=p[2])
    xb = m._binary2array(b)
    S.check('query', S.And(
        S.eq(xb[0][0], m1[0]), S.eq(xb[0][1], m2[0] / m1[0] if q else m2[0]),
        S.Or(gap == 2, S.eq(xb[0][2], p[2]))))
    for i in range(3):
        w = m2[i] / m1[i] if q else m2[i]
        S.check('columns', S.And(
            S.eq(X[i][0], m1[i]), S.eq(X[i][1], w), S.eq(Y[i][0], y[i]),
            S.isnan(X[i][2]) if gap == i else S.eq(X[i][2], p[i])))
        if q and S.decide(m2[i] == m1[i]):
            S.check('equal-masses', v[i] == -1)
        elif gap != i:
            S.check('validity', v[i] == dict(
                no_MT=1, stable_MT=2, initial_MT=0).get(cls[i], -1))


# --- physical constraints -------------------------------------------------
def fields(S, per_star):
    d = {}
    for s in (1, 2):
        for k, (lo, hi) in per_star.items():
            d[k.format(s)] = S.real(k.format(s), lo, hi)
    return d


def named(name):
    return [c for c in con.find_constraints_to_apply(ALL) if name in c['name']]


ALL = sorted({f.format(s) for c in con.CONSTRAINTS for s in (1, 2)
              for f in (c.get('independent', []) + c.get('sum_fields', [])
                        + [x for y in c.get('fields', []) for x in y])}
             | {'star_1_mass', 'star_2_mass'})


@harness(REG, 'P22', bounds='any luminosity, radius, orbit and transfer rates '
         'of both stars, also missing')
def derived_quantities(S):
    d = {'period_days': S.real('P', 0.1, 1000),
         'binary_separation': S.real('a', 1, 1000),
         'lg_mtransfer_rate': S.real('mt', -120, 0),
         'lg_system_mdot_1': S.real('w1', -120, 0),
         'lg_system_mdot_2': S.real('w2', -120, 0),
         'xfer_fraction': S.real('xf', 0, 1)}
    for s in (1, 2):
        d['star_%d_mass' % s] = S.real('m%d' % s, 0.1, 100)
        for k, lo, hi in (('log_L', 1, 6), ('log_R', -2, 3),
                          ('log_Teff', 3, 5), ('log_LH', -5, 5),
                          ('log_LHe', -5, 5), ('log_LZ', -5, 5),
                          ('log_Lnuc', -5, 5)):
            d['S%d_%s' % (s, k)] = S.real('%s%d' % (k, s), lo, hi)
    gap = S.pick('missing', [None, 'S1_log_L', 'S2_log_LH', 'period_days',
                             'lg_mtransfer_rate', 'lg_system_mdot_2'])
    if gap:
        d[gap] = float('nan')
    old = dict(d)
    cons = [c for c in con.CONSTRAINTS if c['type'] == 1]
    with contextlib.redirect_stdout(None):
        r = con.sanitize_interpolated_quantities(
            d, cons, verbose=S.pick('verbose', [False, True]))
    for k in d:
        S.check('input-unchanged', d[k] is old[k])
    S.check('same-quantities', set(r) == set(d))
    dep = {'S1_log_Teff', 'S2_log_Teff', 'binary_separation', 'S1_log_Lnuc',
           'S2_log_Lnuc', 'lg_system_mdot_1', 'lg_system_mdot_2',
           'xfer_fraction'}
    for k in d:
        if k not in dep and k != gap:
            S.check('others-unchanged', S.eq(r[k], old[k]))
    for s in (1, 2):
        if gap == 'S%d_log_L' % s:
            S.check('missing', S.isnan(r['S%d_log_Teff' % s]))
        else:
            S.check('temperature', S.eq(r['S%d_log_Teff' % s], np.log10(
                cf.stefan_boltzmann_law(10.0 ** d['S%d_log_L' % s],
                                        10.0 ** d['S%d_log_R' % s]))))
        if gap == 'S%d_log_LH' % s:
            S.check('missing', S.isnan(r['S%d_log_Lnuc' % s]))
        else:
            S.check('nuclear', S.eq(r['S%d_log_Lnuc' % s], np.log10(
                10.0 ** d['S%d_log_LH' % s] + 10.0 ** d['S%d_log_LHe' % s]
                + 10.0 ** d['S%d_log_LZ' % s])))
        k = 'lg_system_mdot_%d' % s
        if gap in ('lg_mtransfer_rate', k):
            S.check('missing', S.isnan(r[k]))
        else:
            S.check('loss-below-transfer', S.eq(
                r[k], old[k] if S.decide(old[k] <= old['lg_mtransfer_rate'])
                else old['lg_mtransfer_rate']))
    if gap == 'period_days':
        S.check('missing', S.isnan(r['binary_separation']))
    else:
        S.check('kepler', S.eq(
            r['binary_separation'], cf.orbital_separation_from_period(
                d['period_days'], d['star_1_mass'], d['star_2_mass'])))
    if gap in ('lg_mtransfer_rate', 'lg_system_mdot_2'):
        S.check('missing', S.isnan(r['xfer_fraction']))
        return
    w, mt = r['lg_system_mdot_2'], d['lg_mtransfer_rate']
    if S.decide(S.Or(w < -98, mt < -98)):
        S.check('transferred', S.eq(r['xfer_fraction'], 1.0))
    else:
        S.check('transferred', S.eq(r['xfer_fraction'], 1 - 10.0 ** (w - mt)))


INEQ = ['Element Mass', 'Element Radius', '2.4', '2.5', '2.6', '2.9', '2.11',
        '2.12']


@harness(REG, 'P22', bounds='any values of all bounded quantities of both '
         'stars, one constraint at a time')
def inequalities(S):
    name = S.pick('constraint', INEQ)
    c = [c for c in con.CONSTRAINTS if name in c['name']
         and c['type'] == 2 and 'function' not in c]
    d = {'S1_log_R': S.real('R1', -1, 2), 'S2_log_R': S.real('R2', -1, 2),
         'extra': S.real('extra', -1, 1)}
    sets = []
    both = S.pick('both', [True, False])
    # one of the stars varies, so that the orders are not multiplied
    v = S.pick('star', [1, 2]) if both else 1
    if not both:
        del d['S2_log_R']
    for s in (1, 2) if both else (1,):
        for f in c[0]['fields']:
            ks = [x.format(s) for x in f]
            sets.append((s, ks))
            for k in ks:
                if k not in d:
                    d[k] = S.real(k, -20 if k.startswith('lg') else 0.01, 100)
    for s, ks in sets:
        if s != v:
            top = 10 ** d[ks[0]] if c[0]['log'] else d[ks[0]]
            for k in ks[1:]:
                S.assume(d[k] <= top)
                top = d[k]
        elif len(sets) > 4:
            # of several independent pairs one varies
            pass
    if len(c[0]['fields']) > 1:
        w = S.pick('pair', list(range(len(c[0]['fields']))))
        mine = [ks for s, ks in sets if s == v]
        for i, ks in enumerate(mine):
            if i != w:
                top = 10 ** d[ks[0]] if c[0]['log'] else d[ks[0]]
                S.assume(d[ks[1]] <= top)
    old = dict(d)
    r = con.sanitize_interpolated_quantities(d, c)
    done = {k for s, ks in sets for k in ks[1:]}
    for k in d:
        S.check('input-unchanged', d[k] is old[k])
        if k not in done:
            S.check('others-unchanged', S.eq(r[k], old[k]))
    for s, ks in sets:
        top = 10 ** old[ks[0]] if c[0]['log'] else old[ks[0]]
        for k in ks[1:]:
            want = old[k] if S.decide(old[k] <= top) else top
            S.check('ordered', S.eq(r[k], want))
            top = want


@harness(REG, 'P22', bounds='any non-negative abundances of both stars, centre '
         'and surface')
def abundances(S):
    name = S.pick('where', ['Center', 'Surface'])
    c = [c for c in con.CONSTRAINTS if c['type'] == 3 and name in c['name']]
    d = {'S1_log_R': 1.0, 'S2_log_R': 1.0}
    both = S.pick('both', [True, False])
    if not both:
        del d['S2_log_R']
    for s in (1, 2) if both else (1,):
        for e in ('h1', 'he4', 'c12', 'n14', 'o16', 'other'):
            k = 'S%d_%s_%s' % (s, name.lower(), e)
            d[k] = S.real(k, 0.001, 1)
    old = dict(d)
    r = con.sanitize_interpolated_quantities(d, c)
    for s in (1, 2) if both else (1,):
        ks = [k for k in d if k.startswith('S%d_%s' % (s, name.lower()))]
        t = 0
        for k in ks:
            t = t + old[k]
        for k in ks:
            S.check('sum-one', S.eq(r[k] * t, old[k], 1e-7, 1e-7))
    S.check('others-unchanged', r['S1_log_R'] == 1.0)


@harness(REG, 'P22', bounds='any thickness and radius of the convective '
         'region, also missing', stubs=[])
def convective_region(S):
    c = [c for c in con.CONSTRAINTS if c['name'] == '2.7']
    R = S.real('R', 0.1, 100)
    t, r = S.real('t', -50, 150), S.real('r', -50, 150)
    star = S.pick('star', [1, 2])
    gap = S.pick('missing', [None, 't', 'r'])
    if gap == 't':
        t = float('nan')
    if gap == 'r':
        r = float('nan')
    lR = np.log10(R)
    S.assume(S.eq(10 ** lR, R, 1e-9))
    R = 10 ** lR
    d = {}
    for s in (1, 2):
        d['S%d_log_R' % s] = lR
        d['S%d_thickness_conv_reg_fortides' % s] = t if s == star else 0.02
        d['S%d_radius_conv_reg_fortides' % s] = r if s == star else 0.05
    q = con.sanitize_interpolated_quantities(d, c)
    T = q['S%d_thickness_conv_reg_fortides' % star]
    Q = q['S%d_radius_conv_reg_fortides' % star]
    o = 3 - star
    S.check('other-star', S.And(
        S.eq(q['S%d_thickness_conv_reg_fortides' % o], 0.02),
        S.eq(q['S%d_radius_conv_reg_fortides' % o], 0.05)))
    if gap:
        S.check('missing', S.And(S.isnan(T) if gap == 't' else S.eq(T, t),
                                 S.isnan(Q) if gap == 'r' else S.eq(Q, r)))
        return
    inside = S.And(t > 0, r >= 0.5 * t, r + 0.5 * t <= R)
    if S.decide(inside):
        S.check('unchanged', S.And(S.eq(T, t), S.eq(Q, r)))
    else:
        S.check('inside', S.And(T > 0, Q >= 0.5 * T - 1e-8,
                                Q + 0.5 * T <= R + 1e-8))


@harness(REG, 'P22', bounds='any two or three interpolators set up one after '
         'the other, each lacking any one quantity of any constraint')
def applicable_constraints(S):
    n = S.pick('n', [1, 2])
    saved = [dict(c) for c in con.CONSTRAINTS]
    miss = [S.pick('missing%d' % i, [None, 'S1_log_R', 'S1_he_core_mass',
                                     'S1_m_core_CE_1cent', 'star_1_mass',
                                     'S1_center_c12', 'period_days',
                                     'lg_mtransfer_rate',
                                     'S1_Fryer+12-rapid_mass'])
            for i in range(n)]
    try:
        for m in miss:
            got = con.find_constraints_to_apply([k for k in ALL if k != m])
        want = []
        for c in saved:
            c = dict(c)
            fs = [f.format(1) for f in c.get('independent', [])
                  + c.get('sum_fields', [])]
            if 'fields' in c:
                c['fields'] = [f for f in c['fields']
                               if m not in [x.format(1) for x in f]]
                if not c['fields']:
                    continue
            elif m in fs:
                continue
            want.append(c)
        S.check('applied', [g['name'] for g in got]
                == [w['name'] for w in want])
        S.check('complete', [g.get('fields') for g in got]
                == [w.get('fields') for w in want])
    finally:
        for c, s in zip(con.CONSTRAINTS, saved):
            c.clear(), c.update(s)


# --- one-dimensional interpolation ----------------------------------------
@harness(REG, 'P22', bounds='2-3 distinct nodes in any order, any query, every '
         'treatment of values outside')
def linear_interpolation(S):
    n = S.pick('n', [2, 3])
    x = [S.real('x%d' % i, 0, 10) for i in range(n)]
    y = [S.real('y%d' % i, -5, 5) for i in range(n)]
    q = S.real('q', -5, 15)
    fill = S.pick('fill', [None, 'extrapolate', 1, 2, 'sides', 'bad'])
    for i in range(n):
        for j in range(i):
            S.assume(S.Or(x[i] - x[j] > 1e-3, x[j] - x[i] > 1e-3))
    lo, hi = S.real('lo', -9, 9), S.real('hi', -9, 9)
    kw = {None: {}, 'extrapolate': dict(fill_value='extrapolate'),
          1: dict(fill_value=(lo,)), 2: dict(fill_value=(lo, hi)),
          'sides': dict(left=lo, right=hi),
          'bad': dict(fill_value='nothing')}[fill]
    kind = S.pick('kind', ['linear', 'cubic']) if fill is None else 'linear'
    arrq = fill == 'extrapolate' or S.pick('array', [False, True])
    try:
        f = ui.interp1d(arr(S, x), arr(S, y), kind=kind, **kw)
    except NotImplementedError:
        S.check('refused', fill == 'bad' or kind == 'cubic')
        return
    S.check('refused', fill != 'bad' and kind == 'linear')
    v = f(arr(S, [q]) if arrq else q)
    v = v[0] if arrq else v
    if isinstance(v, np.ndarray):
        v = v[()]
    o = list(range(n))
    for i in range(n):          # sort
        for j in range(n - 1):
            if S.decide(x[o[j]] > x[o[j + 1]]):
                o[j], o[j + 1] = o[j + 1], o[j]
    X, Y = [x[i] for i in o], [y[i] for i in o]
    below, above = S.decide(q < X[0]), S.decide(q > X[-1])
    if (below or above) and fill != 'extrapolate':
        w = {None: Y[0] if below else Y[-1], 1: lo,
             2: lo if below else hi, 'sides': lo if below else hi}[fill]
        S.check('outside', S.eq(v, w))
        return
    k = 0
    while k < n - 2 and S.decide(q > X[k + 1]):
        k += 1
    S.check('segment', S.eq((v - Y[k]) * (X[k + 1] - X[k]),
                            (Y[k + 1] - Y[k]) * (q - X[k]), 1e-6, 1e-6))


@harness(REG, 'P22', bounds='4 quantities of every kind (positive, derivative) '
         'in any order, any time and offset, scalar or 1-3 times', stubs=[
             'Pchip interpolator: arbitrary straight lines'])
def star_interpolator(S):
    kinds = [(False, False), (True, False), (False, True), (True, True)]
    rot = S.pick('order', [0, 1, 2, 3])
    pos = [kinds[(i + rot) % 4][0] for i in range(4)] + [False]
    der = [kinds[(i + rot) % 4][1] for i in range(4)] + [False]
    flags = S.pick('flags', [True, False])
    a = [S.real('a%d' % i, -5, 5) for i in range(5)]
    b = [S.real('b%d' % i, -5, 5) for i in range(5)]
    off = S.real('offset', 0, 5)
    nt = S.pick('times', [None, 1, 2])
    t = [S.real('t%d' % i, 0, 10) for i in range(nt or 1)]

    class Line:
        def __init__(self, t, Y, d=False):
            self.Y, self.d = Y, d

        def derivative(self):
            return Line(None, self.Y, True)

        def __call__(self, t):
            def one(t):
                return [self.Y[1][j] if self.d else
                        self.Y[0][j] + self.Y[1][j] * t
                        for j in range(len(self.Y[0]))]
            if isinstance(t, np.ndarray) and t.ndim:
                return arr(S, [one(v) for v in t])
            return arr(S, one(t))
    keys = ['k%d' % i for i in range(5)]
    with replaced(ui, 'PchipInterpolator', Line):
        f = ui.SingleStarInterpolator(
            np.array([0., 7.]), [arr(S, [a[i], b[i]]) for i in range(5)],
            keys, *((pos, der) if flags else ()))
        S.check('t-max', f.t_max == 7.)
        S.check('keys', sorted(f.keys) == keys)
        f.offset = off
        r = f(t[0] if nt is None else arr(S, t))
    for i in range(5):
        for h in range(nt or 1):
            v = r[keys[i]]
            v = v[h] if (nt or 0) > 1 else v
            w = b[i] if flags and der[i] else a[i] + b[i] * (t[h] - off)
            if flags and pos[i] and not S.decide(w > 0):
                w = 0.0
            S.check('value', S.eq(v, w, 1e-6, 1e-6))


# --- single-star grids ----------------------------------------------------
def grid(S, n, nan=()):
    g = gi.GRIDInterpolator.__new__(gi.GRIDInterpolator)
    m = [S.real('m%d' % i, 1, 50) for i in range(n)]
    for i in range(n - 1):
        S.assume(m[i + 1] - m[i] > 0.1)
    g.grid_mass = arr(S, m)
    return g, m


class ByMass(dict):
    """Dictionary with symbolic masses as keys."""

    def __init__(self, S, m, v, loaded):
        self.S, self.m, self.v, self.loaded = S, m, v, loaded

    def __getitem__(self, k):
        for i, x in enumerate(self.m):
            if k is x or self.S.decide(S_eq(k, x)):
                return self.v[i] if self.loaded[i] else {}
        raise KeyError(k)


def S_eq(a, b):
    return a == b


@harness(REG, 'P22', bounds='2-4 grid masses, any mass between them, final '
         'values missing for any of them, loaded or not')
def final_values(S):
    n = S.pick('n', [2, 3, 4])
    g, m = grid(S, n)
    nan = [S.pick('nan%d' % i, [False, True]) for i in range(n)]
    v = [float('nan') if nan[i] else S.real('v%d' % i, -5, 5)
         for i in range(n)]
    loaded = [S.pick('loaded', [True, False])] * n
    calls = []
    fv = ByMass(S, m, [dict(k=v[i], s='state%d' % i) for i in range(n)],
                loaded)
    g.grid_final_values = fv

    def load(M):
        calls.append(M)
        for i, x in enumerate(m):
            if M is x or S.decide(M == x):
                loaded[i] = True
    g.load_grid = load
    M = S.real('M', 1, 50)
    S.assume(S.And(M > m[0], M < m[-1]))
    at = [i for i in range(n) if S.decide(M == m[i])]
    r = g.get_final_values('k', M)
    st = g.get_final_state('s', M)
    if at:
        i = at[0]
        S.check('exact', S.And(S.isnan(r) if nan[i] else S.eq(r, v[i]),
                               st == 'state%d' % i))
        return
    lo = max(i for i in range(n) if S.decide(m[i] < M))
    S.check('nearest-state', S.Or(
        S.And(st == 'state%d' % lo, M - m[lo] <= m[lo + 1] - M),
        S.And(st == 'state%d' % (lo + 1), M - m[lo] >= m[lo + 1] - M)))
    low = [i for i in range(lo + 1) if not nan[i]]
    high = [i for i in range(lo + 1, n) if not nan[i]]
    if not low or not high:
        return
    i, j = low[-1], high[0]
    S.check('linear', S.eq((r - v[i]) * (m[j] - m[i]),
                           (v[j] - v[i]) * (M - m[i]), 1e-6, 1e-6))


@harness(REG, 'P22', bounds='2-3 grid masses, tracks of 2-4 rows of different '
         'length, any mass')
def tracks(S):
    n = S.pick('n', [2, 3])
    g, m = grid(S, n)
    ln = [S.pick('rows%d' % i, [2, 3]) for i in range(n)]
    key = S.pick('key', ['age', 'y'])
    d = []
    for i in range(n):
        e = {k: arr(S, [S.real('%s_%d_%d' % (k, i, j), -2, 5)
                        for j in range(ln[i])])
             for k in ('age', 'y', 'log_L', 'log_LH')}
        # hydrogen burning supplies the luminosity at last
        S.assume(e['log_L'][1] + np.log10(0.99) <= e['log_LH'][1])
        d.append(e)
    g.grid_data = ByMass(S, m, d, [True] * n)
    M = S.real('M', 1, 50)
    S.assume(S.And(M >= m[0], M <= m[-1]))
    at = [i for i in range(n) if S.decide(M == m[i])]
    r = g.get(key, M)
    if at:
        col = {k: list(d[at[0]][k]) for k in d[0]}
    else:
        lo = max(i for i in range(n) if S.decide(m[i] < M))
        c = min(ln[lo], ln[lo + 1])
        w = (M - m[lo]) / (m[lo + 1] - m[lo])
        col = {k: [d[lo][k][j] + w * (d[lo + 1][k][j] - d[lo][k][j])
                   for j in range(c)] for k in d[0]}
    z = 0 if S.decide(np.log10(0.99) + col['log_L'][0] <= col['log_LH'][0]) \
        else 1
    S.check('from-ZAMS', len(r) == len(col['age']) - z)
    for j in range(len(r)):
        v = col[key][j + z]
        S.check('value', S.eq(r[j], v - col[key][z] if key == 'age' else v,
                              1e-6, 1e-6))


@harness(REG, 'P22', bounds='2 interpolators with separate, overlapping or '
         'unnamed quantities', stubs=['the two trained interpolators'])
def combined(S):
    keys = [S.pick('k0', [['a', 'b'], ['a'], None]),
            S.pick('k1', [['c'], ['a', 'c'], None, 'single'])]
    par = [dict(out_keys=k) if k else {} for k in keys if k != 'single']
    try:
        f = IF.IFInterpolator(grid=None, interpolators=par)
    except ValueError:
        S.check('overlap', len(par) == 2 and (
            None in keys or set(keys[0]) & set(keys[1])))
        return
    S.check('overlap', len(par) == 1 or None not in keys
            and not set(keys[0]) & set(keys[1]))
    q = S.pick('in_q', [False, True])
    asked = []

    def one(i, ks):
        def test(X):
            asked.append(X)
            return arr(S, [[S.real('%s%d' % (k, r), -1, 1) for k in ks]
                           for r in range(2)])
        return types.SimpleNamespace(
            test_interpolator=test,
            test_classifiers=lambda X: (asked.append(X), {'c%d' % i: i})[1],
            evaluate=lambda b, v=False: (
                {k: S.real(k + '0', -1, 1) for k in ks}, {'c%d' % i: i}))
    ks = [k or ['z'] for k in keys if k != 'single']
    f.interpolators = [one(i, k) for i, k in enumerate(ks)]
    f.interp_in_q = q
    X = arr(S, [[S.real('X%d%d' % (i, j), 1, 9) for j in range(3)]
                for i in range(2)])
    old = X.copy()
    y = f.test_interpolator(X)
    c = f.test_classifiers(X)
    num, cat = f.evaluate(None)
    S.check('classes', c == cat == {'c%d' % i: i for i in range(len(ks))})
    flat = [k for e in ks for k in e]
    S.check('shape', y.shape == (2, len(flat)) and sorted(num) == sorted(flat))
    for r in range(2):
        for h, k in enumerate(flat):
            S.check('columns', S.eq(y[r][h], S.real('%s%d' % (k, r), -1, 1)))
            S.check('values', S.eq(num[k], S.real(k + '0', -1, 1)))
        for A in asked:
            for j in range(3):
                S.check('input', S.eq(A[r][j], old[r][1] / old[r][0]
                                      if q and j == 1 else old[r][j]))
        S.check('input-unchanged', all(X[r][j] is old[r][j] if S.symbolic
                                       else X[r][j] == old[r][j]
                                       for j in range(3)))
