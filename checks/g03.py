"""G03: abundance matching pairs equal cumulative abundances, and the luminosity functions used for it are proper distributions."""
import numpy as np
import scipy.special
from vsx.core import harness
from vsx.spec import obj, all_, ite

_AM = 'galprops.galprops_am.'
FUNCTIONS = [_AM + 'am_dfcat', _AM + 'am_dfdf'] + [_AM + c + '.' + m for c in ('schechter_gen', 'double_schechter_gen', 'modified_schechter_gen', 'double_power_law_gen')
                                                  for m in ('lum_function', 'lum_function_int', '_uppergammamod', '_pdf', '_cdf', '_ppf', '_get_support', '_argcheck') if not (c[0] in 'md' and 'double_s' not in c and m == '_uppergammamod')]
BOUNDS = 'catalogs of up to 3 values, arrays of up to 2 values to be matched, every value and probability symbolic; distributions with piecewise linear cumulative functions; missing masses none, symbolic or fixed; luminosity functions at slopes -0.25 to -2.75 with all other parameters symbolic'
OUTSIDE = 'arrays with values exactly at a limit of the matched range (see the known finding); incomplete gamma and exponential integral functions are uninterpreted; tabulated distributions use 4 to 33 instead of 10001 points; ties in the catalog'


class Dist:
    """a distribution with a piecewise linear cumulative function"""
    def __init__(self, ctx, x, c):
        self.ctx, self.x, self.c = ctx, [float(q) for q in x], [float(q) for q in c]

    def cdf(self, x):
        return self.ctx.np.interp(x, self.x, self.c)

    def ppf(self, q):
        return self.ctx.np.interp(q, self.c, self.x)


D1 = ([1, 2, 5], [0, .25, 1])
D2 = ([2, 3, 6], [0, .5, 1])


def line(x, xs, ys):
    """piecewise linear"""
    if not hasattr(x, 'ctx') and x == np.inf:
        return ys[-1]
    r = ys[-1]
    for i in range(len(xs) - 2, -1, -1):
        r = ite(x < xs[i + 1], ys[i] + (x - xs[i]) * ((ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])), r)
    return ite(x < xs[0], ys[0], r)


class Side:
    """one of the two properties: range, distribution, missing masses, what is filled in"""
    def __init__(self, knots, lo, hi, ml, mh, fill_lo, fill_hi):
        self.x, self.c = knots
        self.lo, self.hi, self.ml, self.mh, self.fl, self.fh = lo, hi, ml, mh, fill_lo, fill_hi
        self.F0, self.F1 = line(lo, self.x, self.c), line(hi, self.x, self.c)

    def cum(self, v):
        """fraction of all objects below v"""
        f = self.ml + (line(v, self.x, self.c) - self.F0) / (self.F1 - self.F0) * (1 - self.mh - self.ml)
        return ite(v < self.lo, 0.0, ite(v > self.hi, 1.0, f))

    def value(self, q):
        """value below which the fraction q is: 'low' and 'high' where there are none"""
        f = (q - self.ml) / (1 - self.mh - self.ml) * (self.F1 - self.F0) + self.F0
        return line(f, self.c, self.x)

    def match(self, ctx, q, got, label, ends=False):
        if q < self.ml:
            same(ctx, got, self.fl, label + ': below what is known')
        elif q > 1 - self.mh:
            same(ctx, got, self.fh, label + ': above what is known')
        elif ends or all_(q > self.ml, q < 1 - self.mh):
            ctx.check_eq(got, self.value(q), label + ': equal abundance')


def same(ctx, got, want, label):
    if want is None or (isinstance(want, float) and want != want):
        ctx.check(bool(ctx.np.isnan(got)), label + ' (nan)')
    else:
        ctx.check_eq(got, want, label)


def args(ctx, names, mode):
    v = [ctx.real('v%d' % i, 0, 8) for i in range(1 if mode == 'scalar' else int(mode))]
    return (v[0] if mode == 'scalar' else ctx.pack(np.array(v + [None], dtype=object)[:-1])), v


def missing(ctx, which):
    """missing masses: none, given ones, symbolic"""
    if which == 'none':
        return [0, 0, 0, 0], {}
    if which == 'all':
        m = [.25, .125, .125, .25]
    else:
        m = [0, 0, 0, 0]
        m[which] = ctx.real('m', 0, .75)
    k = ['missing_pmass_low_p1', 'missing_pmass_high_p1', 'missing_pmass_low_p2', 'missing_pmass_high_p2']
    return m, {a: b for a, b in zip(k, m) if not (isinstance(b, int))}


EX = [None, 'nan', 'none', 'flat', 7.5, '7.5']


def fills(ctx, ex, limits):
    """what is filled in where there is no match, by documentation"""
    r = []
    for e, l in zip(ex, limits):
        r.append(float('nan') if e in (None, 'nan', 'none') else l if e == 'flat' else float(e))
    k = ['extrapolate_low_p1', 'extrapolate_high_p1', 'extrapolate_low_p2', 'extrapolate_high_p2']
    return r, {a: e for a, e in zip(k, ex) if e is not None}


def rev(q, reverse):
    return 1 - q if reverse else q


@harness(configs=[dict(n=n, mode=k, miss=m, rng=r, ex=e, reverse=b) for n, k, m, r, e, b in
                  [(2, 'scalar', 'none', None, 0, None), (3, 'scalar', 'all', None, 0, None), (3, '1', 'all', 'both', 1, False), (2, '1', 0, None, 2, True), (2, '1', 1, 'lo', 3, None), (2, '1', 2, 'hi', 4, None),
                   (2, '1', 3, 'both', 5, True), (2, '2', 'none', 'both', 0, True), (3, 'scalar', 'all', 'both', 3, True), (2, 'scalar', 'all', 'both', 6, None), (2, '2', 'all', None, 6, None), (3, '1', 'all', 'both', 3, None)]],
         thorough=[dict(n=n, mode=k, miss=m, rng=r, ex=e, reverse=b) for n in (3,) for k in ('scalar', '2') for m in (0, 1, 2, 3) for r in (None, 'both') for e in (3, 6) for b in (None, True)], max_paths=20000)
def catalog(ctx, n, mode, miss, rng, ex, reverse):
    """a catalog of values matched to a distribution function"""
    am = ctx.mod('simim.galprops.galprops_am')
    cat = [ctx.real('c%d' % i, 1, 7) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume((cat[i] - cat[j]) * (cat[i] - cat[j]) > .01)
    x, v = args(ctx, 'v', mode)
    m, kw = missing(ctx, miss)
    lo, hi = (2.5 if rng in ('lo', 'both') else 0), (5.0 if rng in ('hi', 'both') else np.inf)
    if rng in ('lo', 'both'):
        kw['prop2_min'] = lo
    if rng in ('hi', 'both'):
        kw['prop2_max'] = hi
    order = sorted(range(n), key=lambda i: i)
    s = list(cat)
    for i in range(n):
        for j in range(n - 1):
            if s[j] > s[j + 1]:
                s[j], s[j + 1] = s[j + 1], s[j]
    EXS = [(None,) * 4, ('flat', 'nan', 'none', 7.5), ('flat',) * 4, (7.5, '6.5', 5.5, 4.5), ('nan', 'flat', 'flat', None), (1.5, 2.5, 3.5, 9.5), ('flat', 'flat', 1.25, 'flat')]
    f, e = fills(ctx, EXS[ex], [s[0], s[-1], lo, hi])
    if reverse is not None:
        kw['reverseorder'] = reverse
    p2of1, p1of2 = am.am_dfcat(ctx.pack(np.array(cat, dtype=object)), Dist(ctx, *D2), **kw, **e)
    two = Side(D2, lo, hi, m[2], m[3], f[2], f[3])
    steps = [m[0] + (1 - m[1] - m[0]) * (i / (n - 1)) for i in range(n)]
    y2, y1 = p2of1(x), p1of2(x)
    ctx.check(np.shape(y1) == np.shape(y2) == np.shape(x), 'shape')
    y2, y1 = obj(y2).reshape(-1), obj(y1).reshape(-1)
    for i, q in enumerate(v):
        below = ite(q < s[0], 0.0, ite(q > s[-1], 1.0, line(q, s, steps)))
        two.match(ctx, rev(below, reverse), y2[i], 'property 2 of 1', mode == 'scalar')
        c = rev(two.cum(q), reverse)
        if c < steps[0]:
            same(ctx, y1[i], f[0], 'property 1 of 2: below what is known')
        elif c > steps[-1]:
            same(ctx, y1[i], f[1], 'property 1 of 2: above what is known')
        else:
            ctx.check_eq(y1[i], line(c, steps, s), 'property 1 of 2: equal abundance')


@harness(configs=[dict(mode=k, miss=m, rng=r, ex=e, reverse=b) for k, m, r, e, b in
                  [('scalar', 'none', None, 0, None), ('scalar', 'all', None, 1, None), ('2', 'all', 'both', 1, False), ('1', 0, None, 2, True), ('1', 1, 'lo', 3, None), ('1', 2, 'hi', 4, None), ('1', 3, 'both', 5, True),
                   ('2', 'none', 'both', 0, True), ('scalar', 'all', 'both', 3, True), ('scalar', 'all', 'both', 4, None), ('2', 'all', None, 6, None)]],
         thorough=[dict(mode=k, miss=m, rng=r, ex=e, reverse=b) for k in ('scalar', '2') for m in (0, 1, 2, 3) for r in (None, 'both') for e in (3, 6) for b in (None, True)], max_paths=20000)
def functions(ctx, mode, miss, rng, ex, reverse):
    """two distribution functions matched"""
    am = ctx.mod('simim.galprops.galprops_am')
    x, v = args(ctx, 'v', mode)
    m, kw = missing(ctx, miss)
    L = [1.5 if rng in ('lo', 'both') else 0, 4.5 if rng in ('hi', 'both') else np.inf, 2.5 if rng in ('lo', 'both') else 0, 5.0 if rng in ('hi', 'both') else np.inf]
    k = ['prop1_min', 'prop1_max', 'prop2_min', 'prop2_max']
    kw.update({a: b for a, b in zip(k, L) if b not in (0, np.inf)})
    EXS = [(None,) * 4, ('flat', 'nan', 'none', 7.5), ('flat',) * 4, (7.5, '6.5', 5.5, 4.5), ('nan', 'flat', 'flat', None), (1.5, 2.5, 3.5, 9.5), ('flat', 'flat', 1.25, 'flat')]
    f, e = fills(ctx, EXS[ex], L)
    if reverse is not None:
        kw['reverseorder'] = reverse
    p2of1, p1of2 = am.am_dfdf(Dist(ctx, *D1), Dist(ctx, *D2), **kw, **e)
    one, two = Side(D1, L[0], L[1], m[0], m[1], f[0], f[1]), Side(D2, L[2], L[3], m[2], m[3], f[2], f[3])
    y2, y1 = p2of1(x), p1of2(x)
    ctx.check(np.shape(y1) == np.shape(y2) == np.shape(x), 'shape')
    y2, y1 = obj(y2).reshape(-1), obj(y1).reshape(-1)
    for i, q in enumerate(v):
        two.match(ctx, rev(one.cum(q), reverse), y2[i], 'property 2 of 1', mode == 'scalar')
        one.match(ctx, rev(two.cum(q), reverse), y1[i], 'property 1 of 2', mode == 'scalar')


@harness(configs=[dict(which=w, end=e, mode=k) for w in ('catalog', 'functions') for e in ('low', 'high') for k in ('scalar', '1')])
def limits(ctx, which, end, mode):
    """the lowest and the highest value known match the ends of the other property's range"""
    am = ctx.mod('simim.galprops.galprops_am')
    a, b = ctx.real('a', 1, 3), ctx.real('b', 4, 7)
    v = a if end == 'low' else b
    if which == 'catalog':
        f, _ = am.am_dfcat(ctx.pack(np.array([b, a], dtype=object)), Dist(ctx, *D2), prop2_max=6.0)
    else:
        f, _ = am.am_dfdf(Dist(ctx, *D1), Dist(ctx, *D2), prop1_min=a, prop1_max=b, prop2_max=6.0)
    y = f(v if mode == 'scalar' else ctx.pack(np.array([v, None], dtype=object)[:1]))
    y = obj(y).reshape(-1)[0]
    if y == 0:
        ctx.check(False, 'end of the range')
    ctx.check_eq(y, 2.0 if end == 'low' else 6.0, 'value at the end of the range')


BAD = [(1.5, 0, 0, 0), (0, 1.5, 0, 0), (0, 0, 1.5, 0), (0, 0, 0, 1.5), (-.5, 0, 0, 0), (0, -.5, 0, 0), (0, 0, -.5, 0), (0, 0, 0, -.5), (.75, .5, 0, 0), (0, 0, .75, .5)]


@harness(configs=[dict(which=w) for w in ('catalog', 'functions')])
def refused(ctx, which):
    """impossible missing masses and unknown ways to extrapolate are refused"""
    am = ctx.mod('simim.galprops.galprops_am')
    k = ['missing_pmass_low_p1', 'missing_pmass_high_p1', 'missing_pmass_low_p2', 'missing_pmass_high_p2']
    if which == 'catalog':
        a = (ctx.pack(np.array([ctx.real('a', 1, 3), ctx.real('b', 4, 7)], dtype=object)), Dist(ctx, *D2))
        f = am.am_dfcat
    else:
        a, f = (Dist(ctx, *D1), Dist(ctx, *D2)), am.am_dfdf
    m = [ctx.real('m%d' % i, -1, 2) for i in range(4)]
    ok = all_(*[q >= 0 for q in m], *[q <= 1 for q in m], m[0] + m[1] <= 1, m[2] + m[3] <= 1)
    bad = ctx.raises(ValueError, f, *a, **dict(zip(k, m)))
    if ok:
        ctx.check(not bad, 'possible missing masses are accepted')
    else:
        ctx.check(bad, 'impossible missing masses are refused')
    for e in ('extrapolate_low_p1', 'extrapolate_high_p1', 'extrapolate_low_p2', 'extrapolate_high_p2'):
        ctx.check(ctx.raises(ValueError, f, *a, **{e: 'linear'}), 'unknown extrapolation is refused')


SLOPES = [-.25, -1.0, -1.5, -2.0, -2.75]


def upper(ctx, a, u):
    """int_u^inf t^(a-1) exp(-t) dt"""
    sp = ctx.env.scipy('scipy.special', True) if ctx.symbolic else scipy.special
    if a > 0:
        return sp.gamma(a) * sp.gammaincc(a, u)
    if a == 0:
        return -sp.expi(-u)
    return (upper(ctx, a + 1, u) - u ** a * ctx.np.exp(-u)) / a


def lumpars(ctx, kind, alphas):
    p = dict(x0=ctx.real('x0', .5, 2), xmin=ctx.real('xmin', .1, 1))
    if kind == 'schechter':
        p.update(alpha=alphas[0], phi0=ctx.real('phi0', .1, 2))
        return p, [(p['phi0'], alphas[0])]
    p.update(alpha1=alphas[0], phi1=ctx.real('phi1', .1, 2), alpha2=alphas[1], phi2=ctx.real('phi2', .1, 2))
    return p, [(p['phi1'], alphas[0]), (p['phi2'], alphas[1])]


def phi(ctx, terms, x, x0):
    return sum(f * (x / x0) ** a for f, a in terms) * ctx.np.exp(-x / x0) / x0


def count(ctx, terms, x, x0):
    return sum(f * upper(ctx, a + 1, x / x0) for f, a in terms)


@harness(configs=[dict(kind='schechter', alphas=(a,), mode=k) for a in SLOPES for k in ('scalar', '2')] + [dict(kind='double_schechter', alphas=a, mode=k) for a in ((-1.5, -.25), (-2.75, -1.0), (.5, -1.5), (-.25, -2.0)) for k in ('scalar', '2')], uf=True, max_paths=2000)
def schechter(ctx, kind, alphas, mode):
    """the luminosity function, the number above a luminosity, and the probability density and cumulative probability made of them"""
    am = ctx.mod('simim.galprops.galprops_am')
    d = getattr(am, kind + '_gen')()
    p, T = lumpars(ctx, kind, alphas)
    v = [ctx.real('x%d' % i, .05, 4) for i in range(1 if mode == 'scalar' else int(mode))]
    x = v[0] if mode == 'scalar' else ctx.pack(np.array(v, dtype=object))
    L, I = obj(d.lum_function(x, **p)).reshape(-1), obj(d.lum_function_int(x, **p)).reshape(-1)
    ctx.check(len(L) == len(I) == len(v), 'shape')
    tot = count(ctx, T, p['xmin'], p['x0'])
    want = []
    for i, q in enumerate(v):
        if q < p['xmin']:
            want.append((0.0, tot))
        else:
            want.append((phi(ctx, T, q, p['x0']), count(ctx, T, q, p['x0'])))
        ctx.check_eq(L[i], want[i][0], 'luminosity function', rel=1e-9)
        ctx.check_eq(I[i], want[i][1], 'number above', rel=1e-9)
    if mode != 'scalar':
        # as scipy calls them: parameters repeated for every value
        P = {k: (ctx.pack(np.array([b] * len(v), dtype=object)) if not isinstance(b, float) else ctx.np.array([b] * len(v))) for k, b in p.items()}
        f, F = obj(d._pdf(x, **P)), obj(d._cdf(x, **P))
        for i, q in enumerate(v):
            ctx.assume(tot > .01)
            ctx.check_eq(f[i] * tot, want[i][0], 'density', rel=1e-9)
            ctx.check_eq(F[i] * tot, tot - want[i][1], 'cumulative probability', rel=1e-9)


@harness(configs=[dict(alphas=a) for a in ((-.25, -1.5), (-1.0, -2.75), (-2.0, -2.75), (-1.5, -1.0))], uf=True)
def slopes(ctx, alphas):
    """several slopes at once give what each gives alone"""
    d = ctx.mod('simim.galprops.galprops_am').schechter_gen()
    x0, f, m = ctx.real('x0', .5, 2), ctx.real('phi0', .1, 2), ctx.real('xmin', .1, 1)
    x = ctx.real('x', 1, 4)
    n = len(alphas)
    a = ctx.np.array([float(q) for q in alphas])
    for I in (d.lum_function_int(x, x0, a, f, m), d.lum_function_int(ctx.pack(np.array([x] * n, dtype=object)), x0, a, f, m)):
        I = obj(I)
        ctx.check(I.shape == (n,), 'shape')
        for q, i in zip(alphas, I):
            ctx.check_eq(i, count(ctx, [(f, q)], x, x0), 'number above', rel=1e-9)


class Coarse:
    """numpy with fewer points on the tables"""
    def __init__(self, np_, n):
        self._np, self._n = np_, n

    def __getattr__(self, k):
        return getattr(self._np, k)

    def logspace(self, a, b, n=50, **k):
        return self._np.logspace(a, b, min(n, self._n), **k)


TAB = {'schechter': (dict(x0=1.5, alpha=-1.5, phi0=.25, xmin=.125), lambda x: (x / 1.5) ** -1.5 * np.exp(-x / 1.5), 0),
       'double_schechter': (dict(x0=1.5, alpha1=-.25, phi1=.5, alpha2=-1.5, phi2=.125, xmin=.125), lambda x: (.5 * (x / 1.5) ** -.25 + .125 * (x / 1.5) ** -1.5) * np.exp(-x / 1.5), 0),
       'modified_schechter': (dict(x0=1.5, alpha=1.25, phi0=.25, sigma=.5, xmin=.125), lambda x: (x / 1.5) ** -.25 * np.exp(-np.log10(1 + x / 1.5) ** 2 / .5), 1),
       'double_power_law': (dict(x0=1.5, alpha=.5, beta=2.5, phi0=.25, xmin=.125), lambda x: 1 / ((x / 1.5) ** .5 + (x / 1.5) ** 2.5), 1)}
NT = 33


@harness(configs=[dict(kind=k, arrays=a, mode=m) for k in TAB for a in (False, True) for m in ('1', '2')])
def quantiles(ctx, kind, arrays, mode):
    """quantiles invert the cumulative probability, up to the steps of the table"""
    from scipy.integrate import quad
    am = ctx.mod('simim.galprops.galprops_am')
    real = am.np
    am.np = Coarse(real, NT)
    try:
        d = getattr(am, kind + '_gen')()
        p, g, inlog = TAB[kind]
        v = [ctx.real('q%d' % i, 0, 1) for i in range(int(mode))]
        q = ctx.pack(np.array(v + [None], dtype=object)[:-1])
        P = {k: ctx.np.array([b] * len(v)) for k, b in p.items()} if arrays else p
        y = obj(d._ppf(q, **P))
    finally:
        am.np = real
    x = np.logspace(np.log10(p['xmin']), np.log10(p['xmin']) + 20, NT)
    if inlog:
        c = np.cumsum(g(x))
        c = c / c[-1]
    else:
        c = np.array([quad(g, p['xmin'], min(b, 60), limit=500, epsabs=1e-13)[0] for b in x])
        c = c / c[-1]
    ctx.check(y.shape == (len(v),), 'shape')
    k, j = int(np.argmax(c > 1 - 1e-9)), int(np.argmax(c > 1 - 1e-7))
    for a, b in zip(y, v):
        if b > 1 - 1e-7:
            ctx.check(a >= x[j - 1] * .999, 'quantile of all')
        elif b >= c[0]:
            r = x[k]
            for i in range(k - 1, -1, -1):
                r = ite(b < c[i + 1], x[i] + (b - c[i]) * ((x[i + 1] - x[i]) / (c[i + 1] - c[i])), r)
            ctx.check_eq(a, r, 'quantile', rel=1e-5)
        else:
            ctx.check_eq(a, x[0], 'lowest quantile')


@harness(configs=[dict(kind=k, arrays=a, mode=m, fixed=f) for k in ('modified_schechter', 'double_power_law') for a, m, f in ((False, '1', False), (False, '2', True), (True, '1', True), (True, '2', True))], uf=True)
def tabulated(ctx, kind, arrays, mode, fixed):
    """luminosity functions integrated numerically"""
    am = ctx.mod('simim.galprops.galprops_am')
    real = am.np
    am.np = Coarse(real, 4)
    try:
        d = getattr(am, kind + '_gen')()
        p = dict(x0=1.5, phi0=ctx.real('phi0', .1, 2), xmin=.125)
        if kind[0] == 'm':
            p.update(alpha=1.25 if fixed else ctx.real('alpha', 1, 2), sigma=.5)
            g = lambda x: p['phi0'] * (x / 1.5) ** (1 - p['alpha']) * ctx.np.exp(ctx.np.log10(1 + x / 1.5) ** 2 * (-1 / (2 * .5 ** 2)))
        else:
            p.update(alpha=.5, beta=2.5) if fixed else p.update(alpha=ctx.real('alpha', 0, 1), beta=ctx.real('beta', 2, 3))
            g = lambda x: p['phi0'] / ((x / 1.5) ** p['alpha'] + (x / 1.5) ** p['beta'])
        v = [ctx.real('x%d' % i, .05, 4) for i in range(int(mode))]
        x = ctx.pack(np.array(v + [None], dtype=object)[:-1])
        L = obj(d.lum_function(x, **p))
        for i, a in enumerate(v):
            ctx.check_eq(L[i], g(a) if a >= p['xmin'] else 0.0, 'luminosity function', rel=1e-9)
        if not fixed:
            return
        t = np.logspace(np.log10(p['xmin']), np.log10(p['xmin']) + 20, 4)
        T = [sum(g(float(b)) for b in t[k:]) * (20 / 3) for k in range(4)]
        P = {k: (ctx.pack(np.array([b] * len(v) + [None], dtype=object)[:-1]) if not isinstance(b, float) else ctx.np.array([b] * len(v))) for k, b in p.items()} if arrays else p
        I, f, F = obj(d.lum_function_int(x, **p)), obj(d._pdf(x, **P)), obj(d._cdf(x, **P))
        for i, a in enumerate(v):
            w = T[0] if a < p['xmin'] else T[0] + (a - float(t[0])) * ((T[1] - T[0]) * (1 / float(t[1] - t[0])))
            ctx.check_eq(I[i], w, 'number above', rel=1e-9)
            ctx.check_eq(f[i] * T[0], L[i], 'density', rel=1e-9)
            ctx.check_eq(F[i] * T[0], T[0] - w, 'cumulative probability', rel=1e-9)
    finally:
        am.np = real


@harness(configs=[dict(kind=k) for k in TAB])
def parameters(ctx, kind):
    """support and admissible parameters"""
    am = ctx.mod('simim.galprops.galprops_am')
    d = getattr(am, kind + '_gen')()
    p = {k: ctx.real(k, -2, 2) for k in TAB[kind][0]}
    pos = ['x0', 'xmin'] + (['sigma'] if 'sigma' in p else [])
    nonneg = [k for k in p if k.startswith('phi')] if 'schechter' in kind and kind[0] != 'm' else []
    ok = all_(*[p[k] > 0 for k in pos], *[p[k] >= 0 for k in nonneg])
    r = d._argcheck(**p)
    if ok:
        ctx.check(bool(r), 'admissible')
        s = d._get_support(**p)
        ctx.check_eq(s[0], p['xmin'], 'support starts at the minimum')
        ctx.check(bool(s[1] == np.inf) or bool(s[1] > 1e19 * p['xmin']), 'no upper end')
    else:
        ctx.check(not bool(r), 'not admissible')
