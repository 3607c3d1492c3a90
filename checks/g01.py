"""G01: every line-luminosity model gives each galaxy its published relation, scattered and switched on by its own draws of the given generator."""
import numpy as np
from vsx.core import harness
from vsx.spec import obj, all_, any_, ite
from vsx import astro
from checks import _gal as G

FUNCTIONS = ['galprops.line_co.keating16', 'galprops.line_co.li16', 'galprops.line_co.pullen13', 'galprops.line_co.lidz11', 'galprops.line_co.kamenetzky16', 'galprops.line_co_dutycycle.f_duty',
             'galprops.line_densegas.hcn_gao', 'galprops.line_densegas.hcn_breysse', 'galprops.line_fir.delooze14', 'galprops.line_fir.uzgil14', 'galprops.line_fir.spinoglio12', 'galprops.line_fir.schaerer20',
             'galprops.line_fir.zhao13', 'galprops.line_fir.padmanabhan19', 'galprops.line_fir_yang.yang22', 'galprops.line_fir_yang._yang22_cii_fit', 'galprops.line_fir_yang._yang22_ci_fit',
             'galprops.line_fir_yang._yang22_co_fit', 'galprops.line_fir_yang._yang22_fduty', 'galprops.log10normal.log10normal', 'galprops.galprops_builtin']
BOUNDS = 'one galaxy (a number) or up to 3 (arrays); star formation rates 1e-3 to 1e4, masses 1e8 to 1e16, redshifts 0 to 9, model parameters and every draw symbolic; all lines and galaxy sets of every model'
OUTSIDE = 'exp, log and powers are compared as formulas (normal form over logarithms, relative 1e-9, Yang et al. 3e-5 because their tables are single precision); the interpolation of cosmic age used for more than 100 galaxies; lists as inputs; a draw exactly equal to the fraction that is on'


def gal(ctx, name, lo, hi, mode):
    n = 1 if mode == 'scalar' else int(mode)
    v = [ctx.real('%s%d' % (name, i), lo, hi) for i in range(n)]
    if mode == 'scalar':
        return v[0], v
    return ctx.pack(np.array(v + [None], dtype=object)[:-1]), v


def params(ctx, given):
    return {k: ctx.real(k, *r) for k, r in given}


# name: module, input, range, parameters with ranges, name of the scatter switch and width (None: model has none), default width, mean preserved
SFR, MASS = (1e-3, 1e4), (1e8, 1e16)
M = {
    'li16': ('line_co', 'sfr', dict(d_mf=(.5, 2), a=(1, 2), b=(-3, -1), nu_rest=(5e10, 9e11)), 'scatter_lco', 'sig_lco', .3, True),
    'keating16': ('line_co', 'mass', dict(m_min=(1e9, 1e12), A=(1e-7, 1e-6)), 'scatter_lco', 'sig_lco', .3, False),
    'hcn_gao': ('line_densegas', 'sfr', dict(d_mf=(.5, 2), a=(.5, 2), b=(2, 4), nu_rest=(5e10, 9e11)), 'scatter_lhcn', 'sig_lhcn', .3, True),
    'zhao13': ('line_fir', 'sfr', dict(d_mf=(.5, 2)), 'scatter', 'sig_scatter', .4, False),
}


def spec(name):
    return getattr(G, name)


def unchanged(ctx, x, v):
    ctx.check_eq(obj(x).reshape(-1), np.array(v + [None], dtype=object)[:-1], 'inputs are left alone')


@harness(configs=[dict(model=m, mode=k, given=g) for m in M for g in [()] + [(p,) for p in M[m][2]] + ([tuple(M[m][2])] if len(M[m][2]) > 1 else []) for k in ('scalar', '2')], uf=True)
def mean(ctx, model, mode, given):
    """without scatter: the published relation, for each galaxy alone"""
    mod, inp, par, sw, w, dw, keep = M[model]
    f = getattr(ctx.mod('simim.galprops.' + mod), model)
    x, v = gal(ctx, inp, *(SFR if inp == 'sfr' else MASS), mode)
    kw = {k: ctx.real(k, *par[k]) for k in given}
    r = ctx.rng()
    L = obj(f(x, rng=r, **{sw: False}, **kw)).reshape(-1)
    ctx.check(L.shape == (len(v),), 'one luminosity per galaxy')
    for a, s in zip(L, v):
        ctx.check_eq(a, spec(model)(ctx, s, **kw), 'published relation', rel=1e-9)
    ctx.check(r.log == [], 'nothing is drawn')
    unchanged(ctx, x, v)


@harness(configs=[dict(model=m, mode=k, width=w) for m in M for w in (None, 'given') for k in ('scalar', '2')], uf=True)
def scatter(ctx, model, mode, width):
    """scatter: one normal draw of the given generator per galaxy, of the width asked for, about the mean or the median"""
    mod, inp, par, sw, w, dw, keep = M[model]
    f = getattr(ctx.mod('simim.galprops.' + mod), model)
    x, v = gal(ctx, inp, *(SFR if inp == 'sfr' else MASS), mode)
    r = ctx.rng()
    kw = {} if width is None else {w: ctx.real('dex', .1, 1)}
    L = obj(f(x, rng=r, **kw)).reshape(-1)
    ctx.check(L.shape == (len(v),), 'one luminosity per galaxy')
    ctx.check(r.n == len(v), 'one draw per galaxy')
    for i, s in enumerate(v):
        ctx.check_eq(L[i], G.scattered(ctx, spec(model)(ctx, s), kw.get(w, dw), ctx.real('rng#%d' % i, -4, 4), keep), 'scattered about the published relation', rel=1e-9)
    unchanged(ctx, x, v)


@harness(configs=[dict(shape=s, keep=k, width=w) for s in ((), (1,), (3,), (2, 2)) for k in (None, False, True) for w in ('given', 0.25)], uf=True)
def lognormal(ctx, shape, keep, width):
    """the scatter itself"""
    f = ctx.mod('simim.galprops.log10normal').log10normal
    n = int(np.prod(shape))
    v = [ctx.real('x%d' % i, 1e-3, 1e4) for i in range(n)]
    a = np.empty(shape, dtype=object)
    a.reshape(-1)[:] = v if shape else 0
    x = ctx.pack(a) if shape else v[0]
    dex = ctx.real('dex', 0, 1) if width == 'given' else width
    r = ctx.rng()
    y = f(x, dex, rng=r, **({} if keep is None else dict(preserve_linear_mean=keep)))
    ctx.check(tuple(np.shape(y)) == shape, 'shape')
    ctx.check(r.n == n, 'one draw per value')
    for i, (p, s) in enumerate(zip(obj(y).reshape(-1), v)):
        ctx.check_eq(p, G.scattered(ctx, s, dex, ctx.real('rng#%d' % i, -4, 4), bool(keep)), 'lognormal about the mean or median', rel=1e-9)
    unchanged(ctx, x, v)


LINES = [('delooze14', dict(line=l, set=s), G.DELOOZE[l, s][2]) for (l, s) in G.DELOOZE] + [('uzgil14', dict(line=l), .4) for l in G.UZGIL] + [('spinoglio12', dict(line=l), .4) for l in G.SPINOGLIO] + \
        [('schaerer20', dict(set=s), .4) for s in G.SCHAERER]


@harness(configs=[dict(model=m, sel=tuple(sorted(s.items(), key=str)), dex=d, mode=k) for m, s, d in LINES for k in ('scalar', '2')], uf=True)
def fir(ctx, model, sel, dex, mode):
    """far-infrared lines: every line and galaxy set has its own fit and scatter, and leaving line and set out means [CII] and all galaxies"""
    f = getattr(ctx.mod('simim.galprops.line_fir'), model)
    sel = dict(sel)
    x, v = gal(ctx, 'sfr', *SFR, mode)
    kw = {}
    if model in ('uzgil14', 'spinoglio12') and mode == '2':
        kw['d_mf'] = ctx.real('d_mf', .5, 2)
    r = ctx.rng()
    want = [spec(model)(ctx, s, **sel, **kw) for s in v]
    calls = [dict(sel)]
    if sel.get('line') == '[CII]' and sel.get('set') is None:
        calls += [{}]
    if sel.get('set') == 'ALPINE-uvirx':
        calls += [{}]
    for s in calls:
        L = obj(f(x, scatter=False, rng=r, **s, **kw)).reshape(-1)
        ctx.check(L.shape == (len(v),) and r.n == 0, 'one luminosity per galaxy, without draws')
        for a, b in zip(L, want):
            ctx.check_eq(a, b, 'published relation', rel=1e-9)
    name = 'fix_scatter' if model == 'delooze14' else 'sig_scatter'
    for k in (None, 'given'):
        r = ctx.rng('rng' + str(k))
        d = dict() if k is None else {name: ctx.real('dex', .1, 1)}
        L = obj(f(x, rng=r, **sel, **kw, **d)).reshape(-1)
        ctx.check(L.shape == (len(v),) and r.n == len(v), 'one draw per galaxy')
        for i, b in enumerate(want):
            ctx.check_eq(L[i], G.scattered(ctx, b, d.get(name, dex), ctx.real('rng%s#%d' % (k, i), -4, 4), False), 'scattered about the published relation', rel=1e-9)
    unchanged(ctx, x, v)


@harness(configs=[dict(lines=l, mode=k, brk=b, given=g, scat=s) for l, k in ((None, 'scalar'), (None, '2'), ((1,), '2'), ((13, 2, 7), '3'), ((4, 4), '1')) for b in (False, True)
                  for g, s in (((), False), (('d_mf', 'fircor'), False), ((), True), ((), 'given')) if not (l is None and (s or g)) or k == 'scalar'], uf=True)
def sled(ctx, lines, mode, brk, given, scat):
    """CO ladder: the lines asked for, in that order"""
    f = ctx.mod('simim.galprops.line_co').kamenetzky16
    x, v = gal(ctx, 'sfr', *SFR, mode)
    kw = {k: ctx.real(k, .5, 2) for k in given}
    r = ctx.rng()
    call = dict(kw)
    if lines is not None:
        call['lines'] = list(lines)
    if not scat:
        call['scatter_lco'] = False
    if scat == 'given':
        call['sig_lco'] = ctx.real('dex', .1, 1)
    R = f(x, break_ulirgs=brk, rng=r, **call)
    js = list(lines or range(1, 14))
    ctx.check(len(R) == len(js), 'one entry per line')
    ctx.check(r.n == (len(v) * len(js) if scat else 0), 'one draw per galaxy and line')
    for k, j in enumerate(js):
        L = obj(R[k])
        ctx.check(L.shape == (len(v),), 'one luminosity per galaxy')
        for i, s in enumerate(v):
            m = G.kamenetzky16(ctx, s, j, break_ulirgs=brk, **kw)
            if scat:
                m = G.scattered(ctx, m, call.get('sig_lco', .3), ctx.real('rng#%d' % (i * len(js) + k), -4, 4), False)
            ctx.check_eq(L[i], m, 'published relation', rel=1e-9)
    unchanged(ctx, x, v)


DUTY = [('lidz11', 'line_co'), ('hcn_breysse', 'line_densegas'), ('pullen13', 'line_co')]


@harness(configs=[dict(model=m, mod=k, mode=n, rand=r, given=g, zmode=z) for m, k in DUTY for n in ('scalar', '1', '3') for r in (None, True, False) for g in (False, True) for z in (('one',) if m != 'pullen13' or n != '3' else ('one', 'each'))], uf=True)
def duty(ctx, model, mod, mode, rand, given, zmode):
    """a galaxy shines with the full luminosity when its uniform draw is below the fraction that is on, and not at all otherwise; or always with that fraction of it"""
    co = astro.install(ctx)
    f = getattr(ctx.mod('simim.galprops.' + mod), model)
    x, v = gal(ctx, 'mass', *MASS, mode)
    r = ctx.rng()
    kw = {} if rand is None else dict(rand_f_duty=rand)
    if model == 'pullen13':
        cosmo = co(H0=70, Om0=.3)
        zs = [ctx.real('z%d' % i, 0, 9) for i in range(len(v) if zmode == 'each' else 1)]
        z = ctx.pack(np.array(zs + [None], dtype=object)[:-1]) if zmode == 'each' else zs[0]
        T = .1
        if given:
            T = kw['sf_length'] = ctx.real('T', .01, 5)
        fr = [T / cosmo.age(q).value for q in zs]
        fr = [ite(q > 1, 1.0, q) for q in fr]
        fr = fr * (len(v) if len(fr) == 1 else 1)
        L = f(x, z, cosmo, rng=r, **kw)
    else:
        q = .1
        if given:
            q = kw['f_duty'] = ctx.real('f', 0, 1)
        fr = [q] * len(v)
        L = f(x, rng=r, **kw)
    L = obj(L)
    ctx.check(L.shape == (len(v),), 'one luminosity per galaxy')
    ctx.check(r.n == (len(v) if rand is not False else 0), 'one draw per galaxy')
    for i, s in enumerate(v):
        m = spec(model)(ctx, s)
        if rand is False:
            ctx.check_eq(L[i], m * fr[i], 'fraction of the published relation', rel=1e-9)
            continue
        d = ctx.real('rng#%d' % i, 0, 1)
        if d < fr[i]:
            ctx.check_eq(L[i], m, 'on: published relation', rel=1e-9)
        elif d > fr[i]:
            ctx.check_eq(L[i], 0.0, 'off')
    unchanged(ctx, x, v)


@harness(configs=[dict(n=n, length=k) for n in (0, 1, 3) for k in ('one', 'each') if not (n == 0 and k == 'each')])
def fraction(ctx, n, length):
    """fraction of the cosmic age that star formation lasts, at most 1"""
    co = astro.install(ctx)
    f = ctx.mod('simim.galprops.line_co_dutycycle').f_duty
    cosmo = co(H0=70, Om0=.3)
    z, zs = gal(ctx, 'z', 0, 9, 'scalar' if n == 0 else str(n))
    T, ts = gal(ctx, 'T', .01, 20, 'scalar' if length == 'one' else str(n))
    ts = ts * (len(zs) if len(ts) == 1 else 1)
    F = obj(f(T, z, cosmo)).reshape(-1)
    ctx.check(F.shape == (len(zs),), 'one fraction per redshift')
    for a, t, q in zip(F, ts, zs):
        w = t / cosmo.age(q).value
        ctx.check_eq(a, ite(w > 1, 1.0, w), 'length over age, at most 1')
    unchanged(ctx, z, zs)


@harness(configs=[dict(mode=k, zmode=z, given=g, scat=s) for k, z in (('scalar', 'one'), ('2', 'one'), ('2', 'each'), ('scalar', '2')) for g in ((), ('m1',), ('b', 'n1'), ('a',), ('m1', 'b', 'n1', 'a')) for s in (None, True)], uf=True)
def padmanabhan(ctx, mode, zmode, given, scat):
    f = ctx.mod('simim.galprops.line_fir').padmanabhan19
    x, v = gal(ctx, 'mass', *MASS, mode)
    z, zs = gal(ctx, 'z', 0, 9, 'scalar' if zmode == 'one' else mode if zmode == 'each' else zmode)
    rg = dict(m1=(1e-6, 1e-4), b=(.1, 1), n1=(1e11, 1e12), a=(1, 3))
    kw = {k: ctx.real(k, *rg[k]) for k in given}
    r = ctx.rng()
    n = max(len(v), len(zs))
    L = obj(f(x, z, rng=r, **kw, **(dict(scatter=True, sig_scatter=.25) if scat else {}))).reshape(-1)
    ctx.check(L.shape == (n,) and r.n == (n if scat else 0), 'one luminosity per galaxy')
    for i in range(n):
        m = G.padmanabhan19(ctx, v[i % len(v)], zs[i % len(zs)], **kw)
        ctx.check_eq(L[i], G.scattered(ctx, m, .25, ctx.real('rng#%d' % i, -4, 4), True) if scat else m, 'published relation', rel=1e-9)
    if scat:
        ctx.check(ctx.raises(ValueError, f, x, z, scatter=True), 'scatter needs a width')
    unchanged(ctx, x, v)


@harness(configs=[dict(line=l, mode=k, zmode=z, scat=s, on=o) for l in G.YCO for k, z, s, o in (('scalar', 'one', False, False), ('scalar', 'one', None, True), ('1', 'each', 'given', False), ('2', 'one', False, True), ('scalar', '2', False, False), ('2', 'each', None, False))], uf=True)
def yang(ctx, line, mode, zmode, scat, on):
    f = ctx.mod('simim.galprops.line_fir_yang').yang22
    x, v = gal(ctx, 'mass', *MASS, mode)
    z, zs = gal(ctx, 'z', 0, 9, 'scalar' if zmode == 'one' else mode if zmode == 'each' else zmode)
    n = max(len(v), len(zs))
    r = ctx.rng()
    kw = dict(scatter=False) if scat is False else dict(fix_scatter=ctx.real('dex', .1, 1)) if scat == 'given' else {}
    if not on:
        kw['fduty'] = False
    L = obj(f(x, z, line, rng=r, **kw)).reshape(-1)
    k = n if scat is not False else 0
    ctx.check(L.shape == (n,) and r.n == k + (n if on else 0), 'one luminosity per galaxy, one draw each for scatter and duty cycle')
    for i in range(n):
        m, sig, fr = G.yang22(ctx, v[i % len(v)], zs[i % len(zs)], line)
        if k:
            m = G.scattered(ctx, m, kw.get('fix_scatter', sig), ctx.real('rng#%d' % i, -4, 4), False)
        if on:
            d = ctx.real('rng#%d' % (k + i), 0, 1)
            if d > fr * (1 + 1e-4):
                ctx.check_eq(L[i], 0.0, 'off')
                continue
            if not d < fr * (1 - 1e-4):
                continue
        ctx.check_eq(L[i], m, 'published relation', rel=G.F32)
    unchanged(ctx, x, v)


@harness(configs=[dict(model=m) for m in ('delooze14', 'uzgil14', 'spinoglio12', 'schaerer20', 'yang22', 'kamenetzky16')])
def refuse(ctx, model):
    """lines and galaxy sets a model does not have are refused"""
    mod = {'yang22': 'line_fir_yang', 'kamenetzky16': 'line_co'}.get(model, 'line_fir')
    f = getattr(ctx.mod('simim.galprops.' + mod), model)
    x = ctx.np.array([1.0, 2.0])
    bad = ctx.choice('what', ['CIII', '[CII', '', 'CO6-5'])
    if model == 'kamenetzky16':
        ctx.check(ctx.raises(ValueError, f, x, lines=[1, ctx.choice('j', [0, 14, -1])]), 'unknown line is refused')
    elif model == 'yang22':
        ctx.check(ctx.raises(ValueError, f, x, x, line=bad), 'unknown line is refused')
    elif model == 'schaerer20':
        ctx.check(ctx.raises(ValueError, f, x, set=bad or 'DGS'), 'unknown set is refused')
    else:
        ctx.check(ctx.raises(ValueError, f, x, line=bad), 'unknown line is refused')
    if model == 'delooze14':
        ctx.check(ctx.raises(ValueError, f, x, set=bad or 'ALPINE-sed'), 'unknown set is refused')
        ctx.check(ctx.raises(ValueError, f, x, line=ctx.choice('l', ['[OI]', '[OIII]']), set='high z'), 'the high-redshift fit is for [CII] only')


class Halos:
    """what a property needs of a catalog"""

    def __init__(self, ctx, n):
        self.h = 0.5
        self.np = ctx.np
        self.p = {'sfr': [ctx.real('sfr%d' % i, *SFR) for i in range(n)], 'mass': [ctx.real('mass%d' % i, *MASS) for i in range(n)], 'redshift': [ctx.real('redshift%d' % i, 0.1, 3.5) for i in range(n)]}
        self.cosmo = astro.install(ctx)(H0=70, Om0=.3)
        self.extra_props = {'cosmo': self.cosmo}
        self.ctx = ctx

    def has_property(self, k):
        return k in self.p

    def return_property(self, k, use_all_inds=False, in_h_units=False):
        f = 0.5 if k == 'mass' and in_h_units else 1
        return self.ctx.pack(np.array([v * f for v in self.p[k]] + [None], dtype=object)[:-1])


BUILT = {'prop_li_co': ('LCO', 'line_co', 'li16', ('sfr',)), 'prop_lidz_co': ('LCO', 'line_co', 'lidz11', ('mass',)), 'prop_pullen_co': ('LCO', 'line_co', 'pullen13', ('mass', 'redshift', 'cosmo')),
         'prop_keating_co': ('LCO', 'line_co', 'keating16', ('mass',)), 'prop_gao_hcn': ('LHCN', 'line_densegas', 'hcn_gao', ('sfr',)), 'prop_breysse_hcn': ('LHCN', 'line_densegas', 'hcn_breysse', ('mass',)),
         'prop_delooze_fir': ('Lfir', 'line_fir', 'delooze14', ('sfr',)), 'prop_uzgil_fir': ('Lfir', 'line_fir', 'uzgil14', ('sfr',)), 'prop_spinoglio_fir': ('Lfir', 'line_fir', 'spinoglio12', ('sfr',)),
         'prop_schaerer_cii': ('LCII', 'line_fir', 'schaerer20', ('sfr',)), 'prop_yang_cii': ('LCII', 'line_fir_yang', 'yang22', ('mass', 'redshift')), 'prop_padmanabhan_cii': ('LCII', 'line_fir', 'padmanabhan19', ('mass', 'redshift')),
         'prop_zhao_nii': ('LNII', 'line_fir', 'zhao13', ('sfr',)), 'prop_delooze_cii': ('Lfir', 'line_fir', 'delooze14', ('sfr',)), 'prop_uzgil_cii': ('Lfir', 'line_fir', 'uzgil14', ('sfr',)),
         'prop_spinoglio_cii': ('Lfir', 'line_fir', 'spinoglio12', ('sfr',)), 'prop_co_sled': (None, 'line_co', 'kamenetzky16', ('sfr',))}


@harness(configs=[dict(name=n) for n in BUILT], uf=True)
def builtin(ctx, name):
    """ready-made properties apply their model to the halos' own star formation rate, mass or redshift in units free of h, and give solar luminosities"""
    t = Halos(ctx, 2)
    pname, mod, fn, args = BUILT[name]
    p = getattr(ctx.mod('simim.galprops.galprops_builtin'), name)
    f = getattr(ctx.mod('simim.galprops.' + mod), fn)
    r, s = ctx.rng(), ctx.rng()
    got = p.evaluate_all(t, kw_arguments=dict(rng=r))
    want = f(**{a: t.cosmo if a == 'cosmo' else t.return_property(a) for a in args}, rng=s)
    if pname is None:
        names = ['L%d%d' % (j + 1, j) for j in range(13)]
    else:
        want, names = [want], [pname]
    ctx.check(list(p.names) == names, 'names')
    ctx.check(all(p.units[n] == 'Lsun' for n in names), 'units')
    ctx.check(len(got) == len(want), 'one set of values per name')
    for a, b in zip(got, want):
        ctx.check_eq(obj(a), obj(b), 'the values of the model', rel=1e-9)
