"""G02: star formation rates and stellar masses of halos follow the models' tables and relations, with their own draws."""
import os
import shutil
import warnings
import numpy as np
import scipy.special
from vsx.core import harness
from vsx.spec import obj, all_, any_, ite
from vsx import astro
from checks import _gal as G
from checks._sim import setup_paths, make_sim, UNITS

FUNCTIONS = ['galprops.sfr_behroozi13.behroozi13_base.' + m for m in ('__init__', '_make_spline_files', 'sfr', 'stellarmass')] + ['galprops.sfr_behroozi13.sfr', 'galprops.sfr_behroozi13.stellarmass'] + \
            ['galprops.sfr_bethermin17.bethermin17_base.' + m for m in ('__init__', '_load_stellarmass_function', '_make_stellarmass_function', 'b17_smfpars', 'b17_sffrac', 'b17_sfms', 'b17_sbfrac', 'b17_sfr', 'stellarmass')] + \
            ['galprops.sfr_ir.g13irlf_base.' + m for m in ('__init__', '_load_lir_function', '_make_lir_function', 'get_irlf_pars', 'lir', 'sfr')]
BOUNDS = 'tables of 2 redshifts and 3 masses with symbolic entries, some missing; up to 2 halos; every mass, redshift, model parameter and draw symbolic; abundance matching of simulations with 2 snapshots of up to 3 halos'
OUTSIDE = 'numbers and lists as input of the Bethermin et al. star formation rates (arrays only); the abundance matching itself is G03; draws exactly at a fraction; the values of the released Behroozi et al. table'


def many(ctx, name, lo, hi, mode):
    v = [ctx.real('%s%d' % (name, i), lo, hi) for i in range(1 if mode == 'scalar' else int(mode))]
    return (v[0] if mode == 'scalar' else ctx.pack(np.array(v + [None], dtype=object)[:-1])), v


def unchanged(ctx, x, v):
    ctx.check_eq(obj(x).reshape(-1), np.array(v + [None], dtype=object)[:-1], 'inputs are left alone')


Z1, LM = [1.5, 3.0], [10.0, 10.5, 11.0]
ORDERS = {'file': [0, 1, 2, 3, 4, 5], 'mixed': [4, 0, 5, 3, 1, 2]}


def release(ctx, sfr, sm, order):
    """the published table: 1+z, log mass, log SFR, log stellar mass"""
    d = os.path.join(ctx.tmp, 'pkg', 'simim', 'resources')
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(ctx.env.pkgdir, 'simim', 'resources', 'rootpath.txt'), d)
    f = os.path.join(d, 'behroozi13_release.dat')
    rows = [(Z1[j], LM[i], sfr[j][i], sm[j][i]) for i in range(3) for j in range(2)]
    rows = [rows[k] for k in ORDERS[order]]
    if ctx.symbolic:
        open(f, 'w').close()
        ctx.env.tables[os.path.realpath(f)] = ('text', [[r[k] for r in rows] for k in range(4)])
    else:
        with open(f, 'w') as o:
            o.write('#(1+z) Log10(Halo Mass) Log10(<SFR>) Log10(Median SM)\n' + ''.join(' '.join('%.17g' % q for q in r) + '\n' for r in rows))
    return f


def ten(x):
    return 10.0 ** x


def bilinear(z, m, zs, ms, v):
    """v[j][i] at (zs[j], ms[i]), flat outside"""
    def cell(x, xs):
        if x < xs[0]:
            return 0, 0.0
        for i in range(len(xs) - 1):
            if isinstance(x, float) and x == xs[i]:
                return i, 0.0
            if all_(x > xs[i], x < xs[i + 1]):
                return i, (x - xs[i]) * (1 / (xs[i + 1] - xs[i]))
        if x > xs[-1] or isinstance(x, float):
            return len(xs) - 2, 1.0
    p, q = cell(z, zs), cell(m, ms)
    if p is None or q is None:
        return None         # exactly on a line of the table: see 'node'
    (j, a), (i, b) = p, q
    lo, hi = [v[k][i] + b * (v[k][i + 1] - v[k][i]) for k in (j, j + 1)]
    return lo + a * (hi - lo)


MISS = {'none': [3, 3], 'one': [3, 2], 'most': [1, 2]}


@harness(configs=[dict(miss=m, what=w, mode=k, scat=s, order=o, via=v) for m, w, k, s, o, v in
                  [('none', 'sfr', 'scalar', False, 'file', 'class'), ('one', 'sfr', 'scalar', None, 'mixed', 'module'), ('most', 'sfr', '1', False, 'mixed', 'class'), ('one', 'stellarmass', 'scalar', False, 'mixed', 'module'),
                   ('none', 'stellarmass', '1', None, 'file', 'class'), ('one', 'sfr', '1', 'given', 'file', 'cached'), ('most', 'stellarmass', 'scalar', 'given', 'mixed', 'cached'), ('one', 'sfr', '1', False, 'mixed', 'module'),
                   ('one', 'stellarmass', 'scalar', 'given', 'file', 'module'), ('most', 'sfr', 'scalar', 'given', 'mixed', 'module'), ('one', 'sfr', 'node', None, 'mixed', 'class'), ('none', 'stellarmass', 'node', False, 'mixed', 'module')]],
         thorough=[dict(miss='most', what='sfr', mode='2', scat=False, order='mixed', via='class'), dict(miss='none', what='stellarmass', mode='2', scat=None, order='file', via='class')], uf=True, max_paths=4000)
def behroozi(ctx, miss, what, mode, scat, order, via):
    """interpolation in the published table, whose missing rates are those of the most massive halos known"""
    astro.install(ctx)
    B = ctx.mod('simim.galprops.sfr_behroozi13')
    ctx.check(ctx.raises(ValueError, B.behroozi13_base().sfr, 1.0, 1e10) and ctx.raises(ValueError, B.behroozi13_base().stellarmass, 1.0, 1e10), 'refused before SimIM is set up')
    setup_paths(ctx)
    ls = [[ctx.real('s%d%d' % (j, i), -1, 1) if i < MISS[miss][j] else -1000.0 for i in range(3)] for j in range(2)]
    lm = [[ctx.real('m%d%d' % (j, i), 8, 10) for i in range(3)] for j in range(2)]
    f = release(ctx, ls, lm, order)
    keep = ctx.env.pkgdir
    ctx.env.pkgdir = os.path.join(ctx.tmp, 'pkg')
    try:
        b = B.behroozi13_base()
        if via == 'cached':
            os.remove(f)
            ctx.env.tables.clear()
            b = B.behroozi13_base()
    finally:
        ctx.env.pkgdir = keep
    if via == 'module':
        B.base, b = b, B
    if mode == 'node':
        zs, ms = [.5, 2.0, .5, 2.0, .5], [1e10, 10 ** 10.5, 10 ** 10.5, 1e11, 5e10]
        z, m = ctx.np.array(zs), ctx.np.array(ms)
    else:
        z, zs = many(ctx, 'z', 0, 3, mode)
        m, ms = many(ctx, 'm', 5e9, 2e11, mode)
    r = ctx.rng()
    kw = {} if scat is None else dict(scatter=False) if scat is False else dict(sigma_scatter=ctx.real('dex', .1, 1))
    y = getattr(b, what)(z, m, rng=r, **kw)
    ctx.check(np.shape(y) == np.shape(z), 'shape')
    ctx.check(r.n == (0 if scat is False else len(zs)), 'one draw per halo')
    if what == 'sfr':
        v = [[ten(ls[j][min(i, MISS[miss][j] - 1)]) for i in range(3)] for j in range(2)]
    else:
        v = [[ten(q) for q in r_] for r_ in lm]
    for i, q in enumerate(obj(y).reshape(-1)):
        w = bilinear(zs[i], ms[i], [q - 1 for q in Z1], [10 ** q for q in LM], v)
        if w is None:
            continue
        if scat is not False:
            w = G.scattered(ctx, w, kw.get('sigma_scatter', .3), ctx.real('rng#%d' % i, -4, 4), True)
        ctx.check_eq(q, w, 'interpolated', rel=G.F32)
    unchanged(ctx, z, zs)
    unchanged(ctx, m, ms)


@harness(configs=[dict(what=w, warn=k) for w in ('sfr', 'stellarmass') for k in (None, False, True)])
def warned(ctx, what, warn):
    """a warning is given, if wanted, for halos beyond the table"""
    astro.install(ctx)
    B = ctx.mod('simim.galprops.sfr_behroozi13')
    setup_paths(ctx)
    v = [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]]
    release(ctx, v, v, 'file')
    keep = ctx.env.pkgdir
    ctx.env.pkgdir = os.path.join(ctx.tmp, 'pkg')
    try:
        b = B.behroozi13_base(**({} if warn is None else dict(warn=warn)))
    finally:
        ctx.env.pkgdir = keep
    z, m = ctx.real('z', 0, 4), ctx.real('m', 1e9, 1e12)
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        getattr(b, what)(z, m, scatter=False, rng=ctx.rng())
    got = [g for g in got if 'Behroozi' in str(g.message)]
    if any_(z > 2.001, m > 1.001e11):
        ctx.check(bool(got) == bool(warn), 'warned beyond the table')
    elif all_(z < 1.999, m < .999e11):
        ctx.check(not got, 'no warning inside the table')
    ctx.check(not got or bool(warn), 'no warning unless wanted')


# Bethermin et al. 2017 -------------------------------------------------------------------------------------------------------------
PAR = dict(sffrac_fq00=(.1017, .05, .3), sffrac_gamma=(-1.039, -2, 0), sffrac_logmt0=(10.53, 10, 11), sffrac_alpha1=(.2232, 0, .5), sffrac_alpha2=(.0913, 0, .2), sffrac_sigsf0=(.8488, .5, 1), sffrac_beta1=(.0418, 0, .1), sffrac_beta2=(-.0159, -.02, 0),
           sfms_m0=(.5, .1, 1), sfms_m1=(.36, .1, 1), sfms_a0=(1.5, 1, 2), sfms_a1=(.3, .1, 1), sfms_a2=(2.5, 1, 3), sfms_correztlowz=(True, None, None),
           sfms_sigma=(.3, .1, 1), sfms_msoffset=(.87, .5, 1), sfms_sboffset=(5.3, 2, 8), sf_sflimit=(1e4, 10, 1e4))


def given(ctx, names):
    return {k: (False if k == 'sfms_correztlowz' else ctx.real(k, *PAR[k][1:])) for k in names}


def bethermin(ctx, names):
    astro.install(ctx)
    M = ctx.mod('simim.galprops.sfr_bethermin17')
    setup_paths(ctx)
    kw = given(ctx, names)
    return M, M.bethermin17_base('_testbox', **kw), {k: kw.get(k, PAR[k][0]) for k in PAR}


def erf(ctx, x):
    return (ctx.env.scipy('scipy.special', True) if ctx.symbolic else scipy.special).erf(x)


def sffrac(ctx, p, m, z):
    fq = p['sffrac_fq00'] * (1 + z) ** p['sffrac_gamma']
    mt = p['sffrac_logmt0'] + p['sffrac_alpha1'] * z + p['sffrac_alpha2'] * z * z
    sg = p['sffrac_sigsf0'] + p['sffrac_beta1'] * z + p['sffrac_beta2'] * z * z
    return (1 - fq) * .5 * (1 - erf(ctx, (ctx.np.log10(m) - mt) / sg))


def sfms(ctx, p, m, z):
    lm, r = ctx.np.log10(m * 1e-9), ctx.np.log10(1 + z)
    t = lm - p['sfms_m1'] - p['sfms_a2'] * r
    e = lm - p['sfms_m0'] + p['sfms_a0'] * r
    if t > 1e-9:
        e = e - p['sfms_a1'] * t * t
    elif t > -1e-9:
        return None
    if p['sfms_correztlowz'] and z < .5:
        e = e - .1 * (.5 - z) / (.5 - .22)
    return 10.0 ** e


def sbfrac(z):
    return ite(z > 1, .03, .015 + .015 * z)


def pair(ctx, mode, zmode):
    m, ms = many(ctx, 'm', 1e8, 1e12, mode) if mode != '2c' else (ctx.np.array([2e9, 1e11]), [2e9, 1e11])
    mode = mode[0] if mode != 'scalar' else mode
    z, zs = many(ctx, 'z', 0, 3, 'scalar' if zmode == 'one' else mode)
    return m, ms, z, zs, [zs[i % len(zs)] for i in range(len(ms))]


FR, MS = [k for k in PAR if k.startswith('sffrac')], [k for k in PAR if k.startswith('sfms_')][:6]


@harness(configs=[dict(what='sffrac', par=p, mode='1', zmode=z) for p, z in [((), 'one'), ((), 'each')] + [((k,), 'one') for k in FR]] + [dict(what='sffrac', par=(), mode='2', zmode='each'), dict(what='sffrac', par=tuple(FR[2:5]), mode='scalar', zmode='one')] +
                 [dict(what='sfms', par=p, mode='1', zmode=z) for p, z in [((), 'one'), ((), 'each')] + [((k,), 'each') for k in MS]] + [dict(what='sfms', par=(), mode='2c', zmode=z) for z in ('one', 'each')] +
                 [dict(what='sbfrac', par=(), mode=k, zmode=z) for k, z in (('1', 'one'), ('1', 'each'), ('2', 'each'))], thorough=[dict(what='sfms', par=(), mode='2', zmode=z) for z in ('one', 'each')], uf=True)
def fractions(ctx, what, par, mode, zmode):
    """fraction of star forming galaxies, main sequence and fraction of starbursts"""
    M, b, p = bethermin(ctx, par)
    m, ms, z, zs, zz = pair(ctx, mode, zmode)
    if what == 'sbfrac':
        y = obj(b.b17_sbfrac(m, z)).reshape(-1)
        for a, q in zip(y, zs):
            ctx.check_eq(a, sbfrac(q), 'fraction of starbursts')
    else:
        y = getattr(b, 'b17_' + what)(m, z)
        ctx.check(np.shape(y) == np.shape(m), 'shape')
        f = sffrac if what == 'sffrac' else sfms
        for a, q, r in zip(obj(y).reshape(-1), ms, zz):
            w = f(ctx, p, q, r)
            if w is not None:
                ctx.check_eq(a, w, 'published relation', rel=1e-8)
    unchanged(ctx, m, ms)
    unchanged(ctx, z, zs)


@harness(configs=[dict(par=p, mode=k, zmode=z, fracs=f) for p, k, z, f in [((), '1', 'one', True), ((), '1', 'each', None)] + [((k,), '1', 'each', False) for k in ('sfms_sigma', 'sfms_msoffset', 'sfms_sboffset', 'sf_sflimit', 'sffrac_logmt0', 'sfms_a1')]],
         thorough=[dict(par=('sf_sflimit', 'sfms_sigma'), mode='2', zmode='each', fracs=True)], uf=True, max_paths=4000)
def rates(ctx, par, mode, zmode, fracs):
    """scattered about the main sequence; starbursts above it; quenched galaxies do not form stars; none above the limit"""
    M, b, p = bethermin(ctx, par)
    m, ms, z, zs, zz = pair(ctx, mode, zmode)
    n = len(ms)
    r = ctx.rng()
    y = b.sfr(m, z, rng=r, **({} if fracs is None else dict(return_fracs=fracs)))
    sb = q = None
    if fracs:
        y, sb, q = y
    ctx.check(np.shape(y) == (n,) and r.n == 3 * n, 'three draws per galaxy')
    for i in range(n):
        w = sfms(ctx, p, ms[i], zz[i])
        if w is None:
            continue
        w = G.scattered(ctx, w, p['sfms_sigma'], ctx.real('rng#%d' % i, -4, 4), False)
        d1, d2 = ctx.real('rng#%d' % (n + i), 0, 1), ctx.real('rng#%d' % (2 * n + i), 0, 1)
        f1, f2 = sbfrac(zz[i]), sffrac(ctx, p, ms[i], zz[i])
        if any_(d1 == f1, d2 == f2):
            continue
        burst, quiet = bool(d1 < f1), bool(d2 > f2)
        if fracs:
            ctx.check(bool(sb[i]) == (burst and not quiet) and bool(q[i]) == quiet, 'which are starbursts and which are quenched')
        if quiet:
            ctx.check_eq(y[i], 0.0, 'quenched')
            continue
        w = w * (p['sfms_sboffset'] if burst else p['sfms_msoffset'])
        L = p['sf_sflimit']
        if w > L * (1 + 1e-6):
            ctx.check_eq(y[i], L, 'limited', rel=1e-9)
        elif w < L * (1 - 1e-6):
            ctx.check_eq(y[i], w, 'star formation rate', rel=1e-8)
    unchanged(ctx, m, ms)
    unchanged(ctx, z, zs)


# stellar mass and IR luminosity functions -------------------------------------------------------------------------------------------
# z range, mass, two (slope, density) pairs: Kelvin+14, Moutard+16, Davidzon+17, Grazian+15 (Salpeter to Chabrier: 0.61)
SMF = [(.025, .06, 10 ** 10.64, -.43, 4.18e-3, -1.5, .74e-3), (.2, .5, 10 ** 10.83, -.95, 10 ** -2.63, -1.82, 10 ** -4.01), (.5, .8, 10 ** 10.76, -.57, 10 ** -2.66, -1.49, 10 ** -3.24),
       (.8, 1.1, 10 ** 10.68, -.33, 10 ** -2.57, -1.49, 10 ** -3.24), (1.1, 1.5, 10 ** 10.66, .19, 10 ** -2.88, -1.49, 10 ** -3.24), (1.5, 2, 10 ** 10.51, .82, .64e-3, -1.28, .969e-3),
       (2, 2.5, 10 ** 10.6, .07, .45e-3, -1.57, .295e-3), (2.5, 3, 10 ** 10.59, -.08, .21e-3, -1.67, .228e-3), (3, 3.5, 10 ** 10.83, 0, 0, -1.76, .09e-3),
       (3.5, 4.5, .61 * 10 ** 10.96, 0, 0, -1.63, 10 ** -3.94), (4.5, 5.5, .61 * 10 ** 10.78, 0, 0, -1.63, 10 ** -4.18), (5.5, 6.5, .61 * 10 ** 10.49, 0, 0, -1.55, 10 ** -4.16), (6.5, 7.5, .61 * 10 ** 10.69, 0, 0, -1.88, 10 ** -5.24)]
SMZ = [(s[0] + s[1]) / 2 for s in SMF]


def table(z, ys):
    """linear interpolation between the surveys, flat outside"""
    if z <= SMZ[0]:
        return ys[0]
    for i in range(len(SMZ) - 1):
        if z <= SMZ[i + 1]:
            return ys[i] + (z - SMZ[i]) * ((ys[i + 1] - ys[i]) / (SMZ[i + 1] - SMZ[i]))
    return ys[-1]


def smf(ctx, z, D0, V0, D, V):
    """stellar mass function at z: distances and volume elements of the surveys' cosmology and the one wanted"""
    lg = ctx.np.log10
    rv = [V0(q) / V(q) for q in SMZ]
    col = [[s[k] for s in SMF] for k in range(7)]
    m = 10.0 ** table(z, [lg(a * (D(q) / D0(q)) ** 2) for a, q in zip(col[2], SMZ)])
    return m, table(z, col[3]), table(z, [a * q for a, q in zip(col[4], rv)]), table(z, col[5]), 10.0 ** table(z, [lg(a * q) for a, q in zip(col[6], rv)])


class Cosmology:
    """some other distances and volume elements"""
    def __init__(self, k):
        self.k = k

    def D(self, z):
        return 3000 * z * (1 + z * self.k)

    def V(self, z):
        return 1e9 * z * z * (1 + .75 * z) / self.k

    def luminosity_distance(self, z):
        return astro.Quantity(self.D(z))

    def differential_comoving_volume(self, z):
        return astro.Quantity(self.V(z))


@harness(configs=[dict(seg=i, k=(.5, 2)[i % 2]) for i in range(14)], thorough=[dict(seg=i, k=k) for i in range(14) for k in (.25, 3)], uf=True)
def massfunction(ctx, seg, k):
    """the observed stellar mass functions between which is interpolated, brought to the cosmology of the simulation"""
    M, b, p = bethermin(ctx, ())
    old = astro.install(ctx)(70, .3)
    e = [0] + SMZ + [9]
    z = ctx.real('z', e[seg] + 1e-6, e[seg + 1] - 1e-6)
    c = Cosmology(k)
    got = b.b17_smfpars(z, c)
    want = smf(ctx, z, lambda q: old.luminosity_distance(q).value, lambda q: old.differential_comoving_volume(q).value, c.D, c.V)
    for g, w, n in zip(got, want, ('mass', 'slope', 'density', 'second slope', 'second density')):
        if 'slope' in n:
            g, w = g + 10, w + 10
        ctx.check_eq(g, w, n, scale=w if n in ('mass', 'second density') else 1.0, rel=1e-8)


IR = dict(lf_alpha0=(1.2, 1, 1.5), lf_sigma0=(.5, .3, .8), lf_lstar0=(10 ** 9.95, 5e9, 2e10), lf_phistar0=(10 ** -2.25, 1e-3, 1e-2))


def irlf(p, z):
    L = p['lf_lstar0'] * ite(z < 2, 1 + z, 3.0) ** 3.55 * ite(z < 2, 1.0, (1 + z) / 3) ** 1.62
    P = p['lf_phistar0'] * ite(z < 1.1, 1 + z, 2.1) ** -.57 * ite(z < 1.1, 1.0, (1 + z) / 2.1) ** -3.92
    return P, L, p['lf_alpha0'], p['lf_sigma0']


@harness(configs=[dict(par=p, call=c, mode=k) for p, c, k in [((), (), 'scalar'), ((), (), '2'), (tuple(IR), (), 'scalar'), (tuple(IR), (), '1'), ((), tuple(IR), 'scalar'), (tuple(IR)[:2], tuple(IR)[2:], '2'), (tuple(IR)[1:3], tuple(IR)[:2], '1')]], uf=True)
def irfunction(ctx, par, call, mode):
    """evolution of the IR luminosity function"""
    astro.install(ctx)
    M = ctx.mod('simim.galprops.sfr_ir')
    setup_paths(ctx)
    kw = {k: ctx.real('i' + k, *IR[k][1:]) for k in par}
    ck = {k: ctx.real('c' + k, *IR[k][1:]) for k in call}
    b = M.g13irlf_base('_testbox', **kw)
    z, zs = many(ctx, 'z', 0, 6, mode)
    got = b.get_irlf_pars(z, **{k[3:]: v for k, v in ck.items()})
    p = {k: ck.get(k, kw.get(k, IR[k][0])) for k in IR}
    ctx.check(all(np.shape(g) == np.shape(z) for g in got), 'shape')
    for i, q in enumerate(zs):
        seg = [all_(q < 1.0999), all_(q > 1.1001, q < 1.9999), q > 2.0001]
        j = next((j for j in range(3) if seg[j]), None)
        if j is None:
            continue
        L = p['lf_lstar0'] * ((1 + q) ** 3.55 if j < 2 else 3.0 ** 3.55 * ((1 + q) / 3) ** 1.62)
        P = p['lf_phistar0'] * ((1 + q) ** -.57 if j < 1 else 2.1 ** -.57 * ((1 + q) / 2.1) ** -3.92)
        for g, w, n in zip(got, (P, L, p['lf_alpha0'], p['lf_sigma0']), ('density', 'luminosity', 'slope', 'width')):
            ctx.check_eq(obj(g).reshape(-1)[i], w, n, scale=w if n in ('density', 'luminosity') else 1.0, rel=1e-8)
    unchanged(ctx, z, zs)


# matching to the halos of a simulation ----------------------------------------------------------------------------------------------
UNITS.setdefault('vmax', ('km/s', 0))
KIND = {'stellarmass': ('simim.galprops.sfr_bethermin17', 'bethermin17_base', 'b17_', 'stellarmass', 'sm_'), 'lir': ('simim.galprops.sfr_ir', 'g13irlf_base', 'g13_', 'lir', '')}


def build(ctx, what):
    astro.install(ctx)
    mod, cls, pre, file, kw = KIND[what]
    M = ctx.mod(mod)
    return M, getattr(M, cls), pre, file, kw


@harness(configs=[dict(what=w, mode=k, conv=c, order=o) for w, k, c, o in
                  [('stellarmass', 'scalar', None, 'up'), ('stellarmass', '2', None, 'up'), ('lir', 'scalar', None, 'up'), ('lir', '1', None, 'up'), ('sfr', 'scalar', None, 'up'), ('sfr', '1', 'made', 'up'), ('sfr', '1', 'called', 'up'), ('sfr', 'scalar', 'both', 'up')]], uf=True)
def tables(ctx, what, mode, conv, order):
    """interpolated between the tables made before; nothing outside them; refused if there are none"""
    M, cls, pre, file, _ = build(ctx, 'lir' if what == 'sfr' else what)
    p = setup_paths(ctx, ['_testbox'])
    ctx.check(ctx.raises(NameError, cls, 'nosuch'), 'a simulation that is not known is refused')
    b = cls('_testbox')
    ctx.check(ctx.raises(ValueError, getattr(b, what), ctx.np.array([1e11]), ctx.np.array([1.0])), 'refused before there are tables')
    d = p.props[pre + '_testbox'] if (pre + '_testbox') in p.props else ctx.mod('simim._paths')._SimIMPaths().props[pre + '_testbox']
    ms, zs = [1e10, 4e10, 2e11], [.5, 2.0]
    v = [[ctx.real('t%d%d' % (i, j), 1, 9) for j in range(2)] for i in range(3)]
    for n, a in (('mass_axis', ctx.np.array(ms)), ('redshift_axis', ctx.np.array(zs)), (file, ctx.pack(np.array(v, dtype=object)))):
        ctx.np.save(os.path.join(d, n + '.npy'), a)
    kw, ck = {}, {}
    f = 1e-10 if what == 'sfr' else 1.0
    if conv in ('made', 'both'):
        f = kw['lir_to_sfr'] = ctx.real('f0', 1, 2)
    if conv in ('called', 'both'):
        f = ck['lir_to_sfr'] = ctx.real('f1', 1, 2)
    b = cls('_testbox', **kw)
    m, mm = many(ctx, 'm', 5e9, 4e11, mode)
    z, zz = many(ctx, 'z', 0, 3, mode)
    y = getattr(b, what)(m, z, **ck)
    ctx.check(np.shape(y) == np.shape(z), 'shape')
    for q, a, r in zip(obj(y).reshape(-1), mm, zz):
        if any_(a < ms[0], a > ms[-1], r < zs[0], r > zs[1]):
            ctx.check(bool(ctx.np.isnan(q)), 'nothing outside the tables')
        elif all_(a > ms[0], a < ms[-1], r > zs[0], r < zs[1]):
            i = 0 if a < ms[1] else 1
            s, t = (a - ms[i]) / (ms[i + 1] - ms[i]), (r - zs[0]) / (zs[1] - zs[0])
            w = (v[i][0] * (1 - t) + v[i][1] * t) * (1 - s) + (v[i + 1][0] * (1 - t) + v[i + 1][1] * t) * s
            ctx.check_eq(q, w * f, 'interpolated', scale=f, rel=1e-8)
    unchanged(ctx, m, mm)
    unchanged(ctx, z, zz)
    back = [ctx.np.load(os.path.join(d, n + '.npy')) for n in ('mass_axis', file)]
    ctx.check_eq(obj(back[1]), np.array(v, dtype=object), 'tables are left alone')


SNZ = [.25, 1.5]


@harness(configs=[dict(what=w, n=n, halo=hp, vmax=v, box=bx, par=p) for w, n, hp, v, bx, p in
                  [('stellarmass', [2, 1], 'auto', True, 4.0, {}), ('stellarmass', [3, 2], None, False, 50.0, {}), ('stellarmass', [1, 2], 'mass', True, 4.0, dict(halomassmin=3e10)), ('stellarmass', [2, 2], 'vmax', True, 50.0, dict(halomassmin=3e10)),
                   ('lir', [2, 1], 'auto', True, 4.0, {}), ('lir', [3, 2], None, False, 50.0, {}), ('lir', [1, 2], 'mass', True, 4.0, dict(halomassmin=3e10, lirmin=1e9)), ('lir', [2, 2], 'vmax', True, 50.0, dict(lirmin=1e9, lf_lstar0=1e10, lf_sigma0=.6))]], uf=True)
def matched(ctx, what, n, halo, vmax, box, par):
    """the chosen halos of every snapshot are matched to the luminosity or mass function at its redshift, once, and tabulated"""
    M, cls, pre, file, q = build(ctx, what)
    h = .5
    snaps = []
    for k in range(2):
        ms = ctx.array('m%d_' % k, (n[k],), 1e9, 1e11)
        for i in range(n[k] - 1):
            ctx.assume(ms[i] >= ms[i + 1])
        props = dict(mass=ms)
        if vmax:
            props['vmax'] = ctx.array('v%d_' % k, (n[k],), 10, 4000)
        snaps.append(dict(index=k, z=SNZ[k], zmin=SNZ[k] - .25, zmax=SNZ[k] + .5, props=props, cuts=[1e20]))
    paths, cos = make_sim(ctx, snaps, h, box)
    calls = []
    sig = __import__('inspect').signature(M.am_dfcat)

    def matcher(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        calls.append(dict(b.arguments))
        f = float(len(calls))
        return (lambda x: x * f), (lambda x: x / f)
    M.am_dfcat = matcher
    kw = {(q if k == 'halomassmin' else '') + k: v for k, v in par.items()}
    if halo:
        kw[q + 'haloprop'] = halo
    ctx.check(ctx.raises(ValueError, cls, '_testbox', **{q + 'comp': True, q + 'haloprop': 'spin'}), 'a property that cannot be matched is refused')
    ctx.check(ctx.raises(ValueError, getattr(cls('_testbox', **kw), what), ctx.np.array([3e10]), ctx.np.array([1.0])) and not calls, 'not made unless wanted')
    b = cls('_testbox', **{q + 'comp': True}, **kw)
    use = 'mass' if halo == 'mass' or not vmax else 'vmax'
    low = par.get('halomassmin', 1e10)
    want, tot = [], []
    for k in range(2):
        m = obj(snaps[k]['props']['mass'])
        if any_(*[all_(x > low * h * .999999, x < low * h * 1.000001) for x in m]):
            return
        keep = [i for i in range(n[k]) if m[i] / h >= low]
        want.append([obj(snaps[k]['props']['vmax'])[i] if use == 'vmax' else m[i] / h for i in keep])
    live = [k for k in range(2) if want[k]]
    ctx.check(len(calls) == len(live), 'snapshots with halos are matched')
    old = astro.install(ctx)(70, .3)
    for c, k in zip(calls, live):
        cat, rv = c['prop1_cat'], c['prop2_rv']
        ctx.check(np.shape(cat) == (len(want[k]),), 'number of halos')
        for a, w in zip(obj(cat), want[k]):
            ctx.check_eq(a, w, 'halos above the minimum mass', rel=1e-6)
        N, F = number(ctx, what, par, SNZ[k], old, cos)
        N = N * (box / h) ** 3
        lo1, lo2 = (0, 1 - N / len(want[k])) if len(want[k]) > N else (1 - len(want[k]) / N, 0)
        ctx.check_eq(c['missing_pmass_low_p1'], lo1, 'halos missing from the simulation', rel=1e-3)
        ctx.check_eq(c['missing_pmass_low_p2'], lo2, 'galaxies missing from the function', rel=1e-3)
        for x in (3e9, 3e10):
            ctx.check(abs(float(rv.cdf(x)) - F(x)) < 2e-3, 'distribution at the redshift of the snapshot')
        ctx.check(all(c[a] == v for a, v in dict(prop2_min=0, prop2_max=np.inf, missing_pmass_high_p1=0, missing_pmass_high_p2=0).items()) and not c['reverseorder'], 'nothing else is cut')
    f = [float(live.index(k) + 1) if k in live else 0.0 for k in range(2)]
    z = ctx.real('z', *[s + d for s, d in zip(SNZ, (1e-6, -1e-6))])
    x = 777.0 if use == 'vmax' else 7.77e12
    t = (z - SNZ[0]) / (SNZ[1] - SNZ[0])

    def result(o):
        return getattr(o, what)(ctx.np.array([x]), ctx.pack(np.array([z, None], dtype=object)[:-1]))[0]
    ctx.check_eq(result(b), x * (f[0] * (1 - t) + f[1] * t), 'what was matched', scale=x, rel=1e-3)
    m = len(calls)
    b = cls('_testbox', **{q + 'comp': True}, **kw)
    ctx.check(len(calls) == m, 'tables are made once')
    ctx.check_eq(result(b), x * (f[0] * (1 - t) + f[1] * t), 'the tables made before are used', scale=x, rel=1e-3)
    if live:
        b = cls('_testbox', **{q + 'remake': True}, **kw)
        ctx.check(len(calls) == 2 * m, 'made again if wanted')
        ctx.check_eq(result(b), x * sum((live.index(k) + 1 + m) * (t if k else 1 - t) for k in live), 'the new tables are used', scale=x, rel=1e-3)


def number(ctx, what, par, z, old, cos):
    """number density above the minimum, and the fraction below x"""
    if what == 'stellarmass':
        s = old.luminosity_distance, old.differential_comoving_volume, cos.luminosity_distance, cos.differential_comoving_volume
        m, a1, p1, a2, p2 = [float(q) for q in smf(ctx, z, *[(lambda q, f=f: float(f(q).value)) for f in s])]
        lo = 1e5
        u = np.log10(lo) + np.arange(200001) * 5e-5

        def dens(u):
            t = 10 ** u / m
            return np.exp(-t) * (p1 * t ** (a1 + 1) + p2 * t ** (a2 + 1)) * np.log(10)
    else:
        p = {k: par.get(k, IR[k][0]) for k in IR}
        P, L, a, s = irlf(p, z)
        lo = par.get('lirmin', 10 ** 8.5)
        u = np.log10(lo) + np.arange(200001) * 5e-5

        def dens(u):
            t = 10 ** u / L
            return P * t ** (1 - a) * np.exp(-np.log10(1 + t) ** 2 / (2 * s * s))
    y = dens(u)
    c = np.concatenate([[0], np.cumsum((y[1:] + y[:-1]) / 2 * 5e-5)])
    return c[-1], lambda x: float(np.interp(np.log10(x), u, c)) / c[-1]
