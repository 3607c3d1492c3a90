"""M06: Fourier transforms are the discrete transforms at the frequencies of the axes, invert exactly, and power spectra are their squared moduli."""
import cmath
import math
import numpy as np
from vsx.core import harness
from vsx import sym
from vsx.spec import all_, obj, total
from checks._map import make_grid, check_geometry

FUNCTIONS = ['map.gridder.Grid.fourier_transform', 'map.gridder.Grid.power_spectrum', 'map.gridder._axis_edges']
BOUNDS = 'maps of 1 to 3 dimensions, up to 5 cells along an axis, up to 2 properties; all contents (real or complex) symbolic; every set of axes'
OUTSIDE = 'larger maps; rounding error of the FFT'


def dft(D, npix, px, A, normalize=True):
    """the definition: sum over cells of value * exp(-2 pi i k x) times the cell size, at the (ordered) axis frequencies"""
    out = np.array(D, dtype=object)
    for a in A:
        n, p = npix[a], px[a]
        ks = [(i - n // 2) / (n * p) for i in range(n)]
        res = np.empty(out.shape, dtype=object)
        for c in np.ndindex(*out.shape):
            re, im = 0.0, 0.0
            for j in range(n):
                cc = c[:a] + (j,) + c[a + 1:]
                ph = cmath.exp(-2j * math.pi * ks[c[a]] * j * p)
                vr, vi = out[cc] if isinstance(out[cc], tuple) else (out[cc], 0.0)
                pr, pi = round(ph.real, 15), round(ph.imag, 15)
                re = re + vr * pr - vi * pi
                im = im + vr * pi + vi * pr
            s = p if normalize else 1.0
            res[c] = (re * s, im * s)
        out = res
    return out


def tuples(D, Di=None):
    out = np.empty(D.shape, dtype=object)
    for c in np.ndindex(*D.shape):
        out[c] = (D[c], Di[c] if Di is not None else 0.0)
    return out


def parts(a):
    o = obj(a)
    re, im = np.empty(o.shape, dtype=object), np.empty(o.shape, dtype=object)
    for c in np.ndindex(*o.shape):
        re[c], im[c] = sym.cre(o[c]), sym.cim(o[c])
    return re, im


def split(T):
    re, im = np.empty(T.shape, dtype=object), np.empty(T.shape, dtype=object)
    for c in np.ndindex(*T.shape):
        re[c], im[c] = T[c]
    return re, im


def data(ctx, name, shape, cplx, lo=-2, hi=2):
    d = ctx.array(name, shape, lo, hi)
    if not cplx:
        return d, tuples(obj(d))
    di = ctx.array(name + 'i', shape, lo, hi)
    return d + 1j * di, tuples(obj(d), obj(di))


PX = (0.5, 2.0, 1.0)


@harness(configs=[dict(npix=n, ax=a, nprop=p, cplx=c, norm=m) for (n, a, p, c, m) in (
    ((4,), None, 2, False, True), ((3,), None, 1, False, True), ((5,), None, 1, True, True), ((1,), None, 1, False, True), ((2, 4), None, 2, False, True),
    ((2, 3), 0, 2, False, True), ((2, 3), 1, 1, True, True), ((3, 2), (1, 0), 1, False, False), ((2, 3, 2), (0, 2), 1, False, True),
    ((2, 2, 3), (2,), 1, True, False), ((4, 3), (0, 1), 1, True, True))],
    thorough=[dict(npix=n, ax=a, nprop=p, cplx=c, norm=m) for n in ((1,), (2,), (3,), (4,), (5,), (6,), (8,)) for a in (None, 0) for p in (1, 2) for c in (False, True) for m in (True, False)]
    + [dict(npix=n, ax=a, nprop=1, cplx=c, norm=m) for n in ((2, 3), (4, 3), (4, 4), (3, 5)) for a in (None, 0, 1, (0, 1), (1, 0)) for c in (False, True) for m in (True, False)]
    + [dict(npix=(2, 3, 2), ax=a, nprop=1, cplx=c, norm=True) for a in (None, 0, 1, 2, (0, 1), (1, 2), (2, 0), (2, 1, 0)) for c in (False, True)])
def transform(ctx, npix, ax, nprop, cplx, norm):
    """forward transform by definition at the frequencies of the axes; transforming again restores the map"""
    nd = len(npix)
    c = [ctx.real('c%d' % i, -4, 4) for i in range(nd)]
    g = make_grid(ctx, npix, PX[:nd], nprop, c)
    d, D = data(ctx, 'g', tuple(npix) + (nprop,), cplx)
    g.grid = d
    A = list(range(nd)) if ax is None else [ax] if isinstance(ax, int) else list(ax)
    args = {} if ax is None else dict(ax=ax)
    if not norm:
        args['normalize'] = False
    g.fourier_transform(**args)
    re, im = parts(g.grid)
    wr, wi = split(dft(D, npix, PX, A, norm))
    ctx.check_eq(re, wr, 'transform, real part')
    ctx.check_eq(im, wi, 'transform, imaginary part')
    ctx.check([bool(x) for x in g.fourier_space] == [i in A for i in range(nd)], 'axes marked as transformed')
    check_geometry(ctx, g, npix, PX[:nd], c, 'transformed')
    ctx.observe('f', g.grid)
    # the forward transform of the whole map with one axis at a time is the same, and axes come back one by one
    for a in reversed(A):
        g.fourier_transform(a, normalize=norm)
    re, im = parts(g.grid)
    wr, wi = split(D)
    ctx.check_eq(re, wr, 'restored, real part')
    ctx.check_eq(im, wi, 'restored, imaginary part')
    ctx.check(not any(bool(x) for x in g.fourier_space), 'no axis marked as transformed')
    check_geometry(ctx, g, npix, PX[:nd], c, 'restored')


@harness(configs=[dict(npix=n, first=f, second=s) for (n, f, s) in (((2, 3), 0, (0, 1)), ((4, 2), (0, 1), 1), ((2, 2, 2), (1, 2), (0, 2)), ((3, 2), 1, None))])
def mixed(ctx, npix, first, second):
    """one call may transform some axes forward and others back"""
    nd = len(npix)
    g = make_grid(ctx, npix, PX[:nd], 1, [0.0] * nd)
    d, D = data(ctx, 'g', tuple(npix) + (1,), False)
    g.grid = d
    F = [first] if isinstance(first, int) else list(first)
    S = list(range(nd)) if second is None else [second] if isinstance(second, int) else list(second)
    g.fourier_transform(first)
    g.fourier_transform(second)
    A = [i for i in range(nd) if (i in F) != (i in S)]
    re, im = parts(g.grid)
    wr, wi = split(dft(D, npix, PX, A))
    ctx.check_eq(re, wr, 'values, real part')
    ctx.check_eq(im, wi, 'values, imaginary part')
    ctx.check([bool(x) for x in g.fourier_space] == [i in A for i in range(nd)], 'axes marked as transformed')
    ctx.observe('f', g.grid)


def crosspower(Ta, Tb):
    out = np.empty(np.broadcast_shapes(Ta.shape, Tb.shape), dtype=object)
    Ta, Tb = np.broadcast_to(Ta, out.shape), np.broadcast_to(Tb, out.shape)
    for c in np.ndindex(*out.shape):
        (ar, ai), (br, bi) = Ta[c], Tb[c]
        out[c] = ar * br + ai * bi
    return out


PS = [dict(npix=n, ax=a, pa=pa, pb=pb, ip=ip, pre=pre) for (n, a, pa, pb, pre) in (
    ((4,), None, 2, 0, ()), ((3,), None, 1, 0, ()), ((2, 2), None, 1, 0, ()), ((2, 2), None, 1, 1, ()), ((2, 3), 0, 1, 0, ()), ((2, 3), 1, 1, 1, ()), ((4,), None, 1, 2, ()),
    ((4,), None, 2, 1, ()), ((2,), None, 2, 2, ()), ((2, 3), (1, 0), 1, 0, (0,)), ((2, 2), 0, 1, 1, (1,)), ((2, 2), None, 1, 0, (0, 1)), ((2, 2, 2), (0, 2), 1, 0, ()),
    ((2, 2), None, 1, 1, (0,)), ((3, 2), (0,), 2, 1, (1,))) for ip in (False, True)]


@harness(configs=PS, thorough=PS + [dict(npix=n, ax=a, pa=pa, pb=pb, ip=ip, pre=pre, norm=nm) for n in ((4, 2), (3, 2), (2, 4)) for a in (None, 0, 1, (1, 0))
                                    for pa, pb in ((1, 0), (1, 1), (2, 1), (1, 2), (2, 2)) for pre in ((), (0,), (1,), (0, 1)) for ip in (False, True) for nm in (True, False)])
def power(ctx, npix, ax, pa, pb, ip, pre, norm=True):
    """power (cross-power) = Re F conj(G) of maps in either space; the maps themselves come back as they were"""
    nd = len(npix)
    c = [ctx.real('c%d' % i, -4, 4) for i in range(nd)]
    g = make_grid(ctx, npix, PX[:nd], pa, c)
    A = list(range(nd)) if ax is None else [ax] if isinstance(ax, int) else list(ax)
    d, D = data(ctx, 'g', tuple(npix) + (pa,), bool(pre))
    g.grid = d
    for a in pre:
        g.fourier_space[a] = True
    h, E = None, None
    if pb:
        h = make_grid(ctx, npix, PX[:nd], pb, c)
        e, E = data(ctx, 'h', tuple(npix) + (pb,), False)
        h.grid = e
    P = g.power_spectrum(**dict(dict() if h is None else dict(cross_grid=h), **(dict() if ax is None else dict(ax=ax)), **(dict() if norm else dict(normalize=False))), in_place=ip)
    # bring both to Fourier space along A only
    TA = idft(dft(D, npix, PX, [a for a in A if a not in pre], norm), npix, PX, [a for a in pre if a not in A], norm)
    TB = TA if h is None else dft(E, npix, PX, A, norm)
    want = crosspower(TA, TB)
    if norm:
        ctx.check_eq(P.grid, want, 'power spectrum')
    else:
        ctx.check_eq(P.grid, want, 'power spectrum', scale=4.0)
    ctx.check(bool(P.is_power_spectrum) and bool(P.grid_active), 'marked as a power spectrum')
    ctx.check([bool(x) for x in P.fourier_space] == [i in A for i in range(nd)], 'axes of the spectrum that are frequencies')
    ctx.check(P.n_properties == max(pa, pb), 'number of properties')
    check_geometry(ctx, P, npix, PX[:nd], c, 'spectrum')
    ctx.check(ctx.raises(ValueError, P.power_spectrum) and ctx.raises(ValueError, P.fourier_transform), 'a spectrum is not transformed again')
    for m, T, was in ((g, D, pre), (h, E, ())):
        if m is None or (m is g and ip):
            continue
        re, im = parts(m.grid)
        wr, wi = split(T)
        ctx.check_eq(re, wr, 'original map, real part')
        ctx.check_eq(im, wi, 'original map, imaginary part')
        ctx.check([bool(x) for x in m.fourier_space] == [i in was for i in range(nd)] and not m.is_power_spectrum, 'original map still in its space')
        if not was:
            ctx.check(not ctx.np.iscomplexobj(m.grid), 'original map still real')
    ctx.check((P is g) == bool(ip), 'in place only when asked')
    ctx.observe('p', P.grid)


def idft(T, npix, px, A, normalize=True):
    out = T
    for a in A:
        n, p = npix[a], px[a]
        res = np.empty(out.shape, dtype=object)
        for c in np.ndindex(*out.shape):
            re, im = 0.0, 0.0
            for i in range(n):
                cc = c[:a] + (i,) + c[a + 1:]
                ph = cmath.exp(2j * math.pi * (i - n // 2) * c[a] / n)
                vr, vi = out[cc]
                pr, pi = round(ph.real, 15), round(ph.imag, 15)
                re = re + vr * pr - vi * pi
                im = im + vr * pi + vi * pr
            s = 1.0 / (n * p) if normalize else 1.0 / n
            res[c] = (re * s, im * s)
        out = res
    return out


@harness(configs=[dict(npix=n, cplx=c) for n in ((2,), (4,), (3,), (2, 2)) for c in (False, True)])
def parseval(ctx, npix, cplx):
    """power spectra are nonnegative and integrate to the integral of the squared map"""
    nd = len(npix)
    g = make_grid(ctx, npix, PX[:nd], 1, [0.0] * nd)
    d, D = data(ctx, 'g', tuple(npix) + (1,), cplx)
    g.grid = d
    P = obj(g.power_spectrum().grid)
    for c in np.ndindex(*P.shape):
        ctx.check(P[c] >= 0.0, 'no negative power')
    vol = float(np.prod(PX[:nd]))
    dk = 1.0 / float(np.prod([n * p for n, p in zip(npix, PX)]))
    sq = total([a * a + b * b for a, b in (D[c] for c in np.ndindex(*D.shape))])
    ctx.check_eq(total(P.reshape(-1)) * dk, sq * vol, 'integral of the power')


@harness(configs=[dict(case=c) for c in ('inactive', 'axis', 'negaxis', 'cross_type', 'cross_inactive', 'cross_ps', 'cross_dim', 'cross_prop', 'psaxis')])
def refused(ctx, case):
    """bad requests are refused and leave the maps untouched"""
    g = make_grid(ctx, (2, 2), PX[:2], 2, [0.0, 0.0])
    d = ctx.array('g', (2, 2, 2))
    g.grid = d
    D = obj(d).copy()
    h = make_grid(ctx, (2, 2), PX[:2], 3, [0.0, 0.0])
    e = ctx.array('h', (2, 2, 3))
    h.grid = e
    E = obj(e).copy()
    if case == 'inactive':
        r = ctx.raises(ValueError, make_grid(ctx, (2, 2), PX[:2], 1, [0.0, 0.0], active=False).fourier_transform)
    elif case in ('axis', 'negaxis'):
        r = ctx.raises(ValueError, g.fourier_transform, 2 if case == 'axis' else (0, -1))
    elif case == 'psaxis':
        r = ctx.raises(ValueError, g.power_spectrum, ax=(0, 2))
    else:
        if case == 'cross_ps':
            h = make_grid(ctx, (2, 2), PX[:2], 2, [0.0, 0.0])
            h.grid = ctx.array('k', (2, 2, 2))
            E = obj(h.grid).copy()
            h.is_power_spectrum = True
        x = {'cross_type': 5, 'cross_inactive': make_grid(ctx, (2, 2), PX[:2], 2, [0.0, 0.0], active=False),
             'cross_dim': make_grid(ctx, (2,), PX[:1], 2, [0.0]), 'cross_ps': h, 'cross_prop': h}[case]
        r = ctx.raises(ValueError, g.power_spectrum, x)
    ctx.check(r, 'refused')
    ctx.check_eq(g.grid, D, 'map unchanged')
    ctx.check_eq(h.grid, E, 'other map unchanged')
    ctx.check(not any(bool(x) for x in g.fourier_space) and not g.is_power_spectrum, 'map still in its space')
