"""M09: convolution replaces each cell by the source-weighted sum of its neighbours; beams are normalised Gaussians of the width asked for."""
import numpy as np
from vsx.core import harness
from vsx import sym
from vsx.spec import all_, obj, total
from checks._map import make_grid, check_geometry

FUNCTIONS = ['map.gridder.Grid.convolve', 'map.gridder.Grid.pad', 'map.gridder.PSF', 'map.gridder.SpectralPSF']
BOUNDS = 'maps of 1 to 3 dimensions and sources of up to 5 cells along an axis, 1 or 2 properties, all contents of map and source symbolic; beam widths, reference frequency and center symbolic on up to 5 cells'
OUTSIDE = 'rounding of the FFT; spectral axes in descending order; exp is uninterpreted with its monotonicity, so the widths of beams are compared as formulas'
PX = (0.5, 2.0, 1.0)


def convolved(D, S, A):
    """out[i] = sum_j map[i + (m-1)//2 - j] source[j] along A, outside the map counting as empty; S already has the map's dimensions"""
    out = np.empty(np.broadcast_shapes(D.shape, tuple(1 if i in A else n for i, n in enumerate(S.shape))), dtype=object)
    for c in np.ndindex(*out.shape):
        s = 0.0
        for j in np.ndindex(*[S.shape[a] for a in A]):
            src = [0 if S.shape[i] == 1 else c[i] for i in range(S.ndim)]
            pos = [0 if D.shape[i] == 1 and i not in A else c[i] for i in range(D.ndim)]
            ok = True
            for a, v in zip(A, j):
                src[a] = v
                pos[a] = c[a] + (S.shape[a] - 1) // 2 - v
                ok = ok and 0 <= pos[a] < D.shape[a]
            if ok:
                s = s + D[tuple(pos)] * S[tuple(src)]
        out[c] = s
    return out


CF = [dict(npix=n, src=s, np_=p, ax=a, pad=q, ip=i) for (n, s, p, a, q) in (
    ((4,), (3,), (1, 1), None, None), ((4,), (2,), (2, 1), None, 1), ((3,), (5,), (1, 1), None, None), ((3, 3), (3, 3), (1, 1), None, None), ((3, 2), (2, 3), (2, 1), None, 1),
    ((3, 2), (3, 1), (1, 1), 0, None), ((3, 2), (1, 3), (1, 1), (1,), 2), ((2, 3), (3, 2), (1, 1), (1, 0), (1, 2)), ((2, 2, 2), (3, 2), (1, 1), None, None), ((3, 2), (3,), (2, 1), None, None),
    ((2, 2, 2), (3, 2), (1, 1), (0, 1), 1), ((3, 2), (3, 2), (1, 1), 0, None), ((3,), (3,), (2, 2), None, (2,)), ((2, 2, 3), (3, 3, 3), (1, 1), (0, 1), None)) for i in (True, False)]


@harness(configs=CF, thorough=CF + [dict(npix=n, src=s, np_=p, ax=a, pad=q, ip=i) for n in ((4, 3), (5, 2)) for s in ((3, 3), (2, 4), (1, 3), (5, 1)) for p in ((1, 1), (2, 1)) for a in (None, (0, 1), (1, 0))
                                    for q in (None, 1, (1, 2)) for i in (True, False)])
def convolution(ctx, npix, src, np_, ax, pad, ip):
    """each cell of the result is the sum over the source of displaced cells; geometry unchanged; in place only when asked"""
    nd = len(npix)
    c = [ctx.real('c%d' % i, -4, 4) for i in range(nd)]
    u = dict(gridunits=['Jy', 'K'][:np_[0]], axunits=['deg', 'Mpc', 'GHz'][:nd])
    g = make_grid(ctx, npix, PX[:nd], np_[0], c, **u)
    h = make_grid(ctx, src, PX[:len(src)], np_[1], [0.0] * len(src))
    d, s = ctx.array('g', tuple(npix) + (np_[0],), -2, 2), ctx.array('s', tuple(src) + (np_[1],), -2, 2)
    if src == npix and ax is not None and not isinstance(ax, tuple):
        pass
    g.grid, h.grid = d, s
    g.n_objects = 3
    D, S = obj(d).copy(), obj(s).copy()
    S2 = S.reshape(tuple(src) + (1,) * (nd - len(src)) + (np_[1],))
    A = list(range(len(src))) if ax is None else [ax] if isinstance(ax, int) else list(ax)
    want = convolved(D, S2, A)
    kw = dict(in_place=ip)
    if ax is not None:
        kw['ax'] = ax
    if pad is not None:
        kw['pad'] = pad
    r = g.convolve(h, **kw)
    ctx.check((r is g) == bool(ip), 'in place only when asked')
    ctx.check_eq(r.grid, want, 'convolved contents', scale=4.0)
    check_geometry(ctx, r, npix, PX[:nd], c, 'result')
    ctx.check(list(r.gridunits) == u['gridunits'] and list(r.axunits) == u['axunits'] and r.n_objects == 3, 'description kept')
    if not ip:
        ctx.check_eq(g.grid, D, 'original contents')
        check_geometry(ctx, g, npix, PX[:nd], c, 'original')
    ctx.check_eq(h.grid, S, 'source contents')
    ctx.check(list(h.n_pixels) == list(src), 'source geometry')
    ctx.observe('r', r.grid)


@harness(configs=[dict(npix=n, nprop=p, ax=a) for n, p, a in (((3,), 1, None), ((4, 3), 2, None), ((3, 3), 1, 1), ((2, 3, 2), 1, None))])
def delta(ctx, npix, nprop, ax):
    """a source with a single unit cell at its center changes nothing"""
    nd = len(npix)
    g = make_grid(ctx, npix, PX[:nd], nprop, [0.0] * nd)
    d = ctx.array('g', tuple(npix) + (nprop,))
    g.grid = d
    A = range(nd) if ax is None else [ax]
    s = np.zeros([3 if i in A else 1 for i in range(nd)] + [1])
    s[tuple(1 if i in A else 0 for i in range(nd)) + (0,)] = 1.0
    h = make_grid(ctx, s.shape[:-1], PX[:nd], 1, [0.0] * nd)
    h.grid = ctx.np.array(s.tolist())
    ctx.check_eq(g.convolve(h, ax=ax, in_place=False).grid, obj(d), 'unchanged')


@harness(configs=[dict(case=c) for c in ('inactive', 'source', 'fourier', 'power', 'dims', 'axis', 'pad')])
def refused(ctx, case):
    """bad requests are refused and leave the map untouched"""
    g = make_grid(ctx, (2, 3), PX[:2], 1, [0.0, 0.0], active=case != 'inactive')
    h = make_grid(ctx, (3, 3, 1) if case == 'dims' else (3, 3), PX[:3 if case == 'dims' else 2], 1, [0.0] * (3 if case == 'dims' else 2), active=case != 'source')
    if case != 'inactive':
        d = ctx.array('g', (2, 3, 1))
        g.grid = d
        D = obj(d).copy()
    if case == 'fourier':
        g.fourier_space[1] = True
    g.is_power_spectrum = case == 'power'
    kw = dict(axis=dict(ax=(0, 2)), pad=dict(ax=(0, 1), pad=(1,))).get(case, {})
    ctx.check(ctx.raises(ValueError, g.convolve, h, **kw), 'refused')
    if case != 'inactive':
        ctx.check_eq(g.grid, D, 'map unchanged')


def gauss(ctx, x, fwhm):
    sig = fwhm / (2 * np.sqrt(2 * np.log(2)))
    return ctx.np.exp(-x * x / (2 * (sig * sig)))


@harness(configs=[dict(nd=n, npix=p, norm=m, scalar=s) for n, p, s in ((1, (3,), False), (1, (4,), True), (2, (3, 2), False), (2, (3, 3), True), (3, (2, 1, 3), False)) for m in ('area', 'peak')], uf=True)
def psf(ctx, nd, npix, norm, scalar):
    """a beam is a Gaussian of the given widths about zero, with unit sum or unit peak"""
    G = ctx.mod('simim.map.gridder')
    f = [ctx.real('fwhm%d' % i, 0.5, 4.0) for i in range(nd)]
    px = [0.5] * nd if scalar else list(PX[:nd])
    side = [n * p for n, p in zip(npix, px)]
    g = G.PSF(f if nd > 1 else f[0], px[0] if scalar else px, side_length=side[0] if scalar else side, norm=norm, axunits='deg')
    check_geometry(ctx, g, npix, px, [0.0] * nd, 'beam')
    ctx.check(g.n_properties == 1 and bool(g.grid_active) and list(g.axunits) == ['deg'] * nd, 'description')
    v = obj(g.grid)[..., 0]
    E = [[gauss(ctx, (i + 0.5 - n / 2) * p, w) for i in range(n)] for n, p, w in zip(npix, px, f)]
    raw = np.empty(tuple(npix), dtype=object)
    for c in np.ndindex(*npix):
        r = 1.0
        for d in range(nd):
            r = r * E[d][c[d]]
        raw[c] = r
    S = total(raw.reshape(-1)) if norm == 'area' else 1.0
    for c in np.ndindex(*npix):
        ctx.check_eq(v[c] * S, raw[c], 'Gaussian profile')
        ctx.check(v[c] > 0.0, 'positive')
        ctx.check_eq(v[c], v[tuple(n - 1 - i for n, i in zip(npix, c))], 'symmetric')
    if norm == 'peak' and all(n % 2 for n in npix):
        ctx.check_eq(v[tuple(n // 2 for n in npix)], 1.0, 'unit peak')


@harness(configs=[dict(fwhm=f, px=p, norm=m) for f, p in (((1.0,), (0.5,)), ((2.0, 1.0), (0.5, 0.25)), ((2.0, 1.0), (0.5,))) for m in ('area', 'peak')])
def psf_extent(ctx, fwhm, px, norm):
    """a beam made without a size spans six widths along each axis, falls to half its peak half a width from its center, and sums to one"""
    G = ctx.mod('simim.map.gridder')
    g = G.PSF(fwhm, px, norm=norm)
    P = list(px) * (len(fwhm) if len(px) == 1 else 1)
    npix = [int(6 * f / p) for f, p in zip(fwhm, P)]
    check_geometry(ctx, g, npix, P, [0.0] * len(fwhm), 'beam')
    v = np.array(obj(g.grid)[..., 0], dtype=float)
    if norm == 'area':
        ctx.check_eq(v.sum(), 1.0, 'unit sum')
    for d in range(len(fwhm)):
        x = (np.arange(npix[d]) + 0.5 - npix[d] / 2) * P[d]
        line = v[tuple(slice(None) if i == d else n // 2 for i, n in enumerate(npix))]
        j = npix[d] // 2
        for i in range(npix[d]):
            ctx.check_eq(line[i] / line[j], 0.5 ** ((x[i] ** 2 - x[j] ** 2) / (fwhm[d] / 2) ** 2), 'profile')


@harness(configs=[dict(nd=n, npix=p, nchan=k, norm=m, exp=e, rev=False) for n, p, k in ((1, (3,), 2), (2, (3, 2), 2), (1, (4,), 3)) for e in (1, 2, -1, 0, 3) for m in ('area', 'peak')],
         thorough=[dict(nd=n, npix=p, nchan=k, norm=m, exp=e, rev=False) for n, p, k in ((1, (5,), 4), (2, (3, 3), 3), (2, (2, 4), 2), (3, (2, 3, 2), 2)) for e in (1, 2, -1, -2, 0, 3) for m in ('area', 'peak')], uf=True)
def spectral_psf(ctx, nd, npix, nchan, norm, exp, rev):
    """each channel of a spectral beam is a Gaussian whose width scales as a power of reference over channel frequency, normalised on its own"""
    G = ctx.mod('simim.map.gridder')
    f = [ctx.real('fwhm%d' % i, 0.5, 4.0) for i in range(nd)]
    spec0 = ctx.real('spec0', 0.5, 4.0)
    spec = [1.0 + 0.5 * i for i in range(nchan)]
    if rev:
        spec = spec[::-1]
    px = list(PX[:nd])
    g = G.SpectralPSF(spec, spec0, f, px, side_length=[n * p for n, p in zip(npix, px)], norm=norm, exp=exp)
    v = obj(g.grid)[..., 0]
    ctx.check(v.shape == tuple(npix) + (nchan,), 'shape: space then channels')
    check_geometry(ctx, g, tuple(npix) + (nchan,), px + [0.5], [0.0] * nd + [1.0 + 0.25 * (nchan - 1)], 'beam')
    ctx.check_eq(g.axes_centers[-1], spec, 'channel axis')
    for k in range(nchan):
        fk = sorted(spec)[k]
        w = [x * (spec0 / fk) ** exp for x in f]
        raw = np.empty(tuple(npix), dtype=object)
        for c in np.ndindex(*npix):
            r = 1.0
            for d in range(nd):
                sig = f[d] / (2 * np.sqrt(2 * np.log(2))) * (spec0 / fk) ** exp
                x = (c[d] + 0.5 - npix[d] / 2) * px[d]
                r = r * ctx.np.exp(-x * x / (2 * (sig * sig)))
            raw[c] = r
        S = total(raw.reshape(-1)) if norm == 'area' else 1.0
        for c in np.ndindex(*npix):
            ctx.check_eq(v[c + (k,)] * S, raw[c], 'Gaussian profile of the channel')
            ctx.check(v[c + (k,)] > 0.0, 'positive')
