"""M07: a spherical average is the weighted mean (spread, count) of exactly the cells whose distance from the center lies in the shell."""
import math
import numpy as np
from vsx.core import harness
from vsx import sym
from vsx.spec import all_, ite, obj, total
from checks._map import make_grid
from checks.m06 import parts

FUNCTIONS = ['map.gridder.Grid.spherical_average']
BOUNDS = 'maps of 1 to 3 dimensions, up to 6 cells along an axis, 2 properties, up to 10 shells; contents and shell edges symbolic (2-cell maps: center and weights too)'
OUTSIDE = 'larger maps; cells whose distance equals the outermost automatic edge up to rounding; mixtures of real and Fourier axes (documented as unsupported)'
PX = (0.5, 2.0, 1.0)


def radii(npix, px, A, center, fourier, c0):
    out = np.empty(tuple(npix), dtype=object)
    for c in np.ndindex(*npix):
        r2 = 0.0
        for a in A:
            n, p = npix[a], px[a]
            x = (c[a] - n // 2) / (n * p) if fourier else c0[a] + (c[a] + 0.5 - n / 2) * p
            r2 = r2 + (x - center[a]) * (x - center[a])
        out[c] = r2 ** 0.5 if not isinstance(r2, sym.Sym) else sym.sqrt(r2)
    return out


def expected(D, W, R, shells, A):
    """sum of w*x, w, count per (shell, kept coordinates, property): from the statement"""
    nd = D.ndim - 1
    keep = [i for i in range(nd) if i not in A]
    shp = (len(shells) - 1,) + tuple(D.shape[k] for k in keep) + (D.shape[-1],)
    s, w, n, w2 = (np.empty(shp, dtype=object) for _ in range(4))
    for a in (s, w, n, w2):
        a[...] = 0.0
    members = {}
    for c in np.ndindex(*D.shape):
        r = R[c[:-1]]
        for b in range(len(shells) - 1):
            inn = all_(r >= shells[b], r < shells[b + 1])
            o = (b,) + tuple(c[k] for k in keep) + (c[-1],)
            s[o] = s[o] + ite(inn, D[c] * W[c], 0.0)
            w[o] = w[o] + ite(inn, W[c], 0.0)
            w2[o] = w2[o] + ite(inn, W[c] * W[c], 0.0)
            n[o] = n[o] + ite(inn, 1.0, 0.0)
            members.setdefault(o, []).append((inn, c))
    return s, w, n, w2, members


def weights_of(ctx, npix, nprop, wdim):
    """values that are exact in binary, so that means stay linear in the data"""
    if wdim == 0:
        return None, np.ones(tuple(npix) + (nprop,))
    shp = tuple(npix)[:wdim] if wdim <= len(npix) else tuple(npix) + (nprop,)
    v = np.array([(3 * j) % 5 / 4 + 0.25 for j in range(int(np.prod(shp)))]).reshape(shp)
    full = v.reshape(shp + (1,) * (len(npix) + 1 - len(shp))) * np.ones(tuple(npix) + (nprop,))
    return ctx.np.array(v.tolist()), full


CF = [dict(npix=n, ax=a, nprop=p, wdim=w, fourier=f) for (n, a, p, w, f) in (
    ((4,), None, 2, 0, False), ((5,), 0, 1, 1, False), ((3, 4), None, 1, 0, False), ((3, 4), None, 1, 2, False), ((2, 3), None, 2, 3, False), ((3, 2), 0, 2, 0, False),
    ((2, 4), (1,), 1, 1, False), ((2, 4), (1,), 1, 3, False), ((2, 3, 2), (0, 2), 1, 0, False), ((2, 3, 2), (2, 1), 1, 2, False), ((4,), None, 1, 0, True), ((3, 4), None, 1, 2, True),
    ((3, 2), 0, 1, 0, True))]


@harness(configs=CF, thorough=CF + [dict(npix=n, ax=a, nprop=p, wdim=w, fourier=f) for n in ((6,), (4, 4), (5, 3), (2, 2, 3)) for a in (None, 0, len(n) - 1, tuple(range(len(n)))[::-1])
                                    for p in (1, 2) for w in range(len(n) + 2) for f in (False, True)])
def shells_given(ctx, npix, ax, nprop, wdim, fourier):
    """explicit (arbitrary increasing) shell edges: means and counts per shell and kept coordinate"""
    nd = len(npix)
    g = make_grid(ctx, npix, PX[:nd], nprop, [0.5, -1.0, 0.0][:nd])
    d = ctx.array('g', tuple(npix) + (nprop,))
    g.grid = d
    if fourier:
        g.fourier_space[:] = True
        g.is_power_spectrum = True
    A = list(range(nd)) if ax is None else [ax] if isinstance(ax, int) else list(ax)
    center = [0.0] * nd if fourier else [0.5, -1.0, 0.0][:nd]
    R = radii(npix, PX, A, center, fourier, [0.5, -1.0, 0.0])
    sh = ctx.array('s', 4, 0.0, 4.0)
    S = list(obj(sh))
    ctx.assume(all_(*[S[i + 1] - S[i] >= 0.01 for i in range(3)]))
    # edges clear of the radii: either side is the same to rounding
    for r in sorted(set(float(x) for x in R.reshape(-1))):
        for e in S:
            ctx.assume((e <= r - 1e-6) | (e >= r + 1e-6) if r != int(r * 8) / 8 else True)
    w, W = weights_of(ctx, npix, nprop, wdim)
    D = obj(d).copy()
    kw = dict(shells=sh, return_n=True)
    if ax is not None:
        kw['ax'] = ax
    if w is not None:
        kw['weights'] = w
    axes, avg, n = g.spherical_average(**kw)
    s, sw, nn, w2, mem = expected(D, W, R, S, A)
    avg, n = obj(avg), obj(n)
    ctx.check(avg.shape == s.shape and n.shape == s.shape, 'shape: shells, kept axes, properties')
    for o in np.ndindex(*s.shape):
        ctx.check_eq(n[o], nn[o], 'number of cells in the shell')
        if n[o] > 0:
            ctx.check_eq(avg[o] * sw[o], s[o], 'weighted mean of the shell')
    ctx.check_eq(axes[0], sh, 'shell edges returned')
    for j, k in enumerate([i for i in range(nd) if i not in A]):
        ctx.check_eq(axes[1 + j], (g.fourier_axes_centers if fourier else g.axes_centers)[k], 'kept axes')
    ctx.check_eq(g.grid, D, 'map unchanged')
    ctx.check([bool(x) for x in g.fourier_space] == [fourier] * nd, 'space unchanged')
    ctx.observe('avg', avg)


@harness(configs=[dict(npix=n, ax=a, shells=s, fourier=f, mode=m, cen=c) for (n, a, s, f, m, c) in (
    ((5,), None, 2, False, 'linear', None), ((4, 3), None, 3, False, 'linear', None), ((4, 3), 0, 2, False, 'linear', None), ((6, 3), None, None, False, 'linear', (1.0, 2.0)),
    ((5, 4), None, 3, True, 'linear', None), ((4, 4), None, 2, False, 'log', (-3.0, 1.0)), ((3, 5), None, 3, True, 'log', None), ((3, 2, 2), (0, 1), 2, False, 'linear', None))])
def shells_made(ctx, npix, ax, shells, fourier, mode, cen):
    """automatic shells: linear or logarithmic from the smallest (nonzero) to the largest distance, and every cell in them counts"""
    nd = len(npix)
    c0 = [0.25, -1.0, 0.0][:nd]
    g = make_grid(ctx, npix, PX[:nd], 1, c0)
    d = ctx.array('g', tuple(npix) + (1,))
    g.grid = d
    if fourier:
        g.fourier_space[:] = True
        g.is_power_spectrum = True
    A = list(range(nd)) if ax is None else [ax] if isinstance(ax, int) else list(ax)
    center = list(cen) if cen else [0.0] * nd if fourier else c0
    R = radii(npix, PX, A, center, fourier, c0).astype(float)
    kw = dict(return_n=True, binmode=mode)
    if ax is not None:
        kw['ax'] = ax
    if shells is not None:
        kw['shells'] = shells
    if cen:
        kw['center'] = cen
    axes, avg, n = g.spherical_average(**kw)
    N = shells or 10
    lo, hi = R.min(), R.max()
    if mode == 'log' and lo == 0:
        lo = R[R > 0].min()
    E = [lo + (hi - lo) * i / N for i in range(N + 1)] if mode == 'linear' else [lo * (hi / lo) ** (i / N) for i in range(N + 1)]
    ctx.check_eq(axes[0], E, 'shell edges')
    Sg = [float(x) for x in obj(axes[0])]
    s, sw, nn, _, _ = expected(obj(d), np.ones(tuple(npix) + (1,)), R.astype(object), Sg, A)
    avg, n = obj(avg), obj(n)
    for o in np.ndindex(*s.shape):
        ctx.check_eq(n[o], nn[o], 'number of cells in the shell')
        if nn[o] > 0:
            ctx.check_eq(avg[o] * nn[o], s[o], 'mean of the shell')
    if mode == 'linear':
        ctx.check_eq(total(n.reshape(-1)), float(R.size), 'every cell is in a shell')
    ctx.observe('avg', avg)


@harness(configs=[dict(npix=n, ax=a, wdim=w, biased=b, nprop=p, both=q) for (n, a, w, p) in (((4,), None, 0, 1), ((4,), None, 1, 1), ((2, 3), 1, 2, 1), ((2, 3), None, 0, 2), ((2, 3), None, 3, 2))
                  for b in (True, False) for q in (False, True)])
def spread(ctx, npix, ax, wdim, biased, nprop, both):
    """standard deviation per shell (biased, or unbiased for reliability weights)"""
    nd = len(npix)
    c0 = [0.5, -1.0][:nd]
    g = make_grid(ctx, npix, PX[:nd], nprop, c0)
    d = ctx.array('g', tuple(npix) + (nprop,))
    g.grid = d
    A = list(range(nd)) if ax is None else [ax] if isinstance(ax, int) else list(ax)
    R = radii(npix, PX, A, c0, False, c0).astype(float)
    S = [0.0, 0.9, 1.2, 3.0]
    w, W = weights_of(ctx, npix, nprop, wdim)
    D = obj(d).copy()
    kw = dict(shells=S, return_std=True)
    if ax is not None:
        kw['ax'] = ax
    if w is not None:
        kw['weights'] = w
    if not biased:
        kw['biased_std'] = False
    if both:
        axes, avg, sd, n = g.spherical_average(return_n=True, **kw)
    else:
        axes, avg, sd = g.spherical_average(**kw)
    s, sw, nn, w2, mem = expected(D, W, R.astype(object), S, A)
    avg, sd = obj(avg), obj(sd)
    for o in np.ndindex(*s.shape):
        if both:
            ctx.check_eq(obj(n)[o], nn[o], 'number of cells in the shell')
        if nn[o] == 0 or (not biased and nn[o] == 1):
            continue
        m = s[o] / sw[o]
        v = total([(D[c] - m) * (D[c] - m) * W[c] for inn, c in mem[o] if inn])
        v = v / (sw[o] if biased else sw[o] - w2[o] / sw[o])
        ctx.check_eq(avg[o], m, 'mean of the shell')
        ctx.check(sd[o] >= 0.0, 'spread is not negative')
        ctx.check_eq(sd[o] * sd[o], v, 'spread of the shell')
    ctx.check_eq(g.grid, D, 'map unchanged')


@harness(configs=[dict(npix=(2,), ax=None), dict(npix=(1, 2), ax=None), dict(npix=(2, 2), ax=1)])
def any_center(ctx, npix, ax):
    """arbitrary center: a cell contributes to the shell its distance falls in"""
    nd = len(npix)
    c0 = [0.5, -1.0][:nd]
    g = make_grid(ctx, npix, PX[:nd], 1, c0)
    d = ctx.array('g', tuple(npix) + (1,))
    g.grid = d
    cen = [ctx.real('cen%d' % i, -2, 2) for i in range(nd)]
    A = list(range(nd)) if ax is None else [ax]
    S = [0.0, 0.75, 2.5]
    R2 = np.empty(tuple(npix), dtype=object)
    for c in np.ndindex(*npix):
        xs = [c0[a] + (c[a] + 0.5 - npix[a] / 2) * PX[a] - cen[a] for a in A]
        R2[c] = total([x * x for x in xs])
        for e in S[1:]:
            ctx.assume((R2[c] <= e * e - 1e-3) | (R2[c] >= e * e + 1e-3))
    axes, avg, n = g.spherical_average(ax=ax, center=cen, shells=S, return_n=True)
    s, sw, nn, _, _ = expected(obj(d), np.ones(tuple(npix) + (1,)), R2, [e * e for e in S], A)
    avg, n = obj(avg), obj(n)
    for o in np.ndindex(*s.shape):
        ctx.check_eq(n[o], nn[o], 'number of cells in the shell')
        if n[o] > 0:
            ctx.check_eq(avg[o] * n[o], s[o], 'mean of the shell')


@harness()
def any_weights(ctx):
    """arbitrary positive weights"""
    g = make_grid(ctx, (3,), (1.0,), 1, [0.0])
    d, w = ctx.array('g', (3, 1)), ctx.array('w', (3,), 0.25, 4)
    g.grid = d
    D, W = obj(d), obj(w)
    axes, avg = g.spherical_average(shells=[0.0, 0.5, 1.5], weights=w)
    a = obj(avg)
    ctx.check_eq(a[0, 0] * W[1], D[1, 0] * W[1], 'inner shell')
    ctx.check_eq(a[1, 0] * (W[0] + W[2]), D[0, 0] * W[0] + D[2, 0] * W[2], 'outer shell')


@harness(configs=[dict(npix=(4,)), dict(npix=(2, 2))])
def complex_values(ctx, npix):
    """maps in Fourier space keep their imaginary part; the spread is that of the modulus of the deviations"""
    nd = len(npix)
    g = make_grid(ctx, npix, PX[:nd], 1, [0.0] * nd)
    re, im = ctx.array('g', tuple(npix) + (1,)), ctx.array('gi', tuple(npix) + (1,))
    g.grid = re + 1j * im
    g.fourier_space[:] = True
    S = [0.0, 0.3, 0.8, 2.5]
    axes, avg, sd, n = g.spherical_average(shells=S, return_std=True, return_n=True)
    R = radii(npix, PX, list(range(nd)), [0.0] * nd, True, None)
    A = list(range(nd))
    ar, ai = parts(avg)
    one = np.ones(tuple(npix) + (1,))
    sr, sw, nn, _, mem = expected(obj(re), one, R, S, A)
    si = expected(obj(im), one, R, S, A)[0]
    RE, IM, sd = obj(re), obj(im), obj(sd)
    for o in np.ndindex(*sr.shape):
        if nn[o] == 0:
            continue
        mr, mi = sr[o] / nn[o], si[o] / nn[o]
        ctx.check_eq(ar[o], mr, 'real part of the mean')
        ctx.check_eq(ai[o], mi, 'imaginary part of the mean')
        v = total([(RE[c] - mr) * (RE[c] - mr) + (IM[c] - mi) * (IM[c] - mi) for inn, c in mem[o] if inn]) / nn[o]
        ctx.check_eq(sym.cre(sd[o]) * sym.cre(sd[o]), v, 'spread of the shell')


@harness(configs=[dict(case=c) for c in ('axis', 'mixed', 'center', 'shells', 'count', 'mode', 'weights', 'inactive')])
def refused(ctx, case):
    """bad requests are refused and leave the map untouched"""
    g = make_grid(ctx, (2, 3), PX[:2], 1, [0.0, 0.0], active=case != 'inactive')
    if case != 'inactive':
        d = ctx.array('g', (2, 3, 1))
        g.grid = d
        D = obj(d).copy()
    if case == 'mixed':
        g.fourier_space[0] = True
    kw = dict(axis=dict(ax=2), mixed={}, center=dict(center=(0.0,)), shells=dict(shells=[0.0, 2.0, 1.0]), count=dict(shells=0), mode=dict(binmode='cubic'),
              weights=dict(weights=np.ones((3, 2))), inactive={})[case]
    ctx.check(ctx.raises(ValueError, g.spherical_average, **kw), 'refused')
    if case != 'inactive':
        ctx.check_eq(g.grid, D, 'map unchanged')
