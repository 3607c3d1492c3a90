"""M05: collapsing, downsampling and summing properties give the (weighted) sums and averages of the cells they merge, and conserve totals."""
import numpy as np
from vsx.core import harness
from vsx.spec import all_, any_, not_, ite, obj, total
from checks._map import make_grid

FUNCTIONS = ['map.gridder.Grid.' + m for m in ('collapse_dimension', 'down_sample', 'sum_properties', 'copy', 'copy_axes', 'add_new_prop')]
BOUNDS = 'maps of 2 and 3 dimensions, up to 4 cells per axis, 2 properties; every cell and weight symbolic (weights positive)'
OUTSIDE = 'larger maps; weights that sum to zero'

NP3 = (2, 3, 2)


def cell_weight(W, wts, A, c):
    """product over the collapsed axes of the weight that applies to cell c (last index: property)"""
    r = 1.0
    for i, a in enumerate(A):
        w = wts[i]
        v = w[c[a]] if w.ndim == 1 else w[c[:-1]] if w.ndim == len(c) - 1 else w[c]
        r = r * v
    return r


@harness(configs=[dict(npix=(2, 3), ax=a, mode=m, wdim=w, ip=i) for a in (0, 1) for m in ('sum', 'average') for w in (0, 1, 2, 3) for i in (True, False)]
         + [dict(npix=NP3, ax=a, mode=m, wdim=w, ip=True) for a in ((0, 2), (2, 0), (1, 2)) for m in ('sum', 'average') for w in (0, 1)]
         + [dict(npix=NP3, ax=(0, 1), mode=m, wdim=w, ip=False) for m in ('sum', 'average') for w in (0, 1)]
         + [dict(npix=NP3, ax=1, mode='average', wdim=1, ip=False)]
         + [dict(npix=(2, 2), ax=a, mode=m, wdim=w, ip=i, cplx=True) for a in (0, 1) for m in ('sum', 'average') for w in (0, 1, 2, 3) for i in (True, False)],
         thorough=[dict(npix=NP3, ax=a, mode=m, wdim=w, ip=i) for a in (0, 1, 2, (0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)) for m in ('sum', 'average')
                   for w in (0, 1, 3, 4) for i in (True, False)])
def collapse(ctx, npix, ax, mode, wdim, ip, cplx=False):
    """each remaining cell is the weighted sum (average) of the cells it replaces; unit weights by default"""
    nd = len(npix)
    g = make_grid(ctx, npix, (1.0, 0.5, 2.0)[:nd], 2, [0.0] * nd)
    data = ctx.array('g', tuple(npix) + (2,))
    if cplx:
        data = data + 1j * ctx.array('gi', tuple(npix) + (2,))
    g.grid = data
    D = obj(data).copy()
    A = [ax] if isinstance(ax, int) else list(ax)
    if wdim == 0:
        w, W = None, [np.ones(npix[a]) for a in A]
    else:
        shp = [(npix[a],) if wdim == 1 else tuple(npix) if wdim == nd else tuple(npix) + (2,) for a in A]
        # exact binary weights keep the averages linear; one is arbitrary
        w = [ctx.array('w%d' % i, s, 0.5, 4) if len(A) == 1 and mode == 'sum' else fixed(ctx, s, i) for i, s in enumerate(shp)]
        W = [obj(x) for x in w]
        keep = [obj(x).copy() for x in w]
        wl = w
        w = w[0] if len(A) == 1 else w
    r = g.collapse_dimension(ax, in_place=ip, weights=w, mode=mode)
    rest = [d for d in range(nd) if d not in A]
    want = np.empty([npix[d] for d in rest] + [2], dtype=object)
    for o in np.ndindex(*want.shape):
        s, n = 0.0, 0.0
        for k in np.ndindex(*[npix[a] for a in A]):
            c = [0] * nd
            for d, v in zip(rest, o):
                c[d] = v
            for a, v in zip(A, k):
                c[a] = v
            c = tuple(c) + (o[-1],)
            cw = cell_weight(None, W, A, c)
            s = s + D[c] * cw
            n = n + cw
        want[o] = s if mode == 'sum' else s / n
    ctx.check_eq(r.grid, want, 'collapsed values')
    if not ip:
        ctx.check_eq(g.grid, D, 'the original map is unchanged')
        ctx.check(g.n_dimensions == nd and list(g.n_pixels) == list(npix), "the original's geometry is unchanged")
    if wdim and len(A) > 1:
        ctx.check(all(np.shape(a) == b.shape for a, b in zip(wl, keep)), "the caller's weights are unchanged")
        for a, b in zip(wl, keep):
            ctx.check_eq(a, b, "the caller's weights are unchanged")
    ctx.observe('r', r.grid)


def fixed(ctx, shape, i):
    n = int(np.prod(shape))
    v = np.array([(3 * j + 2 * i) % 5 + 1 for j in range(n)], dtype=float).reshape(shape)
    return ctx.np.array(v.tolist())


@harness()
def average_any_weights(ctx):
    """weighted averages for arbitrary positive weights"""
    g = make_grid(ctx, (2, 2), (1.0, 1.0), 1, [0.0, 0.0])
    data, w = ctx.array('g', (2, 2, 1)), ctx.array('w', (2,), 0.5, 2)
    g.grid = data
    D, W = obj(data), obj(w)
    r = g.collapse_dimension(1, weights=w)
    R = obj(r.grid)
    for i in range(2):
        ctx.check_eq(R[i, 0] * (W[0] + W[1]), D[i, 0, 0] * W[0] + D[i, 1, 0] * W[1], 'average times total weight is the weighted sum')


@harness(configs=[dict(npix=n, ax=a, f=f, mode=m) for (n, a, f) in (((4,), 0, 2), ((4, 3), 0, 2), ((3, 4), 1, 2), ((4, 4), (1, 0), (4, 2)),
                  ((4, 2), (0, 1), 2), ((5, 2), 0, 2), ((2, 2, 3), 2, 3), ((2, 4, 2), 1, 2)) for m in ('sum', 'average')]
         + [dict(npix=n, ax=a, f=2, mode=m, cplx=True) for (n, a) in (((4, 2), 0), ((2, 5), 0), ((2, 4, 2), 0), ((3, 2, 2), 2)) for m in ('sum', 'average')])
def downsample(ctx, npix, ax, f, mode, cplx=False):
    """each new cell is the sum (average) of the block it covers; sums conserve the total"""
    nd = len(npix)
    g = make_grid(ctx, npix, (1.0, 0.5, 2.0)[:nd], 2, [0.0] * nd)
    data = ctx.array('g', tuple(npix) + (2,))
    if cplx:
        data = data + 1j * ctx.array('gi', tuple(npix) + (2,))
        g.fourier_space[1] = True
    g.grid = data
    D = obj(data).copy()
    g.down_sample(ax, f, mode=mode)
    A = [ax] if isinstance(ax, int) else list(ax)
    F = [1] * nd
    for i, a in enumerate(A):
        F[a] = f if isinstance(f, int) else f[i]
    n2 = [n // k for n, k in zip(npix, F)]
    want = np.empty(tuple(n2) + (2,), dtype=object)
    for c in np.ndindex(*want.shape):
        blk = [D[tuple(c[d] * F[d] + k[d] for d in range(nd)) + (c[-1],)] for k in np.ndindex(*F)]
        s = total(blk)
        want[c] = s if mode == 'sum' else s / float(len(blk))
    ctx.check_eq(g.grid, want, 'downsampled values')
    if mode == 'sum' and all(n % k == 0 for n, k in zip(npix, F)):
        ctx.check_eq(total(obj(g.grid).reshape(-1)), total(D.reshape(-1)), 'total conserved')
    ctx.observe('g', g.grid)


@harness(configs=[dict(sub=s, ip=i, npix=n, space=f) for s in (None, 1, (0, 2), (2, 1)) for i in (True, False) for n in ((2, 2), (3,), (1, 2, 2)) for f in ('map', 'fourier', 'mixed', 'power')])
def sum_properties(ctx, sub, ip, npix, space):
    """the sum over properties appears as a new last property or a new map in the same space"""
    nd = len(npix)
    g = make_grid(ctx, npix, (1.0, 0.5, 0.25)[:nd], 3, (0.0, 1.0, 2.0)[:nd], gridunits=('Jy', 'Jy', 'Jy'), axunits='deg')
    data = ctx.array('g', tuple(npix) + (3,))
    if space in ('fourier', 'mixed'):
        data = data + 1j * ctx.array('gi', tuple(npix) + (3,))
    fs = [space in ('fourier', 'power') or (space == 'mixed' and d == nd - 1) for d in range(nd)]
    g.fourier_space[:] = fs
    g.is_power_spectrum = space == 'power'
    g.grid = data
    g.n_objects = 7
    D = obj(data).copy()
    cols = [0, 1, 2] if sub is None else [sub] if isinstance(sub, int) else list(sub)
    r = g.sum_properties(sub, in_place=ip)
    s = np.empty(tuple(npix) + (1,), dtype=object)
    for c in np.ndindex(*npix):
        s[c + (0,)] = total([D[c + (k,)] for k in cols])
    if ip:
        ctx.check(r is g and g.n_properties == 4, 'added in place')
        ctx.check_eq(g.grid, np.concatenate((D, s), axis=-1), 'values')
        ctx.check(len(g.gridunits) == 4, 'one unit per property')
    else:
        ctx.check(r is not g and r.n_properties == 1 and r.grid_active, 'new map')
        ctx.check_eq(r.grid, s, 'values')
        ctx.check_eq(g.grid, D, 'the original map is unchanged')
        ctx.check(g.n_properties == 3 and list(g.gridunits) == ['Jy'] * 3, 'the original map is unchanged')
        ctx.check(len(r.gridunits) == 1, 'one unit per property')
        for d in range(nd):
            ctx.check_eq(r.axes[d], obj(g.axes[d]), 'same axes')
            ctx.check_eq(r.fourier_axes[d], obj(g.fourier_axes[d]), 'same axes')
        ctx.check(list(r.axunits) == ['deg'] * nd, 'same axis units')
    for q in (g, r):
        ctx.check([bool(x) for x in q.fourier_space] == fs, 'space of each axis kept')
        ctx.check(bool(q.is_power_spectrum) == (space == 'power'), 'a power spectrum stays one')
        ctx.check(q.n_objects == 7, 'number of objects kept')
    ctx.observe('r', r.grid)


@harness(configs=[dict(case=c) for c in ('ax', 'mode', 'w', 'dmode', 'dax', 'prop')])
def refused(ctx, case):
    """bad axes, modes, weights and properties are refused and change nothing"""
    g = make_grid(ctx, (2, 3), (1.0, 0.5), 2, [0.0, 1.0])
    data = ctx.array('g', (2, 3, 2))
    g.grid = data
    D = obj(data).copy()
    r = {'ax': lambda: ctx.raises(ValueError, g.collapse_dimension, 2), 'mode': lambda: ctx.raises(ValueError, g.collapse_dimension, 1, mode='median'),
         'w': lambda: ctx.raises(ValueError, g.collapse_dimension, 1, weights=ctx.array('w', (2,))), 'dmode': lambda: ctx.raises(ValueError, g.down_sample, 1, 3, mode='x'),
         'dax': lambda: ctx.raises(ValueError, g.down_sample, 2, 2), 'prop': lambda: ctx.raises(ValueError, g.sum_properties, 2)}[case]()
    ctx.check(r, 'refused')
    ctx.check_eq(g.grid, D, 'contents unchanged')
    ctx.check(list(g.n_pixels) == [2, 3], 'geometry unchanged')
