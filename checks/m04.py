"""M04: whatever is done to a map, its axes, cell sizes, centre, extent, frequencies, units and data array keep describing one geometry."""
import warnings
import numpy as np
from vsx.core import harness
from vsx.spec import all_, any_, not_, ite, obj, total
from checks._map import make_grid, edges_of, inside_cell, placed, cells, check_geometry

FUNCTIONS = ['map.gridder.Grid.' + m for m in ('__init__', 'init_grid', 'pad', 'crop', 'scale_axis', 'copy_axes', 'copy', 'down_sample',
             'collapse_dimension', 'fourier_transform')] + ['map.gridder.GridFromAxes', 'map.gridder.GridFromAxesAndFunction', 'map.gridder._axis_edges', 'map.gridder._unpad']
BOUNDS = 'maps of 1 to 3 dimensions with up to 4 cells per axis; centre, contents, crop limits and scale factors symbolic; chains of up to 4 operations'
OUTSIDE = 'larger maps, non-dyadic cell sizes, crop or downsampling in Fourier space (documented as unsupported)'


def cen(ctx, nd):
    return [ctx.real('c%d' % i, -4, 4) for i in range(nd)]


@harness(configs=[dict(npix=(3,), px=(0.5,)), dict(npix=(2, 4), px=(1.0, 0.25)), dict(npix=(1, 2, 3), px=(1.0, 2.0, 0.5)),
                  dict(npix=(3, 3), px=(0.5, 0.5), scalar=True), dict(npix=(2, 2), px=(3, 2), ints=True)])
def construction(ctx, npix, px, scalar=False, ints=False):
    """a new grid: arrays or single numbers for side and cell size"""
    G = ctx.mod('simim.map.gridder')
    c = [2, -1] if ints else cen(ctx, len(npix))
    side = [n * p for n, p in zip(npix, px)]
    g = G.Grid(2, c, side[0] if scalar else side, px[0] if scalar else list(px), axunits='Mpc', gridunits=('Jy', 'K'))
    check_geometry(ctx, g, npix, px, c)
    ctx.check(list(g.axunits) == ['Mpc'] * len(npix) and list(g.fourier_axunits) == ['Mpc^-1'] * len(npix) and list(g.gridunits) == ['Jy', 'K'], 'units')
    g.init_grid()
    check_geometry(ctx, g, npix, px, c, 'active grid')
    ctx.check_eq(g.grid, np.zeros(tuple(npix) + (2,)), 'a new grid is empty')


@harness()
def uneven_side(ctx):
    """a side that is not a whole number of cells is grown to the next whole number"""
    G = ctx.mod('simim.map.gridder')
    side = ctx.real('side', 0.5, 4)
    n = ctx.choice('n', [1, 2, 3, 4])
    ctx.assume(all_(side >= n - 0.75, side <= n - 0.25))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = G.Grid(1, [0.5], [side], [1.0])
    check_geometry(ctx, g, (n,), (1.0,), [0.5])


@harness(configs=[dict(npix=(3,), ax=0, pad=1), dict(npix=(3, 2), ax=1, pad=2), dict(npix=(3, 2), ax=(0, 1), pad=(2, 1)),
                  dict(npix=(3, 2), ax=(1, 0), pad=(0, 1)), dict(npix=(3, 2), ax=(0, 1), pad=1), dict(npix=(2, 4), ax=(1,), pad=(-1,)),
                  dict(npix=(3, 4), ax=(1, 0), pad=(-1, 1)), dict(npix=(2, 3, 2), ax=2, pad=1), dict(npix=(2, 1, 2), ax=(2, 0), pad=(1, 2)),
                  dict(npix=(4, 2), ax=(1, 0), pad=(1, -1), fourier=(0,)), dict(npix=(3, 2), ax=1, pad=1, fourier=(1,)),
                  dict(npix=(3, 2), ax=(1, 0), pad=(1, 2), fourier=(0, 1))])
def padding(ctx, npix, ax, pad, fourier=()):
    """padding adds (negative: removes) cells on both sides of exactly the named axes; undoing it restores the map"""
    nd = len(npix)
    px = (1.0, 0.5, 2.0)[:nd]
    c = cen(ctx, nd)
    g = make_grid(ctx, npix, px, 2, c)
    data = ctx.array('g', tuple(npix) + (2,))
    g.grid = data
    for d in fourier:
        g.fourier_space[d] = True           # contents are arbitrary values in either space
    val = ctx.real('val', -3, 3)
    D = obj(data).copy()
    A = [ax] if isinstance(ax, int) else list(ax)
    P = [pad] * len(A) if isinstance(pad, int) else list(pad)
    w = {a: p for a, p in zip(A, P)}
    g.pad(ax, pad, val)
    n2 = [n + 2 * w.get(d, 0) for d, n in enumerate(npix)]
    p2 = [px[d] if d not in fourier else npix[d] * px[d] / n2[d] for d in range(nd)]
    check_geometry(ctx, g, n2, p2, c, 'padded')
    want = np.empty(tuple(n2) + (2,), dtype=object)
    for i in np.ndindex(*n2):
        src = tuple(i[d] - w.get(d, 0) for d in range(nd))
        ok = all(0 <= s < npix[d] for d, s in enumerate(src))
        want[i] = D[src] if ok else [val, val]
    ctx.check_eq(g.grid, want, 'contents keep their cells')
    if all(p >= 0 for p in P):
        g.pad(ax, [-p for p in P])
        check_geometry(ctx, g, npix, px, c, 'unpadded')
        ctx.check_eq(g.grid, D, 'unpadding restores the map')


@harness(configs=[dict(npix=(2,), ax=0, pad=-1), dict(npix=(3, 4), ax=1, pad=-2), dict(npix=(3, 4), ax=(0, 1), pad=(1,  1, 1)), dict(npix=(3, 4), ax=2, pad=1)])
def padding_refused(ctx, npix, ax, pad):
    """removing every cell, or naming axes that do not exist, is refused and changes nothing"""
    nd = len(npix)
    c = cen(ctx, nd)
    g = make_grid(ctx, npix, (1.0, 0.5)[:nd], 1, c)
    data = ctx.array('g', tuple(npix) + (1,))
    g.grid = data
    D = obj(data).copy()
    ctx.check(ctx.raises(ValueError, g.pad, ax, pad), 'refused')
    check_geometry(ctx, g, npix, (1.0, 0.5)[:nd], c, 'after refusal')
    ctx.check_eq(g.grid, D, 'contents unchanged')


@harness(configs=[dict(npix=(4,), px=(1.0,), ax=0), dict(npix=(2, 3), px=(1.0, 0.5), ax=1), dict(npix=(3, 2), px=(2.0, 0.5), ax=0),
                  dict(npix=(4,), px=(1.0,), ax=0, lim='min'), dict(npix=(4,), px=(1.0,), ax=0, lim='max'), dict(npix=(4, 2), px=(1, 1), ax=0, ints=True),
                  dict(npix=(3,), px=(1.0,), ax=0, active=False)])
def cropping(ctx, npix, px, ax, lim='both', ints=False, active=True):
    """cropping keeps exactly the cells whose centres lie within the limits"""
    nd = len(npix)
    c = [2, 1][:nd] if ints else [ctx.choice('c', [0.0, 1.25])] * nd
    g = make_grid(ctx, npix, px, 2, c, active=active)
    e = edges_of(npix, px, c)
    data = ctx.array('g', tuple(npix) + (2,))
    D = obj(data).copy()
    if active:
        g.grid = data
    lo, hi = ctx.real('lo', -3, 4), ctx.real('hi', -3, 4)
    ctx.assume(lo < hi)
    cc = [(e[ax][i] + e[ax][i + 1]) / 2 for i in range(npix[ax])]
    keep = [i for i in range(npix[ax]) if all_(*([cc[i] >= lo] if lim != 'max' else []), *([cc[i] <= hi] if lim != 'min' else []))]
    if not keep:
        ctx.check(True, 'nothing to keep')
        return
    k = {}
    if lim != 'max':
        k['min'] = lo
    if lim != 'min':
        k['max'] = hi
    g.crop(ax, **k)
    n2 = list(npix)
    n2[ax] = len(keep)
    c2 = list(c)
    c2[ax] = (cc[keep[0]] + cc[keep[-1]]) / 2
    check_geometry(ctx, g, n2, px, c2, 'cropped')
    if active:
        ctx.check_eq(g.grid, np.take(D, keep, axis=ax), 'kept cells keep their contents')
    ctx.observe('c', g.center_point)


@harness(configs=[dict(ax=0, k=1), dict(ax=1, k=1), dict(ax=(0, 1), k=2), dict(ax=(1, 0), k=2), dict(ax=(1,), k=1, center=False),
                  dict(ax=(0, 1), k=1, center=False), dict(ax=(1, 0), k=2, center=False), dict(ax=1, k=1, units='GHz'),
                  dict(ax=(1, 0), k=2, units=('GHz', 'deg')), dict(ax=(0,), k=1, units=None), dict(ax=(0, 1), k=2, ints=True)])
def scaling(ctx, ax, k, center=True, units='same', ints=False):
    """scaling multiplies exactly the named axes, each by its own factor, about the origin or about the centre"""
    npix, px = (2, 3), (1.0, 0.5) if not ints else (1, 2)
    c = cen(ctx, 2) if not ints else [1, 2]
    g = make_grid(ctx, npix, px, 2, c, axunits=('kpc', 'Hz'))
    data = ctx.array('g', npix + (2,))
    g.grid = data
    D = obj(data).copy()
    f = [ctx.real('f%d' % i, 0.25, 4) for i in range(k)]
    A = [ax] if isinstance(ax, int) else list(ax)
    F = {a: f[i] if k > 1 else f[0] for i, a in enumerate(A)}
    kw = {} if units == 'same' else {'axunits': units}
    g.scale_axis(ax, f if k > 1 else f[0], scalecenter=center, **kw)
    px2 = [px[d] * F[d] if d in F else px[d] for d in range(2)]
    c2 = [c[d] * F[d] if d in F and center else c[d] for d in range(2)]
    check_geometry(ctx, g, npix, px2, c2, 'scaled')
    ctx.check_eq(g.grid, D, 'contents unchanged')
    u = ['kpc', 'Hz']
    if units != 'same':
        for i, a in enumerate(A):
            u[a] = units if units is None or isinstance(units, str) else units[i]
    ctx.check([x for x in g.axunits] == u, 'axis units')
    ctx.check([x for x in g.fourier_axunits] == [None if x is None else x + '^-1' for x in u], 'frequency units')


@harness(configs=[dict(npix=(4,), ax=0, f=2), dict(npix=(4, 3), ax=0, f=2), dict(npix=(3, 4), ax=1, f=2), dict(npix=(4, 4), ax=(1, 0), f=(2, 4)),
                  dict(npix=(4, 4), ax=(0, 1), f=2), dict(npix=(5, 2), ax=0, f=2), dict(npix=(4, 2), ax=0, f=2, active=False), dict(npix=(2, 2, 3), ax=2, f=3)])
def downsampling(ctx, npix, ax, f, active=True):
    """downsampling makes cells that many times larger from the same starting edge"""
    nd = len(npix)
    px = (1.0, 0.5, 2.0)[:nd]
    c = cen(ctx, nd)
    g = make_grid(ctx, npix, px, 2, c, active=active)
    if active:
        g.grid = g.grid + ctx.array('g', tuple(npix) + (2,))
    g.down_sample(ax, f)
    A = [ax] if isinstance(ax, int) else list(ax)
    F = {a: (f if isinstance(f, int) else f[i]) for i, a in enumerate(A)}
    n2 = [n // F.get(d, 1) for d, n in enumerate(npix)]
    px2 = [p * F.get(d, 1) for d, p in enumerate(px)]
    c2 = [c[d] - npix[d] * px[d] / 2 + n2[d] * px2[d] / 2 for d in range(nd)]
    check_geometry(ctx, g, n2, px2, c2, 'downsampled')


@harness(configs=[dict(npix=(2, 3), ax=0), dict(npix=(2, 3), ax=1), dict(npix=(2, 3, 2), ax=1), dict(npix=(2, 3, 4), ax=(0, 2)), dict(npix=(2, 3, 4), ax=(2, 1)),
                  dict(npix=(2, 3, 4), ax=(0, 1), in_place=False), dict(npix=(2, 3), ax=1, in_place=False)])
def collapsing(ctx, npix, ax, in_place=True):
    """collapsing leaves the geometry and units of the remaining axes"""
    nd = len(npix)
    px = (1.0, 0.5, 2.0)[:nd]
    c = cen(ctx, nd)
    u = ['a', 'b', 'c'][:nd]
    g = make_grid(ctx, npix, px, 2, c, axunits=u)
    r = g.collapse_dimension(ax, in_place=in_place)
    A = [ax] if isinstance(ax, int) else list(ax)
    keep = [d for d in range(nd) if d not in A]
    ctx.check((r is g) == in_place, 'in place returns the same map')
    check_geometry(ctx, r, [npix[d] for d in keep], [px[d] for d in keep], [c[d] for d in keep], 'collapsed')
    ctx.check(list(r.axunits) == [u[d] for d in keep] and list(r.fourier_axunits) == [u[d] + '^-1' for d in keep], 'units')
    if not in_place:
        check_geometry(ctx, g, npix, px, c, 'original')


@harness(configs=[dict(n=(3,)), dict(n=(2, 4)), dict(n=(1, 3)), dict(n=(3, 2), fn=True), dict(n=(7,), step=0.3), dict(n=(3, 6), step=0.1), dict(n=(5,), step=1 / 3.0)])
def from_axes(ctx, n, step=0.5, fn=False):
    """a grid built from cell edges has exactly those cells"""
    G = ctx.mod('simim.map.gridder')
    np_ = ctx.np
    start = [ctx.choice('s%d' % d, [0.0, 1.5, -2.25]) for d in range(len(n))]
    axes = [np_.array([start[d] + i * step for i in range(n[d] + 1)]) for d in range(len(n))]
    if fn:
        a = ctx.real('a', -2, 2)
        g = G.GridFromAxesAndFunction(lambda x, y: a * x.reshape(-1, 1) + y.reshape(1, -1), *axes)
        cc = [[start[d] + (i + 0.5) * step for i in range(n[d])] for d in range(2)]
        ctx.check_eq(g.grid, np.array([[[a * x + y] for y in cc[1]] for x in cc[0]], dtype=object), 'contents from the function')
    else:
        g = G.GridFromAxes(*axes, n_properties=2)
        g.init_grid()
    check_geometry(ctx, g, n, [step] * len(n), [start[d] + n[d] * step / 2 for d in range(len(n))], 'from axes')


@harness(configs=[dict(sub=None), dict(sub=0), dict(sub=1), dict(sub=(2, 0)), dict(sub=None, cropped=True)])
def copying(ctx, sub, cropped=False):
    """a copy has the same geometry, units and (selected) contents"""
    c = [0.5, 1.0]
    g = make_grid(ctx, (3, 2), (1.0, 0.5), 3, c, axunits=('a', 'b'), gridunits=('x', 'y', 'z'))
    data = ctx.array('g', (3, 2, 3))
    g.grid = data
    npix = [3, 2]
    if cropped:
        g.crop(0, min=0.0)
        npix, c = [2, 2], [1.0, 1.0]
    D = obj(g.grid).copy()
    h = g.copy(properties=sub)
    cols = [0, 1, 2] if sub is None else [sub] if isinstance(sub, int) else list(sub)
    check_geometry(ctx, h, npix, (1.0, 0.5), c, 'copy')
    ctx.check(h.n_properties == len(cols) and list(h.gridunits) == [('x', 'y', 'z')[k] for k in cols] and list(h.axunits) == ['a', 'b'], 'copy: units')
    ctx.check_eq(h.grid, D[..., cols], 'copy: contents')
    h2 = g.copy_axes(n_properties=2)
    check_geometry(ctx, h2, npix, (1.0, 0.5), c, 'copied axes')
    ctx.check(h2.n_properties == 2 and not h2.grid_active, 'copied axes: empty')


OPS = ('pad', 'crop', 'scale', 'down', 'cpad')


@harness(configs=[dict(ops=o) for o in (('pad', 'crop'), ('scale', 'pad'), ('crop', 'scale', 'pad'), ('pad', 'down', 'crop'), ('down', 'pad'), ('scale', 'crop', 'pad', 'down'))],
         thorough=[dict(ops=(a, b)) for a in OPS for b in OPS] + [dict(ops=(a, b, c)) for a in OPS for b in OPS for c in OPS])
def chains(ctx, ops):
    """after any chain of operations an object still lands in the cell its position lies in"""
    c = [ctx.choice('c0', [0.0, 0.75]), 1.0]
    n, px = [4, 2], [1.0, 0.5]
    g = make_grid(ctx, n, px, 1, c)
    for o in ops:
        if o == 'pad':
            g.pad((1,), (1,))
            n[1] += 2
        elif o == 'cpad':
            g.pad((1, 0), (2, 1))
            n[1] += 4
            n[0] += 2
        elif o == 'crop':
            m = c[0] - n[0] * px[0] / 2 + px[0]          # drop the first cell
            g.crop(0, min=m)
            n[0] -= 1
            c[0] += px[0] / 2
        elif o == 'scale':
            g.scale_axis((1, 0), (2.0, 0.5), scalecenter=False)
            px = [px[0] * 0.5, px[1] * 2.0]
        else:
            g.down_sample(0, 2)
            lo = c[0] - n[0] * px[0] / 2
            n[0] //= 2
            px[0] *= 2
            c[0] = lo + n[0] * px[0] / 2
    check_geometry(ctx, g, n, px, c, 'after the chain')
    pos = ctx.array('p', (1, 2), -4, 4)
    g.add_from_cat(pos)
    ctx.check_eq(g.grid, placed(np.zeros(tuple(n) + (1,)), obj(pos), [[1.0]], edges_of(n, px, c), [0]), 'object lands in its cell')
