"""M02: sampling a map at a position gives the values of the cell an object there would be gridded into, NaN outside."""
import numpy as np
from vsx.core import harness
from vsx.spec import all_, any_, not_, ite, obj, total
from checks._map import make_grid, edges_of, inside_cell, inside_grid, cells

FUNCTIONS = ['map.gridder.Grid.sample', 'map.gridder.Grid.add_from_cat', 'map.gridder.Grid.__init__']
BOUNDS = 'maps up to 3 dimensions, 3 cells per axis, 3 properties; up to 3 positions; every map value, position and the centre symbolic'
OUTSIDE = 'larger maps, non-dyadic cell sizes, NaN positions'

SH = [dict(npix=(3,), px=(1.0,), n=2), dict(npix=(2, 3), px=(1.0, 0.5), n=1), dict(npix=(2, 2), px=(2.0, 1.0), n=2),
      dict(npix=(2, 1, 2), px=(2.0, 1.0, 0.5), n=1)]


def expected(pos, data, edges, cols):
    out = np.empty((len(pos), len(cols)), dtype=object)
    for o in range(len(pos)):
        if inside_grid(pos[o], edges):          # splits the path, like the code does
            for j, p in enumerate(cols):
                out[o, j] = total([ite(inside_cell(pos[o], edges, c), data[c + (p,)], 0.0) for c in cells(edges)])
        else:
            out[o, :] = np.float64('nan')
    return out


@harness(configs=SH + [dict(npix=(2, 2), px=(1.0, 1.0), n=2, ints=True)],
         thorough=SH + [dict(npix=(3,), px=(1.0,), n=3), dict(npix=(2, 2, 2), px=(2.0, 1.0, 0.5), n=2), dict(npix=(2, 2), px=(1.0, 1.0), n=2, ints=True)])
def values(ctx, npix, px, n, ints=False):
    """every property at every position"""
    nd = len(npix)
    center = [1] * nd if ints else [ctx.real('c%d' % i, -2, 2) for i in range(nd)]
    g = make_grid(ctx, npix, px, 2, center)
    data = ctx.array('g', tuple(npix) + (2,))
    g.grid = data
    pos = ctx.array('p', (n, nd), -5, 5, kind='int' if ints else 'real')
    p0, d0 = obj(pos), obj(data).copy()
    s = g.sample(pos)
    edges = edges_of(npix, px, center)
    ctx.check_eq(s, expected(p0, d0, edges, [0, 1]), 'sampled values')
    ctx.check_eq(g.grid, d0, 'the map is unchanged')
    ctx.check_eq(pos, p0, "the caller's positions are unchanged")
    ctx.observe('s', s)


@harness(configs=[dict(sel=0), dict(sel=2), dict(sel=(2, 0)), dict(sel=(1,)), dict(sel=(0, 1, 2))])
def selection(ctx, sel):
    """only the requested properties, in the requested order"""
    g = make_grid(ctx, (2, 2), (1.0, 1.0), 3, [0.0, 0.0])
    data = ctx.array('g', (2, 2, 3))
    g.grid = data
    pos = ctx.array('p', (2, 2), -2, 2)
    s = g.sample(pos, properties=sel)
    cols = [sel] if isinstance(sel, int) else list(sel)
    ctx.check_eq(s, expected(obj(pos), obj(data), edges_of((2, 2), (1.0, 1.0), [0.0, 0.0]), cols), 'sampled values')
    ctx.observe('s', s)


@harness(configs=[dict(nd=1), dict(nd=2)])
def agrees_with_gridding(ctx, nd):
    """an object gridded into an empty map is found where it was put, and nowhere that shares no cell with it"""
    g = make_grid(ctx, (3, 2)[:nd], (1.0, 0.5)[:nd], 1, [ctx.real('c%d' % i, -1, 1) for i in range(nd)])
    p, q = ctx.array('p', (1, nd), -3, 3), ctx.array('q', (1, nd), -3, 3)
    v = ctx.array('v', (1, 1), 1, 5)
    g.add_from_cat(p, v)
    s = g.sample(ctx.np.concatenate((p, q)))
    edges = edges_of((3, 2)[:nd], (1.0, 0.5)[:nd], obj(g.center_point))
    P, Q = obj(p)[0], obj(q)[0]
    S = obj(s)
    if inside_grid(P, edges):
        ctx.check_eq(S[0, 0], obj(v)[0, 0], 'the object is found at its own position')
        if inside_grid(Q, edges):
            same = any_(*[all_(inside_cell(P, edges, c), inside_cell(Q, edges, c)) for c in cells(edges)])
            ctx.check_eq(S[1, 0], ite(same, obj(v)[0, 0], 0.0), 'another position sees it only in the same cell')
    else:
        ctx.check(np.isnan(S[0, 0]), 'an object outside the map leaves nothing to find')


@harness(configs=[dict(bad=3), dict(bad=-1)])
def bad_property(ctx, bad):
    """asking for a property the map does not have is refused"""
    g = make_grid(ctx, (2,), (1.0,), 3, [0.0])
    pos = ctx.array('p', (1, 1), -2, 2)
    ctx.check(ctx.raises(ValueError, g.sample, pos, properties=bad), 'refused')


@harness(configs=[dict(case=c) for c in ('shape_cat', 'shape_sample')])
def wrong_dimension(ctx, case):
    """positions of the wrong dimensionality are refused and the map is left alone"""
    g = make_grid(ctx, (2, 2), (1.0, 1.0), 1, [0.0, 0.0])
    data = ctx.array('g', (2, 2, 1))
    g.grid = data
    d0 = obj(data).copy()
    pos = ctx.array('p', (2, 3), -1, 1)
    ctx.check(ctx.raises(ValueError, g.add_from_cat if case == 'shape_cat' else g.sample, pos), 'refused')
    ctx.check_eq(g.grid, d0, 'the map is unchanged')
