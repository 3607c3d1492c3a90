"""M01: gridding a catalogue puts each object's value in exactly the half-open cell containing it."""
import numpy as np
from vsx.core import harness
from vsx.spec import all_, any_, not_, ite, obj, total

FUNCTIONS = ['map.gridder.Grid.__init__', 'map.gridder.Grid.init_grid', 'map.gridder.Grid.add_from_cat',
             'map.gridder.Grid.add_new_prop', 'map.gridder.Gridder.__init__', 'map.gridder.gridder_function']
BOUNDS = 'grids up to 3 dimensions and 3 cells per axis, up to 3 objects, up to 3 properties, symbolic positions, values and centre'
OUTSIDE = 'more objects, cells or dimensions; non-dyadic cell sizes'
from checks._map import make_grid, edges_of, inside_cell, inside_grid, placed


SH = [dict(npix=(3,), px=(1.0,), n=2), dict(npix=(2, 3), px=(1.0, 0.5), n=1),
      dict(npix=(2, 2, 2), px=(2.0, 1.0, 0.5), n=1), dict(npix=(2, 2), px=(2.0, 1.0), n=2)]
SHT = SH + [dict(npix=(3,), px=(1.0,), n=3), dict(npix=(2, 3), px=(1.0, 0.5), n=2), dict(npix=(2, 2, 2), px=(2.0, 1.0, 0.5), n=2)]


@harness(configs=SH, thorough=SHT)
def placement(ctx, npix, px, n):
    """objects added to a grid that already holds values, one value per property"""
    nd = len(npix)
    center = [ctx.real('c%d' % i, -2, 2) for i in range(nd)]
    g = make_grid(ctx, npix, px, 2, center)
    old = ctx.array('old', tuple(npix) + (2,))
    g.grid = g.grid + old
    pos, val = ctx.array('p', (n, nd), -5, 5), ctx.array('v', (n, 2))
    p0, v0 = obj(pos), obj(val)
    g.add_from_cat(pos, val)
    edges = edges_of(npix, px, center)
    ctx.check_eq(g.grid, placed(obj(old), p0, v0, edges, [0, 1]), 'cell contents')
    cnt = total([ite(inside_grid(p, edges), 1.0, 0.0) for p in p0])
    ctx.check_eq(g.n_objects, cnt, 'number of objects gridded')
    ctx.check_eq(pos, p0, "the caller's positions are unchanged")
    ctx.check_eq(val, v0, "the caller's values are unchanged")
    ctx.observe('grid', g.grid)


@harness(configs=[dict(n=2), dict(n=2, sub=(1,)), dict(n=2, sub=(2, 0)), dict(n=2, sub=(0, 1, 2)), dict(n=2, single=True),
                  dict(n=1, sub=2, single=True), dict(n=2, sub=(2, 0), single=True), dict(n=2, counts=True)])
def properties(ctx, n, sub=None, single=False, counts=False):
    """values reach the requested property columns and no other"""
    g = make_grid(ctx, (2, 2), (1.0, 1.0), 3, [0.0, 0.5])
    old = ctx.array('old', (2, 2, 3))
    g.grid = g.grid + old
    cols = [0, 1, 2] if sub is None else [sub] if isinstance(sub, int) else list(sub)
    pos = ctx.array('p', (n, 2), -2, 2)
    k = 1 if single else len(cols)
    val = ctx.array('v', (n, k))
    vals = None if counts else val[:, 0] if single else val
    g.add_from_cat(pos, vals, properties=sub)
    edges = edges_of((2, 2), (1.0, 1.0), [0.0, 0.5])
    v = [[1.0]] * n if counts else obj(val)
    ctx.check_eq(g.grid, placed(obj(old), obj(pos), v, edges, cols), 'cell contents')
    ctx.observe('grid', g.grid)


@harness(configs=[dict(k=1, active=True), dict(k=2, active=True), dict(k=2, active=True, sub=(0,)), dict(k=1, active=True, flat=True)])
def new_properties(ctx, k, active, sub=None, flat=False):
    """new_props appends columns holding only the new objects; a second batch adds on top"""
    g = make_grid(ctx, (3,), (1.0,), 1, [0.0])
    old = ctx.array('old', (3, 1))
    g.grid = g.grid + old
    pos, val = ctx.array('p', (2, 1), -3, 3), ctx.array('v', (2, k))
    vv = val[:, 0] if flat else val
    g.add_from_cat(pos, vv, new_props=True, properties=sub)
    edges = edges_of((3,), (1.0,), [0.0])
    want = np.zeros((3, 1 + k), dtype=object)
    want[:, :1] = obj(old)
    want = placed(want, obj(pos), obj(val), edges, list(range(1, 1 + k)))
    ctx.check_eq(g.grid, want, 'cell contents with new properties')
    ctx.check(g.n_properties == 1 + k, 'number of properties')
    ctx.check(len(g.gridunits) == 1 + k, 'units listed for each property')
    p2, v2 = ctx.array('q', (1, 1), -3, 3), ctx.array('w', (1, 1 + k))
    g.add_from_cat(p2, v2)
    want = placed(want, obj(p2), obj(v2), edges, list(range(1 + k)))
    ctx.check_eq(g.grid, want, 'second batch adds on top')
    cnt = total([ite(inside_grid(p, edges), 1.0, 0.0) for p in list(obj(pos)) + list(obj(p2))])
    ctx.check_eq(g.n_objects, cnt, 'objects counted over both batches')
    ctx.observe('grid', g.grid)


@harness(configs=[dict(case='none'), dict(case='flat'), dict(case='2d'), dict(case='new_flat'), dict(case='new_2d'), dict(case='outside')])
def empty_catalogue(ctx, case):
    """no objects (or none inside) leaves every cell as it was"""
    g = make_grid(ctx, (2, 2), (1.0, 1.0), 2, [0.0, 0.0])
    old = ctx.array('old', (2, 2, 2))
    g.grid = g.grid + old
    np_ = ctx.np
    new = case.startswith('new')
    if case == 'none':
        g.add_from_cat(np_.zeros((0, 2)))
    elif case == 'flat':
        g.add_from_cat(np_.array([]), np_.zeros((0, 2)))
    elif case == '2d':
        g.add_from_cat(np_.zeros((0, 2)), np_.zeros((0, 2)))
    elif case == 'new_flat':
        g.add_from_cat(np_.array([]), np_.zeros((0, 2)), new_props=True)
    elif case == 'new_2d':
        g.add_from_cat(np_.zeros((0, 2)), np_.zeros((0, 2)), new_props=True)
    else:
        far = ctx.array('p', (2, 2), 1.0, 4.0)
        g.add_from_cat(far, ctx.array('v', (2, 2)))
    ctx.check(g.n_objects == 0, 'no objects gridded')
    ctx.check(tuple(g.grid.shape) == (2, 2, 4 if new else 2), 'grid shape')
    ctx.check(g.n_properties == (4 if new else 2), 'number of properties')
    ctx.check_eq(g.grid[..., :2], obj(old), 'cells unchanged')
    if new:
        ctx.check_eq(g.grid[..., 2:], np.zeros((2, 2, 2)), 'new properties are empty')


@harness(configs=[dict(nd=1, n=2), dict(nd=2, n=2, ints=True), dict(nd=1, n=2, ints=True), dict(nd=2, n=1, counts=True), dict(nd=2, n=2, wrapper=True)],
         thorough=[dict(nd=1, n=3), dict(nd=2, n=2, ints=True), dict(nd=1, n=2, ints=True), dict(nd=2, n=2, counts=True), dict(nd=2, n=2, wrapper=True)])
def explicit_gridder(ctx, nd, n, ints=False, counts=False, wrapper=False):
    """a Gridder with a given geometry holds the catalogue; integer coordinates and values behave like real ones"""
    G = ctx.mod('simim.map.gridder')
    kind = 'int' if ints else 'real'
    pos = ctx.array('p', (n, nd), -3, 3, kind=kind)
    val = ctx.array('v', (n, 2), -9, 9, kind=kind)
    cen = [0, 0.5][:nd] if not ints else [0, 1][:nd]
    side, px = (4, 2)
    a = dict(values=None if counts else val, center_point=cen, side_length=side, pixel_size=px)
    p0 = obj(pos)
    if wrapper:
        grid, axes = G.gridder_function(pos, **a)
    else:
        g = G.Gridder(pos, **a)
        grid, axes = g.grid, g.axes
    edges = edges_of((2,) * nd, (2.0,) * nd, cen)
    v = [[1.0]] * n if counts else obj(val)
    k = 1 if counts else 2
    ctx.check_eq(grid, placed(np.zeros((2,) * nd + (k,)), p0, v, edges, list(range(k))), 'cell contents')
    for d in range(nd):
        ctx.check_eq(axes[d], edges[d], 'edges of axis')
    ctx.observe('grid', grid)


@harness(configs=[dict(n=2, nd=1), dict(n=3, nd=1), dict(n=2, nd=2)])
def fitted_gridder(ctx, n, nd):
    """a Gridder fitted to its catalogue keeps every object: the totals of the values are preserved"""
    G = ctx.mod('simim.map.gridder')
    pos, val = ctx.array('p', (n, nd), -1, 1), ctx.array('v', (n, 2))
    P = obj(pos)
    for d in range(nd):
        for i in range(n - 1):     # one ordering of the objects covers the others by symmetry; spread keeps cells few
            ctx.assume(P[i + 1][d] - P[i][d] >= 0.25)
    g = G.Gridder(pos, val, pixel_size=1)
    ctx.check(g.n_objects == n, 'every object is gridded')
    V = obj(val)
    GR = obj(g.grid)
    for k in range(2):
        ctx.check_eq(total(GR[..., k].reshape(-1)), total([V[i][k] for i in range(n)]), 'total value preserved')
    for d in range(nd):
        ctx.check(all_(*[all_(g.axes[d][0] <= P[i][d], P[i][d] < g.axes[d][-1]) for i in range(n)]), 'grid covers the objects')
