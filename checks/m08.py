"""M08: saved maps load back the same, files are not overwritten unasked, and copies share nothing with their originals."""
import os
import numpy as np
from vsx.core import harness
from vsx import sym
from vsx.spec import all_, obj, total
from checks._map import make_grid, check_geometry
from checks.m06 import parts

FUNCTIONS = ['map.gridder.Grid.save', 'map.gridder.LoadGrid', 'map.gridder.Grid.copy', 'map.gridder.Grid.copy_axes']
BOUNDS = 'maps of 1 to 3 dimensions, up to 3 cells along an axis, 1 to 3 properties; all contents symbolic; every state (empty, real, Fourier, power spectrum), name with and without extension'
OUTSIDE = 'the npz file format itself (numpy), partial writes'
PX = (0.5, 2.0, 1.0)


def state(ctx, npix, nprop, kind, units):
    nd = len(npix)
    c = [ctx.real('c%d' % i, -4, 4) for i in range(nd)]
    u = dict(axunits=['deg', 'Mpc', 'GHz'][:nd], gridunits=['Jy', 'K', 'counts'][:nprop]) if units else {}
    g = make_grid(ctx, npix, PX[:nd], nprop, c, active=kind != 'inactive', **u)
    if kind != 'inactive':
        d = ctx.array('g', tuple(npix) + (nprop,))
        if kind == 'fourier':
            d = d + 1j * ctx.array('gi', tuple(npix) + (nprop,))
            g.fourier_space[0] = True
        if kind == 'power':
            g.fourier_space[:] = True
            g.is_power_spectrum = True
        g.grid = d
        g.n_objects = 7
    return g, c


def same(ctx, a, b, npix, c, what, units=True):
    nd = len(npix)
    ctx.check(int(a.n_properties) == int(b.n_properties), what + ': properties')
    ctx.check(bool(a.grid_active) == bool(b.grid_active), what + ': active')
    ctx.check(int(a.n_objects) == int(b.n_objects), what + ': objects')
    ctx.check(bool(a.is_power_spectrum) == bool(b.is_power_spectrum), what + ': power spectrum')
    ctx.check([bool(x) for x in a.fourier_space] == [bool(x) for x in b.fourier_space], what + ': space')
    ctx.check(list(a.axunits) == list(b.axunits) and list(a.fourier_axunits) == list(b.fourier_axunits), what + ': axis units')
    if units:
        ctx.check(list(a.gridunits) == list(b.gridunits), what + ': map units')
    check_geometry(ctx, a, npix, PX[:nd], c, what)
    if a.grid_active and b.grid_active:
        for x, y in zip(parts(a.grid), parts(b.grid)):
            ctx.check_eq(x, y, what + ': contents')
        ctx.check(ctx.np.iscomplexobj(a.grid) == ctx.np.iscomplexobj(b.grid), what + ': type of contents')


STATES = [dict(npix=n, nprop=p, kind=k, units=u) for n, p, u in (((3,), 1, False), ((2, 3), 2, True), ((2, 1, 2), 3, False)) for k in ('inactive', 'map', 'fourier', 'power')]


@harness(configs=[dict(s, compress=c, ext=e) for s in STATES for c in (False, True) for e in ('.npz', '')])
def roundtrip(ctx, npix, nprop, kind, units, compress, ext):
    """load(save(map)) is the map, and it can be worked with like the original"""
    G = ctx.mod('simim.map.gridder')
    g, c = state(ctx, npix, nprop, kind, units)
    p = os.path.join(ctx.tmp, 'map' + ext)
    g.save(p, compress=compress)
    ctx.check(os.path.exists(os.path.join(ctx.tmp, 'map.npz')), 'file written')
    h = G.LoadGrid(os.path.join(ctx.tmp, 'map.npz'))
    same(ctx, h, g, npix, c, 'loaded')
    # the original is unchanged and independent of the loaded one
    if kind != 'inactive':
        before = obj(g.grid).copy()
        h.grid[...] = 1.0
        ctx.check_eq(parts(g.grid)[0], parts(before)[0], 'independent of the loaded map')
        h = G.LoadGrid(os.path.join(ctx.tmp, 'map.npz'))
    # ordinary work continues on the loaded map
    for m in (g, h):
        if kind == 'inactive':
            m.init_grid()
        m.add_new_prop(ctx.np.ones(tuple(npix)))
        if kind in ('map', 'inactive'):
            m.add_from_cat(ctx.np.array([c]), properties=[nprop])
    k = g.copy()
    same(ctx, h, k, npix, c, 'loaded map worked with')
    ctx.check(int(h.n_properties) == nprop + 1, 'one more property')
    h.save(os.path.join(ctx.tmp, 'again.npz'))
    same(ctx, G.LoadGrid(os.path.join(ctx.tmp, 'again.npz')), g, npix, c, 'saved again')


@harness(configs=[dict(ext1=a, ext2=b, compress=c) for a in ('.npz', '') for b in ('.npz', '') for c in (False, True)])
def overwrite(ctx, ext1, ext2, compress):
    """an existing file is replaced only when asked to, whether or not its extension is spelled out"""
    G = ctx.mod('simim.map.gridder')
    g, c = state(ctx, (2,), 1, 'map', False)
    h = make_grid(ctx, (2,), PX[:1], 1, c)
    h.grid = ctx.array('h', (2, 1))
    p1, p2 = os.path.join(ctx.tmp, 'm' + ext1), os.path.join(ctx.tmp, 'm' + ext2)
    f = os.path.join(ctx.tmp, 'm.npz')
    g.save(p1)
    ctx.check(ctx.raises(ValueError, h.save, p2, compress=compress), 'refused')
    ctx.check_eq(G.LoadGrid(f).grid, obj(g.grid), 'the first map is kept')
    h.save(p2, compress=compress, overwrite=True)
    ctx.check_eq(G.LoadGrid(f).grid, obj(h.grid), 'replaced when asked')
    ctx.check(sorted(os.listdir(ctx.tmp)) == ['m.npz'], 'no other file')


@harness(configs=[dict(s, sub=x) for s in STATES for x in (None, 0, -1, 'rev') if not (x == 'rev' and s['nprop'] == 1) and x != -1])
def copies(ctx, npix, nprop, kind, units, sub):
    """a copy (of some properties) describes the same map; changing either leaves the other alone"""
    g, c = state(ctx, npix, nprop, kind, units)
    cols = list(range(nprop)) if sub is None else [0] if sub == 0 else list(range(nprop))[::-1][:2]
    k = g.copy(None if sub is None else 0 if sub == 0 else tuple(cols))
    ctx.check(k.n_properties == len(cols), 'number of properties')
    ctx.check(list(k.gridunits) == [list(g.gridunits)[i] for i in cols], 'units of the properties kept')
    ctx.check([bool(x) for x in k.fourier_space] == [bool(x) for x in g.fourier_space] and k.is_power_spectrum == g.is_power_spectrum, 'same space')
    ctx.check(bool(k.grid_active) == bool(g.grid_active), 'active like the original')
    check_geometry(ctx, k, npix, PX[:len(npix)], c, 'copy')
    ctx.check(list(k.axunits) == list(g.axunits), 'axis units')
    if kind == 'inactive':
        k.init_grid()
        ctx.check(not g.grid_active, 'original still empty')
        return
    ctx.check(k.n_objects == g.n_objects, 'objects')
    for i, (x, y) in enumerate(zip(parts(k.grid), parts(g.grid))):
        ctx.check_eq(x, y[..., cols], 'contents')
    D, K = obj(g.grid).copy(), obj(k.grid).copy()
    k.grid[...] = 3.0
    k.axes[0][0] = 99.0
    k.center_point[0] = 77.0
    k.pixel_size[0] = 55.0
    k.fourier_space[0] = not k.fourier_space[0]
    k.gridunits[0] = 'x'
    k.axunits[0] = 'x'
    ctx.check_eq(parts(g.grid)[0], parts(D)[0], 'original contents')
    check_geometry(ctx, g, npix, PX[:len(npix)], c, 'original')
    ctx.check([bool(x) for x in g.fourier_space] == [kind == 'power' or (kind == 'fourier' and i == 0) for i in range(len(npix))], 'original space')
    ctx.check('x' not in list(g.gridunits) + list(g.axunits), 'original units')


@harness(configs=[dict(op=o) for o in ('crop', 'pad', 'scale', 'fourier', 'prop', 'cat', 'down', 'collapse', 'sum', 'convolve', 'init')])
def original_survives(ctx, op):
    """whatever is done to a copy in place leaves the original as it was"""
    g, c = state(ctx, (2, 2), 2, 'map', True)
    D = obj(g.grid).copy()
    k = g.copy()
    psf = make_grid(ctx, (3, 3), PX[:2], 1, [0.0, 0.0])
    psf.grid = ctx.np.array(np.arange(9.0).reshape(3, 3, 1).tolist())
    dict(crop=lambda: k.crop(1, c[1] - 0.5, None), pad=lambda: k.pad(0, 1, 4.0), scale=lambda: k.scale_axis(0, 2.0), fourier=lambda: k.fourier_transform(), prop=lambda: k.add_new_prop(),
         cat=lambda: k.add_from_cat(ctx.np.array([c])), down=lambda: k.down_sample(0, 2), collapse=lambda: k.collapse_dimension(1), sum=lambda: k.sum_properties(),
         convolve=lambda: k.convolve(psf), init=lambda: k.init_grid())[op]()
    ctx.check_eq(g.grid, D, 'original contents')
    check_geometry(ctx, g, (2, 2), PX[:2], c, 'original')
    ctx.check(g.n_properties == 2 and list(g.gridunits) == ['Jy', 'K'] and not any(bool(x) for x in g.fourier_space) and g.n_objects == 7, 'original description')


@harness(configs=[dict(what=w) for w in ('init', 'center', 'axes')])
def inputs_not_shared(ctx, what):
    """a map does not change when the arrays it was made from change later, nor the other way round"""
    G = ctx.mod('simim.map.gridder')
    if what == 'axes':
        a = ctx.np.array([0.0, 1.0, 2.0, 3.0])
        g = G.GridFromAxes(a, n_properties=1)
        a[0] = 9.0
        ctx.check_eq(g.axes[0], [0.0, 1.0, 2.0, 3.0], 'axes')
        g.axes[0][1] = 5.0
        ctx.check_eq(a, [9.0, 1.0, 2.0, 3.0], "the caller's axis")
        return
    c, s, p = ctx.array('c', 2), ctx.np.array([2.0, 2.0]), ctx.np.array([0.5, 1.0])
    C = list(obj(c))
    g = G.Grid(1, c, s, p)
    c[0] = 9.0
    s[0] = 9.0
    p[0] = 9.0
    check_geometry(ctx, g, (4, 2), (0.5, 1.0), C)
    g.init_grid()
    g.center_point[1] = 3.0
    g.pixel_size[1] = 3.0
    ctx.check_eq(c, [9.0, C[1]], "the caller's center")
    ctx.check_eq(p, [9.0, 1.0], "the caller's cell size")
