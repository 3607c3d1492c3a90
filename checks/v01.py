"""V01: plots and animations of maps, catalogs and light cones draw exactly the data asked for."""
import itertools
import numpy as np
from vsx import astro
from vsx.core import harness
from vsx.spec import obj, total
from checks._map import make_grid
from checks._plot import Plt, Movie, Image, Line, Dots, Bars
from checks._sim import make_sim, make_lc, masses

FUNCTIONS = ['map.gridder.Grid.visualize', 'map.gridder.Grid.animate', '_handlers.Handler.plot', '_handlers.Handler.hist', 'lightcone.lchandler.LCHandler.animate',
             'galprops.sfr_behroozi13.behroozi13_base.plot_grid']
BOUNDS = 'maps of 2 to 4 dimensions with up to 4 cells along an axis and 2 properties (all contents symbolic), every pair and order of axes; catalogs of 3 and light cones of 2 objects with symbolic values and limits'
OUTSIDE = 'the look of plots (colors, ranges of colors, sizes, labels); what matplotlib makes of the calls; animations of light spheres; repeated or negative axes'

H, BOX = 0.5, 8.0
PX = (0.5, 2.0, 1.0, 0.25)
UNITS = ['deg', 'GHz', 'Mpc', 'km/s']


def make_map(ctx, npix, fourier=(), positive=False, cplx=False):
    n = len(npix)
    g = make_grid(ctx, npix, PX[:n], 2, [1.0, -2.0, 0.5, 8.0][:n], axunits=UNITS[:n])
    c = ctx.array('c', tuple(npix) + (2,), *((0.5, 8.0) if positive else (-8.0, 8.0)))
    want = obj(c)
    g.grid = c
    if fourier:
        for a in fourier:
            g.fourier_space[a] = True
        if cplx:
            d = ctx.array('d', tuple(npix) + (2,))
            g.grid = c + 1j * d
    edges = [g.fourier_axes[a] if a in fourier else g.axes[a] for a in range(n)]
    # written out, not read off the map
    for a in range(n):
        if a in fourier:
            f = np.fft.fftshift(np.fft.fftfreq(npix[a], PX[a]))
            d = 1 / (npix[a] * PX[a])
            edges[a] = [x - d / 2 for x in f] + [f[-1] + d / 2]
        else:
            edges[a] = [[1.0, -2.0, 0.5, 8.0][a] + (i - npix[a] / 2) * PX[a] for i in range(npix[a] + 1)]
    return g, want, edges


def merged(c, keep, fixed, prop):
    """sum over the axes neither kept nor fixed: {cell of kept axes: value}"""
    n = c.ndim - 1
    out = {}
    for i in itertools.product(*[range(c.shape[a]) for a in keep]):
        v = []
        for j in itertools.product(*[[i[keep.index(a)]] if a in keep else [fixed[a]] if a in fixed else range(c.shape[a]) for a in range(n)]):
            v.append(c[j + (prop,)])
        out[i] = total(v)
    return out


def same_image(ctx, im, ex, ey, want, label):
    ctx.check(im.z.shape == (len(ey) - 1, len(ex) - 1), label + ' shape')
    ctx.check_eq(im.x, ex, label + ' x')
    ctx.check_eq(im.y, ey, label + ' y')
    for i, j in np.ndindex(len(ex) - 1, len(ey) - 1):
        ctx.check_eq(im.z[j, i], want[i, j], label)


VIS = [dict(npix=n, ax=a, sl=s, prop=p, fourier=f) for n, a, s, f in (
    ((2, 3), (0, 1), 'sum', ()), ((2, 3), (1, 0), 'sum', ()), ((2, 2), (1, 0), 'sum', ()), ((2, 3), (0, 1), (), ()), ((2, 3), (1, 0), (), (0,)),
    ((2, 3, 2), (0, 1), 'sum', ()), ((2, 3, 2), (2, 0), 'sum', ()), ((2, 3, 2), (0, 2), (2,), ()), ((2, 3, 2), (2, 1), (1,), ()), ((2, 3, 2), (1, 2), 'sum', (0, 2)),
    ((2, 3, 1, 2), (3, 1), (1, 0), ()), ((2, 1, 3, 2), (0, 2), (0, 1), (2,)), ((2, 3, 2, 2), (1, 3), 'sum', (0, 1, 2, 3)), ((3, 4), (1, 0), 'sum', (0, 1))) for p in (0, 1)]


@harness(configs=VIS)
def visualize(ctx, npix, ax, sl, prop, fourier):
    """an image of the sum over, or a slice along, the other axes, with the axes in the order given"""
    g, c, edges = make_map(ctx, npix, fourier, cplx=bool(fourier))
    G = ctx.mod('simim.map.gridder')
    G.plt = p = Plt()
    before = obj(g.grid).copy()
    k = dict(axkws=dict(title='t'), plotkws=dict(cmap='viridis'))
    g.visualize(ax=list(ax), slice_indices=sl if sl == 'sum' else list(sl), property=prop, **k)
    ctx.check(k == dict(axkws=dict(title='t'), plotkws=dict(cmap='viridis')), 'keywords unchanged')
    ims = p.all(Image)
    ctx.check(len(ims) == 1 and p.shown == 1, 'one image')
    rest = [a for a in range(len(npix)) if a not in ax]
    fixed = {} if sl == 'sum' else dict(zip(rest, sl))
    same_image(ctx, ims[0], edges[ax[0]], edges[ax[1]], merged(c, list(ax), fixed, prop), 'image')
    ctx.check_eq(obj(g.grid), before, 'map unchanged')


@harness(configs=[dict()])
def visualize_default(ctx):
    """by default the first property along the first two axes; bad requests are refused"""
    g, c, edges = make_map(ctx, (2, 3, 2))
    G = ctx.mod('simim.map.gridder')
    G.plt = p = Plt()
    g.visualize()
    same_image(ctx, p.all(Image)[0], edges[0], edges[1], merged(c, [0, 1], {}, 0), 'image')
    ctx.check(ctx.raises(ValueError, g.visualize, ax=[0, 1, 2]), 'two axes')
    ctx.check(ctx.raises(ValueError, g.visualize, slice_indices=[0, 1]), 'one index per axis not shown')
    ctx.check(ctx.raises(ValueError, make_grid(ctx, (2, 2), (1.0, 1.0), 1, [0.0, 0.0], active=False).visualize), 'no map')
    ctx.check(ctx.raises(ValueError, make_grid(ctx, (2,), (1.0,), 1, [0.0]).visualize), 'one dimension')


ANI = [dict(npix=n, slide=s, face=f, prop=p, i0=i, fourier=q) for n, s, f, p, i, q in (
    ((2, 3, 2), 2, (0, 1), 0, 0, ()), ((2, 3, 2), 2, (1, 0), 1, 1, ()), ((3, 2, 2), 0, (1, 2), 0, 2, ()), ((2, 3, 2), 1, (2, 0), 1, 0, ()), ((2, 3, 2), 1, (0, 2), 0, 0, (1,)),
    ((2, 3, 2), 0, (2, 1), 1, 1, (0, 1, 2)), ((2, 3, 2, 2), 3, (0, 1), 0, 0, ()), ((2, 2, 3, 2), 0, (3, 1), 1, 1, ()), ((2, 2, 2, 3), 2, (1, 3), 0, 1, (1,)))]


@harness(configs=[dict(c, still=False, log=l) for c in ANI for l in (False, True)] + [dict(c, still=True, log=False) for c in ANI])
def animate(ctx, npix, slide, face, prop, i0, fourier, still, log):
    """frame by frame the slices along one axis, over the two faces asked for, with the rest summed; beside them the sum along the first face axis"""
    g, c, edges = make_map(ctx, npix, fourier, positive=log, cplx=bool(fourier) and not log)
    G = ctx.mod('simim.map.gridder')
    G.plt, G.animation = p, mv = Plt(), Movie()
    r = g.animate(save='name', prop_ind=prop, slide_dim=slide, face_dims=list(face), i0=i0, still=still, logscale=log)
    ims = p.all(Image)
    ctx.check(len(ims) == 2 and p.shown == 1, 'two images')
    edge, shown = ims
    f = ctx.np.log10 if log else (lambda v: v)
    if still:
        ctx.check(not mv.made and p.saved == ['name'], 'a still image')
    else:
        ctx.check(len(mv.made) == 1 and mv.made[0].saved == ['name.mp4'] and r is mv.made[0], 'one film')
        ctx.check(mv.made[0].frames == list(range(npix[slide])), 'one frame per cell')
    side = merged(c, [slide, face[1]], {}, prop)
    same_image(ctx, edge, edges[slide], edges[face[1]], {k: f(v) for k, v in side.items()}, 'side view')
    box = p.all(Line)[0]
    ax = [a for a in p.axes if shown in a.items][0]
    for k, i in enumerate([i0] + ([] if still else list(range(npix[slide])))):
        if k:
            mv.made[0].func(i)
        want = merged(c, list(face), {slide: i}, prop)
        same_image(ctx, shown, edges[face[0]], edges[face[1]], {k: f(v) for k, v in want.items()}, 'face')
        ctx.check_eq(sorted(set(float(x) for x in box.x)), [float(edges[slide][i]), float(edges[slide][i + 1])], 'position of the slice')
        ctx.check(('%.2f' % ((edges[slide][i] + edges[slide][i + 1]) / 2)).replace('-0.00', '0.00') in ax.title.replace('-0.00', '0.00'), 'title of the slice')


@harness(configs=[dict()])
def animate_refused(ctx):
    """animations need three dimensions and axes and properties the map has"""
    g, c, edges = make_map(ctx, (2, 3, 2))
    ctx.mod('simim.map.gridder').plt = Plt()
    for k in (dict(prop_ind=2), dict(slide_dim=3), dict(face_dims=[0, 3]), dict(face_dims=[0]), dict(face_dims=[0, 1, 2])):
        ctx.check(ctx.raises(ValueError, g.animate, **k), 'refused')
    ctx.check(ctx.raises(ValueError, make_grid(ctx, (2, 2), (1.0, 1.0), 1, [0.0, 0.0]).animate), 'two dimensions')
    ctx.check(ctx.raises(ValueError, make_grid(ctx, (2, 2, 2), (1.0,) * 3, 1, [0.0] * 3, active=False).animate), 'no map')


def catalog(ctx, n, default):
    p = {k: ctx.array(k, (n,), 0.0, BOX) for k in ('pos_x', 'pos_y', 'pos_z')}
    p['mass'] = masses(ctx, 'm', n, 1.0, 8.0)
    p['sfr'] = ctx.array('s', (n,), 0.5, 4.0)
    make_sim(ctx, [dict(index=3, z=1.0, zmin=0.5, zmax=1.5, props=p, cuts=[8.0, 4.0, 2.0, 1.0])], H, BOX)
    S = ctx.mod('simim.siminterface.simhandler').SimHandler('_testbox', in_h_units=default).get_snap(3)
    t = ctx.real('t', 1.0, 8.0)
    S.set_property_range('mass', pmin=t, in_h_units=True)
    ctx.mod('simim._handlers').plt = plt = Plt()
    return p, S, plt, [bool(m >= t) for m in obj(p['mass'])]


POW = {'mass': -1, 'sfr': 0, 'pos_x': -1, 'pos_y': -1}


@harness(configs=[dict(default=d, arg=a, use=u, ys=y) for d, a in ((False, None), (True, None), (False, True), (True, False)) for u in (False, True, 'compare') for y in (('sfr',), ('mass', 'pos_y'))])
def scatter(ctx, default, arg, use, ys, n=2):
    """one property against others, for the active objects, all, or both"""
    p, S, plt, act = catalog(ctx, n, default)
    w = lambda k: 1.0 if (default if arg is None else arg) else H ** POW[k]
    kws, axk = dict(ms=3), dict(xscale='log')
    S.plot('pos_x', *ys, use_all_inds=use, plotkws=kws, axkws=axk, in_h_units=arg, save='f.png')
    ctx.check(kws == dict(ms=3) and axk == dict(xscale='log'), 'keywords unchanged')
    ctx.check(plt.saved == ['f.png'] and plt.shown == 1, 'saved and shown')
    lines = plt.all(Line)
    sets = [True, False] if use == 'compare' else [use]
    ctx.check(len(lines) == len(ys) * len(sets), 'one set of points per property')
    for l, (y, a) in zip(lines, [(y, a) for y in ys for a in sets]):
        ids = [i for i in range(n) if a or act[i]]
        ctx.check(l.x.shape == (len(ids),), 'number of points')
        ctx.check_eq(l.x, [obj(p['pos_x'])[i] * w('pos_x') for i in ids], 'x')
        ctx.check_eq(l.y, [obj(p[y])[i] * w(y) for i in ids], 'y')
        ctx.check(l.k.get('ls', l.k.get('linestyle')) in ('', 'none', 'None') and l.k.get('marker') == '.' and l.k.get('ms') == 3, 'points, with the keywords given')


@harness(configs=[dict(default=d, arg=a, use=u, names=y, log=l) for d, a in ((False, None), (True, None), (False, True), (True, False)) for u in (False, True) for y in (('mass',), ('sfr', 'pos_x')) for l in (False, True)])
def histogram(ctx, default, arg, use, names, log, n=2):
    """the values (or their logarithms) of each property, for the active objects or all"""
    p, S, plt, act = catalog(ctx, n, default)
    ctx.assume(obj(p['pos_x'])[0] >= 0.5)
    ctx.assume(obj(p['pos_x'])[1] >= 0.5)
    w = lambda k: 1.0 if (default if arg is None else arg) else H ** POW[k]
    kws = dict(bins=7)
    S.hist(*names, use_all_inds=use, logtransform=log, plotkws=kws, in_h_units=arg, save='f.png')
    ctx.check(kws == dict(bins=7) and plt.saved == ['f.png'] and plt.shown == 1, 'saved and shown')
    bars = plt.all(Bars)
    ctx.check(len(bars) == len(names), 'one histogram per property')
    for b, k in zip(bars, names):
        v = [obj(p[k])[i] * w(k) for i in range(n) if use or act[i]]
        ctx.check(b.x.shape == (len(v),) and b.k.get('bins') == 7, 'number of values')
        ctx.check_eq(b.x, [ctx.np.log10(x) for x in v] if log else v, 'values')


@harness(configs=[dict(default=d, arg=a, use=u, shape=s, scale=c, zs=z) for d, a in ((False, None), (True, None), (False, True), (True, False)) for u, s, c, z in ((False, 'box', 'log', (0.5, 0.51)), (True, 'circle', 'linear', (0.25, 0.29)))])
def cone(ctx, default, arg, use, shape, scale, zs, n=2):
    """each frame shows the objects of one slice of distance; together the frames cover the light cone"""
    p = {'ra': ctx.array('ra', (n,), -0.25, 0.25), 'dec': ctx.array('dec', (n,), -0.125, 0.125), 'redshift': ctx.array('z', (n,), *zs)}
    cos = astro.install(ctx)(100 * H, 0.5, 2.7255, Ob0=0.25)
    D = [float(cos.D(z)) * H for z in zs]
    for k, lo, hi in (('pos_x', -8.0, 8.0), ('pos_y', -8.0, 8.0), ('pos_z', D[0], D[1])):
        p[k] = ctx.array(k, (n,), lo, hi)
    p['mass'] = np.array([4.0, 1.0])
    p['sfr'] = np.array([1.0, 8.0])
    make_lc(ctx, [p], H, angle=0.5, aspect=0.5, shape=shape, zmin=zs[0], zmax=zs[1])
    M = ctx.mod('simim.lightcone.lchandler')
    plt, mv = Plt(), Movie()
    M.plt, M.animation, M.cmap = plt, mv, lambda x: x
    S = M.LCHandler('_testbox', 'cones', 0, in_h_units=default)
    with_h = default if arg is None else arg
    if not use:
        t = ctx.real('t', 0.5, 8.0)
        S.set_property_range('sfr', pmin=1.0, pmax=t)
        ctx.assume(t >= 8.0)
    S.animate(use_all_inds=use, colorpropname='sfr', colorscale=scale, sizepropname='mass', sizescale=scale, in_h_units=arg, save='name')
    ctx.check(len(mv.made) == 1 and mv.made[0].saved == ['name.mp4'] and plt.shown == 1, 'one film')
    film = mv.made[0]
    w = 1.0 if with_h else 1 / H
    X = {k: [v * w for v in obj(p[k])] for k in ('pos_x', 'pos_y', 'pos_z')}
    dots = plt.all(Dots)
    ctx.check(len(dots) == 3, 'light cone, cross section and sky')
    am = 180 * 60 / np.pi
    for d, (a, b) in zip(dots, ((X['pos_z'], X['pos_x']), (X['pos_x'], X['pos_y']), ([v * am for v in obj(p['ra'])], [v * am for v in obj(p['dec'])]))):
        ctx.check_eq(d.x, a, 'x')
        ctx.check_eq(d.y, b, 'y')
    box = [l for l in plt.axes[[dots[0] in a.items for a in plt.axes].index(True)].of(Line)][0]
    end = D[0] * w
    for i in film.frames:
        film.func(i)
        lo, hi = min(box.x), max(box.x)
        ctx.check_eq(lo, end, 'frames follow each other')
        end = hi
        for d in dots[1:]:
            ctx.check(len(d.s) == n, 'sizes')
            for j in range(n):
                ctx.check((d.s[j] > 0) == ((X['pos_z'][j] >= lo) & (X['pos_z'][j] < hi)), 'shown in its slice')
        out = [l for a in plt.axes if dots[1] in a.items for l in a.of(Line)][0]
        r = cos.D(cos.Dinv((lo + hi) / 2 / w / H)) * 0.25 * (H if with_h else 1.0)
        ctx.check_eq(max(abs(float(v)) for v in out.x), r, 'outline', scale=float(r))
    ctx.check(bool(end >= D[1] * w * (1 - 1e-9)), 'frames reach the end')


@harness(configs=[dict(prop=p) for p in ('sfr', 'stellar')])
def model(ctx, prop):
    """the star formation rate or stellar mass of the model over its table of redshift and mass"""
    M = ctx.mod('simim.galprops.sfr_behroozi13')
    M.plt = plt = Plt()
    b = M.behroozi13_base()
    b.grid_mass, b.grid_redshift = np.array([1e10, 1e13, 1e12]), np.array([0.5, 4.0, 0.0])
    seen = []

    class F:
        def __init__(self, k):
            self.k = k

        def ev(self, z, m):
            seen.append(self.k)
            return z * 2 + m
    b.sfr_function, b.stellarmass_function = F('sfr'), F('stellar')
    a = ctx.real('a', 0.0, 1.0)
    ctx.check(a >= 0, 'symbol')
    b.plot_grid(prop)
    ctx.check(seen == [prop], 'the function asked for')
    im = plt.all(Image)
    ctx.check(len(im) == 1 and plt.shown == 1, 'one image')
    im = im[0]
    x, y, z = (v.astype(float) for v in (im.x, im.y, im.z))
    if x.ndim == 1:
        x, y = np.meshgrid(x, y)
    ctx.check(np.allclose(z, 2 * x + y), 'values at their redshift and mass')
    ctx.check(np.allclose([x.min(), x.max(), y.min(), y.max()], [np.min(b.grid_redshift), np.max(b.grid_redshift), np.min(b.grid_mass), np.max(b.grid_mass)]), 'range of the table')
    ctx.check(ctx.raises(ValueError, b.plot_grid, 'mass'), 'anything else is refused')
