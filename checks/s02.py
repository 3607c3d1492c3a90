"""S02: gridding a snapshot puts every selected object's values into the cell its position falls in."""
import numpy as np
from vsx.core import harness
from vsx.spec import obj
from checks._handler import hpow
from checks._sim import make_sim, make_lc, masses

FUNCTIONS = ['siminterface.simhandler.SnapHandler.grid', 'lightcone.lchandler.LCHandler.grid', 'map.gridder.Gridder', 'map.gridder.Grid.add_from_cat']
BOUNDS = '2 objects (thorough: 3) at any positions, grids of 2x1x2 and 1x3x1 cells, default and given limits, all unit conventions; all values symbolic'
OUTSIDE = 'light cones covering the whole sky without limits given; rounding of cell counts for cell sizes which do not divide the limits'

H, BOX = 0.5, 8.0


def setup(ctx, n, in_h):
    p = {k: ctx.array(k, (n,), 0.0, BOX) for k in ('pos_x', 'pos_y', 'pos_z')}
    p['mass'] = masses(ctx, 'm', n, 1.0, 8.0)
    p['sfr'] = ctx.array('s', (n,))
    make_sim(ctx, [dict(index=3, z=1.0, zmin=0.5, zmax=1.5, props=p, cuts=[8.0, 4.0, 2.0, 1.0])], H, BOX)
    return p, ctx.mod('simim.siminterface.simhandler').SimHandler('_testbox', in_h_units=in_h).get_snap(3)


LIMS = {'full': (None, None, None), 'x': ((2.0, 4.0), None, None), 'all': ((0.0, 2.0), (4.0, 7.0), (3.0, 5.0)), 'swap': (None, (6.0, 2.0), None), 'outside': ((-2.0, 6.0), None, (6.0, 12.0))}


def cells(lim, with_h):
    side = BOX if with_h else BOX / H
    return [(0.0, side) if l is None else (min(l), max(l)) for l in lim]


@harness(configs=[dict(default=d, arg=a, lim=l, props=p, norm=nm, sel=s) for d, a in ((False, None), (True, None), (False, True), (True, False)) for l in LIMS for p, nm, s in ((['mass'], None, 'all'), (['sfr', 'mass'], 'cell_volume', 'cut'), (['mass', 'sfr'], 0.5, 'none'), (['sfr'], 2.0, 'ignored'))],
         thorough=[dict(default=d, arg=a, lim=l, props=p, norm=nm, sel=s, n=3) for d, a in ((False, None), (True, None), (False, True), (True, False)) for l in LIMS for p in (['mass'], ['sfr', 'mass']) for nm in (None, 'cell_volume', 0.5) for s in ('all', 'none', 'cut', 'ignored')], max_paths=20000, witness=3)
def values(ctx, default, arg, lim, props, norm, sel, n=2):
    """values of every cell"""
    p, S = setup(ctx, n, default)
    with_h = default if arg is None else arg
    C = cells(LIMS[lim], with_h)
    shape = (1, 3, 1) if lim == 'all' else (2, 1, 2)
    res = [(b - a) / k for (a, b), k in zip(C, shape)]
    active = [True] * n
    if sel != 'all':
        t = ctx.real('t', 1.0, 8.0)
        S.set_property_range('mass', pmin=20.0 if sel == 'none' else t, in_h_units=True)
        if sel != 'ignored':
            active = [False if sel == 'none' else m >= t for m in obj(p['mass'])]
    pos = [[x * (1.0 if with_h else 1 / H) for x in obj(p['pos_' + c])] for c in 'xyz']
    L = LIMS[lim]
    G = S.grid(*props, in_h_units=arg, use_all_inds=sel == 'ignored', res=res, xlim=L[0], ylim=L[1], zlim=L[2], norm=norm)
    ctx.check(G.grid.shape == shape + (len(props),), 'shape')
    for a in range(3):
        ctx.check_eq([G.axes[a][0], G.axes[a][-1]], C[a], 'edges')
    vol = res[0] * res[1] * res[2]
    f = 1.0 if norm is None else 1 / vol if norm == 'cell_volume' else norm
    w = {'mass': 1.0 if with_h else 1 / H, 'sfr': 1.0}
    for c in np.ndindex(*shape):
        want = [0.0] * len(props)
        for i in range(n):
            ok = active[i]
            for a in range(3):
                lo, hi = C[a][0] + c[a] * res[a], C[a][0] + (c[a] + 1) * res[a]
                ok = ok & (pos[a][i] >= lo) & (pos[a][i] < hi)
            want = [x + ctx.np.where(ok, p[k][i] * w[k] * f, 0.0) for x, k in zip(want, props)]
        ctx.check_eq(G.grid[c], want, 'cell')


@harness(configs=[dict(default=d, xlim=x) for d in (False, True) for x in (None, (2.0, 4.0))])
def resolution(ctx, default, xlim):
    """a hundred cells along each axis unless told otherwise; a single number is used for all axes"""
    p, S = setup(ctx, 1, default)
    side = BOX if default else BOX / H
    ctx.check(ctx.raises(ValueError, S.grid, 'mass', res=1.0, xlim=(1.0, 2.0, 3.0)), 'limits are pairs')
    G = S.grid('mass', res=2.0, xlim=xlim)
    ctx.check(G.grid.shape == (int((2.0 if xlim else side) / 2.0), int(side / 2.0), int(side / 2.0), 1), 'shape')
    S.inds_active = S.inds_active[:0]
    G = S.grid('mass', xlim=xlim)
    ctx.check(G.grid.shape == (100, 100, 100, 1), 'default resolution')
    ctx.check_eq([G.axes[0][0], G.axes[0][-1], G.axes[2][-1]], list(xlim or (0.0, side)) + [side], 'edges')


@harness(configs=[dict(default=d, arg=a, freq=f, lim=l, props=p, sel=s) for d, a in ((False, None), (True, None), (False, True), (True, False)) for f in (None, 6.0) for l, p, s in ((None, ['mass'], 'all'), ('given', ['sfr', 'mass'], 'cut'), ('dec', ['mass', 'sfr'], 'ignored'), (None, ['sfr'], 'none'))], max_paths=20000, witness=3)
def cone(ctx, default, arg, freq, lim, props, sel, n=2):
    """values of every cell, for a light cone in angle and redshift (or frequency)"""
    p = {'ra': ctx.array('ra', (n,), -0.25, 0.25), 'dec': ctx.array('dec', (n,), -0.125, 0.125), 'redshift': ctx.array('z', (n,), 0.0, 3.0),
         'mass': ctx.array('m', (n,), 1.0, 8.0), 'sfr': ctx.array('s', (n,))}
    make_lc(ctx, [p], H, angle=0.5, aspect=0.5, zmin=0.5, zmax=2.0)
    S = ctx.mod('simim.lightcone.lchandler').LCHandler('_testbox', 'cones', 0, in_h_units=default)
    with_h = default if arg is None else arg
    zl = None if lim != 'given' else (2.25, 3.75) if freq else (1.0, 1.75)
    L = dict(ralim=(-0.125, 0.25) if lim == 'given' else None, declim=(0.0, 0.125) if lim else None, zlim=zl)
    C = [L['ralim'] or (-0.25, 0.25), L['declim'] or (-0.125, 0.125), zl or ((freq / 3.0, freq / 1.5) if freq else (0.5, 2.0))]
    shape = (2, 1, 2)
    res = [(b - a) / k for (a, b), k in zip(C, shape)]
    active = [True] * n
    if sel != 'all':
        t = ctx.real('t', 1.0, 8.0)
        S.set_property_range('mass', pmin=20.0 if sel == 'none' else t, in_h_units=True)
        if sel != 'ignored':
            active = [False if sel == 'none' else m >= t for m in obj(p['mass'])]
    f = 0.5 if sel == 'cut' else None
    G = S.grid(*props, restfreq=freq, in_h_units=arg, use_all_inds=sel == 'ignored', res=res, norm=f, **L)
    ctx.check(G.grid.shape == shape + (len(props),), 'shape')
    for a in range(3):
        ctx.check_eq([G.axes[a][0], G.axes[a][-1]], C[a], 'edges')
    w = {'mass': 1.0 if with_h else 1 / H, 'sfr': 1.0}
    pos = [obj(p['ra']), obj(p['dec']), [freq / (1 + z) if freq else z for z in obj(p['redshift'])]]
    for c in np.ndindex(*shape):
        want = [0.0] * len(props)
        for i in range(n):
            ok = active[i]
            for a in range(3):
                ok = ok & (pos[a][i] >= C[a][0] + c[a] * res[a]) & (pos[a][i] < C[a][0] + (c[a] + 1) * res[a])
            want = [x + ctx.np.where(ok, p[k][i] * w[k] * (f or 1.0), 0.0) for x, k in zip(want, props)]
        ctx.check_eq(G.grid[c], want, 'cell')
