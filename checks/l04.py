"""L04: further properties of the objects in light cones."""
import numpy as np
from vsx import astro
from vsx.core import harness
from vsx.spec import obj
from checks._sim import make_sim, masses, UNITS
from checks.l01 import contents
from checks.l03 import LOS, Draws, somewhere, frames

FUNCTIONS = ['lightcone.lcmaker.GenericLCMaker.' + m for m in ('add_properties', 'add_pos_properties', 'get_LCIterator')] + ['lightcone.lcmaker.LCMaker.build_lightcones', 'lightcone.lcmaker.SphereMaker.build_lightcones']
BOUNDS = 'sets of two cones or spheres with up to 7 objects in two snapshots, at listed positions; masses, minimum mass and all properties symbolic'
OUTSIDE = 'centers of mass (cm), which depend on the position in the box'

H = 0.5
BOX = 32.0
KINDS = ['box', 'circle', 'sphere', 'eighth']
DATA = ('sfr', 'id', 'v_x', 'v_y', 'v_z', 'spin_x', 'spin_y', 'spin_z')


@harness(configs=[dict(shape=s, empty=e) for s in KINDS for e in (False, True)], max_paths=20000, uf=True)
def extra(ctx, shape, empty):
    """properties of the simulation, added to the cones"""
    if ctx.symbolic:
        ctx.eng.split_floors = ctx.eng.linear_roots = True
    rnd = np.random.RandomState(3)
    flips = [(-1, 1, 1), (1, -1, -1)]
    astro.install(ctx)
    M = ctx.mod('simim.lightcone.lcmaker')
    if shape in ('box', 'circle'):
        z0, zs, z1, oa, ar = 0.004, 0.0161, 0.026, 0.09, 0.5
        snaps = {5: (zs, 0.03), 7: (0.0, zs)}
        k = dict(openangle=oa * 180 / np.pi, aspect=ar if shape == 'box' else 1, redshift_min=z0, redshift_max=z1, mode=shape)
        pos = somewhere(ctx, snaps, k, LOS[:2], [0.3, 0.8], flips, {5: [45.0, 50.0], 7: [12.0, 20.0, 30.0]}, rnd, shape, oa, ar)
        make = M.LCMaker
    else:
        z0, zs, z1 = 0.0005, 0.0025, 0.006 if shape == 'sphere' else 0.012
        snaps = {5: (zs, 0.02), 7: (0.0, zs)}
        pos = {5: rnd.randint(0, 32 * 64, size=(2, 3)) / 64.0, 7: rnd.randint(0, 32 * 64, size=(3, 3)) / 64.0}
        k = dict(redshift_min=z0, redshift_max=z1, mode=shape)
        make = M.SphereMaker
    P = {}
    for i, p in pos.items():
        n = len(p)
        P[i] = dict(mass=masses(ctx, 'm%d' % i, n, 1.0, 8.0), **{nm: p[:, a].copy() for a, nm in enumerate(('pos_x', 'pos_y', 'pos_z'))})
        for q in DATA:
            P[i][q] = ctx.array('%s%d' % (q, i), (n,), -8, 8) if q != 'id' else ctx.array('id%d' % i, (n,), 0, 2**40, kind='int')
    cos = make_sim(ctx, [dict(index=i, z=(a + b) / 2, zmin=a, zmax=b, props=P[i], cuts=[8.5, 4.5, 0.5]) for i, (a, b) in snaps.items()], H, BOX)[1]
    mmin = 10.0 if empty else ctx.real('mmin', 0.0, 9.0)
    mk = make('_testbox', 'new', overwrite=True, minimum_mass=mmin, **k)
    mk.build_lightcones(2, rng=Draws(ctx, 2, None, LOS[:2], [0.3, 0.8], flips))
    before = [contents(ctx, mk, q) for q in range(2)]
    mk.add_properties('sfr', 'masscheck', 'id', 'mass', 'v_x', 'nothing')
    mk.add_pos_properties('v', 'nothing')
    mk.add_pos_properties('spin', 'v', 'pos')
    mk.add_properties('sfr')
    H_ = ctx.mod('simim.lightcone.lchandler')
    for q in range(2):
        at, g, units, idx, zi = contents(ctx, mk, q)
        b = before[q]
        ctx.check(set(g) == set(b[1]) | set(DATA) | {'masscheck'}, 'the properties asked for')
        ctx.check(idx == b[3], 'the same objects')
        for key in b[1]:
            ctx.check_eq(g[key], b[1][key], 'other properties stay as they are')
        ctx.check_eq(g['masscheck'], b[1]['mass'], 'masses')
        f = np.array(flips[q])
        if make is M.LCMaker:
            R = np.matmul(np.array(at['position angle transformation matrix'], dtype=float), np.array(at['line of sight transformation matrix'], dtype=float))[[1, 2, 0]]
        else:
            R = np.eye(3)
        for e, (i, j) in enumerate(idx):
            for key in ('sfr', 'id'):
                ctx.check_eq(g[key][e], P[i][key][j], 'values of its object')
            for key, sign in (('v_', 1), ('spin_', np.prod(f))):
                v = [P[i][key + 'xyz'[a]][j] * float(f[a] * sign) for a in range(3)]
                want = [sum(float(R[r, a]) * v[a] for a in range(3)) for r in range(3)]
                ctx.check_eq([g[key + 'xyz'[a]][e] for a in range(3)], want, 'directions in the frame of the cone')
        for key in DATA + ('masscheck',):
            ctx.check(units[key] == UNITS['mass' if key == 'masscheck' else key], 'units')
        with ctx.h5.File(mk.lc_path + '/lc_%04d.hdf5' % q, 'r') as file:
            ctx.check(file['Lightcone Full']['id'].dtype.kind in 'iu', 'whole numbers stay exact')
            ctx.check(file['Lightcone Full']['id'].dtype.itemsize == 8, 'whole numbers stay exact')
    it = mk.get_LCIterator(in_h_units=True)
    got = it.return_property('sfr')
    ctx.check(sorted(got) == ['0', '1'] and all(len(got[str(q)]) == len(before[q][3]) for q in range(2)), 'the cones made')
