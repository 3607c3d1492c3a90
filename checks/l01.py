"""L01: light spheres hold exactly the objects of the simulation which lie in them."""
import os
import numpy as np
from vsx.core import harness
from vsx.spec import obj
from checks._sim import make_sim, masses, UNITS

FUNCTIONS = ['lightcone.lcmaker.GenericLCMaker.__init__'] + ['lightcone.lcmaker.SphereMaker.' + m for m in ('__init__', 'build_lightcones')]
BOUNDS = 'one or two snapshots of 1-2 objects; all positions, observer positions, masses and mass limits symbolic'
OUTSIDE = 'objects exactly on the edges of the sphere or of the simulation box; accuracy of the tables of distance against redshift'

H = 0.5
BOX = 256.0
FIXED = (0.125, 0.9375, 0.5)


class Draws:
    """random numbers, all of them symbolic (flips of the box are given)"""

    def __init__(self, ctx, flips, axis, several=False):
        self.ctx, self.flips, self.n, self.axis, self.several = ctx, flips, 0, axis, several

    def first(self, i=0):
        """where the code is to place the observer: the first numbers it draws (stated in the cone's file as well)"""
        return [self.draw('draw1[%d,%d]' % (i, a), a) * BOX for a in range(3)]

    def draw(self, name, a):
        i = int(name[6])
        if a == self.axis:
            # (objects anywhere along the line, so the observers need not move as well)
            return (0.25, 0.8125)[i] if self.several else self.ctx.real(name, 0.0, 1.0)
        if i == 0:
            return FIXED[a]
        # the first object seen from here lies at WANT in this direction
        o = OFF[0][1 - [b for b in range(3) if b != self.axis].index(a)]
        return (((o + FIXED[a] * BOX) * self.flips[0][a] * self.flips[i][a] - WANT[a]) / BOX) % 1

    def random(self, size=None):
        self.n += 1
        assert self.n == 1
        return self.ctx.pack(np.array([[self.draw('draw1[%d,%d]' % (i, a), a) for a in range(3)] for i in range(size[0])], dtype=object))

    def choice(self, a, size=None):
        assert list(a) == [-1, 1]
        return np.array([self.flips[i] for i in range(size[0])])


OCT = {'sphere': (), 'hemisphere': (2,), 'quarter': (1, 2), 'eighth': (0, 1, 2)}


def contents(ctx, mk, i=0):
    """what the file of cone i holds"""
    with ctx.h5.File(os.path.join(mk.lc_path, 'lc_%04d.hdf5' % i), 'r') as f:
        at = {k: f.attrs[k] for k in f.attrs.keys()}
        g = {k: obj(v[:]) for k, v in f['Lightcone Full'].items()}
        units = {k: (v.attrs['units'], v.attrs['h dependence']) for k, v in f['Lightcone Full'].items()}
        idx = f['Indexing']['sim_indices'][:]
        snap, ind = [int(v) for v in idx['snap']], [int(v) for v in idx['index']]
        zi = f['Indexing']['redshift_indices'][:]
    return at, g, units, list(zip(snap, ind)), zi


# where objects are seen from the observer along the other two directions
OFF = [(24.0, 56.0), (-16.0, 40.0)]
WANT = (40.0, 28.0, 36.0)


def place(ctx, mode, axis, n, s, flip, tag=''):
    """objects anywhere around the observer (at s in the box) along one direction, and where that is in the simulation box"""
    lo, hi = (0.0, BOX) if mode == 'eighth' else (-BOX / 2, BOX / 2)
    X = ctx.array('x' + tag, (n,), lo, hi)
    out, pos = [], []
    for j in range(n):
        ctx.assume(X[j] < hi)
        o = list(OFF[j])
        out.append([X[j] if a == axis else o.pop() % BOX if mode == 'eighth' else o.pop() for a in range(3)])
    for a in range(3):
        p = []
        for j in range(n):
            v = (out[j][a] + s[a]) * flip[a] / BOX
            p.append((v - ctx.np.floor(v)) * BOX)
        pos.append(ctx.pack(np.array(p, dtype=object)))
    return out, pos


def expect(ctx, mode, x, d0, d1):
    """is an object there in the sphere?"""
    d2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]
    inside = (d2 >= d0 * d0) & (d2 < d1 * d1)
    for a in OCT[mode]:
        ctx.assume((x[a] < 0) | (x[a] > 0))
        inside = inside & (x[a] > 0)
    return inside


def nearest(ctx, mode, p, s, flip):
    """where an object is seen by an observer"""
    half = 0.0 if mode == 'eighth' else BOX / 2
    out = []
    for a in range(3):
        v = (p[a] * flip[a] - s[a] + half) / BOX
        out.append((v - ctx.np.floor(v)) * BOX - half)
    return out


WEIGHT = {'sphere': 3, 'hemisphere': 2, 'quarter': 1, 'eighth': 0}


# the longest first
@harness(configs=[dict(mode=m, axis=a, flips=f, n=1, cones=2) for m, a in (('quarter', 1), ('eighth', 2)) for f in (((1, 1, 1), (-1, -1, 1)),)] +
                 [dict(mode=m, axis=a, flips=f, n=1, cones=1) for m in sorted(OCT, key=lambda m: -WEIGHT[m]) for a in range(3) for f in ((((-1, 1, -1), (1, -1, 1))[(len(m) + a) % 2],),) if (m, a) not in (('sphere', 1), ('hemisphere', 1))],
         thorough=[dict(mode=m, axis=1, flips=((1, -1, 1),), n=1, cones=1) for m in ('sphere', 'hemisphere')] + [dict(mode=m, axis=a, flips=f, n=2, cones=1) for m in OCT for a in range(3) for f in (((1, 1, 1),), ((-1, 1, -1),))] +
                  [dict(mode=m, axis=a, flips=f, n=1, cones=2) for m in OCT for a in range(3) for f in (((1, 1, 1), (-1, -1, 1)), ((-1, 1, 1), (1, 1, -1)))], max_paths=20000, uf=True)
def sphere(ctx, mode, axis, flips, n, cones):
    """objects of two snapshots"""
    if ctx.symbolic:
        ctx.eng.split_floors = True
    mmin = ctx.real('mmin', 0.0, 9.0)
    rng = Draws(ctx, flips, axis, cones > 1)
    # (only the space between the redshift limits matters when there are two cones)
    z0, zs, z1, snaps, X, P = 0.01, 0.025, 0.04, [], {}, {}
    for k, (idx, za, zb) in enumerate(((5, zs, 0.1), (7, 0.0, zs))):
        m = masses(ctx, 'm%d' % k, n, 1.0, 8.0) if cones == 1 else np.array([4.0])
        X[idx], pos = place(ctx, mode, axis, n, rng.first(), flips[0], str(k))
        P[idx] = pos
        snaps.append(dict(index=idx, z=(za + zb) / 2, zmin=za, zmax=zb, props=dict(mass=m, pos_x=pos[0], pos_y=pos[1], pos_z=pos[2]), cuts=[8.5, 4.5, 0.5]))
    mass = {5: obj(snaps[0]['props']['mass']), 7: obj(snaps[1]['props']['mass'])}
    paths, cos = make_sim(ctx, snaps, H, BOX)
    M = ctx.mod('simim.lightcone.lcmaker')
    mk = M.SphereMaker('_testbox', 'new', redshift_min=z0, redshift_max=z1, minimum_mass=mmin, mode=mode, overwrite=False)
    mk.build_lightcones(cones, rng=rng)
    D = {5: (cos.D(zs) * H, cos.D(z1) * H), 7: (cos.D(z0) * H, cos.D(zs) * H)}
    for c in range(cones):
        at, g, units, idx, zi = contents(ctx, mk, c)
        ctx.check([int(v) for v in at['box flips']] == list(flips[c]), 'flips')
        ctx.check_eq(at['start position'], rng.first(c), 'observer')
        if c:
            X = {i: [nearest(ctx, mode, [p[j] for p in P[i]], rng.first(c), flips[c]) for j in range(n)] for i in X}
        for i in X:
            for j in range(n):
                inside = (mass[i][j] >= mmin) & expect(ctx, mode, X[i][j], *D[i])
                ctx.check(ctx.np.where(inside, 1, 0) == idx.count((i, j)), 'exactly the objects in the sphere')
        prev = 0.0
        for e, (i, j) in enumerate(idx):
            x = X[i][j]
            d = ctx.np.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2])
            ctx.check_eq([g['pos_x'][e], g['pos_y'][e], g['pos_z'][e]], x, 'position')
            ctx.check_eq(g['mass'][e], mass[i][j], 'mass')
            ctx.check_eq(g['redshift'][e], cos.Dinv(d / H), 'redshift')
            ctx.check_eq(g['dec'][e], ctx.np.arcsin(x[2] / d), 'dec')
            a = ctx.np.arctan2(x[1], x[0])
            ctx.check_eq(g['ra'][e], ctx.np.where(a < 0, a + 2 * np.pi, a), 'ra')
            ctx.check(g['redshift'][e] >= prev, 'in order')
            prev = g['redshift'][e]
        for k in range(len(zi)):
            z_, i_ = zi['redshift'][k], int(zi['index'][k])
            if z_ < z0 or z_ > z1:
                ctx.check(i_ == (0 if z_ < z0 else len(idx)), 'table of redshifts')
            else:
                ctx.check(sum(ctx.np.where(z <= z_, 1, 0) for z in g['redshift']) == i_, 'table of redshifts')
        ctx.check([units[k] for k in ('pos_x', 'pos_y', 'pos_z', 'mass', 'ra', 'dec', 'redshift')] == [UNITS['pos_x']] * 3 + [UNITS['mass'], ('radians', 0), ('radians', 0), ('None', 0)], 'units')


@harness(configs=[dict(mode=m, top=t) for m in OCT for t in (False, True)])
def size(ctx, mode, top):
    """spheres must fit in the simulation box"""
    e = ctx.array('z', (3,), 0.0, 0.5)
    ctx.assume(e[0] + 0.01 < e[1])
    ctx.assume(e[1] + 0.01 < e[2])
    p = dict(mass=np.array([1.0]), pos_x=np.array([1.0]), pos_y=np.array([1.0]), pos_z=np.array([1.0]))
    paths, cos = make_sim(ctx, [dict(index=i, z=(e[i] + e[i + 1]) / 2, zmin=e[i], zmax=e[i + 1], props=p, cuts=[0.5]) for i in (1, 0)], H, BOX)
    M = ctx.mod('simim.lightcone.lcmaker')
    z1 = e[2] if top else ctx.real('z1', 0.0, 0.5)
    z0 = ctx.real('z0', 0.0, 0.5)
    k = dict(redshift_min=z0, redshift_max='max' if top else z1, mode=mode)
    fits = BOX * (1.0 if mode == 'eighth' else 0.5)
    ctx.assume((cos.D(z1) * H > fits + 1e-6) | (cos.D(z1) * H < fits - 1e-6))
    if (z0 > z1) | (cos.D(z1) * H > fits):
        ctx.assume((cos.D(z1) * H > fits / H + 1e-6) | (cos.D(z1) * H < fits / H - 1e-6))
        by_h = (z0 <= z1) & (cos.D(z1) * H <= fits / H)
        r = ctx.raises(ValueError, M.SphereMaker, '_testbox', 'new', overwrite=True, **k)
        if by_h:
            ctx.check(r, 'refused: larger than fits in Mpc/h, though not than the same number of Mpc')
        else:
            ctx.check(r, 'refused: does not fit')
    else:
        M.SphereMaker('_testbox', 'new', overwrite=True, **k)
        ctx.check(True, 'accepted')


@harness()
def refused(ctx):
    """what is not possible"""
    p = dict(mass=np.array([1.0]), pos_x=np.array([1.0]), pos_y=np.array([1.0]), pos_z=np.array([1.0]))
    make_sim(ctx, [dict(index=0, z=0.1, zmin=0.0, zmax=0.25, props=p, cuts=[0.5])], H, BOX)
    M = ctx.mod('simim.lightcone.lcmaker')
    for c, more in ((M.SphereMaker, dict(redshift_max=0.01)), (M.LCMaker, dict(openangle=0.5, redshift_max=0.1))):
        for a, k in ((('_testbox', 'a'), dict(mode='cube')), (('_testbox', 'a'), dict(overwrite='no')), (('TNG300-1', 'a'), {}), (('other', 'a'), {})):
            k = dict(dict(more, overwrite=True), **k)
            ctx.check(ctx.raises((ValueError, NameError), c, *a, **k), 'refused')
        mk = c('_testbox', c.__name__, overwrite=False, **more)
        with open(os.path.join(mk.lc_path, 'here'), 'w') as f:
            f.write('x')
        ctx.check(ctx.raises(ValueError, c, '_testbox', c.__name__, overwrite=False, **more), 'refused: the name is in use')
        for yes, say in ((True, ['what', 'y']), (False, ['n'])):
            ctx.env.answers[:] = say
            if yes:
                c('_testbox', c.__name__, overwrite='check', **more)
            else:
                ctx.check(ctx.raises(ValueError, c, '_testbox', c.__name__, overwrite='check', **more), 'refused by the user')
            ctx.check(not ctx.env.answers, 'the user was asked')
        ctx.check(os.path.exists(os.path.join(mk.lc_path, 'here')), 'other files are left as they are')

