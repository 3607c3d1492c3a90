"""L03: light cones hold exactly the objects of the (repeated) simulation box which lie in them."""
import functools
import itertools
import numpy as np
from vsx.core import harness
from vsx.spec import obj
from checks._sim import make_sim, masses, UNITS
from checks.l01 import contents

FUNCTIONS = ['lightcone.lcmaker.GenericLCMaker.__init__'] + ['lightcone.lcmaker.LCMaker.' + m for m in ('__init__', '_initialize_los', '_initialize_pa', 'build_lightcones')]
BOUNDS = 'two snapshots of 1-2 objects; distances, masses, mass limits and the observer symbolic; the directions of the cone, and of the objects within it, are listed'
OUTSIDE = 'objects exactly on the edges of the cone; directions other than those listed'

H = 0.5
BOX = 32.0
FIXED = (0.125, 0.9375, 0.5)
RATE = 2531.25      # Mpc/h per unit redshift (below 0.5)
PLACES = {'near': (0.0, 0.006, 0.012, 0.02, 0.04), 'far': (0.48, 0.486, 0.492, 0.5, 0.006), 'copied': (0.48, 0.484, 0.492, 0.5, (0.0132, 0.018, 0.0112))}
LOS = [(0.5, 0.83, 0.36), (0.66, 0.4, 0.61), (0.3, 0.8, 0.65)]


class Draws:
    """random numbers: the observer's position along one axis is symbolic, the rest is given"""

    def __init__(self, ctx, cones, axis, los, pa, flips):
        self.ctx, self.cones, self.axis = ctx, cones, axis
        self.los, self.pa, self.flips = list(los), list(pa), flips

    def random(self, size=None):
        if size is None:
            return self.pa.pop(0)
        if size == 3 or size == (3,):
            return np.array(self.los.pop(0))
        return self.ctx.pack(np.array([[self.draw(i, a) for a in range(3)] for i in range(size[0])], dtype=object))

    def draw(self, i, a):
        return self.ctx.real('observer[%d,%d]' % (i, a), 0.0, 1.0) if a == self.axis else (FIXED[a] + 0.3125 * i) % 1

    def choice(self, a, size=None):
        assert list(a) == [-1, 1]
        return np.array([self.flips[i] for i in range(size[0])])


def directions(R, shape, oa, ar, which):
    """directions (in the cone's own frame) just within and just outside of it"""
    lim = (oa / 2, oa * ar / 2)
    if shape == 'box':
        f = {'corner': (0.98, -0.98), 'other corner': (-0.98, 0.98), 'side': (1.02, 0.3), 'other side': (-0.3, 1.02), 'middle': (0.1, 0.2)}[which]
        return (lim[0] * f[0], lim[1] * f[1])
    a = int(which[-1])
    t = R[1:, a] / np.linalg.norm(R[1:, a])
    return tuple(t * oa / 2 * {'+': 0.98, '-': -0.98, 'o': 1.02}[which[0]])


def cones_of(ctx, sim, **k):
    return ctx.mod('simim.lightcone.lcmaker').LCMaker(sim, 'new', overwrite=True, **k)


@functools.lru_cache(None)
def alone(R, oa, t, x0, d0, d1):
    """does no repetition of the box bring objects in direction t into the cone?"""
    K = np.array([k for k in itertools.product(range(-4, 5), repeat=3) if any(k)])
    for x in np.linspace(x0, d1 + 3, 200):
        p = x * np.array((1.0,) + t) + BOX * np.matmul(K, np.array(R).T)
        d = np.linalg.norm(p, axis=1)
        if np.any((d0 < d) & (d < d1) & np.all(np.abs(p[:, 1:].T / d) < oa / 2 * 1.05, axis=0)):
            return False
    return True


def segments(mk, los, oa, ar, shape, lo, hi, far):
    """where the code switches from one segment of the line of sight to the next (no object is put right there)"""
    try:
        u, _, buf = mk._initialize_los(oa / 2 if shape == 'circle' else oa * (1 + ar * ar)**.5 / 2, Draws(None, 1, 0, [los], [], None))
    except Exception:
        return []
    size, out = BOX / np.max(u), []
    for copies in (1, 2, 4, 8):
        k = int(np.ceil((hi - lo) / (copies * size - 2 * far * buf)))
        out += [lo + q * (hi - lo) / k for q in range(1, k)] if 0 < k < 50 else []
    return out


BOXES = ['corner', 'side', 'other corner', 'other side']
CIRCLES = ['-0', 'o1', '-1', '-2', 'o0', '+0', '+1']


def _configs():
    out, n = [], 0
    for shape, ws in (('box', BOXES), ('circle', CIRCLES)):
        for w in ws:
            for los in range(len(LOS)):
                for place in PLACES:
                    n += 1
                    if (place, los) == ('copied', 1) and w[1:] in ('0',):
                        continue        # objects there would appear twice
                    out.append(dict(place=place, shape=shape, who=w, snap=(5, 7)[n % 2], los=los, axis=n % 3 if place != 'copied' else None, flips=((-1, 1, -1) if n % 4 < 2 else (1, -1, 1),)))
    return out


CFG = _configs()
QUICK = [c for i, c in enumerate(CFG) if sum(map(ord, c['shape'] + c['who'] + c['place'])) % 3 == c['los']]


@harness(configs=QUICK, thorough=CFG, max_paths=20000, uf=True, robust=1e-6)
def cone(ctx, place, shape, who, snap, los, axis, flips):
    """objects of two snapshots"""
    if ctx.symbolic:
        ctx.eng.split_floors = ctx.eng.linear_roots = True
    z0, zs, z1, zt, oa = PLACES[place]
    ar = 0.5
    if place == 'copied':
        oa = oa[los] / (1 if shape == 'circle' else 1.118)
    sim = '_testbox' if place != 'copied' else 'TNG100-3-Dark'       # a simulation whose box may be repeated
    k = dict(openangle=oa * 180 / np.pi, aspect=ar if shape == 'box' else 1, redshift_min=z0, redshift_max=z1, mode=shape)
    draws = lambda: Draws(ctx, 1, axis, [LOS[los]], [0.3], flips)

    def simulation(P):
        snaps = [dict(index=i, z=(a + b) / 2, zmin=a, zmax=b, props=P[i], cuts=[8.5, 4.5, 0.5]) for i, a, b in ((5, zs, zt), (7, 0.0, zs))]
        return make_sim(ctx, snaps, H, BOX, sim=sim)[1]
    # where does the cone point to?
    one = dict(mass=np.array([1.0]), pos_x=np.array([1.0]), pos_y=np.array([1.0]), pos_z=np.array([1.0]))
    cos = simulation({5: one, 7: one})
    mk = cones_of(ctx, sim, minimum_mass=100.0, **k)
    mk.build_lightcones(1, rng=draws())
    at, g, units, idx, zi = contents(ctx, mk)
    ctx.check(len(idx) == 0 and all(len(v) == 0 for v in g.values()), 'nothing that massive')
    R = np.matmul(np.array(at['position angle transformation matrix'], dtype=float), np.array(at['line of sight transformation matrix'], dtype=float))
    ctx.check_eq(np.matmul(R, R.T), np.eye(3), 'a rotation')
    ctx.check_eq(np.linalg.det(R), 1.0, 'a rotation')
    ctx.check_eq(R[0], np.array(LOS[los]) / np.linalg.norm(LOS[los]), 'about the line of sight')
    s = obj(at['start position'])
    ctx.check_eq(s, [draws().draw(0, a) * BOX for a in range(3)], 'observer')
    # place objects in directions just within, or just outside of it
    n = 1
    dirs = [directions(R, shape, oa, ar, who)]
    assert alone(tuple(map(tuple, R)), oa, dirs[0], max(z0 * RATE - 4.0, 2.0), z0 * RATE - 1, z1 * RATE + 1)
    P, X, D, norm, inside = {}, {}, {}, [], []
    for t in dirs:
        norm.append(float(np.linalg.norm((1,) + t)))
        a, b = abs(t[0]) / norm[-1], abs(t[1]) / norm[-1]
        inside.append(a * a + b * b < oa * oa / 4 if shape == 'circle' else a <= oa / 2 and b <= oa * ar / 2)
    for i in (5, 7):
        X[i] = ctx.array('x%d' % i, (n,), max((z0 if i == 7 else zs) * RATE - 4.0, 2.0), (zs if i == 7 else z1) * RATE + 4.0) if i == snap else np.array([float((zs + (z1 if i == 5 else z0)) / 2 * RATE)])
        P[i] = dict(mass=masses(ctx, 'm%d' % i, n, 1.0, 8.0))
        for a, nm in enumerate(('pos_x', 'pos_y', 'pos_z')):
            p = []
            for j in range(n):
                w = np.linalg.solve(R, (1.0,) + dirs[j])
                v = (X[i][j] * float(w[a]) + s[a]) * flips[0][a] / BOX
                p.append((v - ctx.np.floor(v)) * BOX)
            P[i][nm] = ctx.pack(np.array(p, dtype=object))
    simulation(P)
    mmin = ctx.real('mmin', 0.0, 9.0)
    mk = cones_of(ctx, sim, minimum_mass=mmin, **k)
    mk.build_lightcones(1, rng=draws())
    at2, g, units, idx, zi = contents(ctx, mk)
    ctx.check([int(v) for v in at2['box flips']] == list(flips[0]), 'flips')
    D = {5: (cos.D(zs) * H, cos.D(z1) * H), 7: (cos.D(z0) * H, cos.D(zs) * H)}
    prev = 0.0
    for i in (5, 7):
        for j in range(n):
            d = X[i][j] * norm[j]
            for edge in list(D[i]) + segments(mk, LOS[los], oa, ar, shape, *D[i], cos.D(zt if i == 5 else zs) * H):
                ctx.assume((d < edge - 1e-4) | (d > edge + 1e-4))
            want = (P[i]['mass'][j] >= mmin) & (d >= D[i][0]) & (d < D[i][1]) if inside[j] else False
            ctx.check(ctx.np.where(want, 1, 0) == idx.count((i, j)), 'exactly the objects in the cone')
    for e, (i, j) in enumerate(idx):
        x, d = X[i][j], X[i][j] * norm[j]
        ctx.check_eq([g['pos_x'][e], g['pos_y'][e], g['pos_z'][e]], [x * dirs[j][0], x * dirs[j][1], x], 'position')
        ctx.check_eq(g['mass'][e], P[i]['mass'][j], 'mass')
        ctx.check_eq(g['redshift'][e], cos.Dinv(d / H), 'redshift')
        ctx.check_eq([g['ra'][e], g['dec'][e]], [v / norm[j] for v in dirs[j]], 'place on the sky')
        ctx.check(g['redshift'][e] >= prev, 'in order')
        prev = g['redshift'][e]
    for q in range(len(zi)):
        z_, i_ = zi['redshift'][q], int(zi['index'][q])
        if z_ < z0 or z_ > z1:
            ctx.check(i_ == (0 if z_ < z0 else len(idx)), 'table of redshifts')
        else:
            ctx.check(sum(ctx.np.where(z <= z_, 1, 0) for z in g['redshift']) == i_, 'table of redshifts')
    ctx.check([units[q] for q in ('pos_x', 'pos_y', 'pos_z', 'mass', 'ra', 'dec', 'redshift')] == [UNITS['pos_x']] * 3 + [UNITS['mass'], ('radians', 0), ('radians', 0), ('None', 0)], 'units')


def lattice(P, frame, los, lo, hi, shape, oa, ar):
    """every repetition of the objects at P which lies in the cone: [(object, place in the cone's frame, distance)]"""
    R, start, flips = frame
    n = int(hi / BOX) + 2
    K = np.array(list(itertools.product(range(-n, n + 1), repeat=3)))
    out = []
    for j, p in enumerate(P):
        x = np.matmul((np.array(p) * flips) % BOX - start + BOX * K, R.T)
        d = np.linalg.norm(x, axis=1)
        a = np.abs(x[:, 1:].T / d)
        edge = oa / 2 - np.hypot(a[0], a[1]) if shape == 'circle' else np.minimum(oa / 2 - a[0], oa * ar / 2 - a[1])
        ok = (d >= lo) & (d < hi) & (edge >= 0) & (x[:, 0] > 0)
        assert np.all(np.abs(edge[(d < hi) & (x[:, 0] > 0)]) > 1e-7) and np.all(np.abs(d - lo) > 1e-7) and np.all(np.abs(d - hi) > 1e-7)
        out += [(j, x[k], d[k]) for k in np.nonzero(ok)[0]]
    return out


def frames(ctx, mk, n):
    out = []
    for q in range(n):
        at = contents(ctx, mk, q)[0]
        out.append((np.matmul(np.array(at['position angle transformation matrix'], dtype=float), np.array(at['line of sight transformation matrix'], dtype=float)), obj(at['start position']).astype(float)))
    return out


def somewhere(ctx, snaps, k, los, pa, flips, distances, rnd, shape, oa, ar, inside=False):
    """positions of objects in, or close to, some cones"""
    one = dict(mass=np.array([1.0]), pos_x=np.array([1.0]), pos_y=np.array([1.0]), pos_z=np.array([1.0]))
    make_sim(ctx, [dict(index=i, z=(a + b) / 2, zmin=a, zmax=b, props=one, cuts=[0.5]) for i, (a, b) in snaps.items()], H, BOX)
    mk = cones_of(ctx, '_testbox', minimum_mass=100.0, **k)
    mk.build_lightcones(len(los), rng=Draws(ctx, 2, None, los, pa, flips))
    F = frames(ctx, mk, len(los))
    out = {}
    for i, ds in distances.items():
        p = []
        for j, d in enumerate(ds):
            R, s = F[j % len(los)]
            t = rnd.uniform(-1, 1, 2) * (0.7 if inside else 1.1) * np.array([oa / 2, oa * ar / 2])
            x = np.array([(1 - t[0]**2 - t[1]**2)**.5, t[0], t[1]]) * d
            p.append(((np.matmul(x, R) + s) * flips[j % len(los)]) % BOX)
        out[i] = np.array(p)
    return out


@harness(configs=[dict(shape=s, ar=a, seed=i) for i, (s, a) in enumerate([('box', 1.0), ('box', 0.25), ('circle', 1.0)])], thorough=[dict(shape=s, ar=a, seed=i + 10 * k) for i, (s, a) in enumerate([('box', 1.0), ('box', 0.25), ('circle', 1.0)]) for k in range(4)], max_paths=20000, uf=True)
def several(ctx, shape, ar, seed):
    """sets of two cones: any masses, and any minimum mass"""
    if ctx.symbolic:
        ctx.eng.split_floors = ctx.eng.linear_roots = True
    rnd = np.random.RandomState(seed)
    z0, zs, z1, oa = 0.004, 0.0161, 0.026, 0.09
    flips = [(-1, 1, -1), (1, 1, -1)]
    k = dict(openangle=oa * 180 / np.pi, aspect=ar, redshift_min=z0, redshift_max=z1, mode=shape)
    pos = somewhere(ctx, {5: (zs, 0.03), 7: (0.0, zs)}, k, LOS[:2], [0.3, 0.8], flips, {5: [35.0, 50.0, 65.0], 7: [12.0, 20.0, 30.0, 40.0]}, rnd, shape, oa, ar)
    P = {i: dict(mass=masses(ctx, 'm%d' % i, len(pos[i]), 1.0, 8.0), **{nm: pos[i][:, a].copy() for a, nm in enumerate(('pos_x', 'pos_y', 'pos_z'))}) for i in pos}
    cos = make_sim(ctx, [dict(index=i, z=(a + b) / 2, zmin=a, zmax=b, props=P[i], cuts=[8.5, 4.5, 0.5]) for i, a, b in ((5, zs, 0.03), (7, 0.0, zs))], H, BOX)[1]
    mmin = ctx.real('mmin', 0.0, 9.0)
    mk = cones_of(ctx, '_testbox', minimum_mass=mmin, openangle=oa * 180 / np.pi, aspect=ar, redshift_min=z0, redshift_max=z1, mode=shape)
    mk.build_lightcones(2, rng=Draws(ctx, 2, None, [(0.9, 0.88, 0.05)] + LOS[:2] + [(0.2, 0.9, 0.3)], [0.3, 0.8], flips))
    D = {5: (cos.D(zs) * H, cos.D(z1) * H), 7: (cos.D(z0) * H, cos.D(zs) * H)}
    some = 0
    for q in range(2):
        at, g, units, idx, zi = contents(ctx, mk, q)
        R = np.matmul(np.array(at['position angle transformation matrix'], dtype=float), np.array(at['line of sight transformation matrix'], dtype=float))
        ctx.check_eq(R[0], np.array(at['line of sight vector'], dtype=float), 'about the line of sight')
        ctx.check(np.amin(R[0]) > 0.1, 'a line of sight which fits in the box')
        ctx.check_eq(at['start position'], [Draws(None, 2, None, [], [], None).draw(q, a) * BOX for a in range(3)], 'observer')
        ctx.check([int(v) for v in at['box flips']] == list(flips[q]), 'flips')
        want = []
        for i in (7, 5):
            want += [(i, j, x, d) for j, x, d in sorted(lattice(pos[i], (R, obj(at['start position']).astype(float), flips[q]), LOS[q], *D[i], shape, oa, ar), key=lambda v: v[2])]
        some += len(want)
        want = [w for w in want if P[w[0]]['mass'][w[1]] >= mmin]
        ctx.check([w[:2] for w in want] == list(idx), 'exactly the objects in the cone')
        for e, (i, j, x, d) in enumerate(want):
            ctx.check_eq([g['pos_x'][e], g['pos_y'][e], g['pos_z'][e]], [x[1], x[2], x[0]], 'position')
            ctx.check_eq(g['mass'][e], P[i]['mass'][j], 'mass')
            ctx.check_eq(g['redshift'][e], cos.Dinv(d / H), 'redshift')
            ctx.check_eq([g['ra'][e], g['dec'][e]], [x[1] / d, x[2] / d], 'place on the sky')
        for k in range(len(zi)):
            ctx.check(sum(1 for z in g['redshift'] if z <= zi['redshift'][k]) == int(zi['index'][k]), 'table of redshifts')
        lc = ctx.mod('simim.lightcone.lchandler').LCHandler('_testbox', 'new', q)
        ctx.check_eq(lc.return_property('mass', in_h_units=True), [P[w[0]]['mass'][w[1]] for w in want], 'can be used')
    assert some > 3, some


@harness(configs=[dict(which=w, los=l, shape=s) for l, (w, s) in enumerate([('top', 'box'), ('bottom', 'circle'), ('top', 'circle')])], uf=True, robust=1e-6)
def limits(ctx, which, los, shape):
    """any redshift limits"""
    if ctx.symbolic:
        ctx.eng.split_floors = ctx.eng.linear_roots = ctx.eng.branch_ite = True
    zs, zt, oa, ar = 0.015625, 0.03125, 0.09, 0.5
    rnd = np.random.RandomState(los)
    z0, z1 = (0.004, ctx.real('z1', 0.006, zt)) if which == 'top' else (ctx.real('z0', 0.0, 0.019), 0.021)
    k = dict(openangle=oa * 180 / np.pi, aspect=ar if shape == 'box' else 1, redshift_min=0.0, redshift_max=zt, mode=shape)
    pos = somewhere(ctx, {5: (zs, zt), 7: (0.0, zs)}, k, LOS[los:los + 1], [0.3], [(-1, 1, -1)], {5: [43.0, 55.0, 70.0], 7: [15.0, 30.0, 38.0]}, rnd, shape, oa, ar, True)
    P = {i: dict(mass=np.array([3.0, 2.0, 1.0]), **{nm: pos[i][:, a].copy() for a, nm in enumerate(('pos_x', 'pos_y', 'pos_z'))}) for i in pos}
    cos = make_sim(ctx, [dict(index=i, z=(a + b) / 2, zmin=a, zmax=b, props=P[i], cuts=[0.5]) for i, a, b in ((5, zs, zt), (7, 0.0, zs))], H, BOX)[1]
    mk = cones_of(ctx, '_testbox', openangle=oa * 180 / np.pi, aspect=ar if shape == 'box' else 1, redshift_min=z0, redshift_max=z1, mode=shape)
    mk.build_lightcones(1, rng=Draws(ctx, 1, None, [LOS[los]], [0.3], [(-1, 1, -1)]))
    at, g, units, idx, zi = contents(ctx, mk)
    R = np.matmul(np.array(at['position angle transformation matrix'], dtype=float), np.array(at['line of sight transformation matrix'], dtype=float))
    D = [cos.D(z) * H for z in (0.0, zs, zt)]
    lo, hi = cos.D(z0) * H, cos.D(z1) * H
    want = []
    for i, a, b in ((7, D[0], D[1]), (5, D[1], D[2])):
        for j, x, d in sorted(lattice(pos[i], (R, obj(at['start position']).astype(float), (-1, 1, -1)), LOS[los], a, b, shape, oa, ar), key=lambda v: v[2]):
            for e in [lo, hi] + segments(mk, LOS[los], oa, ar, shape, ctx.np.maximum(lo, a), ctx.np.minimum(hi, b), b):
                ctx.assume((d < e - 1e-4) | (d > e + 1e-4))
            if (d >= lo) & (d < hi):
                want.append((i, j, x, d))
    ctx.check([w[:2] for w in want] == list(idx), 'exactly the objects in the cone')
    for e, (i, j, x, d) in enumerate(want):
        ctx.check_eq([g['pos_x'][e], g['pos_y'][e], g['pos_z'][e]], [x[1], x[2], x[0]], 'position')
        ctx.check_eq(g['redshift'][e], cos.Dinv(d / H), 'redshift')
    ctx.check_eq([at['minimum redshift'], at['maximum redshift']], [z0, z1], 'limits')


@harness(configs=[dict(shape=s) for s in ('box', 'circle')])
def size(ctx, shape):
    """cones must fit in the simulation box"""
    e = ctx.array('z', (3,), 0.0, 0.5)
    ctx.assume(e[0] + 0.01 < e[1])
    ctx.assume(e[1] + 0.01 < e[2])
    p = dict(mass=np.array([1.0]), pos_x=np.array([1.0]), pos_y=np.array([1.0]), pos_z=np.array([1.0]))
    cos = make_sim(ctx, [dict(index=i, z=(e[i] + e[i + 1]) / 2, zmin=e[i], zmax=e[i + 1], props=p, cuts=[0.5]) for i in (1, 0)], H, BOX)[1]
    M = ctx.mod('simim.lightcone.lcmaker')
    top = ctx.choice('top', (False, True))
    z1 = e[2] if top else ctx.real('z1', 0.0, 0.5)
    z0 = ctx.real('z0', 0.0, 0.5)
    ar = ctx.real('aspect', 0.25, 1.5)
    oa = 3.0
    k = dict(openangle=oa, redshift_min=z0, redshift_max='max' if top else z1, mode=shape, aspect=ar)
    far = cos.D(z1) * H * oa * np.pi / 180
    ctx.assume((far > BOX + 1e-6) | (far < BOX - 1e-6))
    if (z0 > z1) | (far > BOX) | (ar > 1):
        ctx.check(ctx.raises(ValueError, M.LCMaker, '_testbox', 'new', overwrite=True, **k), 'refused: does not fit')
    else:
        M.LCMaker('_testbox', 'new', overwrite=True, **k)
        ctx.check(True, 'accepted')
