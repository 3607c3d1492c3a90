"""S01: snapshots are found by redshift, index and mass, and what is asked of the whole simulation is done in every snapshot."""
import warnings
import numpy as np
from vsx.core import harness
from vsx.spec import obj
from checks._handler import hpow
from checks._sim import make_sim, masses

FUNCTIONS = ['siminterface.simhandler.SimHandler.' + m for m in ('__init__', 'initialize_all_snaps', 'set_in_h_units', 'number_volumes', 'extract_snap_meta', 'z_to_snap', 'extract_snap_keys', 'get_mass_index', 'get_snap', 'get_snap_from_z', 'set_property_range', 'make_property', 'delete_property', 'snap_stat')] + ['siminterface.simhandler.SnapHandler.__init__', 'siminterface.simhandler.SnapHandler.set_in_h_units']
BOUNDS = 'simulations of 3 snapshots with any contiguous redshift intervals (in any order in the file, any index numbers out of a list) and 2-3 halos each; up to 4 mass cuts; all values symbolic'
OUTSIDE = 'objects more massive than the highest mass cut (1e20 Msun/h); snapshot intervals which overlap or leave gaps'

H = 0.5


def sim(ctx, idx=(4, 7, 12), order=None, n=2, mlo=0.5, mhi=9.0, cuts=(8.0, 4.0, 2.0, 1.0), zlo=None):
    e = ctx.array('z', (4,), 0.0, 4.0)
    if zlo is not None:
        e[0] = zlo
    for i in range(3):
        ctx.assume(e[i] < e[i + 1] - 0.125)
    snaps = []
    for i in range(3):
        m = masses(ctx, 'm%d' % i, n, mlo, mhi)
        v = ctx.array('v%d' % i, (n,))
        # the highest-redshift snapshot comes first in real files
        snaps.append(dict(index=idx[i], z=(e[2 - i] + e[3 - i]) / 2, zmin=e[2 - i], zmax=e[3 - i], props=dict(mass=m, sfr=v), cuts=cuts))
    paths, cos = make_sim(ctx, snaps, H, 100.0, meta_order=order)
    return snaps, e


@harness(configs=[dict(order=o, idx=i) for o in (None, [2, 0, 1]) for i in ((0, 1, 2), (4, 7, 12), (9, 3, 5))])
def redshift(ctx, order, idx):
    """the snapshot of a redshift"""
    snaps, e = sim(ctx, idx, order, n=1)
    S = ctx.mod('simim.siminterface.simhandler').SimHandler('_testbox')
    z = ctx.real('zq', -1.0, 5.0)
    bad = (z < e[0]) | (z > e[3])
    if bad:
        ctx.check(ctx.raises(ValueError, S.z_to_snap, z), 'refused')
        ctx.check(ctx.raises(ValueError, S.get_snap_from_z, z), 'refused')
        return
    k = S.z_to_snap(z)
    s = next((x for x in snaps if x['index'] == k), None)
    ctx.check(s is not None and s['zmin'] <= z and z <= s['zmax'], 'interval holds the redshift')
    if z < s['zmax']:
        pass
    else:
        ctx.check(z >= e[3], 'upper edges belong to the next interval')
    g = S.get_snap_from_z(z)
    ctx.check(g.groupname == 'Snapshot %d' % k, 'snapshot')
    ctx.check_eq(g.redshift, s['z'], 'redshift of the snapshot')
    ctx.check_eq(g.return_property('mass', in_h_units=True), s['props']['mass'], 'masses')


@harness(configs=[dict(default=d, arg=a, n=n) for d in (False, True) for a in (None, False, True) for n in (0, 2)], thorough=[dict(default=d, arg=a, n=3) for d in (False, True) for a in (None, False, True)])
def mass(ctx, default, arg, n):
    """leading objects above a mass"""
    m = masses(ctx, 'm', n, 0.25, 7.0)
    cuts = [8.0, 4.0, 2.0, 1.0]
    make_sim(ctx, [dict(index=3, z=1.0, zmin=0.5, zmax=1.5, props=dict(mass=m), cuts=cuts), dict(index=2, z=1.75, zmin=1.5, zmax=2.0, props=dict(mass=m[:0]), cuts=cuts)], H, 100.0)
    S = ctx.mod('simim.siminterface.simhandler').SimHandler('_testbox', in_h_units=default)
    q = ctx.real('mq', 0.0, 40.0)
    with_h = default if arg is None else arg
    stored = q if with_h else q * H
    k = S.get_mass_index(q, 3, in_h_units=arg)
    below = 0.0
    for c in cuts[::-1]:
        below = ctx.np.where(stored >= c, c, below)
    for i in range(n):
        ctx.check((m[i] < stored) | (i < k), 'every object above the mass is within the index')
        ctx.check((m[i] >= below) | (i >= k), 'no object below the next mass cut is')
    ctx.check(0 <= k, 'index') 
    ctx.check(k <= n, 'index')
    ctx.check(S.get_mass_index(q, 2, in_h_units=arg) == 0, 'no objects')
    ctx.check(ctx.raises(ValueError, S.get_mass_index, q, 5), 'unknown snapshot refused')


@harness(configs=[dict(default=d, init=i, switch=s) for d in (False, True) for i in ('no', 'yes', 'later', 'again') for s in (None, False, True)])
def units(ctx, default, init, switch):
    """units of the simulation and of the snapshots it hands out"""
    snaps, e = sim(ctx, n=1)
    M = ctx.mod('simim.siminterface.simhandler')
    S = M.SimHandler('_testbox', init_snaps=init in ('yes', 'again'), in_h_units=default)
    if init == 'later':
        S.initialize_all_snaps()
    if init == 'again':
        ctx.check(ctx.raises(ValueError, S.initialize_all_snaps), 'initialized once')
        S.initialize_all_snaps(remake=True)
    if switch is not None:
        S.set_in_h_units(switch)
    now = default if switch is None else switch
    edge = 100.0 if now else 100.0 / H
    ctx.check_eq(S.box_edge, edge, 'edge')
    v = ctx.real('V', 1.0, 1000.0)
    ctx.check_eq(S.number_volumes(v) * v, edge ** 3, 'number of volumes', scale=1e3)
    for o in (False, True):
        ctx.check_eq(S.number_volumes(v, in_h_units=o) * v, (100.0 if o else 100.0 / H) ** 3, 'number of volumes', scale=1e3)
    ctx.check(sorted(S.extract_snap_keys()) == ['mass', 'sfr'], 'fields')
    ctx.check(ctx.raises(ValueError, S.get_snap, 5) and ctx.raises(ValueError, S.extract_snap_meta, 5), 'unknown snapshot refused')
    for s in snaps:
        m = S.extract_snap_meta(s['index'])
        ctx.check(m['index'] == s['index'], 'meta')
        ctx.check_eq([m['redshift'], m['redshift_min'], m['redshift_max']], [s['z'], s['zmin'], s['zmax']], 'meta')
        g = S.get_snap(s['index'])
        ctx.check(g.groupname == 'Snapshot %d' % s['index'], 'snapshot')
        ctx.check_eq([g.redshift, g.box_edge, g.box_edge_h, g.box_edge_no_h, g.h], [s['z'], edge, 100.0, 100.0 / H, H], 'numbers of the snapshot')
        ctx.check_eq(g.return_property('mass'), [x if now else x / H for x in obj(s['props']['mass'])], 'mass in the units asked for')
        ctx.check_eq(g.eval_stat(lambda mass, redshift, box_edge: [mass[0], redshift, box_edge], ['mass', 'redshift', 'box_edge']), [s['props']['mass'][0] * (1 if now else 1 / H), s['z'], edge], 'statistics see the units asked for')
        if init == 'no':
            ctx.check(S.get_snap(s['index']) is not g, 'a new handler')
        else:
            ctx.check(S.get_snap(s['index']) is g, 'the same handler')


@harness(configs=[dict(default=d, arg=a, which=w, cut=c) for d in (False, True) for a in (None, False, True) for w in (None, [7], [12, 4], (4,)) for c in (False, True)])
def stats(ctx, default, arg, which, cut):
    """a statistic of every snapshot asked for, with the redshifts"""
    snaps, e = sim(ctx)
    M = ctx.mod('simim.siminterface.simhandler')
    S = M.SimHandler('_testbox', init_snaps=cut, in_h_units=default)
    t = ctx.real('t', 1.0, 9.0)
    if cut:
        S.set_property_range('mass', pmin=t, in_h_units=True)
    kw = dict(scale=2.0)
    vals, zs = S.snap_stat(lambda m, sfr, scale: [ctx.np.sum(m) * scale, ctx.np.sum(sfr)], ['m', 'sfr'], kw_remap={'m': 'mass'}, other_kws=kw, give_args_in_h_units=arg, snaps=which)
    with_h = default if arg is None else arg
    use = snaps if which is None else [s for k in which for s in snaps if s['index'] == k]
    ctx.check(len(vals) == len(zs) == len(use) and kw == dict(scale=2.0), 'one value per snapshot')
    for v, z, s in zip(vals, zs, use):
        ctx.check_eq(z, s['z'], 'redshift')
        ok = [(not cut) | (x >= t) for x in obj(s['props']['mass'])]
        ctx.check_eq(v, [sum(ctx.np.where(o, x, 0.0) for o, x in zip(ok, obj(s['props']['mass']))) * (2.0 if with_h else 2.0 / H),
                         sum(ctx.np.where(o, x, 0.0) for o, x in zip(ok, obj(s['props']['sfr'])))], 'value')
    if cut:
        S.set_property_range()
        ctx.check_eq(S.snap_stat(lambda mass: len(mass), ['mass'])[0], [2, 2, 2], 'the restriction is lifted')
    else:
        ctx.check(ctx.raises(ValueError, S.set_property_range, 'mass', 1.0), 'restrictions need handlers which last')


@harness(configs=[dict(default=d, arg=a, resets=r) for d in (False, True) for a in (None, False, True) for r in ((None, False), (True, False), (False, True), (False, False))])
def selections(ctx, default, arg, resets):
    """selecting anew or narrowing what is selected, in every snapshot alike"""
    snaps, e = sim(ctx, n=1)
    S = ctx.mod('simim.siminterface.simhandler').SimHandler('_testbox', init_snaps=True, in_h_units=default)
    with_h = default if arg is None else arg
    ok = [[True] for s in snaps]
    for k, (name, r) in enumerate(zip(('mass', 'sfr'), resets)):
        t = ctx.real('t%d' % k, 0.5, 9.0)
        more = {} if r is None else dict(reset=r)
        S.set_property_range(name, in_h_units=arg, **dict(more, **(dict(pmin=t) if k else dict(pmax=t))))
        w = 1.0 if with_h or name == 'sfr' else 1 / H
        now = [[(x * w >= t) if k else (x * w <= t) for x in obj(s['props'][name])] for s in snaps]
        ok = now if r is None or r else [[a & b for a, b in zip(o, n)] for o, n in zip(ok, now)]
    for s, o in zip(snaps, ok):
        got = S.get_snap(s['index']).return_property('sfr')
        ctx.check(len(got) == sum(ctx.np.where(b, 1, 0) for b in o), 'number selected')
        ctx.check_eq(sum(obj(got)), sum(ctx.np.where(b, x, 0.0) for b, x in zip(o, obj(s['props']['sfr']))), 'selected')


@harness(configs=[dict(init=i, write=w, names=nm, order=o) for i in (False, True) for w in (False, True) for nm in (None, 'one', ['x', 'y']) for o in (None, [2, 0, 1])])
def properties(ctx, init, write, names, order):
    """properties made for, and removed from, all snapshots"""
    ctx.mod('simim.galprops')     # before there is a data directory, so that it makes no files
    snaps, e = sim(ctx, order=order)
    M = ctx.mod('simim.siminterface.simhandler')
    G = ctx.mod('simim.galprops.galprops')
    S = M.SimHandler('_testbox', init_snaps=init)
    if names == 'one':
        P, want = G.Prop('a', lambda mass, redshift, k: mass * k + redshift, ['mass', 'redshift'], units='U', h_dependence=1, give_args_in_h_units=True, function_return_in_h_units=True), {'one': lambda s: [x * 2.0 + s['z'] for x in obj(s['props']['mass'])]}
    else:
        P = G.MultiProp(['a', 'b'], lambda mass, redshift, k: (mass * k + redshift, mass * 1.0), ['mass', 'redshift'], units=['U', 'W'], h_dependence=[1, 1], give_args_in_h_units=True, function_return_in_h_units=True)
        x, y = names or ['a', 'b']
        want = {x: lambda s: [x * 2.0 + s['z'] for x in obj(s['props']['mass'])], y: lambda s: obj(s['props']['mass'])}
    if not init and not write:
        ctx.check(ctx.raises(ValueError, S.make_property, P, other_kws={'k': 2.0}), 'refused: nowhere to keep it')
        return

    def go(**k):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            S.make_property(P, rename=names, other_kws={'k': 2.0}, write=write, **k)
    go()
    ctx.check(ctx.raises(ValueError, go), 'not replaced unasked')
    go(overwrite=True)
    for s in snaps:
        g = S.get_snap(s['index'])
        for k, f in want.items():
            ctx.check_eq(g.return_property(k, in_h_units=True), f(s), 'value')
            ctx.check(g.properties_units[k] == ('W' if k in ('b', 'y') else 'U'), 'units')
            ctx.check((k in g.extract_keys('saved')) == write, 'where it is kept')
            ctx.check(g.has_loaded(k) == (init or not write) or write, 'loaded')
    fresh = M.SimHandler('_testbox')
    for s in snaps:
        ctx.check(sorted(fresh.get_snap(s['index']).extract_keys()) == sorted(['mass', 'sfr'] + (list(want) if write else [])), 'on disk')
    ctx.check(ctx.raises(ValueError, S.delete_property, 'mass'), 'properties of the catalog stay')
    ctx.check(ctx.raises(ValueError, S.delete_property, *want, 'mass') and ctx.raises(ValueError, S.delete_property, *want, 'nothing'), 'refused together')
    if write:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ctx.check(ctx.raises(ValueError, S.make_property, P, rename=['sfr'] + [k for k in want][1:], other_kws={'k': 2.0}, write=True, overwrite=True), 'properties of the catalog are not replaced')
    for s in snaps:
        g = S.get_snap(s['index'])
        ctx.check_eq(g.return_property('sfr', in_h_units=True), s['props']['sfr'], 'refused requests change nothing')
        ctx.check(sorted(g.extract_keys()) == sorted(['mass', 'sfr'] + list(want)) and 'sfr' not in g.extract_keys('loaded'), 'refused requests change no list')
        for k, f in want.items():
            ctx.check_eq(g.return_property(k, in_h_units=True), f(s), 'refused requests change no value')
    if write:
        S.delete_property(*want)
        for s in snaps:
            ctx.check(sorted(S.get_snap(s['index']).extract_keys()) == ['mass', 'sfr'] == sorted(M.SimHandler('_testbox').get_snap(s['index']).extract_keys()), 'removed')
