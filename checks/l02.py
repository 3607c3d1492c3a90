"""L02: volumes, evolution statistics and iteration over light cones."""
import numpy as np
from vsx.core import harness
from vsx.spec import obj
from checks._sim import make_lc

FUNCTIONS = ['lightcone.lchandler.LCHandler.' + m for m in ('__init__', 'volume', 'eval_stat_evo')] + ['lightcone.lchandler.LCIterator.' + m for m in ('__init__', 'volume', 'wrappers')]
BOUNDS = '2-3 objects per cone, 3 redshift bin edges in any order, 2-3 cones; all redshifts, masses, edges and angles symbolic'
OUTSIDE = 'the cosmology itself (replaced by an invertible one); the solid angle of light cones too wide for the flat-sky area'

H = 0.5
ALL = {'box': 1.0, 'circle': 1.0}


@harness(configs=[dict(have=a, want=b, default=d, arg=e, part=p) for a in ('box', 'circle') for b in (None, 'box', 'circle') for d in (False, True) for e in (None, not d) for p in ('all', 'z', 'angle', 'both')])
def volume(ctx, have, want, default, arg, part):
    """volume of (part of) a cone, and the refusal of parts outside it"""
    cos = make_lc(ctx, [dict(redshift=ctx.array('z', (1,), 0.25, 2.0), mass=np.array([1.0]))], H, shape=have, angle=0.5, aspect=0.5)
    S = ctx.mod('simim.lightcone.lchandler').LCHandler('_testbox', 'cones', 0, in_h_units=default)
    k = {}
    z0, z1, oa, ar = 0.25, 2.0, 0.5, 0.5
    if part in ('z', 'both'):
        z0 = k['redshift_min'] = ctx.real('z0', 0.0, 2.5)
        z1 = k['redshift_max'] = ctx.real('z1', 0.0, 2.5)
        ctx.assume(z0 <= z1)
    if part in ('angle', 'both'):
        oa = k['open_angle'] = ctx.real('oa', 0.125, 0.75)
        ar = k['aspect_ratio'] = ctx.real('ar', 0.25, 1.0)
    shape = want or have
    # does the part lie within the cone?
    bad = (z0 < 0.25) | (z1 > 2.0)
    if have == 'box' and shape == 'box':
        bad = bad | (oa > 0.5) | (oa * ar > 0.25)
    elif have == 'circle' and shape == 'box':
        bad = bad | (oa * oa + oa * ar * (oa * ar) > 0.25)
    elif have == 'circle':
        bad = bad | (oa > 0.5)
    else:
        bad = bad | (oa > 0.25)
    if want is not None or arg is not None:
        k.update(shape=want, in_h_units=arg)
    if bad:
        ctx.check(ctx.raises(ValueError, S.volume, **k), 'refused: not within the cone')
        return
    area = oa * oa * ar if shape == 'box' else ctx.np.pi * oa * oa / 4
    v = (cos.D(z1) * cos.D(z1) * cos.D(z1) - cos.D(z0) * cos.D(z0) * cos.D(z0)) * area / 3
    if default if arg is None else arg:
        v = v * H ** 3
    ctx.check_eq(S.volume(**k), v, 'volume', scale=1e8)


SKY = {'sphere': 4.0, 'hemisphere': 2.0, 'quarter': 1.0, 'eighth': 0.5}


@harness(configs=[dict(shape=s, default=d, part=p) for s in SKY for d in (False, True) for p in ('all', 'z', 'same', 'other')])
def sky(ctx, shape, default, part):
    """volume of cones covering (a fraction of) the sky"""
    cos = make_lc(ctx, [dict(redshift=ctx.array('z', (1,), 0.25, 2.0), mass=np.array([1.0]))], H, shape=shape)
    S = ctx.mod('simim.lightcone.lchandler').LCHandler('_testbox', 'cones', 0, in_h_units=default)
    k, z0, z1 = {}, 0.25, 2.0
    if part == 'z':
        z0 = k['redshift_min'] = ctx.real('z0', 0.0, 2.5)
        z1 = k['redshift_max'] = ctx.real('z1', 0.0, 2.5)
        ctx.assume(z0 <= z1)
    if part == 'same':
        k['shape'] = shape
    if part == 'other':
        ctx.check(ctx.raises(ValueError, S.volume, shape='sphere' if shape == 'eighth' else 'eighth') and ctx.raises(ValueError, S.volume, shape='cube'), 'refused')
        return
    if (z0 < 0.25) | (z1 > 2.0):
        ctx.check(ctx.raises(ValueError, S.volume, **k), 'refused: not within the cone')
        return
    v = (cos.D(z1) * cos.D(z1) * cos.D(z1) - cos.D(z0) * cos.D(z0) * cos.D(z0)) * (SKY[shape] * np.pi / 3) * (H ** 3 if default else 1.0)
    ctx.check_eq(S.volume(**k), v, 'volume', scale=1e9)


@harness(configs=[dict(sel=s, default=d, arg=a, kws=k, n=2) for s in ('all', 'cut', 'none') for d in (False, True) for a in (None, not d) for k in ((), ('zmin', 'zmax'), ('volume',), ('zmin', 'zmax', 'volume')) if s == 'all' or k == ('zmin', 'zmax', 'volume')],
         thorough=[dict(sel=s, default=d, arg=a, kws=k, n=3) for s in ('all', 'cut', 'none') for d in (False, True) for a in (None, not d) for k in ((), ('zmin',), ('zmax',), ('volume',), ('zmin', 'zmax', 'volume'))], max_paths=20000, witness=4)
def evolution(ctx, sel, default, arg, kws, n):
    """a statistic in bins of redshift"""
    p = dict(redshift=ctx.array('z', (n,), 0.25, 2.0), mass=ctx.array('m', (n,), 1.0, 8.0), sfr=ctx.array('s', (n,)))
    cos = make_lc(ctx, [p], H, zmin=0.25, zmax=2.0, angle=0.5, aspect=0.5)
    S = ctx.mod('simim.lightcone.lchandler').LCHandler('_testbox', 'cones', 0, in_h_units=default)
    e = ctx.array('e', (3,), 0.25, 2.0)
    order = ctx.choice('order', [(0, 1, 2), (1, 0, 2), (2, 1, 0)])
    for i in range(2):
        ctx.assume(e[i] < e[i + 1])
    for z in obj(p['redshift']):
        for x in obj(e):
            ctx.assume((z < x) | (z > x))
    if sel != 'all':
        t = ctx.real('t', 1.0, 8.0)
        S.set_property_range('mass', pmin=20.0 if sel == 'none' else t, in_h_units=True)
    before = [len(S.return_property('mass')), S.nhalos_active]
    seen = []

    def stat(m, sfr, scale, **more):
        seen.append(more)
        return [ctx.np.sum(m) * scale, ctx.np.sum(sfr)]
    own = dict(scale=2.0)
    bins, vals = S.eval_stat_evo([e[i] for i in order], stat, ['m', 'sfr'], kw_remap={'m': 'mass'}, other_kws=own, give_args_in_h_units=arg,
                                 zmin_kw='zmin' in kws, zmax_kw='zmax' in kws, volume_kw='volume' in kws)
    ctx.check_eq(bins, e, 'bins in order')
    ctx.check(len(vals) == len(seen) == 2, 'a value for every bin')
    ctx.check(own == dict(scale=2.0), 'keywords given are left as they were')
    with_h = default if arg is None else arg
    for b in range(2):
        ok = [(z > e[b]) & (z < e[b + 1]) for z in obj(p['redshift'])]
        if sel == 'all':  # (with a selection: either of all or of the selected objects)
            ctx.check_eq(vals[b], [sum(ctx.np.where(o, x, 0.0) for o, x in zip(ok, obj(p['mass']))) * (2.0 if with_h else 2.0 / H),
                               sum(ctx.np.where(o, x, 0.0) for o, x in zip(ok, obj(p['sfr'])))], 'value')
        ctx.check(sorted(seen[b]) == sorted(kws), 'exactly the keywords asked for')
        want = dict(zmin=e[b], zmax=e[b + 1], volume=(cos.D(e[b + 1]) * cos.D(e[b + 1]) * cos.D(e[b + 1]) - cos.D(e[b]) * cos.D(e[b]) * cos.D(e[b])) / 24 * (H ** 3 if with_h else 1.0))
        for k in kws:
            ctx.check_eq(seen[b][k], want[k], k, scale=1e8 if k == 'volume' else 1.0)
    ctx.check_eq([len(S.return_property('mass')), S.nhalos_active], before, 'the selection is as before')
    S.set_property_range('mass', pmin=0.0, reset=False)
    ctx.check_eq([len(S.return_property('mass')), S.nhalos_active], before, 'the selection is as before')
    ctx.check(ctx.raises(ValueError, S.eval_stat_evo, [0.5, 3.0], lambda mass, volume: 0, ['mass'], volume_kw=True), 'refused: outside the cone')


@harness(configs=[dict(shape=s, numbers=n, default=d, odd=o, strict=r) for s in ('box', 'circle', 'sphere') for n in (None, (0, 1), (2, 0), (1,)) for d in (False, True) for o in (None, 'minimum redshift', 'maximum redshift', 'open angle', 'aspect ratio', 'cosmo_h', 'cosmo_omega_matter', 'shape') for r in (True, False)
                          if s != 'sphere' or o not in ('open angle', 'aspect ratio', 'shape')])
def iterate(ctx, shape, numbers, default, odd, strict):
    """each cone of a set is treated by itself"""
    ctx.mod('simim.galprops')
    cones = [dict(redshift=ctx.array('z%d' % i, (i + 1,), 0.25, 2.0), mass=ctx.array('m%d' % i, (i + 1,), 1.0, 8.0)) for i in range(3)]
    attrs = [{}, {}, {}]
    if odd:
        attrs[1] = {odd: {'shape': 'circle' if shape == 'box' else 'box', 'open angle': 0.375, 'aspect ratio': 0.75, 'minimum redshift': 0.125, 'maximum redshift': 3.0, 'cosmo_h': 0.25, 'cosmo_omega_matter': 0.25}[odd]}
    make_lc(ctx, cones, H, shape=shape, attrs=attrs)
    M = ctx.mod('simim.lightcone.lchandler')
    G = ctx.mod('simim.galprops.galprops')
    use = (0, 1, 2) if numbers is None else numbers
    mixed = odd is not None and 1 in use and len(use) > 1
    if mixed and strict:
        ctx.check(ctx.raises(ValueError, M.LCIterator, '_testbox', 'cones', numbers, default, strict), 'refused: cones differ')
        return
    I = M.LCIterator('_testbox', 'cones', numbers, default, strict)
    ctx.check(sorted(I.lc_handlers) == sorted(str(i) for i in use) and I.n_lcs == len(use) and I.is_consistent == (not mixed), 'cones')
    hs = [0.25 if odd == 'cosmo_h' and i == 1 else H for i in range(3)]

    def same(got, want, label):
        ctx.check(sorted(got) == sorted(str(i) for i in use), label + ': one per cone')
        for i in use:
            ctx.check_eq(got[str(i)], want(i), label)
    m = lambda i, h=default: [x if h else x / hs[i] for x in obj(cones[i]['mass'])]
    same(I.return_property('mass'), m, 'values')
    same(I.return_property('mass', in_h_units=not default), lambda i: m(i, not default), 'values')
    I.set_in_h_units(not default)
    same(I.return_property('mass'), lambda i: m(i, not default), 'values in other units')
    I.set_in_h_units(default)
    I.make_property(G.Prop('d', lambda mass, k: mass * k, ['mass'], h_dependence=-1, give_args_in_h_units=True, function_return_in_h_units=True), other_kws={'k': 3.0})
    same(I.return_property('d', in_h_units=True), lambda i: [x * 3.0 for x in obj(cones[i]['mass'])], 'a new property')
    t = ctx.real('t', 1.0, 8.0)
    I.set_property_range('mass', pmin=t, in_h_units=True)
    same(I.eval_stat(lambda mass: ctx.np.sum(mass), ['mass'], give_args_in_h_units=True), lambda i: sum(ctx.np.where(x >= t, x, 0.0) for x in obj(cones[i]['mass'])), 'statistics')
    I.set_property_range()
    I.write_property('d')
    ctx.check(sorted(M.LCHandler('_testbox', 'cones', use[0]).extract_keys()) == ['d', 'mass', 'redshift'], 'written')
    I.delete_property('d')
    for i in range(3):
        ctx.check(sorted(M.LCHandler('_testbox', 'cones', i).extract_keys()) == ['mass', 'redshift'], 'deleted')
    if mixed:
        ctx.check(ctx.raises(ValueError, I.volume), 'whose volume?')
    else:
        ctx.check_eq(I.volume(), I.lc_handlers[str(use[0])].volume(), 'volume', scale=1e8)
    for i in use:
        ctx.check_eq(I.volume(number=i, in_h_units=True), M.LCHandler('_testbox', 'cones', i, in_h_units=True).volume(), 'volume of one', scale=1e8)
    ctx.check(ctx.raises(ValueError, I.volume, number=7), 'unknown cone refused')


@harness()
def missing(ctx):
    """cones which do not exist"""
    make_lc(ctx, [dict(redshift=ctx.array('z', (1,), 0.25, 2.0), mass=np.array([1.0]))], H)
    M = ctx.mod('simim.lightcone.lchandler')
    for a in (('other', 'cones', 0), ('_testbox', 'none', 0), ('_testbox', 'cones', 1)):
        ctx.check(ctx.raises(ValueError, M.LCHandler, *a), 'refused')
        ctx.check(ctx.raises(ValueError, M.LCIterator, a[0], a[1], [a[2]]), 'refused')
    L = M.LCHandler('_testbox', 'cones', 0)
    ctx.check_eq([L.minimum_redshift, L.maximum_redshift, L.open_angle, L.aspect_ratio, L.h], [0.25, 2.0, 0.25, 0.5, H], 'numbers of the cone')
    ctx.check(L.shape == 'box', 'shape')
    ctx.check_eq(L.eval_stat(lambda open_angle, aspect_ratio, cosmo: [open_angle, aspect_ratio, cosmo.h], ['open_angle', 'aspect_ratio', 'cosmo']), [0.25, 0.5, H], 'statistics see them')
