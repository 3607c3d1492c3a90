"""H01: values are stored with their powers of little h, and every way of reading, deriving and selecting converts them exactly once."""
import numpy as np
from vsx.core import harness
from vsx.spec import all_, any_, iff, obj, total
from checks._handler import make_handler, hpow

FUNCTIONS = ['_handlers.Handler.' + m for m in ('__init__', 'set_in_h_units', 'return_property', 'load_property', 'make_property', 'set_property_range', 'eval_stat')] + ['galprops.galprops.MultiProp.evaluate_all', 'galprops.galprops.Prop.evaluate']
BOUNDS = 'catalogs of up to 3 objects with 3 properties; every value and the Hubble parameter (0.25 to 1.25) symbolic, powers of h from -3 to 2'
OUTSIDE = 'fractional powers of h; larger catalogs (values are converted elementwise)'


def hub(ctx, anyh):
    return ctx.real('h', 0.25, 1.25) if anyh else ctx.choice('hub', [0.5, 0.75, 1.25])


def same(ctx, got, stored, h, n, label):
    """got == stored * h**n without dividing"""
    g, s = obj(got), obj(stored)
    ctx.check(g.shape == s.shape, label + ': one value per object')
    for a, b in zip(g.reshape(-1), s.reshape(-1)):
        ctx.check_eq(a * hpow(h, -n), b, label) if n < 0 else ctx.check_eq(a, b * hpow(h, n), label)


@harness(configs=[dict(dep=d, anyh=a, loaded=l) for d in (-3, -2, -1, 0, 1, 2) for a in (True, False) for l in (True, False)])
def reading(ctx, dep, anyh, loaded):
    """with h: as stored; without: times the power of h; the handler's default applies when nothing is said"""
    h = hub(ctx, anyh)
    m, v = ctx.array('m', (2,)), ctx.array('v', (2,))
    for default in (True, False):
        H = make_handler(ctx, dict(mass=(m, -1), v=(v, dep)), h, in_h=default, name='c%d.hdf5' % default)
        if loaded:
            H.load_property('v', 'mass')
        ctx.check(H.has_loaded('v') == loaded, 'loaded')
        same(ctx, H.return_property('v', in_h_units=True), v, h, 0, 'with h')
        same(ctx, H.return_property('v', in_h_units=False), v, h, dep, 'without h')
        same(ctx, H.return_property('v', use_all_inds=True), v, h, 0 if default else dep, 'default units')
        H.set_in_h_units(not default)
        same(ctx, H.return_property('v'), v, h, dep if default else 0, 'changed default')
        same(ctx, H.return_property('mass', in_h_units=False), m, h, -1, 'other property')
        same(ctx, H.return_property('v', in_h_units=True), v, h, 0, 'reading changes nothing')


@harness(configs=[dict(dep=d, loaded=l) for d in (0, 0.0) for l in (True, False)])
def types_kept(ctx, dep, loaded):
    """quantities without h keep their type"""
    h = hub(ctx, False)
    v = ctx.array('v', (3,), -4, 4, kind='int')
    H = make_handler(ctx, dict(mass=(ctx.array('m', (3,)), -1), id=(v, dep)), h)
    if loaded:
        H.load_property('id')
    for u in (True, False):
        r = H.return_property('id', in_h_units=u)
        ctx.check_eq(r, v, 'value')
        ctx.check(np.dtype(r.dtype).kind == 'i', 'still integers')


@harness(configs=[dict(give=g, ret=r, dep=d, dep2=e, multi=m, disk=k) for g in (True, False) for r in (True, False) for d in (-1, 0, 2) for e in (-2, 1) for m in (0, 1, 2) for k in (False, True)
                  if not (m < 2 and e == 1) and not (k and m == 0)])
def deriving(ctx, give, ret, dep, dep2, multi, disk):
    """functions get their arguments in the units they ask for, and what they return is stored so that it reads back with the right power of h"""
    G = ctx.mod('simim.galprops.galprops')
    h = hub(ctx, False)
    m, s = ctx.array('m', (2,)), ctx.array('s', (2,))
    H = make_handler(ctx, dict(mass=(m, -1), sfr=(s, dep)), h)
    seen = {}

    def f(mass, sfr, **k):
        seen['m'], seen['s'], seen['k'] = obj(mass).copy(), obj(sfr).copy(), dict(k)
        a = mass * 2.0 + sfr
        return a if multi < 2 else [a, mass - sfr]
    if multi == 0:
        P = G.Prop('a', f, ['mass', 'sfr'], give_args_in_h_units=give, function_return_in_h_units=ret, units='Lsun', h_dependence=dep2)
    elif multi == 1:
        P = G.MultiProp(['a'], f, ['mass', 'sfr'], give_args_in_h_units=give, function_return_in_h_units=ret, units=['Lsun'], h_dependence=[dep2])
    else:
        P = G.MultiProp(['a', 'b'], f, ['mass', 'sfr'], give_args_in_h_units=give, function_return_in_h_units=ret, units=['Lsun', 'Mpc/h'], h_dependence=[dep2, -1])
    H.make_property(P, other_kws=dict(extra=3), use_all_inds=True, write_to_disk=disk)
    same(ctx, seen['m'], m, h, 0 if give else -1, 'argument in the units asked for')
    same(ctx, seen['s'], s, h, 0 if give else dep, 'argument in the units asked for')
    ctx.check(seen['k'] == dict(extra=3), 'extra arguments passed on')
    for i, (name, d, u) in enumerate([('a', dep2, 'Lsun'), ('b', -1, 'Mpc/h')][:max(1, multi)]):
        w = [x * 2.0 + y if i == 0 else x - y for x, y in zip(seen['m'], seen['s'])]
        ctx.check(H.properties_units[name] == u and H.properties_h_dependence[name] == d, 'units recorded')
        same(ctx, H.return_property(name, in_h_units=True), w, h, 0 if ret else -d, 'derived value with h')
        same(ctx, H.return_property(name, in_h_units=False), w, h, d if ret else 0, 'derived value without h')
    if disk:
        K = ctx.mod('simim._handlers').Handler(H.path, 'catalog', 'snap_000', False)
        same(ctx, K.return_property('a'), H.return_property('a'), h, 0, 'value on disk')
        ctx.check(K.properties_units['a'] == 'Lsun' and K.properties_h_dependence['a'] == dep2, 'units on disk')


@harness(configs=[dict(give=g, ret=r, d1=a, d2=b, call=c, seq=q) for g in (True, False) for r in (True, False) for a, b in ((-1, 0), (2, -2), (0, 0)) for c in ('all', 'one') for q in ('list', 'tuple')])
def evaluating(ctx, give, ret, d1, d2, call, seq):
    """evaluating a property without storing it returns values in h units, one array per property"""
    G = ctx.mod('simim.galprops.galprops')
    h = hub(ctx, False)
    m = ctx.array('m', (2,))
    H = make_handler(ctx, dict(mass=(m, -1), other=(ctx.array('o', (2,)), 0)), h)
    H.set_property_range('mass', pmax=0.0, in_h_units=True)
    f = lambda x, c=0.0: [x + c, x * 3.0] if seq == 'list' else (x + c, x * 3.0)
    P = G.MultiProp(['a', 'b'], f, ['x'], give_args_in_h_units=give, function_return_in_h_units=ret, units=['A', 'B'], h_dependence=[d1, d2])
    v = (P.evaluate_all if call == 'all' else P.evaluate)(H, use_all_inds=True, kw_remap={'x': 'mass'}, kw_arguments={'c': 1.5})
    x = obj(m) if give else [t * hpow(h, -1) for t in obj(m)]
    same(ctx, v[0], [t + 1.5 for t in x], h, 0 if ret else -d1, 'first property')
    same(ctx, v[1], [t * 3.0 for t in x], h, 0 if ret else -d2, 'second property')
    P1 = G.Prop('a', lambda x: x * 3.0, ['x'], give_args_in_h_units=give, function_return_in_h_units=ret, h_dependence=d2)
    same(ctx, P1.evaluate(H, use_all_inds=True, kw_remap={'x': 'mass'}), [t * 3.0 for t in x], h, 0 if ret else -d2, 'single property')
    ctx.check(ctx.raises(ValueError, P1.evaluate, H, kw_remap={'x': 'nothing'}) and ctx.raises(ValueError, P1.evaluate, H), 'missing property refused')
    same(ctx, H.return_property('mass', use_all_inds=True, in_h_units=True), m, h, 0, 'inputs unchanged')


@harness(configs=[dict(dep=d, units=u, default=e) for d in (-1, 2, 0) for u in (True, False, None) for e in (True, False)])
def selecting(ctx, dep, units, default):
    """a range is compared with values in the units the range is given in"""
    h = hub(ctx, False)
    v, lo, hi = ctx.array('v', (3,)), ctx.real('lo'), ctx.real('hi')
    H = make_handler(ctx, dict(mass=(ctx.array('m', (3,)), -1), v=(v, dep)), h, in_h=default)
    kw = {} if units is None else dict(in_h_units=units)
    u = default if units is None else units
    w = [x * (1.0 if u else hpow(h, dep)) for x in obj(v)]
    for x in w:
        ctx.assume(all_(any_(x - lo > 1e-3, x - lo < -1e-3), any_(x - hi > 1e-3, x - hi < -1e-3)))
    H.set_property_range('v', lo, hi, **kw)
    act = [int(i) for i in obj(H.inds_active)]
    ctx.check(H.nhalos_active == len(act), 'count of active objects')
    for i in range(3):
        ctx.check(iff(all_(w[i] >= lo, w[i] <= hi), i in act), 'active exactly when in range')


@harness(configs=[dict(dep=d, units=u, default=e, sel=s) for d in (-1, 2) for u in (True, False, None) for e in (True, False) for s in (True, False)])
def statistics(ctx, dep, units, default, sel):
    """functions of the catalog get values in the units asked for, of the active objects or all"""
    h = hub(ctx, False)
    v, m = ctx.array('v', (3,)), ctx.array('m', (3,), 1, 3)
    H = make_handler(ctx, dict(mass=(m, -1), v=(v, dep)), h, in_h=default)
    H.inds_active = np.array([2, 0])
    kw = {} if units is None else dict(give_args_in_h_units=units)
    u = default if units is None else units
    seen = {}

    def f(a, mass, h, c):
        seen.update(a=obj(a).copy(), mass=obj(mass).copy(), h=h, c=c)
        return 'result'
    okw = dict(c=5)
    r = H.eval_stat(f, ['a', 'mass', 'h'], kw_remap={'a': 'v'}, other_kws=okw, use_all_inds=sel, **kw)
    idx = [0, 1, 2] if sel else [2, 0]
    ctx.check(r == 'result' and seen['c'] == 5 and okw == dict(c=5), 'result and extra arguments')
    same(ctx, seen['a'], obj(v)[idx], h, 0 if u else dep, 'values')
    same(ctx, seen['mass'], obj(m)[idx], h, 0 if u else -1, 'other values')
    ctx.check_eq(seen['h'], h, 'metadata')
