"""H02: the active objects are exactly those the requested ranges select, and everything follows that selection."""
import warnings
import numpy as np
from vsx.core import harness
from vsx.spec import all_, any_, not_, iff, obj, ite
from checks._handler import make_handler

FUNCTIONS = ['_handlers.Handler.' + m for m in ('set_property_range', 'return_property', 'eval_stat', 'make_property', 'load_property')]
BOUNDS = 'catalogs of up to 4 objects; all values and limits symbolic; up to 3 (thorough: 4) consecutive selections on two properties, each restarting or narrowing'
OUTSIDE = 'NaN property values; larger catalogs (objects are selected independently)'


def cat(ctx, n, h=0.5, in_h=True, ints=False, **k):
    m = ctx.array('m', (n,), -4, 4)
    v = ctx.array('v', (n,), -4, 4, kind='int' if ints else 'real')
    return m, v, make_handler(ctx, dict(mass=(m, 0), v=(v, 0)), h, in_h=in_h, **k)


def follows(ctx, H, vals, sel, label):
    """the handler's selection is exactly `sel` (list of formulas)"""
    act = [int(i) for i in obj(H.inds_active)]
    n = len(sel)
    ctx.check(act == sorted(set(act)), label + ': in catalog order, once each')
    ctx.check(H.nhalos_active == len(act), label + ': count')
    for i in range(n):
        ctx.check(iff(sel[i], i in act), label + ': active exactly when selected')
    for name, v in vals.items():
        ctx.check_eq(H.return_property(name), obj(v)[act], label + ': values of the active objects')
        ctx.check_eq(H.return_property(name, use_all_inds=True), v, label + ': all values')
    return act


@harness(configs=[dict(n=n, side=s, ints=i, loaded=l) for n in (1, 3, 4) for s in ('both', 'min', 'max', 'equal') for i in (False, True) for l in (False, True)])
def one_range(ctx, n, side, ints, loaded):
    """both limits included, missing limits open"""
    m, v, H = cat(ctx, n, ints=ints)
    if loaded:
        H.load_property('v')
    lo, hi = ctx.real('lo', -5, 5), ctx.real('hi', -5, 5)
    kw = dict(both=dict(pmin=lo, pmax=hi), min=dict(pmin=lo), max=dict(pmax=hi), equal=dict(pmin=lo, pmax=lo))[side]
    follows(ctx, H, dict(mass=m, v=v), [True] * n, 'at first')
    H.set_property_range('v', **kw)
    sel = [all_(*([x >= kw['pmin']] if 'pmin' in kw else []), *([x <= kw['pmax']] if 'pmax' in kw else [])) for x in obj(v)]
    follows(ctx, H, dict(mass=m, v=v), sel, 'selected')
    H.set_property_range()
    follows(ctx, H, dict(mass=m, v=v), [True] * n, 'reset')


@harness(configs=[dict(n=3, seq=s) for s in [(a, b) for a in 'RNA' for b in 'RNA'] + [('N', 'N', 'R'), ('R', 'N', 'N'), ('N', 'A', 'N')]],
         thorough=[dict(n=4, seq=s) for s in [('R', 'N', 'N', 'N'), ('N', 'N', 'A', 'N'), ('N', 'R', 'N', 'N'), ('R', 'N', 'R', 'N')]])
def sequences(ctx, n, seq):
    """R: restart, N: narrow, A: all objects again; alternately on two properties"""
    m, v, H = cat(ctx, n)
    sel = [True] * n
    for k, op in enumerate(seq):
        name, x = (('v', v), ('mass', m))[k % 2]
        lo, hi = ctx.real('lo%d' % k, -5, 5), ctx.real('hi%d' % k, -5, 5)
        if op == 'A':
            H.set_property_range()
            sel = [True] * n
        else:
            H.set_property_range(name, lo, hi, reset=op == 'R')
            new = [all_(t >= lo, t <= hi) for t in obj(x)]
            sel = new if op == 'R' else [all_(a, b) for a, b in zip(sel, new)]
        follows(ctx, H, dict(mass=m, v=v), sel, 'step %d' % k)


@harness(configs=[dict(n=3, kind=k, over=o) for k in ('real', 'int', 'bool', 'list') for o in (False, True)])
def deriving(ctx, n, kind, over):
    """a property derived while a selection is active has values for the active objects and NaN for the others"""
    G = ctx.mod('simim.galprops.galprops')
    m, v, H = cat(ctx, n, ints=kind != 'real')
    lo = ctx.real('lo', -5, 5)
    H.set_property_range('mass', pmin=lo)
    act = [int(i) for i in obj(H.inds_active)]
    f = dict(real=lambda mass, v: mass + v, int=lambda mass, v: v * 2, bool=lambda mass, v: v > 0, list=lambda mass, v: [x + 1 for x in v])[kind]
    P = G.Prop('w', f, ['mass', 'v'])
    if over:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            P2 = G.Prop('w', lambda mass: mass * 0.0, ['mass'])
            H.make_property(P2, use_all_inds=True)
            H.make_property(P, overwrite=True)
    else:
        H.make_property(P)
    ev = dict(real=lambda a, b: a + b, int=lambda a, b: b * 2, bool=lambda a, b: b > 0, list=lambda a, b: b + 1)[kind]
    want = [ev(obj(m)[i], obj(v)[i]) for i in act]
    got = obj(H.return_property('w'))
    ctx.check(len(got) == len(act), 'one value per active object')
    for g, w in zip(got, want):
        ctx.check(iff(w, g != 0) if kind == 'bool' else g == w, 'value')
    full = obj(H.return_property('w', use_all_inds=True))
    ctx.check(len(full) == n, 'one value per object')
    for i in range(n):
        if i not in act:
            ctx.check(bool(np.isnan(full[i])), 'nan for objects not selected')
        else:
            ctx.check(iff(want[act.index(i)], full[i] != 0) if kind == 'bool' else full[i] == want[act.index(i)], 'value in place')
    if len(act) == n and kind in ('int', 'list'):
        ctx.check(np.dtype(H.return_property('w').dtype).kind == 'i', 'whole numbers stay whole numbers')
    follows(ctx, H, dict(mass=m, v=v), [x >= lo for x in obj(m)], 'selection unchanged')
    # a restricted selection is never written to disk
    P3 = G.Prop('disk', lambda mass: mass + 1, ['mass'])
    refused = ctx.raises(ValueError, H.make_property, P3, write_to_disk=True)
    ctx.check(refused == (len(act) < n), 'only complete properties go to disk')
    H.make_property(P3, rename='disk2', use_all_inds=True, write_to_disk=True)
    with ctx.h5.File(H.path, 'r') as f:
        ctx.check(('disk' in f['snap_000'].keys()) == (not refused), 'refused writing leaves the file alone')
        ctx.check_eq(f['snap_000']['disk2'][:], [x + 1 for x in obj(m)], 'complete property on disk')


@harness(configs=[dict(n=3, sel=s) for s in (False, True)])
def statistics(ctx, n, sel):
    """statistics are of the active objects unless all are asked for"""
    m, v, H = cat(ctx, n)
    lo = ctx.real('lo', -5, 5)
    H.set_property_range('mass', pmin=lo)
    got = H.eval_stat(lambda a, b: [np.size(a), sum(obj(b), 0.0)], ['a', 'b'], kw_remap={'a': 'mass', 'b': 'v'}, use_all_inds=sel)
    inn = [True if sel else x >= lo for x in obj(m)]
    ctx.check_eq(got[0], sum((ite(c, 1, 0) for c in inn), 0), 'number of objects')
    ctx.check_eq(got[1], sum((ite(c, x, 0.0) for c, x in zip(inn, obj(v))), 0.0), 'sum')
