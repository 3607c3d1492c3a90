"""H03: what a catalog handler says about its properties, what it returns and what is on disk stay consistent through any history."""
import warnings
import numpy as np
from vsx.core import harness
from vsx.spec import obj
from checks._handler import make_handler, hpow

FUNCTIONS = ['_handlers.Handler.' + m for m in ('__init__', 'extract_keys', 'has_property', 'has_loaded', 'load_property', 'unload_property', 'return_property', 'make_property', 'write_property', 'delete_property')]
BOUNDS = 'every history of up to 3 (thorough: 4) operations out of 18 on a catalog of 2 objects, two properties on disk and one derived (its name contains that of another), derived one at a time or two at once; all values symbolic'
OUTSIDE = 'two handlers writing the same file; longer histories; deleting the mass column'

OPS = [('load', 'v'), ('load', 'v2'), ('unload', 'v'), ('unload', 'v2'), ('make', 'v2', False), ('make', 'v2', True), ('make', 'v', False), ('make', 'v', True),
       ('write', 'v2', False), ('write', 'v2', True), ('write', 'v', False), ('write', 'v', True), ('delete', 'v'), ('delete', 'v2'), ('reopen',), ('makewrite', 'v2', True), ('both', ('v', 'v2'), True), ('both', ('v2', 'v'), False)]


class Model:
    def __init__(self, disk):
        self.disk, self.mem, self.gen = dict(disk), {}, set()

    def known(self):
        return set(self.disk) | set(self.mem)

    def step(self, op, new):
        """apply; returns False when the operation has to be refused"""
        k, p = op[0], op[1] if len(op) > 1 else None
        if k == 'load':
            if p not in self.disk:
                return False
            self.mem[p] = self.disk[p]
        elif k == 'unload':
            self.mem.pop(p, None)
            if p not in self.disk:
                self.gen.discard(p)
        elif k in ('make', 'makewrite'):
            if p in self.known() and not op[2]:
                return False
            if p not in self.known():
                self.gen.add(p)
            self.mem[p] = new
            if k == 'makewrite':
                self.disk[p] = new
        elif k == 'both':
            if any(q in self.known() for q in p) and not op[2]:
                return False
            for q, x in zip(p, new):
                if q not in self.known():
                    self.gen.add(q)
                self.mem[q] = x
        elif k == 'write':
            if p not in self.mem or (p in self.disk and not op[2]):
                return False
            self.disk[p] = self.mem[p]
        elif k == 'delete':
            if p not in self.disk:
                return False
            del self.disk[p]
            self.mem.pop(p, None)
            self.gen.discard(p)
        elif k == 'reopen':
            self.mem, self.gen = {}, set()
        return True


def agree(ctx, H, M, h, label):
    e = H.extract_keys
    ctx.check(sorted(e()) == sorted(M.known()) == sorted(set(e('any'))), label + ': keys')
    ctx.check(sorted(e('saved')) == sorted(M.disk), label + ': saved keys')
    ctx.check(sorted(e('loaded')) == sorted(M.mem), label + ': loaded keys')
    ctx.check(sorted(e('generated')) == sorted(M.gen), label + ': generated keys')
    for p in ('mass', 'v', 'v2'):
        ctx.check(H.has_property(p) == (p in M.known()) and H.has_loaded(p) == (p in M.mem), label + ': has_property and has_loaded')
        if p not in M.known():
            ctx.check(ctx.raises(ValueError, H.return_property, p), label + ': unknown property refused')
            continue
        val, dep, unit = M.mem.get(p, M.disk.get(p))
        r = H.return_property(p, in_h_units=True)
        ctx.check_eq(r, val, label + ': value')
        r[:] = 3
        ctx.check_eq(H.return_property(p, in_h_units=False), [x * hpow(h, dep) for x in obj(val)], label + ': value without h')
        ctx.check(H.properties_units[p] == unit and H.properties_h_dependence[p] == dep, label + ': units')
    with ctx.h5.File(H.path, 'r') as f:
        g = f['snap_000']
        ctx.check(sorted(g.keys()) == sorted(list(M.disk) + ['mass_cuts']), label + ': on disk')
        for p, (val, dep, unit) in M.disk.items():
            ctx.check_eq(g[p][:], val, label + ': value on disk')
            ctx.check(g[p].attrs['units'] == unit and g[p].attrs['h dependence'] == dep, label + ': units on disk')
            ctx.check(('userdefined' in g[p].attrs.keys()) == (unit not in ('u_mass', 'u_v')) or p == 'v', label + ': marked as user-defined')
        ctx.check_eq(g['mass_cuts'][:], [1.0, 2.0], label + ': mass cuts untouched')


def run(ctx, first, depth):
    Hm = ctx.mod('simim._handlers')
    G = ctx.mod('simim.galprops.galprops')
    h = 0.5
    m = ctx.array('m', (2,), -4, 4)
    v = ctx.array('v', (2,), -4, 4, kind='int')
    H = make_handler(ctx, dict(mass=(m, -1), v=(v, 1)), h, mass_cuts=np.array([1.0, 2.0]))
    M = Model({'mass': (m, -1, 'u_mass'), 'v': (v, 1, 'u_v')})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for k in range(depth):
            op = tuple(first) if k == 0 else OPS[ctx.choice('op%d' % k, range(len(OPS)))]
            new = ([x * float(k + 2) for x in obj(m)], k - 3, 'unit%d' % k)
            given = []

            def f1(mass, k=k):
                given.append(mass * float(k + 2))
                return given[-1]

            def f2(mass, k=k):
                b = mass * float(k + 3)
                given.append(b)
                return [f1(mass), b]
            if op[0] == 'both':
                new = [new, ([x * float(k + 3) for x in obj(m)], k - 4, 'other%d' % k)]
                P = G.MultiProp(list(op[1]), f2, ['mass'], give_args_in_h_units=True, function_return_in_h_units=True, units=['unit%d' % k, 'other%d' % k], h_dependence=[k - 3, k - 4])
            else:
                P = G.Prop(op[1] if len(op) > 1 else 'q', f1, ['mass'], give_args_in_h_units=True, function_return_in_h_units=True, units='unit%d' % k, h_dependence=k - 3)
            ok = M.step(op, new)
            if op[0] == 'reopen':
                H = Hm.Handler(H.path, 'catalog', 'snap_000', False)
            else:
                f, a, kw = dict(load=(H.load_property, op[1:2], {}), unload=(H.unload_property, op[1:2], {}), delete=(H.delete_property, op[1:2], {}),
                                make=(H.make_property, (P,), dict(overwrite=op[-1])), both=(H.make_property, (P,), dict(overwrite=op[-1])), write=(H.write_property, op[1:2], dict(overwrite=op[-1])),
                                makewrite=(H.make_property, (P,), dict(overwrite=True, write_to_disk=True, overwrite_to_disk=True)))[op[0]]
                ctx.check(ctx.raises(ValueError, f, *a, **kw) == (not ok), '%s: refused exactly when it has to be' % op[0])
                # what the caller does with the arrays it gave or got is its own affair
                for x in given:
                    x[:] = 5.0
            agree(ctx, H, M, h, 'after ' + op[0])
    agree(ctx, Hm.Handler(H.path, 'catalog', 'snap_000', True), type('M', (), dict(disk=M.disk, mem={}, gen=set(), known=lambda s=0: set(M.disk)))(), h, 'reopened')


@harness(configs=[dict(first=o, depth=3) for o in OPS], thorough=[dict(first=o, depth=4) for o in OPS], max_paths=20000, witness=3)
def histories(ctx, first, depth):
    """every history of operations"""
    run(ctx, first, depth)


@harness(configs=[dict(keep=k, names=n) for k in ('load', 'make') for n in (None, 'one', ['a1', 'b1'])])
def several(ctx, keep, names):
    """several properties at once, renamed; the handler's key lists are not handed out"""
    G = ctx.mod('simim.galprops.galprops')
    m, v = ctx.array('m', (2,)), ctx.array('v', (2,))
    H = make_handler(ctx, dict(mass=(m, 0), v=(v, 0)), 0.5)
    if names == 'one':
        P, want = G.Prop('a', lambda mass, v: mass - v, ['mass', 'v'], units='A'), {'one': ([a - b for a, b in zip(obj(m), obj(v))], 'A')}
    else:
        P = G.MultiProp(['a', 'b'], lambda mass, v: [mass - v, v * 2.0], ['mass', 'v'], units=['A', 'B'])
        x, y = names or ['a', 'b']
        want = {x: ([a - b for a, b in zip(obj(m), obj(v))], 'A'), y: ([b * 2.0 for b in obj(v)], 'B')}
    ctx.check(ctx.raises(ValueError, H.make_property, P, rename=['p', 'q', 'r']), 'wrong number of names refused')
    H.make_property(P, rename=names, write_to_disk=True, unload_to_disk=keep == 'load')
    for k in ('any', 'saved', 'loaded', 'generated'):
        H.extract_keys(k).append('nonsense')
    ctx.check(sorted(H.extract_keys()) == sorted(['mass', 'v'] + list(want)), 'keys')
    ctx.check(sorted(H.extract_keys('loaded')) == ([] if keep == 'load' else sorted(want)), 'loaded')
    if keep == 'load':
        H.load_property(*want)
    for k, (val, unit) in want.items():
        ctx.check_eq(H.return_property(k), val, 'value')
        ctx.check(H.properties_units[k] == unit, 'units')
    ctx.check(list(P.names) == (['a'] if names == 'one' else ['a', 'b']), 'the property itself keeps its names')
    for f, a in ((H.load_property, ('v', 'nothing')), (H.delete_property, tuple(want) + ('nothing',)), (H.write_property, ('v', 'nothing'))):
        ctx.check(ctx.raises(ValueError, f, *a), 'refused together')
    if keep == 'make':
        H.make_property(G.Prop('new', lambda mass: mass, ['mass']))
        ctx.check(ctx.raises(ValueError, H.write_property, 'new', *want), 'refused together')
        H.unload_property('new')
    ctx.check(sorted(H.extract_keys('saved')) == sorted(H.extract_keys()) == sorted(['mass', 'v'] + list(want)) and sorted(H.extract_keys('loaded')) == sorted(want), 'nothing changed')
    with ctx.h5.File(H.path, 'r') as f:
        ctx.check(sorted(f['snap_000'].keys()) == sorted(['mass', 'v'] + list(want)), 'nothing changed on disk')
    H.unload_property(*want)
    H.delete_property(*want)
    ctx.check(sorted(H.extract_keys()) == ['mass', 'v'] and ctx.raises(ValueError, H.extract_keys, 'other'), 'all deleted')


@harness(configs=[dict(old=o, new=n, dtype=d) for o in ('int', 'real') for n in ('int', 'real') for d in (None, 'f8')])
def types(ctx, old, new, dtype):
    """values written over others are stored as they are"""
    G = ctx.mod('simim.galprops.galprops')
    m = ctx.array('m', (2,))
    v = ctx.array('v', (2,), -4, 4, kind=old)
    w = ctx.array('w', (2,), -4, 4, kind=new)
    H = make_handler(ctx, dict(mass=(m, 0), v=(v, 0), w=(w, 0)), 0.5)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        H.make_property(G.Prop('v', lambda w: w, ['w']), overwrite=True, write_to_disk=True, overwrite_to_disk=True, dtype_to_disk=dtype)
        H.unload_property('v')
    r = H.return_property('v')
    ctx.check_eq(r, w, 'value')
    ctx.check(np.dtype(r.dtype).kind == ('i' if new == 'int' and dtype is None else 'f'), 'type')
