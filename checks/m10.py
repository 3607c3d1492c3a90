"""M10: after any history of operations a map holds what the operations, one by one, should have made of it."""
import os
import math
import numpy as np
from vsx.core import harness
from vsx.spec import obj
from checks._map import make_grid, check_geometry
from checks.m06 import parts

FUNCTIONS = ['map.gridder.Grid.' + m for m in ('__init__', 'init_grid', 'add_new_prop', 'add_from_cat', 'sum_properties', 'sample', 'down_sample', 'collapse_dimension', 'fourier_transform', 'pad', 'crop', 'scale_axis', 'copy', 'save')] + ['map.gridder.LoadGrid']
BOUNDS = 'every history of 3 (thorough: 4) operations out of 18 on a map of 2x2 (thorough also 4x1) cells with 1 property; all contents, values and weights symbolic'
OUTSIDE = 'arguments beyond the ones listed in the check (varied in the checks of the single operations)'


class Model:
    """what the map should be: cells, cell sizes, centre, contents, units, Fourier space"""
    def __init__(self, n, px, c, D, units, axunits):
        self.n, self.px, self.c, self.units, self.axunits = list(n), list(px), list(c), list(units), list(axunits)
        self.R, self.I = D, D * 0.0
        self.cplx, self.count, self.fs, self.active = False, 0, [False] * len(n), True

    def copy(self, props=None):
        m = Model(self.n, self.px, self.c, self.R, self.units, self.axunits)
        m.R, m.I, m.cplx, m.count, m.fs, m.active = self.R.copy(), self.I.copy(), self.cplx, self.count, list(self.fs), self.active
        if props is not None:
            m.R, m.I, m.units = self.R[..., props], self.I[..., props], [self.units[k] for k in props]
        return m

    def lo(self, d):
        return self.c[d] - self.n[d] * self.px[d] / 2

    def both(self, f):
        self.R, self.I = f(self.R), f(self.I)

    def join(self, R, I=None, unit=None):
        self.R = np.concatenate([self.R, R[..., None]], axis=-1)
        self.I = np.concatenate([self.I, (R * 0.0 if I is None else I)[..., None]], axis=-1)
        self.units.append(unit)

    def dft(self, d):
        n, inv = self.n[d], self.fs[d]
        R, I = np.moveaxis(self.R, d, 0), np.moveaxis(self.I, d, 0)
        s = (1 if inv else -1) * 2 * math.pi / n
        f = 1 / (n * self.px[d]) if inv else self.px[d]
        oR, oI = [], []
        for o in range(n):
            r, i = 0.0, 0.0
            for k in range(n):
                # frequencies are in ascending order; positions are counted from the first cell
                ph = s * ((k - n // 2) * o if inv else k * (o - n // 2))
                co, si = round(math.cos(ph), 15) + 0.0, round(math.sin(ph), 15) + 0.0
                r = r + R[k] * co - I[k] * si
                i = i + R[k] * si + I[k] * co
            oR.append(r * f)
            oI.append(i * f)
        self.R, self.I = np.moveaxis(np.array(oR, dtype=object), 0, d), np.moveaxis(np.array(oI, dtype=object), 0, d)
        self.fs[d], self.cplx = not inv, True


def agree(ctx, g, m, label):
    check_geometry(ctx, g, m.n, m.px, m.c, label)
    ctx.check(int(g.n_properties) == len(m.units) and list(g.gridunits) == m.units, label + ': properties')
    ctx.check(list(g.axunits) == m.axunits and list(g.fourier_axunits) == [u + '^-1' for u in m.axunits], label + ': axis units')
    ctx.check([bool(x) for x in g.fourier_space] == m.fs, label + ': space')
    ctx.check(not g.is_power_spectrum and bool(g.grid_active) == m.active, label + ': state')
    if not m.active:
        return
    ctx.check(int(g.n_objects) == m.count, label + ': objects')
    re, im = parts(g.grid)
    ctx.check_eq(re, m.R, label + ': contents')
    if m.cplx:
        ctx.check_eq(im, m.I, label + ': imaginary part')


OPS = ('init', 'new', 'given', 'add', 'addnew', 'pad', 'unpad', 'crop', 'scale', 'down', 'collapse', 'sum', 'fourier', 'other', 'copy', 'save', 'convolve', 'flatten')
NEED = ('given', 'add', 'addnew', 'collapse', 'sum', 'fourier', 'other', 'convolve', 'flatten')


def step(ctx, g, m, op, k):
    """does the operation to the map; returns the map to go on with, the model of it, and the one left behind"""
    nd = len(m.n)
    last = nd - 1
    old = None
    if not m.active and op in NEED:
        v = np.array([[0.0] * nd])
        f = {'given': lambda: g.add_new_prop(np.zeros(tuple(m.n))), 'add': lambda: g.add_from_cat(v), 'addnew': lambda: g.add_from_cat(v, new_props=True), 'collapse': lambda: g.collapse_dimension(0), 'sum': g.sum_properties,
             'fourier': g.fourier_transform, 'other': g.fourier_transform, 'convolve': lambda: g.convolve(make_grid(ctx, (2,), (1.0,), 1, [0.0])), 'flatten': lambda: g.collapse_dimension(0)}[op]
        ctx.check(ctx.raises(ValueError, f), 'refused without contents')
        return g, m, None
    if op == 'init':
        m.active = True
        g.init_grid()
        m.R, m.I, m.cplx, m.count = m.R * 0.0, m.I * 0.0, False, 0
    elif op == 'new':
        g.add_new_prop()
        m.join(m.R[..., 0] * 0.0)
    elif op == 'given':
        v = ctx.array('v%d' % k, tuple(m.n), -2, 2)
        g.add_new_prop(v)
        m.join(obj(v))
    elif op in ('add', 'addnew'):
        if any(m.fs):
            ctx.check(ctx.raises(ValueError, g.add_from_cat, np.array([[0.0] * nd])), 'refused in Fourier space')
            return g, m, None
        v = ctx.array('o%d' % k, (3, 1), -2, 2)
        at = [tuple(0 for d in m.n), tuple(n - 1 for n in m.n)]
        pos = [[m.lo(d) + (a[d] + 0.25) * m.px[d] for d in range(nd)] for a in at] + [[m.lo(d) - m.px[d] for d in range(nd)]]
        new = m.R[..., 0] * 0.0
        for a, x in zip(at, obj(v)[:, 0]):
            new[a] = new[a] + x
        if op == 'add':
            g.add_from_cat(np.array(pos), v, properties=0)
            m.R = m.R.copy()
            m.R[..., 0] = m.R[..., 0] + new
        else:
            g.add_from_cat(np.array(pos), v, new_props=True)
            m.join(new)
        m.count += 2
    elif op in ('pad', 'unpad'):
        s = 1 if op == 'pad' else -1
        if m.n[last] + 2 * s < 1:
            ctx.check(ctx.raises(ValueError, g.pad, last, s), 'more cells than there are')
            return g, m, None
        if m.n[last] > 4 and s > 0:
            return g, m, None
        g.pad(last, s)
        w = [(0, 0)] * (nd + 1)
        w[last] = (1, 1)
        sl = [slice(None)] * (nd + 1)
        sl[last] = slice(1, -1)
        m.both((lambda x: np.pad(x, w, constant_values=0.0)) if s > 0 else (lambda x: x[tuple(sl)]))
        if m.fs[last]:
            m.px[last] = m.px[last] * m.n[last] / (m.n[last] + 2 * s)
        m.n[last] += 2 * s
    elif op == 'crop':
        lim = m.lo(0) + m.px[0]
        if m.fs[0] or m.n[0] == 1:
            ctx.check(ctx.raises(ValueError, g.crop, 0, lim), 'refused')
            return g, m, None
        g.crop(0, lim)
        m.both(lambda x: x[1:])
        m.n[0] -= 1
        m.c[0] += m.px[0] / 2
    elif op == 'scale':
        g.scale_axis((last, 0) if nd > 1 else 0, (2.0, 0.5) if nd > 1 else 0.5, axunits='new')
        for d, f in ((last, 2.0), (0, 0.5)) if nd > 1 else ((0, 0.5),):
            m.px[d] *= f
            m.c[d] *= f
            m.axunits[d] = 'new'
    elif op == 'down':
        if m.fs[0]:
            ctx.check(ctx.raises(ValueError, g.down_sample, 0, 2), 'refused')
            return g, m, None
        if m.n[0] < 2:
            return g, m, None
        g.down_sample(0, 2, mode='sum')
        k2 = m.n[0] // 2
        m.both(lambda x: np.array([x[2 * i] + x[2 * i + 1] for i in range(k2)], dtype=object))
        lo = m.lo(0)
        m.n[0], m.px[0] = k2, m.px[0] * 2
        m.c[0] = lo + k2 * m.px[0] / 2
    elif op == 'collapse':
        if nd == 1:
            return g, m, None
        w = ctx.array('w%d' % k, (m.n[0],), 1, 2)
        old = (g, m.copy())
        g = g.collapse_dimension(0, in_place=False, weights=w, mode='sum')
        W = obj(w)
        m = m.copy()
        m.both(lambda x: sum(x[i] * W[i] for i in range(len(W))))
        for l in (m.n, m.px, m.c, m.axunits, m.fs):
            l.pop(0)
    elif op == 'flatten':
        if nd == 1:
            return g, m, None
        g.collapse_dimension(last)
        m.both(lambda x: np.sum(x, axis=last) / m.n[last])
        for l in (m.n, m.px, m.c, m.axunits, m.fs):
            l.pop(last)
    elif op == 'convolve':
        src = make_grid(ctx, (3,), (m.px[0],), 1, [0.0])
        b = ctx.array('b%d' % k, (3, 1), -2, 2)
        src.grid = b
        if any(m.fs):
            ctx.check(ctx.raises(ValueError, g.convolve, src, ax=0), 'refused in Fourier space')
            return g, m, None
        old = (g, m.copy())
        g, m = g.convolve(src, ax=0, in_place=False), m.copy()
        B = obj(b)[:, 0]
        m.both(lambda x: np.array([sum(B[j] * x[i + 1 - j] for j in range(3) if 0 <= i + 1 - j < len(x)) for i in range(len(x))], dtype=object))
    elif op == 'sum':
        g.sum_properties()
        m.join(np.sum(m.R, axis=-1), np.sum(m.I, axis=-1))
    elif op == 'fourier':
        g.fourier_transform(0)
        m.dft(0)
    elif op == 'other':
        if nd == 1:
            return g, m, None
        g.fourier_transform([last])
        m.dft(last)
    elif op == 'copy':
        props = list(range(len(m.units)))[::-1]
        old = (g, m.copy())
        g, m = g.copy(tuple(props)), m.copy(props)
    elif op == 'save':
        p = os.path.join(ctx.tmp, 'map%d' % k)
        g.save(p)
        old = (g, m.copy())
        g, m = ctx.mod('simim.map.gridder').LoadGrid(p + '.npz'), m.copy()
    return g, m, old


def run(ctx, npix, first, depth, active=True):
    c = [0.5, -1.0]
    g = make_grid(ctx, npix, (0.5, 2.0), 1, c, active=active, axunits=['deg', 'GHz'], gridunits=['Jy'])
    if active:
        d = ctx.array('g', tuple(npix) + (1,), -2, 2)
        g.grid = d
    else:
        d = np.zeros(tuple(npix) + (1,))
    m = Model(npix, (0.5, 2.0), c, obj(d).copy(), ['Jy'], ['deg', 'GHz'])
    m.active = active
    left = []
    for k in range(depth):
        op = first if k == 0 else ctx.choice('op%d' % k, OPS)
        g, m, old = step(ctx, g, m, op, k)
        if old:
            left.append(old)
        agree(ctx, g, m, 'after operation %d' % (k + 1))
    for a, b in left:
        agree(ctx, a, b, 'the map before')


@harness(configs=[dict(npix=(2, 2), first=o, depth=3) for o in OPS], thorough=[dict(npix=n, first=o, depth=d) for n, d in (((4, 1), 3), ((2, 2), 4)) for o in OPS], max_paths=20000, witness=3)
def histories(ctx, npix, first, depth):
    """every history of operations"""
    run(ctx, npix, first, depth)


@harness(configs=[dict(first=o) for o in OPS if o not in NEED], max_paths=20000, witness=3)
def without_contents(ctx, first):
    """histories which start before the map has contents"""
    run(ctx, (2, 2), first, 3, False)
