"""I02: sampling an instrument returns its detectors' up-to-date maps at their pointings plus their noise, and refuses when the maps are out of date."""
import numpy as np
from vsx.core import harness
from vsx.spec import obj, total, all_, ite
from checks._map import inside_cell, edges_of, cells
from checks._inst import PX, UN, quiet, field, beamed, banded

FUNCTIONS = ['instrument.instrument.Instrument.' + m for m in ('sample_fields', 'map_fields', '_find_pointing_clones', 'add_detector', 'del_detectors', 'add_field', 'del_fields', '_set_response')] + ['map.gridder.Grid.sample']
BOUNDS = 'histories of 2 (thorough: 3) calls out of 20, chosen by the solver, after mapping two fields with two detectors; sampling positions, pointing offsets, map contents and noise symbolic, up to 3 detectors and 3 positions'
OUTSIDE = 'fields or detector records changed behind the back of the instrument; longer histories'


class Model:
    """what the instrument should hold, kept independently of it"""

    def __init__(self, ctx):
        self.ctx = ctx
        I = ctx.mod('simim.instrument.instrument')
        self.sp = lambda x, y, f, m=1.0: ctx.np.array([[[m * (1.0 + 0.5 * i)] * len(f)] for i in range(len(x))])
        self.sq = lambda x, y, f, m=1.0: ctx.np.array([[[m * (2.0 - 0.5 * i)] * len(f)] for i in range(len(x))])
        self.bd = lambda f, w=(1.0, 1.0): ctx.np.array(list(w))
        self.inst = I.Instrument(default_spatial_response=self.sp, default_spatial_kwargs={}, default_spectral_response=self.bd, default_spectral_kwargs={},
                                 default_noise_function='none', default_noise_kwargs={}, **UN)
        self.dets = {}
        self.fields = {}
        self.mapped = {}
        self.fuzzy = set()
        self.n = 0
        self.default = (self.sp, 1.0)

    def det(self, name, sp, m, w):
        self.inst.add_detector(name, nominal_frequency=100.0, spatial_response=sp, spatial_kwargs=dict(m=m), spectral_kwargs=dict(w=w))
        self.dets[name] = [sp, m, w]

    def field(self, name):
        self.n += 1
        g, D = field(self.ctx, 'g%d' % self.n, (2, 1, 2), lo=-2, hi=2)
        self.inst.add_field(g, name)
        self.fields[name] = D
        self.mapped.pop(name, None)

    def changed(self):
        self.mapped.clear()
        self.fuzzy.clear()

    def map(self, *names):
        self.inst.map_fields(*names, kernel_size=(3, 1), spatial_response_norm='none')
        for f in names or list(self.fields):
            self.mapped[f] = self.image(f)
            self.fuzzy.discard(f)

    def image(self, f):
        out = []
        for sp, m, w in self.dets.values():
            B = np.array([[[m * (1.0 + 0.5 * i if sp is self.sp else 2.0 - 0.5 * i)] * 2] for i in range(3)])
            out.append(banded(beamed(self.fields[f][..., 0], B), w))
        return np.stack(out, axis=-1)

    def verify(self):
        ctx = self.ctx
        pos = ctx.np.array([[0.75, -2.0], [1.25, -2.0]])
        names = list(self.fields)
        ctx.check(list(self.inst.field_names) == names and list(self.inst.fields) == names, 'the fields')
        ctx.check(list(self.inst.detector_names) == list(self.dets) and list(self.inst.detectors) == list(self.dets), 'the detectors')
        for f in names:
            try:
                s = self.inst.sample_fields(pos, f, sample_noise=False)
            except ValueError:
                ctx.check(f not in self.mapped or f in self.fuzzy, 'an up-to-date map can be sampled')
                continue
            ctx.check(f in self.mapped, 'an out-of-date map is not sampled')
            ctx.check_eq(s, self.mapped[f][:, 0, :], 'samples')
        if names and (len(self.mapped) < len(names)):
            ctx.check(ctx.raises(ValueError, self.inst.sample_fields, pos, sample_noise=False), 'out-of-date maps are not sampled')


def op(M, k):
    ctx, inst = M.ctx, M.inst
    last = list(M.dets)[-1] if M.dets else None
    if k == 'add':
        M.det('n%d' % M.n, M.sq, 1.0, (1.0, 3.0))
        M.n += 1
        M.changed()
    elif k == 'add default':
        name = str(inst.detector_counter)
        inst.add_detector(nominal_frequency=100.0)
        M.dets[name] = [M.default[0], M.default[1], (1.0, 1.0)]
        M.changed()
    elif k == 'add clash':
        ctx.check(ctx.raises(ValueError, inst.add_detector, list(M.dets)[0], nominal_frequency=1.0), 'a name in use is refused')
    elif k == 'add bad':
        ctx.check(ctx.raises(ValueError, inst.add_detector, 'bad', nominal_frequency=1.0, spectral_response='triangle'), 'an unknown response is refused')
    elif k == 'add bad noise':
        ctx.check(ctx.raises(ValueError, inst.add_detector, 'bad', nominal_frequency=1.0, noise_function=3), 'an unknown noise is refused')
    elif k == 'add bad pointing':
        ctx.check(ctx.raises(ValueError, inst.add_detector, 'bad', nominal_frequency=1.0, pointing_offsets=(1, 2, 3)), 'a bad pointing is refused')
    elif k == 'del':
        inst.del_detectors('d0')
        M.dets.pop('d0')
        M.changed()
    elif k == 'del unknown':
        ctx.check(ctx.raises(ValueError, inst.del_detectors, last, 'nobody'), 'an unknown detector is refused')
    elif k == 'spatial one':
        inst.set_spatial_respones(last, spatial_response=M.sq, spatial_kwargs=dict(m=0.25))
        M.dets[last][:2] = [M.sq, 0.25]
        M.changed()
    elif k == 'spatial all':
        inst.set_spatial_respones(spatial_response=M.sp, spatial_kwargs=dict(m=3.0))
        for d in M.dets.values():
            d[:2] = [M.sp, 3.0]
        M.changed()
    elif k == 'spatial default':
        inst.set_spatial_respones('instrument', spatial_response=M.sq, spatial_kwargs=dict(m=0.5))
        M.default = (M.sq, 0.5)
    elif k == 'spectral some':
        inst.set_spectral_respones('instrument', last, spectral_response=M.bd, spectral_kwargs=dict(w=(1.0, 1.0)))
        M.dets[last][2] = (1.0, 1.0)
        M.changed()
    elif k == 'spectral bad':
        ctx.check(ctx.raises(ValueError, inst.set_spectral_respones, last, 'nobody', spectral_response=M.bd), 'an unknown detector is refused')
        ctx.check(ctx.raises(ValueError, inst.set_spectral_respones, last, spectral_response=M.bd, spectral_kwargs=5), 'bad arguments are refused')
    elif k == 'noise':
        inst.set_noise_functions(last, noise_function='white', noise_kwargs=dict(rms=2))
        M.fuzzy |= set(M.mapped)
    elif k == 'field new':
        M.field('f%d' % M.n)
    elif k == 'field del':
        inst.del_fields('a')
        M.fields.pop('a')
        M.mapped.pop('a', None)
    elif k == 'field replace':
        inst.del_fields('b')
        M.fields.pop('b')
        M.mapped.pop('b', None)
        M.field('b')
    elif k == 'field bad':
        g, _ = field(ctx, 'h%d' % M.n, (2, 1, 2))
        ctx.check(ctx.raises(ValueError, inst.add_field, g, list(M.fields)[0]), 'a name in use is refused')
        ctx.check(ctx.raises(ValueError, inst.del_fields, 'b', 'nobody'), 'an unknown field is refused')
    elif k == 'map one':
        M.map('b')
    elif k == 'map all':
        M.map()
    elif k == 'map bad':
        ctx.check(ctx.raises(ValueError, inst.map_fields, 'b', 'nobody', kernel_size=(3, 1)), 'an unknown field is refused')


OPS = ['add', 'add default', 'add clash', 'add bad', 'add bad noise', 'add bad pointing', 'del', 'del unknown', 'spatial one', 'spatial all', 'spatial default', 'spectral some', 'spectral bad', 'noise', 'field new',
       'field del', 'field replace', 'field bad', 'map one', 'map all', 'map bad']


def run(ctx, first, n):
    c = quiet()
    try:
        M = Model(ctx)
        M.det('d0', M.sp, 1.0, (1.0, 1.0))
        M.det('d1', M.sp, 0.5, (3.0, 1.0))
        M.field('a')
        M.field('b')
        M.map()
        M.verify()
        done = []
        for i in range(n):
            free = [k for k in OPS if not (k == 'del' and 'd0' not in M.dets) and not (k == 'field del' and 'a' not in M.fields)]
            k = first if i == 0 else ctx.choice('op%d' % i, free)
            op(M, k)
            M.verify()
    finally:
        c.__exit__(None, None, None)


@harness(configs=[dict(first=o) for o in OPS], thorough=[dict(first=o, n=3) for o in OPS], max_paths=4000)
def histories(ctx, first, n=2):
    """after any short history the maps are up to date or refuse to be sampled"""
    run(ctx, first, n)


@harness(configs=[dict(offs=o, np_=n, noise=w, which=f) for (o, n, w, f) in (
    (((0, 0), (1, 0), (0, 0)), 2, False, 'a'), (((0, 0), 's', 's'), 1, False, 'a'), (('s', (0, 0), 't'), 1, True, 'b'), (('s', (1.0, 0.25), 's'), 1, True, None), (((0, 0), (0, 0), (0, 0)), 1, True, 'a'), (((0.5, -0.25), (0.5, 0), (0.5, -0.25)), 2, True, 'b'),
    (((0, 0), (0, 0), (0, 0)), 0, False, None), (((0, 0), 's'), 2, True, 'b'), (('s', 's'), 1, False, 'b'), (('s',), 1, True, 'a'))], max_paths=3000)
def sampling(ctx, offs, np_, noise, which):
    """each detector samples its own map where it points, the cell containing position plus offset, plus its own noise"""
    c = quiet()
    I = ctx.mod('simim.instrument.instrument')
    inst = I.Instrument(default_spatial_response=lambda x, y, f: ctx.np.ones((len(x), len(y), len(f))), default_spatial_kwargs={}, default_spectral_response=lambda f, w: ctx.np.array(list(w)),
                        default_noise_function='none', default_noise_kwargs={}, **UN)
    sym = {k: (ctx.real(k + 'x', -1, 1), ctx.real(k + 'y', -1, 1)) for k in 'st'}
    calls, N, O = [], [], []
    W = [(1.0, 0.0), (0.0, 1.0), (1.0, 1.0)]
    for i, o in enumerate(offs):
        o = sym.get(o, o) if isinstance(o, str) else o
        kw = {} if o == (0, 0) else dict(pointing_offsets=o)
        O.append(o)
        N.append(obj(ctx.array('n%d' % i, (np_,))).copy())

        def nf(n, dt, i=0, **k):
            calls.append((i, n, dt, k))
            return ctx.np.array(list(N[i]), dtype=float)
        inst.add_detector('d%d' % i, nominal_frequency=100.0, spectral_kwargs=dict(w=W[i]), **(dict(noise_function=nf, noise_kwargs=dict(i=i, q=7)) if noise else {}), **kw)
    D, E = {}, {}
    for n, s in (('a', (2, 2, 2)), ('b', (3, 1, 2))):
        g, D[n] = field(ctx, n, s)
        E[n] = edges_of(s[:2], PX[:2], (1.0, -2.0))
        inst.add_field(g, n)
    inst.map_fields(kernel_size=(1, 1))
    pos = ctx.array('p', (np_, 2), -3, 3)
    P = obj(pos).copy()
    dt = ctx.real('dt', 0.25, 4)
    names = (which,) if which else ('a', 'b')
    a = () if which is None else (which,)
    got = inst.sample_fields(pos, *a, sample_noise=noise, **(dict(dt=dt) if noise else {}))
    if noise:
        ctx.check(sorted(x[0] for x in calls) == sorted(list(range(len(offs))) * len(names)) and all(x[1] == np_ and x[3] == dict(q=7) for x in calls), 'noise drawn once per detector and field')
        for x in calls:
            ctx.check_eq(x[2], dt, 'timestep given to the noise')
    ctx.check(isinstance(got, dict) == (which is None), 'an array for one field, a dictionary for several')
    if which is None:
        ctx.check(list(got) == ['a', 'b'], 'one entry per field')
    for n in names:
        s = got[n] if which is None else got
        ctx.check(tuple(np.shape(s)) == (np_, len(offs)), 'samples by detectors')
        S = obj(s).reshape(np_, len(offs))
        for i in range(np_):
            for d in range(len(offs)):
                q = [P[i, 0] + O[d][0], P[i, 1] + O[d][1]]
                w = W[d]
                hit = False
                for cell in cells(E[n]):
                    if inside_cell(q, E[n], cell):
                        v = (D[n][cell + (0, 0)] * w[0] + D[n][cell + (1, 0)] * w[1]) / (w[0] + w[1])
                        ctx.check_eq(S[i, d], v + (N[d][i] if noise else 0.0), 'sample')
                        hit = True
                if not hit:
                    ctx.check_eq(S[i, d], np.nan, 'no sample outside the map')
    ctx.check_eq(pos, P, "the caller's positions are unchanged")
    if noise and np_:
        z = inst.sample_fields(pos, *a, sample_signal=False, dt=dt)
        for n in names:
            ctx.check_eq(z[n] if which is None else z, np.stack(N, axis=1), 'noise alone')
    c.__exit__(None, None, None)


@harness()
def refused(ctx):
    """malformed requests are refused"""
    c = quiet()
    M = Model(ctx)
    M.det('d0', M.sp, 1.0, (1.0, 1.0))
    M.field('a')
    M.map()
    p = ctx.array('p', (2, 2))
    s = M.inst.sample_fields
    for a, k in (((p, 'a'), {}), ((p, 'b'), dict(dt=1)), ((p, 'a', 'a'), dict(dt=1)), ((p[:, 0], 'a'), dict(dt=1)), ((p[:, :1], 'a'), dict(dt=1)), ((p, 'a'), dict(dt=1, sample_noise=False, sample_signal=False))):
        ctx.check(ctx.raises(ValueError, s, *a, **k), 'refused')
    c.__exit__(None, None, None)
