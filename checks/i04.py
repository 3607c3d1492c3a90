"""I04: built-in beams, bands and noise are the documented functions of position, frequency and time step; quick-look plots show the detectors they are asked for."""
import numpy as np
from vsx.core import harness
from vsx.spec import obj, all_, ite, total
from checks._inst import UN, quiet

FUNCTIONS = ['instrument.spatial_response.gauss_psf', 'instrument.spatial_response.gauss_psf_freq_dependent', 'instrument.spectral_response.gauss_response', 'instrument.spectral_response.boxcar_response',
             'instrument.noise_functions.zero_noise', 'instrument.noise_functions.white_noise', 'instrument._helpers._check_shape', 'instrument.instrument.Instrument.plot_detector_response', 'instrument.instrument.Instrument.plot_spectral_response']
BOUNDS = 'up to 3 positions per axis and 3 frequencies, all positions, frequencies, widths, centres and amplitudes symbolic; up to 4 noise samples with every draw symbolic; frequency exponents -1, 0, 1, 2'
OUTSIDE = 'exp is uninterpreted with its monotonicity and positivity, so Gaussians are compared as formulas; the statistics of the generator behind the draws; the look of plots'


def g(ctx, x, w):
    """half maximum at half a width"""
    return -4 * np.log(2) * (x * x / (w * w))


def axis(ctx, name, n, mode):
    v = [ctx.real('%s%d' % (name, i), -3, 3) for i in range(n)]
    if mode == 'scalar':
        return v[0], v[:1]
    if mode == 'list':
        return list(v), v
    return ctx.np.array(list(v)), v


@harness(configs=[dict(n=n, mode=m, given=w) for n, m in (((2, 3, 2), 'array'), ((1, 2, 1), 'list'), ((1, 1, 1), 'scalar'), ((3, 1, 2), 'array')) for w in ((), ('fwhmx', 'fwhmy'), ('fwhmx', 'cy'), ('fwhmx', 'fwhmy', 'cx', 'cy'))], uf=True)
def beam(ctx, n, mode, given):
    """a Gaussian of the given width along each axis about the given centre, the same at every frequency"""
    S = ctx.mod('simim.instrument.spatial_response')
    a = [axis(ctx, k, m, mode) for k, m in zip('xyf', n)]
    kw = {k: ctx.real(k, 0.5, 4) if k[0] == 'f' else ctx.real(k, -2, 2) for k in given}
    full = dict(fwhmx=1, fwhmy=1, cx=0, cy=0)
    full.update(kw)
    r = S.gauss_psf(*[v[0] for v in a], **kw)
    (xs, ys, fs) = [v[1] for v in a]
    ctx.check(tuple(np.shape(r)) == (len(xs), len(ys), len(fs)), 'shape')
    R = obj(r)
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            for k in range(len(fs)):
                ctx.check_eq(R[i, j, k], ctx.np.exp(g(ctx, x - full['cx'], full['fwhmx']) + g(ctx, y - full['cy'], full['fwhmy'])), 'Gaussian profile')


@harness(configs=[dict(n=n, mode=m, e=e, given=w) for (n, m, w) in (((2, 1, 2), 'array', ()), ((1, 2, 2), 'array', ('cy',)), ((1, 1, 2), 'array', ('fwhmx', 'cx')), ((1, 2, 1), 'array', ('fwhmy',)), ((1, 1, 1), 'scalar', ()), ((1, 1, 1), 'scalar', ('fwhmx', 'fwhmy', 'cx'))) for e in (None, 0, 1, 2, -1)], uf=True)
def spectral_beam(ctx, n, mode, e, given):
    """the width at each frequency is the nominal one times (nominal frequency over frequency) to the exponent"""
    S = ctx.mod('simim.instrument.spatial_response')
    a = [axis(ctx, k, m, mode) for k, m in zip('xy', n)]
    fs = [ctx.real('f%d' % i, 0.5, 4) for i in range(n[2])]
    f0 = ctx.real('f0', 0.5, 4)
    kw = {k: ctx.real(k, 0.5, 4) if k[0] == 'f' else ctx.real(k, -2, 2) for k in given}
    full = dict(fwhmx=1, fwhmy=1, cx=0, cy=0)
    full.update(kw)
    if e is not None:
        kw['freq_exp'] = e
    r = S.gauss_psf_freq_dependent(a[0][0], a[1][0], fs[0] if mode == 'scalar' else ctx.np.array(list(fs)), freq0=f0, **kw)
    E = -1 if e is None else e
    R = obj(r)
    xs, ys = a[0][1], a[1][1]
    ctx.check(R.shape == (len(xs), len(ys), len(fs)), 'shape')
    for k, f in enumerate(fs):
        s = f0 / f if E > 0 else f / f0
        m = 1.0
        for _ in range(abs(E)):
            m = m * s
        for i, x in enumerate(xs):
            for j, y in enumerate(ys):
                ctx.check_eq(R[i, j, k], ctx.np.exp(g(ctx, x - full['cx'], full['fwhmx'] * m) + g(ctx, y - full['cy'], full['fwhmy'] * m)), 'Gaussian profile of the channel')


@harness(configs=[dict(mode=m, given=w) for m in ('array', 'list', 'scalar') for w in ((), ('A',), ('freq0', 'fwhm'), ('A', 'freq0', 'fwhm'))], uf=True)
def gauss_band(ctx, mode, given):
    """a Gaussian of given peak, centre and width"""
    S = ctx.mod('simim.instrument.spectral_response')
    a, fs = axis(ctx, 'f', 3, mode)
    kw = {k: ctx.real(k, 0.5, 4) for k in given}
    full = dict(A=1, freq0=100, fwhm=1)
    full.update(kw)
    R = obj(S.gauss_response(a, **kw))
    ctx.check(R.shape == (len(fs),), 'shape')
    for i, f in enumerate(fs):
        ctx.check_eq(R[i], full['A'] * ctx.np.exp(g(ctx, f - full['freq0'], full['fwhm'])), 'Gaussian band')


@harness(configs=[dict(mode=m, given=w) for m in ('array', 'list', 'scalar') for w in ((), ('A',), ('freq0', 'width'), ('A', 'freq0', 'width'))])
def box_band(ctx, mode, given):
    """constant within half a width of the centre, zero outside"""
    S = ctx.mod('simim.instrument.spectral_response')
    kw = {k: ctx.real(k, 0.5, 4) for k in given}
    full = dict(A=1, freq0=100, width=1)
    full.update(kw)
    a, fs = axis(ctx, 'f', 3, mode)
    if 'freq0' not in given:
        fs = [f + 100 for f in fs]
        a = fs[0] if mode == 'scalar' else list(fs) if mode == 'list' else ctx.np.array(list(fs))
    R = obj(S.boxcar_response(a, **kw))
    ctx.check(R.shape == (len(fs),), 'shape')
    for i, f in enumerate(fs):
        inside = all_(2 * (f - full['freq0']) <= full['width'], 2 * (full['freq0'] - f) <= full['width'])
        ctx.check_eq(R[i], ite(inside, full['A'], 0.0), 'box')


@harness()
def bad_axes(ctx):
    """axes of more than one dimension are refused"""
    S, B = ctx.mod('simim.instrument.spatial_response'), ctx.mod('simim.instrument.spectral_response')
    two = ctx.array('t', (2, 2))
    one = ctx.array('o', (2,), 1, 2)
    for f in (S.gauss_psf, S.gauss_psf_freq_dependent):
        for i in range(3):
            ctx.check(ctx.raises(ValueError, f, *[two if j == i else one for j in range(3)]), 'refused')
    for f in (B.gauss_response, B.boxcar_response):
        ctx.check(ctx.raises(ValueError, f, two), 'refused')


@harness(configs=[dict(n=n, given=w) for n in (0, 1, 4) for w in ((), ('rms',), ('bias',), ('rms', 'bias'))])
def noise(ctx, n, given):
    """white noise scatters about its bias by its one-second rms over the root of the time step, drawn only from the generator given"""
    N = ctx.mod('simim.instrument.noise_functions')
    kw = {k: ctx.real(k, 0.25, 4) if k == 'rms' else ctx.real(k, -4, 4) for k in given}
    r = ctx.real('root', 0.5, 2)
    dt = r * r
    rng = ctx.rng('draw')
    got = obj(N.white_noise(n, dt, rng=rng, **kw))
    ctx.check(got.shape == (n,), 'one value per sample')
    again = ctx.rng('draw')
    draws = [again.standard_normal() for _ in range(n)]
    for i in range(n):
        ctx.check_eq((got[i] - kw.get('bias', 0)) * r, kw.get('rms', 1) * draws[i], 'scaled draw')
    z = obj(N.zero_noise(n, dt, rng=rng))
    ctx.check(z.shape == (n,), 'one value per sample')
    ctx.check_eq(z, np.zeros(n), 'no noise')


class Axes:
    def __init__(self, log):
        self.log = log

    def plot(self, x, y, *a, **k):
        self.log.append(('plot', obj(x).copy(), obj(y).copy(), k))

    def pcolor(self, x, y, z, *a, **k):
        self.log.append(('image', obj(x).copy(), obj(y).copy(), obj(z).copy()))

    def axvline(self, x, *a, **k):
        self.log.append(('line', x))

    def __getattr__(self, n):
        return lambda *a, **k: None


class Plt:
    """records what would be drawn"""

    def __init__(self):
        self.log = []

    def subplots(self, *a, **k):
        n = a[1] if len(a) > 1 else k.get('ncols', 1)
        m = a[0] if a else k.get('nrows', 1)
        ax = np.empty(n * m, dtype=object)
        for i in range(n * m):
            ax[i] = Axes(self.log)
        return Axes([]), ax[0] if n * m == 1 else ax

    def __getattr__(self, n):
        return lambda *a, **k: None


def telescope(ctx, freqs):
    I = ctx.mod('simim.instrument.instrument')
    I.plt = Plt()
    c = quiet()
    inst = I.Instrument(default_noise_function='none', default_noise_kwargs={}, best_spatial_res=0.5, **UN)
    A = [ctx.real('A%d' % i, 0.5, 4) for i in range(len(freqs))]
    seen = []
    for i, f in enumerate(freqs):
        sp = lambda x, y, fr, i=0: (seen.append((i, fr)), ctx.np.ones((len(x), len(y), 1)) * A[i])[1]
        inst.add_detector('d%d' % i, nominal_frequency=f, spatial_response=sp, spatial_kwargs=dict(i=i), spectral_response='boxcar', spectral_kwargs=dict(freq0=f, width=1.0, A=A[i]))
    c.__exit__(None, None, None)
    return inst, I.plt.log, A, seen


@harness(configs=[dict(freqs=f, lim=l) for f in ((100.0, 50.0, 75.0), (10.0,)) for l in (None, (20.0, 60.0), (None, 200.0))])
def plot_bands(ctx, freqs, lim):
    """the band of every detector, by default from 10% below the lowest to 10% above the highest frequency"""
    inst, log, A, seen = telescope(ctx, freqs)
    kw = {} if lim is None else {k: v for k, v in zip(('fmin', 'fmax'), lim) if v is not None}
    inst.plot_spectral_response(**kw)
    lo, hi = kw.get('fmin', 0.9 * min(freqs)), kw.get('fmax', 1.1 * max(freqs))
    curves = [l for l in log if l[0] == 'plot']
    ctx.check(len(curves) == len(freqs), 'one curve per detector')
    left = list(range(len(freqs)))
    for _, x, y, k in curves:
        x = x.astype(float)
        at = [i for i in left if any(not (isinstance(v, (int, float)) and v == 0) for v in y[np.abs(x - freqs[i]) < 0.499])]
        i = (at or left)[0]
        left.remove(i)
        ctx.check(abs(x[0] - lo) < 1e-9 and abs(x[-1] - hi) < 1e-9 and np.all(np.diff(x) > 0), 'frequency range')
        mid = np.abs(x - freqs[i]) < 0.499
        out = np.abs(x - freqs[i]) > 0.501
        for j in (list(np.nonzero(mid)[0][::40]) + list(np.nonzero(out)[0][::400])):
            ctx.check_eq(y[j], A[i] if mid[j] else 0.0, 'response')


@harness(configs=[dict(names=n, fs=f) for n in ((), ('d1',), ('d2', 'd0')) for f in (None, 42.0)])
def plot_detectors(ctx, names, fs):
    """band and beam of exactly the detectors named (all by default), the beam at the frequency asked for or each detector's own"""
    freqs = (100.0, 50.0, 75.0)
    inst, log, A, seen = telescope(ctx, freqs)
    inst.plot_detector_response(*names, **({} if fs is None else dict(fspatial=fs)))
    who = [int(n[1]) for n in names] or [0, 1, 2]
    ctx.check(sorted(i for i, f in seen) == sorted(who), 'the detectors asked for')
    for i, f in seen:
        ctx.check_eq(f, fs or freqs[i], 'frequency of the beam')
    ims, cs = [l for l in log if l[0] == 'image'], [l for l in log if l[0] == 'plot']
    ctx.check(len(ims) == len(who) and len(cs) == len(who), 'one beam and one band per detector')
    for im, cu, i in zip(ims, cs, [i for i, f in seen]):
        ctx.check_eq(im[3][::33, ::33], np.full(im[3][::33, ::33].shape, A[i], dtype=object), 'beam')
        ctx.check(abs(float(im[1][0]) + 2.5) < 1e-9 and abs(float(im[1][-1]) - 2.5) < 1e-9, 'extent')
        x = cu[1].astype(float)
        mid = np.nonzero(np.abs(x - freqs[i]) < 0.49)[0]
        for j in mid[::5]:
            ctx.check_eq(cu[2][j], A[i], 'band')
    ctx.check(ctx.raises(ValueError, inst.plot_detector_response, 'nobody'), 'unknown detector refused')
