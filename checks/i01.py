"""I01: the map of a detector is the observed field convolved channel by channel with that detector's beam and averaged over its band."""
import numpy as np
from vsx.core import harness
from vsx.spec import obj, total
from checks._map import make_grid, check_geometry
from checks._inst import PX, UN, quiet, field, beamed, banded, normed

FUNCTIONS = ['instrument.instrument.Instrument.' + m for m in ('map_fields', '_setup_beam', '_find_spatial_clones', 'add_field', 'add_detector', '_set_response')] + [
    'map.gridder.Grid.convolve', 'map.gridder.Grid.collapse_dimension', 'map.gridder.Grid.copy']
BOUNDS = 'fields of up to 4x3 cells and 3 channels with up to 3 properties, all contents symbolic; up to 4 detectors; beams of up to 21x31 cells, symbolic (normalisation "none") or given by asymmetric functions of position and frequency; symbolic band weights'
OUTSIDE = 'rounding of the FFT; larger fields; spectral responses that sum to zero'


def shape_fn(ctx, log, a=1.0):
    """an asymmetric, frequency dependent beam; called with the positions of its cells"""
    def f(x, y, fr, k=1.0):
        x, y, fr = (np.array([float(v) for v in obj(t)]) for t in (x, y, fr))
        log.append((x, y, fr, k))
        v = a * k / (1 + 2 * (x.reshape(-1, 1, 1) - 0.125) ** 2 + 3 * y.reshape(1, -1, 1) ** 2 * (1 + (fr.reshape(1, 1, -1) - 98) ** 2 / 4) + 0.25 * x.reshape(-1, 1, 1) * y.reshape(1, -1, 1))
        return ctx.np.array(v.tolist())
    return f


def image(npix, ks, zc, k=1.0, a=1.0):
    x = (np.arange(ks[0]) - (ks[0] - 1) / 2) * PX[0]
    y = (np.arange(ks[1]) - (ks[1] - 1) / 2) * PX[1]
    z = zc + (np.arange(npix[2]) - (npix[2] - 1) / 2) * PX[2]
    x3, y3, z3 = x.reshape(-1, 1, 1), y.reshape(1, -1, 1), z.reshape(1, 1, -1)
    return x, y, z, a * k / (1 + 2 * (x3 - 0.125) ** 2 + 3 * y3 ** 2 * (1 + (z3 - 98) ** 2 / 4) + 0.25 * x3 * y3)


def band_fn(ctx, log):
    def f(fr, w=(1.0, 1.0, 1.0)):
        log.append([float(v) for v in obj(fr)])
        return ctx.np.array(list(w)[:len(fr)])
    return f


BANDS = [(1.0, 2.0, 1.0), (0.5, 0.0, 1.5), (0.0, 1.0, 0.0), (3.0, 4.0, 1.0)]


def instrument(ctx, dets, **k):
    I = ctx.mod('simim.instrument.instrument')
    inst = I.Instrument(default_noise_function='none', default_noise_kwargs={}, **{**UN, **k})
    logs = dict(a=[], b=[], band=[])
    fns = dict(a=shape_fn(ctx, logs['a']), b=shape_fn(ctx, logs['b'], 2.0))
    band = band_fn(ctx, logs['band'])
    for n, (fn, kw, w) in dets.items():
        inst.add_detector(n, nominal_frequency=100.0, spatial_response=fns[fn], spatial_kwargs=dict(k=kw) if kw else {},
                          spectral_response=band, spectral_kwargs=dict(w=w))
    return inst, logs


DETS = dict(z=('a', 1.0, BANDS[0]), y=('b', 1.0, BANDS[1]), x=('a', 1.0, BANDS[2]), w=('a', 0.5, BANDS[3]))
SPARSE = dict(z=('a', 0.5, BANDS[0]), y=('a', None, BANDS[3]), x=('a', 0.5, BANDS[2]), w=('b', None, BANDS[1]))


@harness(configs=[dict(norm=n, ks=k, npix=s, prop=p) for n in ('peak', 'area', 'none') for (k, s, p) in
                  (((3, 3), (3, 2, 2), (1, None)), ((5, 3), (3, 3, 1), (3, 2)), (3, (2, 3, 3), (2, 1)), ((1, 3), (4, 1, 2), (2, None)))]
         + [dict(norm='area', ks=(3, 1), npix=(2, 2, 2), prop=(2, 1), pad=q) for q in (1, (2, 0))]
         + [dict(norm='peak', ks=(3, 3), npix=(2, 2, 2), prop=(3, 2), inplace=False), dict(norm='none', ks=None, npix=(2, 3, 2), prop=(1, 0)), dict(norm='area', ks=None, npix=(2, 2, 1), prop=(2, 1), res=0.75)]
         + [dict(norm='none', ks=(3, 3), npix=(2, 2, 2), prop=(1, None), sparse=s) for s in (1, -1)])
def maps(ctx, norm, ks, npix, prop, pad=None, inplace=True, res=0.5, sparse=0):
    """four detectors, two of them sharing a beam: every cell of every detector's map"""
    c = quiet()
    # sparse: beams with and without arguments, in either order
    dets = dict(list(SPARSE.items())[::sparse]) if sparse else DETS
    inst, logs = instrument(ctx, dets, best_spatial_res=res if ks is None else None)
    units = ['Jy', 'mJy', 'Jy'][:prop[0]]
    if prop[1] == 1:
        units = ['mJy', 'Jy', None][:prop[0]]
    g, D = field(ctx, 'g', npix, prop[0], units=units)
    kw = {} if prop[1] is None else dict(field_property_idx=prop[1])
    inst.add_field(g, 'sky', in_place=inplace, **kw)
    p = prop[1] or 0
    kw = dict(spatial_response_norm=norm)
    if ks is not None:
        kw['kernel_size'] = ks
    if pad is not None:
        kw['pad'] = pad
    inst.map_fields(**kw)
    c.__exit__(None, None, None)
    K = [int(round(res / PX[i])) * 10 + 1 for i in (0, 1)] if ks is None else (ks, ks) if isinstance(ks, int) else ks
    m = inst.maps['sky']
    want = np.empty(tuple(npix[:2]) + (4,), dtype=object)
    for i, (fn, k, w) in enumerate(dets.values()):
        x, y, z, B = image(npix, K, 100.0, 1.0 if k is None else k, 2.0 if fn == 'b' else 1.0)
        for X, Y, Z, kk in logs[fn]:
            ctx.check(X.shape == x.shape and Y.shape == y.shape and Z.shape == z.shape and np.allclose(X, x) and np.allclose(Y, y) and np.allclose(Z, z),
                      'the beam is evaluated at the cells around its axis and the channels of the field')
        want[:, :, i] = banded(beamed(D[..., p], normed(B, norm)), w[:npix[2]]) if total(w[:npix[2]]) else np.nan
    ok = [i for i, d in enumerate(dets.values()) if total(d[2][:npix[2]])]
    ctx.check(list(np.shape(m.grid)) == list(npix[:2]) + [4], 'one map per detector')
    ctx.check_eq(obj(m.grid)[:, :, ok], want[:, :, ok], 'maps')
    check_geometry(ctx, m, npix[:2], PX[:2], (1.0, -2.0), 'detector maps')
    ctx.check(list(m.axunits) == ['deg', 'deg'] and list(m.gridunits) == [units[p]] * 4, 'units of the maps')
    ctx.check(inst.maps_consistent['sky'] is True or inst.maps_consistent['sky'] == True, 'up to date')
    ctx.check_eq(g.grid, D, 'the field is unchanged')
    check_geometry(ctx, g, npix, PX, (1.0, -2.0, 100.0), 'field')
    ctx.check(list(g.gridunits) == units, "the field's units are unchanged")


@harness(configs=[dict(npix=n, ks=k, prop=p) for (n, k, p) in (((3, 2, 2), (3, 3), 0), ((2, 3, 1), (3, 1), 1), ((2, 2, 3), (2, 3), 1), ((2, 1, 2), (5, 3), 0))])
def given_beam(ctx, npix, ks, prop):
    """an explicit beam: symbolic contents, applied to every detector as it is"""
    c = quiet()
    inst, logs = instrument(ctx, {n: DETS[n] for n in ('z', 'w')})
    g, D = field(ctx, 'g', npix, 2, units=['Jy', 'Jy'])
    b = make_grid(ctx, tuple(ks) + (npix[2],), PX, 1, [0.0, 0.0, 100.0])
    bd = ctx.array('b', tuple(ks) + (npix[2], 1), -2, 2)
    b.grid = bd
    B = obj(bd).copy()
    inst.add_field(g, field_property_idx=prop)
    inst.map_fields('0', beam=b)
    c.__exit__(None, None, None)
    m = inst.maps['0']
    want = np.stack([banded(beamed(D[..., prop], B[..., 0]), DETS[n][2][:npix[2]]) for n in ('z', 'w')], axis=-1)
    ctx.check_eq(m.grid, want, 'maps', scale=4.0)
    ctx.check_eq(b.grid, B, 'the beam is unchanged')
    ctx.check(not logs['a'], 'no other beam is evaluated')


@harness(configs=[dict(norm=n) for n in ('none', 'peak', 'area')])
def any_beam(ctx, norm):
    """arbitrary beam shape: three cells, symbolic, one channel"""
    c = quiet()
    I = ctx.mod('simim.instrument.instrument')
    inst = I.Instrument(default_noise_function='none', default_noise_kwargs={}, **UN)
    b = ctx.array('b', (3,), 0.25, 4)
    B = obj(b).copy()
    inst.add_detector('d', nominal_frequency=100.0, spatial_response=lambda x, y, f: ctx.np.array(list(B)).reshape(3, 1, 1), spectral_response=lambda f: ctx.np.array([1.0]))
    g, D = field(ctx, 'g', (2, 1, 1), lo=-2, hi=2)
    inst.add_field(g, 'f')
    inst.map_fields(kernel_size=(3, 1), spatial_response_norm=norm)
    c.__exit__(None, None, None)
    m = obj(inst.maps['f'].grid)
    M = 1.0
    if norm == 'peak':
        M = B[0]
        for v in B[1:]:
            M = v if v > M else M
    if norm == 'area':
        M = total(list(B))
    ctx.check_eq(m[0, 0, 0] * M, D[0, 0, 0, 0] * B[1] + D[1, 0, 0, 0] * B[0], 'first cell')
    ctx.check_eq(m[1, 0, 0] * M, D[1, 0, 0, 0] * B[1] + D[0, 0, 0, 0] * B[2], 'second cell')


@harness(configs=[dict(nz=2), dict(nz=3)])
def any_band(ctx, nz):
    """arbitrary positive spectral responses of two detectors sharing a beam"""
    c = quiet()
    I = ctx.mod('simim.instrument.instrument')
    inst = I.Instrument(default_noise_function='none', default_noise_kwargs={}, **UN)
    W = [obj(ctx.array('w%d' % i, (nz,), 0.25, 4)).copy() for i in range(2)]
    one = lambda x, y, f: ctx.np.ones((1, 1, len(f)))
    for i in range(2):
        inst.add_detector('d%d' % i, nominal_frequency=100.0, spatial_response=one, spectral_response=lambda f, i: ctx.np.array(list(W[i])), spectral_kwargs=dict(i=i))
    g, D = field(ctx, 'g', (1, 2, nz), lo=-2, hi=2)
    inst.add_field(g, 'f')
    inst.map_fields(kernel_size=(1, 1))
    c.__exit__(None, None, None)
    m = obj(inst.maps['f'].grid)
    for d in range(2):
        for j in range(2):
            ctx.check_eq(m[0, j, d] * total(list(W[d])), total([D[0, j, k, 0] * W[d][k] for k in range(nz)]), 'band average')


@harness(configs=[dict(order=o) for o in ((), ('b',), ('b', 'a'), ('a', 'b'))])
def several_fields(ctx, order):
    """fields of different shape: exactly the named ones are mapped (all by default), each with its own sky"""
    c = quiet()
    inst, logs = instrument(ctx, {n: DETS[n] for n in ('z', 'y')})
    D = {}
    for n, s in (('a', (2, 2, 2)), ('b', (3, 1, 3))):
        g, D[n] = field(ctx, n, s, 1)
        inst.add_field(g, n)
    inst.map_fields(*order, kernel_size=(3, 3), spatial_response_norm='area')
    c.__exit__(None, None, None)
    named = order or ('a', 'b')
    for n in ('a', 'b'):
        ctx.check(bool(inst.maps_consistent[n]) == (n in named) and (n in inst.maps) == (n in named), 'mapped if named')
        if n in named:
            s = D[n].shape[:3]
            want = np.stack([banded(beamed(D[n][..., 0], normed(image(s, (3, 3), 100.0, 1.0, a)[3], 'area')), w[:s[2]]) for a, w in ((1.0, BANDS[0]), (2.0, BANDS[1]))], axis=-1)
            ctx.check_eq(inst.maps[n].grid, want, 'map')


@harness()
def refused(ctx):
    """impossible requests are refused and leave no map"""
    c = quiet()
    inst, logs = instrument(ctx, {'z': DETS['z']})
    g, D = field(ctx, 'g', (2, 2, 1), 1)
    inst.add_field(g, 'a')
    b = make_grid(ctx, (1, 1, 1), PX, 1, [0.0, 0.0, 100.0])
    for a, k in (((), {}), (('a',), dict(kernel_size=(1, 1), beam=b)), (('q',), dict(kernel_size=(1, 1))), (('a', 'a'), dict(kernel_size=(1, 1))), ((), dict(kernel_size=(1, 1), spatial_response_norm='sum'))):
        ctx.check(ctx.raises(ValueError, inst.map_fields, *a, **k), 'refused')
        ctx.check(not inst.maps and not inst.maps_consistent['a'], 'no map')
    inst.set_spatial_respones(spatial_response=lambda x, y, f: ctx.np.ones((2, 1, 1)))
    ctx.check(ctx.raises(ValueError, inst.map_fields, kernel_size=(1, 1)), 'beam of the wrong shape')
    c.__exit__(None, None, None)
    ctx.check(not inst.maps and not inst.maps_consistent['a'], 'no map')
