"""I03: an instrument's detectors and fields are exactly the ones added and not removed, with the responses asked for or the defaults, and nothing incompatible gets in."""
import numpy as np
from vsx.core import harness
from vsx.spec import obj, all_, any_
from checks._map import make_grid, check_geometry
from checks._inst import PX, UN, quiet, field

FUNCTIONS = ['instrument.instrument.Instrument.' + m for m in ('__init__', 'add_detector', 'del_detectors', '_set_response', 'set_spatial_respones', 'set_spectral_respones', 'set_noise_functions', 'add_field',
             'del_fields', '_check_detectors', '_check_fields')] + ['instrument.instrument.Detector.__init__', 'instrument._helpers._check_grid_detector_compatibility', 'instrument._helpers._check_unit']
BOUNDS = 'every combination of given, default and missing functions and arguments for each kind of response; every documented unit, an unknown one and none for instrument and field; cell sizes and resolutions symbolic; up to 3 detectors or fields'
OUTSIDE = 'the automatic guess of the nominal frequency'

KINDS = dict(spatial=('spatial_response', 'spatial_kwargs', 'set_spatial_respones', ['gauss', 'Gauss', 'gaussian', 'Gaussian', 'specgauss', 'spec-gauss', 'SpecGauss', 'Spec-Gauss', 'spectral-gaussian', 'Spectral-Gaussian']),
             spectral=('spectral_response', 'spectral_kwargs', 'set_spectral_respones', ['gauss', 'Gauss', 'gaussian', 'Gaussian', 'box', 'boxcar', 'Box', 'Boxcar']),
             noise=('noise_function', 'noise_kwargs', 'set_noise_functions', ['none', 'None', 'white', 'White']))


def builtin(ctx, kind, name):
    I = ctx.mod('simim.instrument')
    n = name.lower()
    if kind == 'spatial':
        return I.gauss_psf_freq_dependent if n.startswith('spec') else I.gauss_psf
    if kind == 'spectral':
        return I.boxcar_response if n.startswith('box') else I.gauss_response
    return I.white_noise if n == 'white' else I.zero_noise


def others(kind):
    """valid settings for the two other kinds of response"""
    k = dict(spatial_response='gauss', spectral_response='gauss', noise_function='none')
    k.pop(KINDS[kind][0])
    return k


def held(d, kind):
    return getattr(d, KINDS[kind][0]), getattr(d, KINDS[kind][1])


def same(ctx, got, want, what):
    ctx.check(isinstance(got, dict) and list(got) == list(want), what)
    for k in want:
        ctx.check_eq(got[k], want[k], what)


@harness(configs=[dict(kind=k) for k in KINDS])
def defaults(ctx, kind):
    """functions and arguments come from the call, else from the instrument; what neither provides is an error"""
    I = ctx.mod('simim.instrument.instrument')
    f1, f2 = (lambda *a, **k: 1), (lambda *a, **k: 2)
    fn, kw, setter, names = KINDS[kind]
    v1, v2 = ctx.real('v1'), ctx.real('v2')
    df = ctx.choice('default function', [None, 'fn', names[0], names[-1]])
    dk = ctx.choice('default arguments', [None, 'empty', 'some'])
    gf = ctx.choice('function', [None, 'fn', names[0], names[-1]])
    gk = ctx.choice('arguments', [None, 'empty', 'some'])
    D = dict(a=v1, b=3)
    G = dict(b=v2)
    dkv = None if dk is None else {} if dk == 'empty' else D
    gkv = None if gk is None else {} if gk == 'empty' else G
    dfv = f1 if df == 'fn' else df
    gfv = f2 if gf == 'fn' else gf
    inst = I.Instrument(**{'default_' + fn: dfv, 'default_' + kw: dkv})
    bad = gf is None and (df is None or (gk is None and dk is None))
    add = lambda: inst.add_detector('x', nominal_frequency=1.0, **{fn: gfv, kw: gkv}, **others(kind))
    if bad:
        ctx.check(ctx.raises(ValueError, add), 'missing response refused')
        ctx.check(not inst.detectors and not inst.detector_names, 'nothing added')
        return
    add()
    want = f2 if gf == 'fn' else builtin(ctx, kind, gf) if gf is not None else f1 if df == 'fn' else builtin(ctx, kind, df)
    wk = gkv if gkv is not None else {} if gf is not None else dkv
    wk = dict(wk)
    g, k = held(inst.detectors['x'], kind)
    ctx.check(g is want, 'response function')
    same(ctx, k, wk, 'arguments')
    D['a'] = G['b'] = 99
    D['new'] = G['new'] = 1
    same(ctx, held(inst.detectors['x'], kind)[1], wk, "later changes to the caller's dictionaries do not reach the detector")
    ctx.check(inst.detectors['x'].reffreq == 1.0 and tuple(inst.detectors['x'].pointing_offsets) == (0, 0), 'frequency and pointing')


@harness(configs=[dict(kind=k) for k in KINDS])
def updates(ctx, kind):
    """a setter changes exactly the named detectors (all when none is named) and the default only when asked"""
    I = ctx.mod('simim.instrument.instrument')
    fn, kw, setter, names = KINDS[kind]
    f1, f2 = (lambda *a, **k: 1), (lambda *a, **k: 2)
    inst = I.Instrument(**{'default_' + fn: f1, 'default_' + kw: dict(q=1)})
    for n in 'abc':
        inst.add_detector(n, nominal_frequency=1.0, **others(kind))
    who = ctx.choice('who', [(), ('a',), ('c', 'a'), ('instrument',), ('instrument', 'b'), ('b', 'instrument', 'c')])
    what = ctx.choice('what', ['fn'] + names)
    args = ctx.choice('args', [None, 'some'])
    v = ctx.real('v')
    A = None if args is None else dict(z=v)
    getattr(inst, setter)(*who, **{fn: f2 if what == 'fn' else what, kw: A})
    W = f2 if what == 'fn' else builtin(ctx, kind, what)
    for n in 'abc':
        hit = n in who or not who
        g, k = held(inst.detectors[n], kind)
        ctx.check(g is (W if hit else f1), 'function')
        same(ctx, k, ({} if args is None else dict(z=v)) if hit else dict(q=1), 'arguments')
        for o in KINDS:
            if o != kind:
                ctx.check(held(inst.detectors[n], o)[0] is builtin(ctx, o, 'none' if o == 'noise' else 'gauss') and held(inst.detectors[n], o)[1] == {}, 'other responses are unchanged')
    dfn, dkw = getattr(inst, 'default_' + fn), getattr(inst, 'default_' + kw)
    if 'instrument' in who:
        ctx.check(dfn is W, 'default function')
        ctx.check(dkw is None, 'default arguments') if args is None else same(ctx, dkw, dict(z=v), 'default arguments')
    else:
        ctx.check(dfn is f1 and dkw == dict(q=1), 'default unchanged')
    if A is not None:
        A['z'] = 5
        for n in 'abc':
            if n in who or not who:
                same(ctx, held(inst.detectors[n], kind)[1], dict(z=v), "later changes to the caller's dictionary do not reach the detector")
        held(inst.detectors[(who or ('a',))[0] if (who or ('a',))[0] != 'instrument' else 'b'], kind)[1]['z'] = 7
        n = [x for x in 'abc' if (x in who or not who)]
        if len(n) > 1:
            vals = [held(inst.detectors[x], kind)[1]['z'] for x in n]
            ctx.check(sum(1 for x in vals if isinstance(x, int) and x == 7) == 1, 'detectors do not share their arguments')


@harness(configs=[dict(kind=k) for k in KINDS])
def refused_updates(ctx, kind):
    """unknown detectors, repeated detectors, unknown or missing responses and malformed arguments are refused and change nothing"""
    I = ctx.mod('simim.instrument.instrument')
    fn, kw, setter, names = KINDS[kind]
    f1 = lambda *a, **k: 1
    inst = I.Instrument(**{'default_' + fn: f1, 'default_' + kw: dict(q=1)})
    for n in 'ab':
        inst.add_detector(n, nominal_frequency=1.0, **others(kind))
    s = getattr(inst, setter)
    for who, k in ((('z',), {fn: f1}), (('a', 'z'), {fn: names[0]}), (('a', 'a'), {fn: names[0]}), (('a',), {fn: 'something'}), (('a',), {fn: None}), ((), {fn: None}), (('a', 'instrument'), {fn: 7}), (('a', 'instrument'), {fn: names[0], kw: [1]})):
        ctx.check(ctx.raises(ValueError, s, *who, **k), 'refused')
        for n in 'ab':
            ctx.check(held(inst.detectors[n], kind)[0] is f1 and held(inst.detectors[n], kind)[1] == dict(q=1), 'detectors unchanged')
        ctx.check(getattr(inst, 'default_' + fn) is f1 and getattr(inst, 'default_' + kw) == dict(q=1), 'default unchanged')
    s('instrument', **{fn: None})
    ctx.check(getattr(inst, 'default_' + fn) is None, 'a default can be removed')


@harness(configs=[dict(what=w, when=k) for w in ('detector', 'field') for k in (2, 3)], max_paths=4000)
def registry(ctx, what, when):
    """four additions with removals before the third or the fourth: names, order and numbering"""
    I = ctx.mod('simim.instrument.instrument')
    c = quiet()
    inst = I.Instrument(default_spatial_response='gauss', default_spatial_kwargs={}, default_spectral_response='gauss', default_spectral_kwargs={}, default_noise_function='none', default_noise_kwargs={})
    sky = [make_grid(ctx, (2, 1, 1), PX, 1, [0.0, 0.0, 1.0]) for i in range(4)]
    freq = [ctx.real('f%d' % i) for i in range(4)]
    held_, n = {}, 0

    def add(name, i):
        if what == 'detector':
            inst.add_detector(name, nominal_frequency=freq[i])
        else:
            inst.add_field(sky[i], name)
    for i in range(4):
        if i == when:
            gone = ctx.choice('remove', [[k] for k in held_] + [list(held_)[:2], list(held_)[::-1]])
            (inst.del_detectors if what == 'detector' else inst.del_fields)(*gone)
            for k in gone:
                held_.pop(k)
        name = ctx.choice('name%d' % i, [None, 'x', ['0', '1', '2', '1'][i]])
        real = str(n) if name is None else name
        if real in held_:
            ctx.check(ctx.raises(ValueError, add, name, i), 'a name in use is refused')
        else:
            add(name, i)
            held_[real] = i
            n += 1
        names = inst.detector_names if what == 'detector' else inst.field_names
        d = inst.detectors if what == 'detector' else inst.fields
        ctx.check(list(names) == list(held_) and list(d) == list(held_), 'names in order of addition')
        for k, j in held_.items():
            if what == 'detector':
                ctx.check(d[k].name == k, 'detector name')
                ctx.check_eq(d[k].reffreq, freq[j], 'detector')
            else:
                ctx.check(d[k] is sky[j] and inst.field_props[k] == 0 and not inst.maps_consistent[k], 'field')
    for bad in (('nobody',), (list(held_)[0], 'nobody'), (list(held_)[0],) * 2):
        ctx.check(ctx.raises(ValueError, inst.del_detectors if what == 'detector' else inst.del_fields, *bad), 'an unknown or repeated name is refused')
        ctx.check(list(inst.detector_names if what == 'detector' else inst.field_names) == list(held_), 'nothing removed')
    c.__exit__(None, None, None)


SPEC, SPAT, FLUX = ['GHz', 'Hz', 'm', 'mm', 'um'], ['rad', 'deg', 'arcmin', 'arcsec'], ['Jy', 'mJy']


@harness(configs=[dict(kind=k, axis=a) for k, a in (('spatial', 0), ('spatial', 1), ('spectral', 2), ('flux', 0), ('flux', 1))])
def units(ctx, kind, axis):
    """a field is accepted exactly when its units are the instrument's or either is not given; unknown units are refused"""
    I = ctx.mod('simim.instrument.instrument')
    c = quiet()
    known = dict(spatial=SPAT, spectral=SPEC, flux=FLUX)[kind]
    iu = ctx.choice('instrument', [None, 'Mpc'] + known)
    gu = ctx.choice('field', [None, 'Mpc'] + known)
    k = dict(UN)
    k[kind + '_unit'] = iu
    if iu == 'Mpc':
        ctx.check(ctx.raises(ValueError, I.Instrument, **k), 'unknown unit refused')
        return
    inst = I.Instrument(**k)
    ax, gr = ['deg', 'deg', 'GHz'], ['Jy', 'Jy']
    if kind == 'flux':
        gr = [gu, None if axis else gu]
        gr = gr[::-1] if axis else gr
    else:
        ax[axis] = gu
    g = make_grid(ctx, (1, 1, 1), PX, 2, [0.0, 0.0, 1.0], axunits=ax, gridunits=gr)
    if kind == 'spatial':
        ok = iu is None or (gu in (None, iu) and iu == 'deg')       # the other spatial axis is in degrees
    else:
        ok = gu is None or iu is None or gu == iu
    add = lambda: inst.add_field(g, 'f', field_property_idx=axis if kind == 'flux' else 0)
    if ok:
        add()
        ctx.check(list(inst.fields) == ['f'], 'accepted')
    else:
        ctx.check(ctx.raises(ValueError, add), 'refused')
        ctx.check(not inst.fields and not inst.field_names and not inst.field_props, 'nothing added')
    c.__exit__(None, None, None)


@harness(configs=[dict(ip=i) for i in (True, False)])
def resolution(ctx, ip):
    """a field whose cells are larger than the stated best resolution is refused"""
    I = ctx.mod('simim.instrument.instrument')
    c = quiet()
    s, f = ctx.real('spatial', 0.125, 4), ctx.real('spectral', 0.125, 4)
    which = ctx.choice('given', ['both', 'spatial', 'spectral'])
    inst = I.Instrument(best_spatial_res=s if which != 'spectral' else None, best_spectral_res=f if which != 'spatial' else None, **UN)
    g, D = field(ctx, 'g', (1, 1, 1), 2)
    ok = all_(*([s >= PX[0], s >= PX[1]] if which != 'spectral' else []), *([f >= PX[2]] if which != 'spatial' else []))
    try:
        inst.add_field(g, 'f', field_property_idx=1, in_place=ip)
    except ValueError:
        ctx.check(ok == False if isinstance(ok, bool) else ~ok, 'a fine enough field is accepted')
        ctx.check(not inst.fields and not inst.field_names, 'nothing added')
    else:
        ctx.check(ok, 'a coarse field is refused')
        h = inst.fields['f']
        ctx.check((h is g) == ip, 'copied unless in place')
        p = inst.field_props['f']
        ctx.check_eq(obj(h.grid)[..., p], D[..., 1], 'the property observed')
        if not ip:
            g.grid[:] = 0
            ctx.check_eq(obj(h.grid)[..., p], D[..., 1], 'the copy is independent')
    c.__exit__(None, None, None)


@harness(configs=[dict(nprop=n) for n in (1, 2, 3, 4)])
def fields(ctx, nprop):
    """only active three dimensional maps in map space, and only properties the map has"""
    I = ctx.mod('simim.instrument.instrument')
    c = quiet()
    inst = I.Instrument(**UN)
    u = dict(axunits=['deg', 'deg', 'GHz'], gridunits=['Jy'] * nprop)
    idx = ctx.int('index', -2, 5)
    good = make_grid(ctx, (1, 2, 1), PX, nprop, [0.0, 0.0, 1.0], **u)
    try:
        inst.add_field(good, 'f', field_property_idx=idx)
    except ValueError:
        ctx.check(any_(idx < 0, idx >= nprop), 'a property of the map is accepted')
        ctx.check(not inst.fields and not inst.field_names, 'nothing added')
    else:
        ctx.check(all_(idx >= 0, idx < nprop), 'no other property is')
        ctx.check_eq(inst.field_props['f'], idx, 'property')
    asleep = make_grid(ctx, (1, 1, 1), PX, nprop, [0.0, 0.0, 1.0], active=False, **u)
    flat = make_grid(ctx, (1, 1), PX[:2], nprop, [0.0, 0.0], axunits='deg')
    deep = make_grid(ctx, (1, 1, 1, 1), PX + (1.0,), nprop, [0.0, 0.0, 1.0, 1.0])
    bad = [asleep, flat, deep, np.zeros((2, 2, 2, 1))]
    for a in range(3):
        h = make_grid(ctx, (1, 2, 1), PX, nprop, [0.0, 0.0, 1.0], **u)
        h.fourier_space[a] = True
        bad.append(h)
    for h in bad:
        ctx.check(ctx.raises((ValueError, AttributeError), inst.add_field, h, 'bad'), 'refused')
        ctx.check('bad' not in inst.fields and 'bad' not in inst.field_names, 'nothing added')
    c.__exit__(None, None, None)


@harness(configs=[dict(miss=m) for m in (None, 'spatial', 'spectral', 'noise')])
def detector(ctx, miss):
    """a Detector is an instrument with exactly one detector, set up as asked"""
    I = ctx.mod('simim.instrument.instrument')
    fs = {k: (lambda *a, **q: 1) for k in KINDS}
    v = {k: ctx.real(k) for k in KINDS}
    kw = {}
    for k in KINDS:
        if k != miss:
            kw[KINDS[k][0]] = fs[k]
            kw[KINDS[k][1]] = dict(v=v[k])
    off, fr = (ctx.real('ox'), ctx.real('oy')), ctx.real('freq', 1, 5)
    mk = lambda: I.Detector(spatial_unit='deg', spectral_unit='GHz', flux_unit='Jy', pointing_offsets=off, nominal_frequency=fr, spatial_res=0.75, spectral_res=1.5, **kw)
    if miss:
        ctx.check(ctx.raises(ValueError, mk), 'incomplete detector refused')
        return
    d = mk()
    ctx.check(list(d.detectors) == ['detector'] and list(d.detector_names) == ['detector'] and not d.fields, 'one detector')
    x = d.detectors['detector']
    for k in KINDS:
        ctx.check(held(x, k)[0] is fs[k], 'function')
        same(ctx, held(x, k)[1], dict(v=v[k]), 'arguments')
    ctx.check_eq(list(x.pointing_offsets), list(off), 'pointing')
    ctx.check_eq(x.reffreq, fr, 'nominal frequency')
    ctx.check((d.spatial_unit, d.spectral_unit, d.flux_unit, d.best_spatial_res, d.best_spectral_res, d.pointing_offset_frame) == ('deg', 'GHz', 'Jy', 0.75, 1.5, 'radec'), 'description')
    ctx.check(ctx.raises(ValueError, I.Detector, pointing_offset_frame='galactic', nominal_frequency=1.0, **kw), 'unknown frame refused')
    ctx.check(ctx.raises(ValueError, I.Detector, pointing_offset_frame='azel', nominal_frequency=1.0, **kw), 'frame that is not implemented refused')
    ctx.check(ctx.raises(ValueError, I.Detector, pointing_offsets=(1.0,), nominal_frequency=1.0, **kw), 'malformed pointing refused')
