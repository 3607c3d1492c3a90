"""R02: the snapshots of a simulation divide its history without gaps, and every file is taken for the snapshot it is."""
import os
import warnings
import numpy as np
from vsx.core import harness
from vsx.spec import obj
from vsx import astro
from checks._sim import setup_paths
from checks import _raw

FUNCTIONS = ['siminterface._rawsiminterface.Snapshot.' + m for m in ('__init__', 'dif_snap', 'dif_lowerz_snap', 'dif_higherz_snap')] + ['siminterface._rawsiminterface.SimCatalogs.__init__', 'siminterface.illustris.IllustrisCatalogs.download_meta',
             'siminterface.universemachine.UniversemachineCatalogs.__init__', 'siminterface.universemachine.UniversemachineCatalogs.download_meta', 'siminterface.uchuu.UchuuCatalogs.__init__', 'siminterface.uchuu.UchuuCatalogs.download_meta', 'siminterface.universemachine.UniversemachineCatalogs._get_rawsnapfiles', 'siminterface.uchuu.UchuuCatalogs._get_rawsnapfiles']
BOUNDS = 'Illustris and TNG: 4 snapshots (of which any selection) with arbitrary decreasing redshifts, listed in several orders; UniverseMachine: the published number of snapshots, several selections, listed in several orders'
OUTSIDE = 'the real cosmology (a stand-in with known inverse is used); single precision rounding; servers which answer with other formats'


def rows(ctx, cat, idx, zs, h, FL):
    """the metadata of the snapshots"""
    m = cat.snap_meta
    n = len(idx)
    ctx.check(len(m) == n and [int(x) for x in obj(m['index'])] == [int(i) for i in idx], 'one row per snapshot')
    cos = FL(100 * h, cat.metadata['cosmo_omega_matter'], 2.7255, Ob0=cat.metadata['cosmo_omega_baryon'])
    # edges, from the highest redshift on: midway in time
    edges = [zs[0]]
    for a, b in zip(zs, zs[1:]):
        t = (cos.age(a).value + cos.age(b).value) / 2
        edges.append(10 / h / t - 1)
    edges.append(0.0)
    for i in range(n):
        ctx.check_eq(m['redshift'][i], zs[i], 'redshift')
        for q, e, t in (('max', edges[i], 'time_start'), ('min', edges[i + 1], 'time_end')):
            ctx.check_eq(m['redshift_' + q][i], e, 'redshift_' + q)
            ctx.check_eq(m[t][i], cos.age(e).value, t)
            for p in ('', 'transverse_'):
                ctx.check_eq(m[p + 'distance_' + q][i] / 1e3, cos.D(e) * h / 1e3, p + 'distance_' + q)
    for i in range(n - 1):
        ctx.check_eq(m['redshift_min'][i], m['redshift_max'][i + 1], 'no gap')
    for i in range(n):
        ctx.check((m['redshift_min'][i] <= zs[i] + 1e-4) & (zs[i] <= m['redshift_max'][i] + 1e-4), 'every snapshot lies in its own interval')


SEL = ('all', [0, 1, 2], [1, 3], [2], [3, 0, 2])


@harness(configs=[dict(sim=s, snaps=sel, order=o) for s in ('Illustris-1', 'TNG100-2') for sel in SEL for o in ([0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1])], thorough=[dict(sim='TNG300-1', snaps='all', order=o) for o in ([1, 0, 3, 2], [1, 2, 3, 0])])
def illustris(ctx, sim, snaps, order):
    """metadata from the server"""
    setup_paths(ctx)
    FL = astro.install(ctx)
    z = ctx.array('z', (4,), 0.0, 4.0)
    for i in range(3):
        ctx.assume(z[i] > z[i + 1] + 0.125)
    numbers = [0, 1, 2, 3] if sim.startswith('T') else [52, 54, 56, 57]
    want = range(4) if snaps == 'all' else sorted(snaps)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sel = [numbers[i] for i in range(4)] if snaps == 'all' else [numbers[i] for i in snaps]
        cat = _raw.catalogs(ctx, sim, sel, meta=False)
        _raw.web(ctx, _raw.illustris_pages(sim, numbers, list(z), order))
        cat.download_meta()
        m = cat.metadata
        ctx.check((m['name'], m['box_edge'], m['cosmo_h'], m['cosmo_omega_matter'], m['cosmo_omega_lambda'], m['cosmo_omega_baryon'], cat.h, cat.box_edge) == (sim, 75.0, 0.5, 0.5, 0.5, 0.25, 0.5, 75.0), 'numbers of the simulation')
        rows(ctx, cat, [numbers[i] for i in want], [z[i] for i in want], 0.5, FL)
        # later sessions read it back
        c2 = _raw.catalogs(ctx, sim, sel, meta=False)
        ctx.check(c2.h == 0.5 and c2.box_edge == 75.0 and c2.metadata == m, 'kept')
        rows(ctx, c2, [numbers[i] for i in want], [z[i] for i in want], 0.5, FL)
        _raw.web(ctx, _raw.illustris_pages(sim, numbers, list(z), h=0.25))
        c2.download_meta()
        ctx.check(c2.h == 0.5, 'not replaced unasked')
        c2.download_meta(redownload=True)
        ctx.check(c2.h == 0.25 == c2.metadata['cosmo_h'], 'replaced')
        rows(ctx, c2, [numbers[i] for i in want], [z[i] for i in want], 0.25, FL)


@harness(configs=[dict(sim=s, snaps=sel, order=o) for s in ('UniverseMachine-BolshoiPlanck', 'UniverseMachine-SMDPL', 'UniverseMachine-MDPL2', 'UniverseMachine-uchuu', '_testbox') for sel in ('all', 'few', 'one') for o in ('up', 'down', 'mixed') if s != '_testbox' or o == 'up'])
def files(ctx, sim, snaps, order):
    """file names and redshifts agree"""
    setup_paths(ctx)
    FL = astro.install(ctx)
    if sim == '_testbox':
        names = ['sfr_catalog_0.055623.txt', 'sfr_catalog_0.506185.txt', 'sfr_catalog_0.994717.txt']
    else:
        names = _raw.um_names(sim)
    n = len(names)
    o = {'up': list(range(n)), 'down': list(range(n))[::-1], 'mixed': [(i * 7 + 3) % n for i in range(n)] if n % 7 else [(i * 5 + 3) % n for i in range(n)]}[order]
    assert sorted(o) == list(range(n))
    sel = {'all': 'all', 'few': [n - 1, 0, n // 2], 'one': [1]}[snaps]
    idx = list(range(n)) if snaps == 'all' else sorted(sel)
    if sim == 'UniverseMachine-uchuu':
        z = [float(x.split('_z')[1].split('_')[0].replace('p', '.')) for x in names]
    else:
        z = [1 / float(x[len('sfr_catalog_'):-4]) - 1 for x in names]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for again in (False, True):     # the second time from what was kept
            cat = _raw.catalogs(ctx, sim, sel, order=o)
            h = 0.6775 if sim.endswith('uchuu') else 0.678
            ctx.check(list(map(str, cat.web_files)) == names, 'files in the order of the snapshots')
            ctx.check(cat.metadata['name'] == sim and cat.metadata['cosmo_h'] == h == cat.h and cat.box_edge == _raw.BOX[sim] == cat.metadata['box_edge'], 'numbers of the simulation')
            rows(ctx, cat, idx, [z[i] for i in idx], h, FL)
            for i in idx:
                f = cat._get_rawsnapfiles(i)
                if sim.endswith('uchuu'):
                    ctx.check(sorted(f) == sorted(names[i].replace('data1', 'data%d' % k) for k in range(1, 13)), 'raw files of the snapshot')
                else:
                    ctx.check(list(f) == [names[i]], 'raw files of the snapshot')


@harness(configs=[dict(path=p, update=u, known=k) for p in ('auto', 'given') for u in (True, False) for k in (None, 'y', 'n')])
def where(ctx, path, update, known):
    """where a simulation's files are kept"""
    P = setup_paths(ctx)
    old = ctx.tmp + '/old' + ctx.text('old', 1)
    new = ctx.tmp + '/new' + ctx.text('new', 2)
    for d in (old, new):
        ctx.env.confined.os.makedirs(d, exist_ok=True)
    if known:
        P._newsimpath('_testbox', old)
    asks = path == 'given' and update and known
    ctx.env.answers[:] = [known] if asks else []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cat = _raw.catalogs(ctx, '_testbox', meta=True, path=new if path == 'given' else 'auto', updatepath=update)
        ctx.check(not ctx.env.answers, 'asked')
        auto = os.path.join(ctx.tmp, 'root', 'simim_resources', 'simulations', '_testbox')
        at = new if path == 'given' else old if known else auto
        ctx.check(ctx.same(str(cat.path), at), 'path used')
        ctx.check(ctx.env.confined.path.exists(at + '/meta.npy') and ctx.env.confined.path.exists(at + '/meta_snaps.npy'), 'metadata kept there')
        reg = ctx.mod('simim._paths')._SimIMPaths().sims
        keep = None if not known else old
        if path == 'given' and update and known != 'n':
            keep = new
        if path == 'auto' and not known:
            keep = auto
        ctx.check(('_testbox' in reg) == (keep is not None), 'path registered')
        if keep is not None:
            ctx.check(ctx.same(reg['_testbox'], keep), 'path registered')
        missing = ctx.raises(NameError, _raw.catalogs, ctx, '_testbox', path=ctx.tmp + '/missing')
        ctx.check(missing, 'missing path refused')
        ctx.check(ctx.raises(NameError, ctx.mod('simim.siminterface._rawsiminterface').SimCatalogs, 'nonsense'), 'unknown simulations refused')


@harness(configs=[dict(snaps=s) for s in ([0], [2, 1], [1, 7], [0, 0, 2], [5, -1, 1])])
def selection(ctx, snaps):
    """the snapshots asked for, those which exist"""
    setup_paths(ctx)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        cat = _raw.catalogs(ctx, '_testbox', snaps)
    ctx.check([int(x) for x in cat.snaps] == sorted(set(snaps) & {0, 1, 2}), 'snapshots')
    ctx.check(any('do not exist' in str(x.message) for x in w) == any(s not in (0, 1, 2) for s in snaps), 'the user is told of the others')
