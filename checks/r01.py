"""R01: what a raw halo catalog says is what the formatted catalog says, in the units and order promised."""
import os
import warnings
import numpy as np
from vsx.core import harness
from vsx.spec import obj
from checks._sim import setup_paths
from checks import _raw

FUNCTIONS = ['siminterface._rawsiminterface.SimCatalogs.__init__', 'siminterface._rawsiminterface.SimCatalogs.format', 'siminterface.universemachine.UniversemachineCatalogs.__init__', 'siminterface.universemachine.UniversemachineCatalogs._ascii_loader', 'siminterface.universemachine.UniversemachineCatalogs._bin_loader',
             'siminterface.uchuu.UchuuCatalogs.__init__', 'siminterface.uchuu.UchuuCatalogs._loader', 'siminterface.illustris.IllustrisCatalogs.__init__', 'siminterface.illustris.IllustrisCatalogs._loader', 'siminterface._illustris_datahandling._loadObjects', 'siminterface._illustris_datahandling._loadSubhalos']
BOUNDS = 'every supported family of simulations; snapshots of 0 to 2 (thorough: 3) halos with arbitrary values of every raw field (masses distinct, within a decade, in any order), in 1 to 3 files where the simulation splits them'
OUTSIDE = 'real raw files (their layout is taken from the simulations\' documentation); halo identifiers beyond 32 bits in text files; single precision rounding; the order of equally massive halos'

SIMS = ('_testbox', 'UniverseMachine-BolshoiPlanck', 'UniverseMachine-SMDPL', 'UniverseMachine-MDPL2', 'UniverseMachine-uchuu', 'Illustris-1', 'Illustris-2-Dark', 'TNG300-1', 'TNG100-3-Dark')
CUTS = np.logspace(6, 20, 141)[::-1]


def expect(ctx, sim, vals, keep, h, box, basic=False):
    """{property: (column sorted by decreasing mass, unit, h dependence)} for the halos kept"""
    t = _raw.fields(sim)
    mraw = next(k for k, v in t.items() if v[0][0][0] == 'mass')
    order = list(keep)
    mass = {i: obj(vals[mraw])[i] for i in order}
    for i in range(1, len(order)):          # insertion sort, forks on comparisons
        j = i
        while j and mass[order[j]] > mass[order[j - 1]]:
            order[j - 1], order[j] = order[j], order[j - 1]
            j -= 1
    out = {}
    for raw, (props, f) in t.items():
        col = obj(vals[raw])
        for k, (name, unit, hd) in enumerate(props):
            if name is None or basic and name not in _raw.BASIC:
                continue
            c = [(col[i] if len(props) == 1 else col[i][k]) * f(h) for i in order]
            if sim in ('UniverseMachine-SMDPL', 'UniverseMachine-MDPL2') and name.startswith('pos_'):
                c = [x % box for x in c]
            out[name] = (c, unit, hd)
    return out


def compare(ctx, cat, snap, want, label=''):
    with ctx.h5.File(os.path.join(cat.path, 'data.hdf5'), 'r') as f:
        g = f['Snapshot %d' % snap]
        ctx.check(sorted(g.keys()) == sorted(list(want) + ['mass_cuts']), label + 'properties')
        for k, (c, unit, hd) in want.items():
            got = g[k][:]
            ctx.check(got.shape == (len(c),), label + 'one value per halo')
            s = 1e9 if k == 'mass' else 1e10 if unit.startswith('Msun/h') and cat.sim[:3] in ('Ill', 'TNG') else 1.0
            ctx.check_eq([x / s for x in obj(got)], [x / s for x in c], label + 'value of ' + k, scale=1e2)
            ctx.check(g[k].attrs['units'] == unit and g[k].attrs['h dependence'] == hd, label + 'units of ' + k)
        cuts = g['mass_cuts'][:]
        ctx.check(len(cuts) == len(CUTS), label + 'mass cuts')
        ctx.check_eq(np.array([float(x) for x in obj(cuts['min_mass'])]) / CUTS, np.ones(len(CUTS)), label + 'mass cuts', scale=1e2)
        n = []
        for c in CUTS:
            k = 0
            for m in want['mass'][0]:
                if c <= 1e8 or c >= 1e10:
                    k = k + (c <= 1e8)
                else:
                    k = k + ctx.np.where(m >= c, 1, 0)
            n.append(k)
        ctx.check(all(ctx.np.all((m > 1e8) & (m < 1e10)) for m in want['mass'][0]), 'masses')
        ctx.check_eq(cuts['index'], n, label + 'halos above the mass cut')


def sizes(sim):
    return [(n, None) for n in (0, 1, 2)] + ([(2, [1, 1]), (2, [2, 0]), (1, [1, 0]), (2, [1, 0, 1])] if sim[:3] in ('Ill', 'TNG') else [])


@harness(configs=[dict(sim=s, n=n, chunks=c, basic=b) for s in SIMS for n, c in sizes(s) for b in (False, True)] + [dict(sim=s, n=3, chunks=[1, 1, 1], basic=True) for s in ('Illustris-2-Dark', 'TNG300-1')],
         thorough=[dict(sim=s, n=3, chunks=c, basic=False) for s in SIMS for c in ((None, [2, 1]) if s[:3] in ('Ill', 'TNG') else (None,))], robust=1e-3)
def contents(ctx, sim, n, chunks, basic):
    """halo by halo, property by property"""
    setup_paths(ctx)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cat = _raw.catalogs(ctx, sim, meta=dict(box=400000.0))
        snap = int(cat.allsnaps[1])
        cat.snaps = np.array([snap])
        vals = _raw.raw_values(ctx, sim, n)
        keep = range(n)
        if sim in ('UniverseMachine-SMDPL', 'UniverseMachine-MDPL2'):
            flags = [ctx.choice('flag%d' % i, [0, 2, 18]) for i in range(n)]
            vals['flags'] = np.array(flags, dtype=int)
            keep = [i for i in keep if flags[i] != 18]
        _raw.write_raw(ctx, cat, sim, snap, vals, chunks)
        cat.format(basic=basic)
    h, box = (0.5, 400.0) if sim[:3] in ('Ill', 'TNG') else (0.6775 if sim.endswith('uchuu') else 0.678, _raw.BOX[sim])
    ctx.check(cat.h == h and cat.box_edge == box, 'metadata')
    compare(ctx, cat, snap, expect(ctx, sim, vals, keep, h, box, basic))
