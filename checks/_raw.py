"""Raw halo catalogs as the simulations publish them, and what SimIM's format should make of them.

The tables are written from the simulations' own documentation:
raw field -> [(property, unit, h dependence)], and the factor which takes the raw unit to that unit.
"""
import json
import os
import types
import numpy as np
from vsx import astro
from checks._sim import setup_paths

ASCII = 'id descid upid flags uparent_dist x y z vx vy vz m v mp vmp r rank1 rank2 ra rarank sm icl sfr obs_sm obs_sfr obs_ssfr smhm obs_uv'.split()
INTS = ('id', 'descid', 'upid', 'flags', 'desc_id', 'SubhaloFlag')
BINARY = np.dtype([('id', 'i8'), ('descid', 'i8'), ('upid', 'i8'), ('flags', 'i4'), ('uparent_dist', 'f4'), ('pos', 'f4', (6,)), ('vmp', 'f4'), ('lvmp', 'f4'),
                   ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'), ('r', 'f4'), ('rank1', 'f4'), ('rank2', 'f4'), ('ra', 'f4'), ('rarank', 'f4'), ('a_uv', 'f4'),
                   ('sm', 'f4'), ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'), ('obs_sfr', 'f4'), ('obs_uv', 'f4'), ('empty', 'f4')], align=True)
UCHUU = {1: ['id', 'upid', 'Mvir', 'sm', 'icl', 'sfr', 'obs_sm', 'obs_sfr', 'obs_uv'], 2: ['x', 'y', 'z'], 3: ['desc_id', 'vx', 'vy', 'vz', 'Mpeak', 'Vmax_Mpeak', 'vmax', 'A_UV']}

XYZ = ('x', 'y', 'z')
MPC, KMS, MSUN, YR, NO = ('Mpc/h', -1), ('km/s', 0), ('Msun/h', -1), ('Msun/yr', 0), ('None', 0)
ONE, H, KPC, E10, PERBH = (lambda h: 1.0), (lambda h: h), (lambda h: 1e-3), (lambda h: 1e10), (lambda h: 1e10 / 0.978)


def um_fields(kind):
    """kind: 'ascii' (masses in Msun), 'testbox' (ascii, halo masses in Msun/h), 'binary' (halo masses in Msun/h) -> {raw: ([properties], factor)}"""
    mh = H if kind == 'ascii' else ONE
    t = {}
    if kind == 'binary':
        t['pos'] = ([('pos_' + a,) + MPC for a in XYZ] + [('v_' + a,) + KMS for a in XYZ], ONE)
    else:
        for a in XYZ:
            t[a] = ([('pos_' + a,) + MPC], ONE)
            t['v' + a] = ([('v_' + a,) + KMS], ONE)
    t['m'] = ([('mass',) + MSUN], mh)
    t['mp'] = ([('mass_peak',) + MSUN], mh)
    t['r'] = ([('r',) + MPC], KPC)
    for raw, n in (('id', 'halo_id'), ('descid', 'descendent_id'), ('upid', 'parent_id'), ('rank1', 'Rank1')):
        t[raw] = ([(n,) + NO], ONE)
    for raw, n in (('v', 'vmax'), ('vmp', 'vmax_peak')):
        t[raw] = ([(n,) + KMS], ONE)
    for raw, n in (('sm', 'm_stars'), ('icl', 'icl'), ('obs_sm', 'm_stars_obs')):
        t[raw] = ([(n,) + MSUN], H)
    for raw, n in (('sfr', 'sfr'), ('obs_sfr', 'sfr_obs')):
        t[raw] = ([(n,) + YR], ONE)
    t['obs_uv'] = ([('phot_uv_obs', 'mag', 0)], ONE)
    if kind == 'binary':
        t['a_uv'] = ([('uv_attenuation', 'mag', 0)], ONE)
    else:
        t['obs_ssfr'] = ([('ssfr_obs', '?', 0)], ONE)
        t['smhm'] = ([('stellar_to_halo_mass_ratio',) + NO], ONE)
    return t


def uchuu_fields():
    t = {}
    for a in XYZ:
        t[a] = ([('pos_' + a,) + MPC], ONE)
        t['v' + a] = ([('v_' + a,) + KMS], ONE)
    t['Mvir'] = ([('mass',) + MSUN], ONE)
    t['Mpeak'] = ([('mass_peak',) + MSUN], ONE)
    for raw, n in (('id', 'halo_id'), ('desc_id', 'descendent_id'), ('upid', 'parent_id')):
        t[raw] = ([(n,) + NO], ONE)
    for raw, n in (('vmax', 'vmax'), ('Vmax_Mpeak', 'vmax_peak')):
        t[raw] = ([(n,) + KMS], ONE)
    for raw, n in (('sm', 'm_stars'), ('icl', 'icl'), ('obs_sm', 'm_stars_obs')):
        t[raw] = ([(n,) + MSUN], H)
    for raw, n in (('sfr', 'sfr'), ('obs_sfr', 'sfr_obs')):
        t[raw] = ([(n,) + YR], ONE)
    t['obs_uv'] = ([('phot_uv_obs', 'mag', 0)], ONE)
    t['A_UV'] = ([('uv_attenuation', 'mag', 0)], ONE)
    return t


TYPES = ('m_gas', 'm_dm', None, 'm_tracers', 'm_stars_wind', 'm_bh')
METALS = ['met' + x for x in ('H', 'He', 'C', 'N', 'O', 'Ne', 'Mg', 'Si', 'Fe', 'Other')]


def illustris_fields(sim):
    tng, dark = sim.startswith('TNG'), sim.endswith('Dark')
    v3 = lambda p, u: [(p + a,) + u for a in XYZ]
    one = lambda n, u: [(n,) + u]
    t = {'SubhaloPos': (v3('pos_', MPC), KPC), 'SubhaloHalfmassRad': (one('r_hm', MPC), KPC), 'SubhaloMass': (one('mass', MSUN), E10), 'SubhaloVel': (v3('v_', KMS), ONE),
         'SubhaloCM': (v3('cm_', MPC), KPC), 'SubhaloMassInMaxRad': (one('mass_maxr', MSUN), E10), 'SubhaloSpin': (v3('spin_', ('Mpc/h km/s', -1)), KPC),
         'SubhaloVelDisp': (one('vdisp', KMS), ONE), 'SubhaloVmax': (one('vmax', KMS), ONE), 'SubhaloVmaxRad': (one('r_vmax', MPC), KPC)}
    if tng and not dark:
        t['SubhaloFlag'] = (one('flag', ('none', 0)), ONE)
    if dark:
        return t
    t['SubhaloBHMass'] = (one('bhmass', MSUN), E10)
    t['SubhaloBHMdot'] = (one('bhmdot', ('Msun/h / (Gyr/h)', 0)), PERBH)
    for q, s in (('', ''), ('HalfRad', '_hr'), ('MaxRad', '_maxr')):
        t['SubhaloGasMetallicity' + q] = (one('met' + s, NO), ONE)
        t['SubhaloStarMetallicity' + q] = (one('met_stellar' + s, NO), ONE)
        if tng:
            t['SubhaloGasMetalFractions' + q] = ([(m + s,) + NO for m in METALS], ONE)
    for q, s in (('MassType', ''), ('MassInHalfRadType', '_hr'), ('MassInMaxRadType', '_maxr'), ('MassInRadType', '_2hr')):
        t['Subhalo' + q] = ([(None if m is None else m + s,) + MSUN for m in TYPES], E10)
    t['SubhaloMassInHalfRad'] = (one('mass_hr', MSUN), E10)
    t['SubhaloMassInRad'] = (one('mass_2hr', MSUN), E10)
    for q, s in (('', ''), ('inHalfRad', '_hr'), ('inMaxRad', '_maxr'), ('inRad', '_2hr')):
        t['SubhaloSFR' + q] = (one('sfr' + s, YR), ONE)
    t['SubhaloStellarPhotometrics'] = ([('phot_' + b, 'mag', 0) for b in 'UBVKgriz'], ONE)
    return t


BASIC = {'mass', 'pos_x', 'pos_y', 'pos_z', 'v_x', 'v_y', 'v_z', 'r_hm', 'flag'}     # kept with basic=True, where the simulation has them

UM = {'_testbox': 'testbox', 'UniverseMachine-BolshoiPlanck': 'ascii', 'UniverseMachine-SMDPL': 'binary', 'UniverseMachine-MDPL2': 'binary'}
BOX = {'_testbox': 10, 'UniverseMachine-BolshoiPlanck': 250, 'UniverseMachine-SMDPL': 400, 'UniverseMachine-MDPL2': 1000, 'UniverseMachine-uchuu': 2000}


def fields(sim):
    return um_fields(UM[sim]) if sim in UM else uchuu_fields() if sim == 'UniverseMachine-uchuu' else illustris_fields(sim)


# -- the raw files -------------------------------------------------------------------------------

def write_text(ctx, path, cols):
    """cols: [column]"""
    if ctx.symbolic:
        with open(path, 'w'):
            pass
        ctx.env.tables[os.path.realpath(path)] = ('text', cols)
    else:
        with open(path, 'w') as f:
            f.write('#made up\n')
            for row in zip(*cols):
                f.write(' '.join(repr(x.item() if hasattr(x, 'item') else x) for x in row) + '\n')


def write_binary(ctx, path, cols):
    if ctx.symbolic:
        with open(path, 'w'):
            pass
        ctx.env.tables[os.path.realpath(path)] = ('binary', BINARY, cols)
    else:
        a = np.zeros(len(cols['m']), dtype=BINARY)
        for k, v in cols.items():
            a[k] = v
        a.tofile(path)


def masses(ctx, name, n, lo, hi):
    m = ctx.array(name, (n,), lo, hi)
    for i in range(n):
        for j in range(i):      # the order of equally massive halos is up to the sort
            ctx.assume((m[i] - m[j] > 1e-3) | (m[j] - m[i] > 1e-3))
    return m


def raw_values(ctx, sim, n, tag='', mlo=0.55, mhi=0.75):
    """{raw field: column(s)} for n halos, arbitrary values"""
    out = {}
    names = ASCII if sim in UM and UM[sim] != 'binary' else BINARY.names if sim in UM else sum(UCHUU.values(), []) if sim == 'UniverseMachine-uchuu' else list(fields(sim))
    for f in names:
        k = 1
        if f in fields(sim):
            k = len(fields(sim)[f][0])
        name = tag + f
        if f in INTS:
            out[f] = ctx.array(name, (n,), 0, 9, kind='int')
        elif f in ('m', 'Mvir'):
            out[f] = masses(ctx, name, n, mlo, mhi) * 1e9
        elif f == 'SubhaloMass':
            out[f] = masses(ctx, name, n, mlo, mhi) / 10
        else:
            out[f] = ctx.array(name, (n,) if k == 1 else (n, k))
    return out


def write_raw(ctx, cat, sim, snap, vals, chunks=None):
    """the file(s) of one snapshot; chunks: sizes of the Illustris files"""
    raw = os.path.join(cat.path, 'raw')
    os.makedirs(raw, exist_ok=True)
    if sim in UM:
        p = os.path.join(raw, str(cat.web_files[snap]))
        if UM[sim] == 'binary':
            write_binary(ctx, p, vals)
        else:
            write_text(ctx, p, [vals[f] for f in ASCII])
    elif sim == 'UniverseMachine-uchuu':
        for df, fs in UCHUU.items():
            with ctx.h5.File(os.path.join(raw, str(cat.web_files[snap]).replace('data1', 'data%d' % df)), 'w') as f:
                for k in fs:
                    f.create_dataset(k, data=vals[k])
    else:
        d = os.path.join(raw, 'groups_%03d' % snap)
        os.makedirs(d, exist_ok=True)
        n = len(vals['SubhaloMass'])
        at = 0
        for i, c in enumerate(chunks or [n]):
            with ctx.h5.File(os.path.join(d, ('fof_subhalo_tab_%03d.%d.hdf5' if sim.startswith('TNG') else 'groups_%03d.%d.hdf5') % (snap, i)), 'w') as f:
                g = f.create_group('Header')
                g.attrs['Nsubgroups_Total'], g.attrs['Nsubgroups_ThisFile'], g.attrs['NumFiles'] = n, c, len(chunks or [n])
                g = f.create_group('Subhalo')
                if c:
                    for k, v in vals.items():
                        g.create_dataset(k, data=v[at:at + c])
                    g.create_dataset('SubhaloGrNr', data=np.arange(at, at + c))
            at += c


# -- the internet --------------------------------------------------------------------------------

def web(ctx, pages):
    """requests.get answers from a table of pages (text, or data sent as json)"""
    if 'requests' in ctx.env.overrides:
        ctx.env.overrides['requests'].pages.update(pages)
        return
    m = types.ModuleType('requests')
    m.pages = dict(pages)

    def get(url, *a, **k):
        if url not in m.pages:
            raise OSError('no such page: %s' % url)
        v = m.pages[url]
        return types.SimpleNamespace(text=v if isinstance(v, str) else json.dumps(v) if not ctx.symbolic else '', json=lambda: v, raise_for_status=lambda: None)
    m.get = get
    ctx.env.overrides['requests'] = m


UM_PAGES = {'UniverseMachine-BolshoiPlanck': 'https://halos.as.arizona.edu/UniverseMachine/DR1/SFR_ASCII/', 'UniverseMachine-SMDPL': 'https://halos.as.arizona.edu/UniverseMachine/DR1/SMDPL_SFR/',
            'UniverseMachine-MDPL2': 'https://halos.as.arizona.edu/UniverseMachine/DR1/MDPL2_SFR/', 'UniverseMachine-uchuu': 'https://skun.iaa.csic.es/SUsimulations/UchuuDR2/Uchuu_UM/SFR/'}
COUNT = {'UniverseMachine-BolshoiPlanck': 178, 'UniverseMachine-SMDPL': 118, 'UniverseMachine-MDPL2': 126, 'UniverseMachine-uchuu': 46}


def um_names(sim):
    """file names, earliest time first"""
    n = COUNT[sim]
    if sim == 'UniverseMachine-uchuu':
        return ['Uchuu_UM_z%dp%02d_data1.h5' % divmod(25 * (n - 1 - i), 100) for i in range(n)]
    return ['sfr_catalog_%.6f.%s' % ((i + 1) / (n + 1), 'txt' if UM[sim] == 'ascii' else 'bin') for i in range(n)]


def listing(sim, names):
    return ''.join('<tr><td><a href="%s">%s</a></td></tr>\n' % (x, x) for x in names)


def catalogs(ctx, sim, snaps='all', order=None, meta=True, **k):
    """the catalog object, with its metadata; nothing downloaded"""
    astro.install(ctx)
    web(ctx, {})
    if sim in UM_PAGES:
        names = um_names(sim)
        if order is not None:
            names = [names[i] for i in order]
        web(ctx, {UM_PAGES[sim]: listing(sim, names)})
        mod = 'uchuu' if sim.endswith('uchuu') else 'universemachine'
        cls = 'UchuuCatalogs' if sim.endswith('uchuu') else 'UniversemachineCatalogs'
        c = getattr(ctx.mod('simim.siminterface.' + mod), cls)(sim, snaps=snaps, **k)
    elif sim == '_testbox':
        c = ctx.mod('simim.siminterface.universemachine').UniversemachineCatalogs(sim, snaps=snaps, **k)
    else:
        c = ctx.mod('simim.siminterface.illustris').IllustrisCatalogs(sim, 'key', snaps=snaps, **k)
    if meta:
        if sim in UM_PAGES or sim == '_testbox':
            c.download_meta()
        else:
            web(ctx, illustris_pages(sim, (snaps if not isinstance(snaps, str) else c.allsnaps), **(meta if isinstance(meta, dict) else {})))
            c.download_meta()
    return c


def illustris_pages(sim, numbers, zs=None, order=None, h=0.5, box=75000.0, Om=0.5, Ob=0.25, files=2):
    numbers = [int(x) for x in numbers]
    zs = zs if zs is not None else [float(len(numbers) - i) / 2 for i in range(len(numbers))]
    L = [{'number': n, 'redshift': z, 'url': 'u'} for n, z in zip(numbers, zs)]
    b = 'http://www.tng-project.org/api/%s/' % sim
    return {b: {'name': sim, 'boxsize': box, 'num_snapshots': len(L), 'cosmology': 'C', 'omega_0': Om, 'omega_L': 1 - Om, 'omega_B': Ob, 'hubble': h, 'num_files_groupcat': files},
            b + 'snapshots': [L[i] for i in order] if order is not None else L}
