"""A simulation in SimIM's format (registered in a scratch data directory), for the simulation and light cone checks."""
import os
import numpy as np
from vsx import astro

UNITS = {'mass': ('Msun/h', -1), 'pos_x': ('Mpc/h', -1), 'pos_y': ('Mpc/h', -1), 'pos_z': ('Mpc/h', -1),
         'v_x': ('km/s', 0), 'v_y': ('km/s', 0), 'v_z': ('km/s', 0), 'sfr': ('Msun/yr', 0), 'id': ('None', 0), 'r': ('Mpc/h', -1),
         'spin_x': ('None', 0), 'spin_y': ('None', 0), 'spin_z': ('None', 0)}

META = [('index', 'i'), ('redshift', 'f'), ('redshift_min', 'f'), ('redshift_max', 'f'), ('time_start', 'f'), ('time_end', 'f'),
        ('distance_min', 'f'), ('distance_max', 'f'), ('transverse_distance_min', 'f'), ('transverse_distance_max', 'f')]


def setup_paths(ctx, sims=(), lcs=()):
    """a scratch data directory, known to the package"""
    P = ctx.mod('simim._paths')
    root = os.path.join(ctx.tmp, 'root')
    os.makedirs(root, exist_ok=True)
    p = P._SimIMPaths()
    p._setuppath(root)
    for s in sims:
        if s not in p.sims:
            p._newsimpath(s)
    for s in lcs:
        p._newlcpath(s)
    return p


def make_sim(ctx, snaps, h, box, sim='_testbox', Om=0.5, Ob=0.25, meta_order=None, extra=None):
    """snaps: [dict(index=, z=, zmin=, zmax=, props={name: array sorted by decreasing mass}, cuts=[descending masses])]"""
    FL = astro.install(ctx)
    np_ = ctx.np
    paths = setup_paths(ctx, [sim])
    path = paths.sims[sim]
    cos = FL(100 * h, Om, 2.7255, Ob0=Ob)
    meta = np_.zeros(len(snaps), dtype=META)
    for k, i in enumerate(meta_order or range(len(snaps))):
        s = snaps[i]
        meta['index'][k] = s['index']
        meta['redshift'][k] = s['z']
        meta['redshift_min'][k], meta['redshift_max'][k] = s['zmin'], s['zmax']
        for q in ('', 'transverse_'):
            meta[q + 'distance_min'][k] = cos.D(s['zmin']) * h
            meta[q + 'distance_max'][k] = cos.D(s['zmax']) * h
    with ctx.h5.File(os.path.join(path, 'data.hdf5'), 'w') as f:
        for k, v in dict(name=sim, number_snaps=len(snaps), cosmo_name='c', cosmo_h=h, cosmo_omega_matter=Om, cosmo_omega_lambda=1 - Om,
                         cosmo_omega_baryon=Ob, box_edge=box, **(extra or {})).items():
            f.attrs[k] = v
        f.attrs['snapshots'] = meta
        for k, i in enumerate(meta_order or range(len(snaps))):
            s = snaps[i]
            g = f.create_group('Snapshot %d' % s['index'])
            cuts = np_.zeros(len(s['cuts']), dtype=[('min_mass', 'f'), ('index', 'i')])
            for j, c in enumerate(s['cuts']):
                cuts['min_mass'][j] = c
                n = 0
                for m in s['props']['mass']:
                    n = n + np_.where(m >= c, 1, 0)
                cuts['index'][j] = n
            g.create_dataset('mass_cuts', data=cuts)
            for p, a in s['props'].items():
                g.create_dataset(p, data=a)
                g[p].attrs['units'], g[p].attrs['h dependence'] = UNITS[p]
            g.attrs['metadata'] = meta[k:k + 1]
    return paths, cos


def masses(ctx, name, n, lo, hi):
    """n symbolic masses in decreasing order"""
    m = ctx.array(name, (n,), lo, hi)
    for i in range(n - 1):
        ctx.assume(m[i] >= m[i + 1])
    return m


LC_UNITS = dict(UNITS, ra=('radians', 0), dec=('radians', 0), redshift=('None', 0))


def make_lc(ctx, cones, h, name='cones', sim='_testbox', shape='box', angle=0.25, aspect=0.5, zmin=0.25, zmax=2.0, Om=0.5, Ob=0.25, attrs=None):
    """cones: [{property: array}], written as lc_0000.hdf5, ..."""
    FL = astro.install(ctx)
    paths = setup_paths(ctx, (), [sim])
    d = os.path.join(paths.lcs[sim], name)
    os.makedirs(d, exist_ok=True)
    for i, props in enumerate(cones):
        a = dict(cosmo_h=h, cosmo_omega_matter=Om, cosmo_omega_baryon=Ob, box_edge=100.0, shape=shape)
        a.update({'minimum redshift': zmin, 'maximum redshift': zmax})
        if shape in ('box', 'circle'):
            a.update({'open angle': angle, 'aspect ratio': aspect})
        a.update((attrs or [{}] * len(cones))[i])
        with ctx.h5.File(os.path.join(d, 'lc_%04d.hdf5' % i), 'w') as f:
            for k, v in a.items():
                f.attrs[k] = v
            g = f.create_group('Lightcone Full')
            for k, v in props.items():
                g.create_dataset(k, data=v)
                g[k].attrs['units'], g[k].attrs['h dependence'] = LC_UNITS[k]
    return FL(100 * h, Om, 2.7255, Ob0=Ob)
