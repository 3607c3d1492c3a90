"""A catalog file in SimIM's format, and a handler on it, for the catalog checks."""
import os
import numpy as np
from vsx.spec import obj

DEPS = {'mass': -1, 'x': -1, 'sfr': 0, 'lum': -2, 'dens': 2, 'id': 0}


def make_file(ctx, props, h, group='snap_000', attrs=None, name='cat.hdf5', units=None, gattrs=None, mass_cuts=None):
    """props: {name: (array, h power)}"""
    p = os.path.join(ctx.tmp, name)
    with ctx.h5.File(p, 'w') as f:
        f.attrs['cosmo_h'] = h
        for k, v in (attrs or {}).items():
            f.attrs[k] = v
        g = f.create_group(group)
        for k, v in (gattrs or {}).items():
            g.attrs[k] = v
        for k, (a, dep) in props.items():
            g.create_dataset(k, data=a)
            g[k].attrs['units'] = (units or {}).get(k, 'u_' + k)
            g[k].attrs['h dependence'] = dep
        if mass_cuts is not None:
            g.create_dataset('mass_cuts', data=mass_cuts)
    return p


def make_handler(ctx, props, h, in_h=False, **k):
    p = make_file(ctx, props, h, **k)
    H = ctx.mod('simim._handlers')
    return H.Handler(p, 'catalog', k.get('group', 'snap_000'), in_h)


def hpow(h, n):
    r = 1.0
    for _ in range(abs(n)):
        r = r * h
    return 1.0 / r if n < 0 else r
