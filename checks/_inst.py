"""Specification helpers for the instrument checks."""
import numpy as np
from vsx.spec import obj, total
from checks._map import make_grid

PX = (0.5, 0.25, 2.0)
UN = dict(spatial_unit='deg', spectral_unit='GHz', flux_unit='Jy')


def quiet():
    import warnings
    c = warnings.catch_warnings()
    c.__enter__()
    warnings.simplefilter('ignore')
    return c


def field(ctx, name, npix, nprop=1, center=(1.0, -2.0, 100.0), units=None, lo=-4, hi=4):
    g = make_grid(ctx, npix, PX, nprop, list(center), axunits=['deg', 'deg', 'GHz'], gridunits=units or ['Jy'] * nprop)
    data = ctx.array(name, tuple(npix) + (nprop,), lo, hi)
    g.grid = data
    return g, obj(data).copy()


def beamed(D, B):
    """field (x, y, z) convolved in x and y, channel by channel, with the beam image B (x, y, z) whose middle cell is the axis"""
    out = np.empty(D.shape, dtype=object)
    n, m = D.shape, B.shape
    for c in np.ndindex(*n):
        s = 0.0
        for i in range(m[0]):
            for j in range(m[1]):
                x, y = c[0] + (m[0] - 1) // 2 - i, c[1] + (m[1] - 1) // 2 - j
                if 0 <= x < n[0] and 0 <= y < n[1]:
                    s = s + D[x, y, c[2]] * B[i, j, c[2]]
        out[c] = s
    return out


def banded(C, w):
    """average over channels weighted by the spectral response"""
    out = np.empty(C.shape[:2], dtype=object)
    W = total(list(w))
    for i, j in np.ndindex(*out.shape):
        out[i, j] = total([C[i, j, k] * w[k] for k in range(C.shape[2])]) / W
    return out


def normed(B, norm):
    B = np.array(B, dtype=object)
    for k in range(B.shape[2]):
        v = [x for x in B[:, :, k].reshape(-1)]
        d = 1.0 if norm == 'none' else max(v) if norm == 'peak' else total(v)
        B[:, :, k] = B[:, :, k] / d
    return B
