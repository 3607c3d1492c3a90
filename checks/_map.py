"""Specification helpers shared by the map checks."""
import numpy as np
from vsx.spec import all_, ite, obj, total


def make_grid(ctx, npix, px, nprop, center, active=True, **k):
    G = ctx.mod('simim.map.gridder')
    g = G.Grid(nprop, center, [n * p for n, p in zip(npix, px)], px, **k)
    if active:
        g.init_grid()
    return g


def edges_of(npix, px, center):
    return [[c + (i - n / 2) * p for i in range(n + 1)] for n, p, c in zip(npix, px, center)]


def inside_cell(pos, edges, cell):
    return all_(*[all_(pos[d] >= edges[d][cell[d]], pos[d] < edges[d][cell[d] + 1]) for d in range(len(edges))])


def inside_grid(pos, edges):
    return all_(*[all_(pos[d] >= edges[d][0], pos[d] < edges[d][-1]) for d in range(len(edges))])


def cells(edges):
    return np.ndindex(*[len(e) - 1 for e in edges])


def placed(base, pos, val, edges, cols):
    """what the grid must hold after adding the objects: straight from the statement"""
    out = np.array(base, dtype=object)
    for o in range(len(pos)):
        for cell in cells(edges):
            w = inside_cell(pos[o], edges, cell)
            for k, p in enumerate(cols):
                v = val[o][k if len(val[o]) > 1 else 0]
                out[cell + (p,)] = out[cell + (p,)] + ite(w, v, 0.0)
    return out


def check_geometry(ctx, g, npix, px, center, what='grid', frac=None):
    """every description of the grid's geometry agrees with cell counts, cell sizes and centre"""
    nd = len(npix)
    ctx.check(g.n_dimensions == nd, what + ': number of dimensions')
    ctx.check_eq(g.n_pixels, list(npix), what + ': cells per axis')
    ctx.check_eq(g.pixel_size, list(px), what + ': cell size')
    ctx.check_eq(g.center_point, list(center), what + ': centre')
    ctx.check_eq(g.side_length, [n * p for n, p in zip(npix, px)], what + ': side length')
    ctx.check(len(g.axes) == nd and len(g.axes_centers) == nd and len(g.fourier_axes) == nd and len(g.fourier_axes_centers) == nd,
              what + ': one axis per dimension')
    for d in range(nd):
        n, p, c = npix[d], px[d], center[d]
        ctx.check_eq(g.axes[d], [c + (i - n / 2) * p for i in range(n + 1)], what + ': cell edges')
        ctx.check_eq(g.axes_centers[d], [c + (i + 0.5 - n / 2) * p for i in range(n)], what + ': cell centres')
        k = [(i - n // 2) / (n * p) for i in range(n)]
        ctx.check_eq(g.fourier_axes_centers[d], k, what + ': frequencies')
        ctx.check_eq(g.fourier_axes[d], [k[0] - 0.5 / (n * p)] + [x + 0.5 / (n * p) for x in k], what + ': frequency edges')
    if g.grid_active:
        ctx.check(tuple(g.grid.shape) == tuple(npix) + (g.n_properties,), what + ': data shape')
    ctx.check(len(g.gridunits) == g.n_properties, what + ': one unit per property')
    ctx.check(len(g.axunits) == nd and len(g.fourier_axunits) == nd and len(g.fourier_space) == nd, what + ': one unit per axis')
