"""M03: gridding spectra adds each object's spectrum along the spectral axis at its position, independently of how it is evaluated."""
import numpy as np
from vsx.core import harness
from vsx.spec import all_, any_, not_, ite, obj, total
from checks._map import make_grid, edges_of, inside_cell, inside_grid, cells

FUNCTIONS = ['map.gridder.Grid.add_from_pos_plus_array', 'map.gridder.Grid.add_from_spec_func', 'map.gridder.Grid.add_new_prop']
BOUNDS = 'maps of 2 and 3 dimensions, up to 3 cells per axis, up to 4 spectra, any spectral axis, 2 properties; positions, spectra, spectral parameters and previous contents symbolic'
OUTSIDE = 'longer catalogues; spectral functions that look at more than the axis values and their own parameters'


def with_spectra(base, pos, spec, edges, ax, cols):
    """spec[o][k] added to every listed property along axis ax at the cell holding pos[o]"""
    nd = len(edges)
    ed = [edges[d] for d in range(nd) if d != ax]
    out = np.array(base, dtype=object)
    for o in range(len(pos)):
        for c in cells(edges):
            sp = tuple(c[d] for d in range(nd) if d != ax)
            w = inside_cell(pos[o], ed, sp)
            for p in cols:
                out[c + (p,)] = out[c + (p,)] + ite(w, spec[o][c[ax]], 0.0)
    return out


G2 = dict(npix=(2, 3), px=(1.0, 0.5), cen=(0.0, 2.0))
G3 = dict(npix=(2, 3, 2), px=(1.0, 0.5, 2.0), cen=(0.5, 2.0, 1.0))


def setup(ctx, nd):
    G = G2 if nd == 2 else G3
    g = make_grid(ctx, G['npix'], G['px'], 2, list(G['cen']))
    old = ctx.array('old', G['npix'] + (2,))
    g.grid = g.grid + old
    return g, obj(old), edges_of(G['npix'], G['px'], G['cen']), G


@harness(configs=[dict(nd=2, ax=-1, n=2), dict(nd=2, ax=0, n=2), dict(nd=2, ax=1, n=1, props=1), dict(nd=2, ax=0, n=2, props=(1, 0)),
                  dict(nd=2, ax=0, n=2, props=(0,)), dict(nd=2, ax=0, n=2, new=True), dict(nd=2, ax=1, n=2, new=True, props=0),
                  dict(nd=3, ax=0, n=1), dict(nd=3, ax=1, n=1), dict(nd=3, ax=-1, n=1), dict(nd=3, ax=-3, n=1, props=1), dict(nd=3, ax=1, n=1, new=True)],
         thorough=[dict(nd=d, ax=a, n=2, props=p, new=w) for d in (2, 3) for a in range(-d, d) for p in (None, 0, 1, (1, 0)) for w in (False, True)])
def tabulated(ctx, nd, ax, n, props=None, new=False):
    """spectra given as an array"""
    g, old, edges, G = setup(ctx, nd)
    a = ax % nd
    pos = ctx.array('p', (n, nd - 1), -3, 3)
    spec = ctx.array('s', (n, G['npix'][a]))
    g.add_from_pos_plus_array(pos, spec, ax=ax, new_prop=new, properties=props)
    if new:
        want = np.zeros(old.shape[:-1] + (3,), dtype=object)
        want[..., :2] = old
        cols = [2]
    else:
        want, cols = old, [0, 1] if props is None else [props] if isinstance(props, int) else list(props)
    want = with_spectra(want, obj(pos), obj(spec), edges, a, cols)
    ctx.check_eq(g.grid, want, 'cell contents')
    ctx.check(g.n_properties == want.shape[-1], 'number of properties')
    ed = [edges[d] for d in range(nd) if d != a]
    ctx.check_eq(g.n_objects, total([ite(inside_grid(p, ed), 1.0, 0.0) for p in obj(pos)]), 'spectra counted')
    ctx.observe('grid', g.grid)


def line(axis, params):
    return params[:, 0:1] + params[:, 1:2] * axis.reshape(1, -1)


def cumul(axis, params):
    a = axis.reshape(1, -1)
    return params[:, 0:1] * a + params[:, 1:2] * a * a


CF = [dict(nd=2, ax=a, n=3, loop=l, careful=c, cum=u) for a in (-1, 0) for l in (False, True) for c in (True, False) for u in (False, True)]
CF3 = [dict(nd=3, ax=1, n=1, loop=False, careful=True, cum=True), dict(nd=3, ax=0, n=1, loop=True, careful=False, cum=False)]
NW = [dict(nd=2, ax=a, n=3, loop=l, careful=c, cum=False, new=True) for a in (-1,) for l in (False, True) for c in (True, False)]


@harness(configs=CF + CF3 + NW + [dict(nd=2, ax=0, n=2, loop=False, careful=True, cum=False, props=1)],
         thorough=CF + CF3 + NW + [dict(nd=2, ax=a, n=4, loop=l, careful=c, cum=u, new=w, props=p) for a in (-1, 0) for l in (False, True)
                                   for c in (True, False) for u in (False, True) for w in (False, True) for p in (None, 1)])
def functional(ctx, nd, ax, n, loop, careful, cum, new=False, props=None):
    """spectra given as a function of the axis: any axis, looped or not, in chunks or at once, differenced when cumulative"""
    g, old, edges, G = setup(ctx, nd)
    a = ax % nd
    pos = ctx.array('p', (n, nd - 1), -2, 2)
    par = ctx.array('a', (n, 2), -2, 2)
    g.add_from_spec_func(pos, cumul if cum else line, par, spec_ax=ax, is_cumulative=cum, eval_as_loop=loop,
                         careful_with_memory=careful, new_prop=new, properties=props)
    e, A = edges[a], obj(par)
    if cum:
        F = lambda o, x: A[o][0] * x + A[o][1] * x * x
        spec = [[F(o, e[k + 1]) - F(o, e[k]) for k in range(len(e) - 1)] for o in range(n)]
    else:
        spec = [[A[o][0] + A[o][1] * (e[k] + e[k + 1]) / 2 for k in range(len(e) - 1)] for o in range(n)]
    cols = [0, 1] if props is None else [props]
    want = old
    if new:
        want = np.zeros(old.shape[:-1] + (3,), dtype=object)
        want[..., :2] = old
        cols = [2]
    want = with_spectra(want, obj(pos), spec, edges, a, cols)
    ctx.check_eq(g.grid, want, 'cell contents')
    ctx.check(g.n_properties == want.shape[-1], 'number of properties')
    ctx.observe('grid', g.grid)


@harness(configs=[dict(n=1), dict(n=3)])
def flux_conserved(ctx, n):
    """a spectrum given by its integral keeps its flux within the band, however narrow its features"""
    g = make_grid(ctx, (2, 3), (1.0, 0.5), 1, [0.0, 2.0])
    pos = ctx.array('p', (n, 1), -1, 0.9375)
    nu, lum = ctx.array('nu', (n,), 0, 4), ctx.array('l', (n,), 0, 4)
    np_ = ctx.np
    step = lambda axis, prm: np_.where(axis.reshape(1, -1) >= prm[:, 0:1], prm[:, 1:2], 0.0)      # a delta-function line
    g.add_from_spec_func(pos, step, np_.array([nu, lum]).T, is_cumulative=True)
    V, L = obj(nu), obj(lum)
    want = total([ite(all_(V[i] > 1.25, V[i] <= 2.75), L[i], 0.0) for i in range(n)])
    ctx.check_eq(total(obj(g.grid).reshape(-1)), want, 'total flux inside the band')


@harness(configs=[dict(fn=f, new=w, shape=s) for f in ('array', 'func') for w in (False, True) for s in ('flat', '2d')])
def empty(ctx, fn, new, shape):
    """no spectra leave every cell as it was"""
    g, old, edges, G = setup(ctx, 2)
    np_ = ctx.np
    pos = np_.array([]) if shape == 'flat' else np_.zeros((0, 1))
    if fn == 'array':
        g.add_from_pos_plus_array(pos, np_.zeros((0, 3)), new_prop=new)
    else:
        g.add_from_spec_func(pos, line, np_.zeros((0, 2)), new_prop=new)
    ctx.check_eq(g.grid[..., :2], old, 'cells unchanged')
    ctx.check(g.n_properties == (3 if new else 2) and tuple(g.grid.shape) == (2, 3, g.n_properties), 'number of properties')
    if new:
        ctx.check_eq(g.grid[..., 2], np.zeros((2, 3)), 'the new property is empty')


@harness(configs=[dict(case=c) for c in ('npos', 'width', 'dim', 'axis', 'specwidth', 'nspec')])
def refused(ctx, case):
    """inconsistent input is refused and the map is left alone"""
    g, old, edges, G = setup(ctx, 2)
    pos, spec = ctx.array('p', (2, 1), -1, 1), ctx.array('s', (2, 3))
    f = g.add_from_pos_plus_array
    if case == 'npos':
        r = ctx.raises(ValueError, f, pos, spec[:1])
    elif case == 'width':
        r = ctx.raises(ValueError, f, pos, spec[:, :2])
    elif case == 'dim':
        r = ctx.raises(ValueError, f, ctx.array('q', (2, 2)), spec)
    elif case == 'axis':
        r = ctx.raises(ValueError, f, pos, spec, ax=2)
    elif case == 'specwidth':
        r = ctx.raises(ValueError, g.add_from_spec_func, pos, lambda a, p: line(a, p)[:, :2], ctx.array('a', (2, 2)))
    else:
        r = ctx.raises(ValueError, g.add_from_spec_func, pos, lambda a, p: line(a, p)[:1], ctx.array('a', (2, 2)))
    ctx.check(r, 'refused')
    ctx.check_eq(g.grid, old, 'the map is unchanged')
