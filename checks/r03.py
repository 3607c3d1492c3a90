"""R03: a formatted catalog grows snapshot by snapshot, survives interruption, and raw data go only when they are no longer needed."""
import os
import warnings
import numpy as np
from vsx.core import harness
from vsx.spec import obj
from vsx import astro
from checks._sim import setup_paths
from checks import _raw

FUNCTIONS = ['siminterface._rawsiminterface.SimCatalogs.format', 'siminterface._rawsiminterface.SimCatalogs.clean_raw', 'siminterface.universemachine.UniversemachineCatalogs._get_rawsnapfiles', 'siminterface.uchuu.UchuuCatalogs._get_rawsnapfiles', 'siminterface.illustris.IllustrisCatalogs._get_rawsnapfiles']
BOUNDS = 'a simulation of 3 snapshots with 1 halo each; every history of 2 (thorough: 3) calls of format, each with any selection of snapshots and options and interrupted at any snapshot or not at all; raw data which changed in between; paths with 2 arbitrary characters'
OUTSIDE = 'interruption while the groups of a snapshot are being written; files removed by shell commands with patterns'

PROPS_ALL, PROPS_BASIC = 'all', 'basic'


class Stop(Exception):
    pass


def fixture(ctx, path=None):
    """the small simulation, everything downloaded; values[snap] = raw values (as they are now)"""
    setup_paths(ctx)
    cat = _raw.catalogs(ctx, '_testbox', **({} if path is None else dict(path=path)))
    return cat


def fill(ctx, cat, version, snaps=(0, 1, 2)):
    out = {}
    for s in snaps:
        out[s] = _raw.raw_values(ctx, '_testbox', 1, 'v%d s%d ' % (version, s), mlo=0.65)
        _raw.write_raw(ctx, cat, '_testbox', s, out[s])
    return out


def verify(ctx, cat, state, label, meta=True):
    """state: {snapshot: (raw values, basic?)}"""
    t = _raw.fields('_testbox')
    with ctx.h5.File(os.path.join(cat.path, 'data.hdf5'), 'r') as f:
        ctx.check(sorted(f.keys()) == sorted('Snapshot %d' % s for s in state), label + ': snapshots')
        if meta:
            m = f.attrs['snapshots']
            ctx.check([int(x) for x in obj(m['index'])] == sorted(state), label + ': list of snapshots')
            ctx.check(int(f.attrs['number_snaps']) == len(state), label + ': number of snapshots')
        ctx.check(f.attrs['name'] == '_testbox' and f.attrs['box_edge'] == 10 and f.attrs['cosmo_h'] == 0.678, label + ': numbers of the simulation')
        for s, (v, basic) in state.items():
            g = f['Snapshot %d' % s]
            want = {p[0]: (raw, k) for raw, (ps, _) in t.items() for k, p in enumerate(ps) if not basic or p[0] in _raw.BASIC}
            ctx.check(sorted(g.keys()) == sorted(list(want) + ['mass_cuts']), label + ': properties')
            ctx.check_eq([g[p][0] / (1e9 if p == 'mass' else 1.0) for p in want], [obj(v[raw])[0] * t[raw][1](0.678) / (1e9 if p == 'mass' else 1.0) for p, (raw, k) in want.items()], label + ': values', scale=1e2)
            if meta:
                m = g.attrs['metadata']
                ctx.check([int(x) for x in obj(m['index'])] == [s], label + ': metadata of the snapshot')


SELECT = ([0, 1, 2], [1], [0, 2])


def history(ctx, steps, nsel=3, opts=()):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cat = fixture(ctx)
        state, basic_now, clean = {}, None, True
        for k in range(steps):
            vals = fill(ctx, cat, k)
            sel = ctx.choice('sel%d' % k, SELECT[:nsel] if k else SELECT)
            opt = opts[k] if k < len(opts) else ctx.choice('opt%d' % k, ['', 'basic', 'remake', 'overwrite', 'remake basic', 'overwrite basic'] if k else ['', 'basic'])
            cut = ctx.choice('cut%d' % k, [None] + list(range(len(sel))))
            c = _raw.catalogs(ctx, '_testbox', sel, meta=False)
            real, seen = c._loader, []

            def loader(path, snapshot, fields):
                if cut is not None and len(seen) == cut:
                    raise Stop()
                seen.append(snapshot)
                return real(path=path, snapshot=snapshot, fields=fields)
            c._loader = loader
            if not state or 'remake' in opt:
                new, basic_now, todo = {}, 'basic' in opt, list(sel)
            else:
                new = dict(state)
                todo = [s for s in sel if s not in state or 'overwrite' in opt]
            stopped = False
            try:
                c.format(remake='remake' in opt, overwrite='overwrite' in opt, basic='basic' in opt)
            except Stop:
                stopped = True
            ctx.check(stopped == (cut is not None and cut < len(todo)), 'interrupted')
            ctx.check(len(set(seen)) == len(seen) == (cut if stopped else len(todo)) and set(int(s) for s in seen) <= set(todo), 'every snapshot is read once')
            for s in seen:
                new[int(s)] = (vals[int(s)], basic_now)
            state = new
            clean = not stopped
            verify(ctx, cat, state, 'after an interruption' if stopped else 'after formatting', meta=clean)
        if not clean:
            # what was left out is made up for
            vals = fill(ctx, cat, steps)
            c = _raw.catalogs(ctx, '_testbox', meta=False)
            c.format()
            if not state:
                basic_now = False
            for s in range(3):
                state.setdefault(s, (vals[s], basic_now))
            verify(ctx, cat, state, 'after making up for an interruption')
        # and all of it is found by the handler
        S = ctx.mod('simim.siminterface.simhandler').SimHandler('_testbox')
        got, zs = S.snap_stat(lambda pos_x: pos_x[0], ['pos_x'], give_args_in_h_units=True)
        ctx.check_eq(got, [obj(state[s][0]['x'])[0] for s in sorted(state)], 'every snapshot is found', scale=1e2)


@harness(configs=[{}], max_paths=4000)
def once(ctx):
    """one call, and making up for its interruption"""
    history(ctx, 1)


OPTS = ('', 'basic', 'remake', 'overwrite', 'remake basic', 'overwrite basic')


@harness(configs=[dict(first=a, second=b) for a in ('', 'basic') for b in OPTS], thorough=[dict(first=a, second=b, nsel=3) for a in ('', 'basic') for b in OPTS], max_paths=20000)
def twice(ctx, first, second, nsel=2):
    """two calls"""
    history(ctx, 2, nsel, (first, second))


@harness(configs=[], thorough=[dict(first=a, second=b) for a in ('', 'basic') for b in OPTS], max_paths=20000)
def thrice(ctx, first, second):
    """three calls"""
    history(ctx, 3, 2, (first, second))


SIMS = ('_testbox', 'UniverseMachine-uchuu', 'UniverseMachine-SMDPL', 'TNG300-1', 'Illustris-3-Dark')


def tree(ctx, d):
    o = []
    for base, ds, fs in os.walk(d):
        for x in fs:
            o.append(os.path.join(base, x)[len(d) + 1:])
        for x in ds:
            if not os.listdir(os.path.join(base, x)):
                o.append(os.path.join(base, x)[len(d) + 1:] + '/')
    return sorted(o)


@harness(configs=[dict(sim=s, ask=a, cut=c) for s in SIMS for a in ('no', 'y', 'n', '?y', '?n') for c in (None, 0, 1) if c is None or a == 'no'])
def realtime(ctx, sim, ask, cut):
    """raw data are deleted snapshot by snapshot, after they have been formatted"""
    place = ctx.tmp + '/where' + ctx.text('p', 2)
    near = ctx.tmp + '/where'
    for d in (place, near, near + '/raw'):
        ctx.env.confined.os.makedirs(d, exist_ok=True)
    open(near + '/raw/precious', 'w').close()
    open(ctx.tmp + '/raw', 'w').close()
    setup_paths(ctx)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        snaps = [0, 2]
        cat = _raw.catalogs(ctx, sim, path=place, meta=True, snaps='all')
        allv = {s: _raw.raw_values(ctx, sim, 1, 's%d ' % s, mlo=0.65) for s in (0, 1, 2)}
        if sim == 'UniverseMachine-SMDPL':
            for v in allv.values():
                v['flags'] = np.array([0])
        files = {}
        for s in (0, 1, 2):
            before = set(tree(ctx, place))
            _raw.write_raw(ctx, cat, sim, s, allv[s], [1, 0] if sim[:3] in ('TNG', 'Ill') else None)
            files[s] = set(tree(ctx, place)) - before
        cat.snaps = np.array(snaps)
        before = set(tree(ctx, place))
        real, seen = cat._loader, []

        def loader(path, snapshot, fields):
            if cut is not None and len(seen) == cut:
                raise Stop()
            seen.append(int(snapshot))
            return real(path=path, snapshot=snapshot, fields=fields)
        cat._loader = loader
        ctx.env.answers[:] = list(ask) if ask != 'no' else []
        try:
            cat.format(realtime_clean_raw=True, realtime_clean_raw_check=ask != 'no')
        except Stop:
            pass
    ctx.check(not ctx.env.answers, 'asked until answered')
    gone = set()
    for s in seen:
        gone |= files[s]
    after = set(tree(ctx, place))
    if ask[-1] == 'n' and ask != 'no':
        ctx.check(after == before and not seen, 'nothing happens without consent')
    else:
        ctx.check(seen == snaps[:cut], 'formatted')
        ctx.check(before - gone <= after, 'nothing else is removed')
        ctx.check(not (gone & after), 'raw data are removed')
        ctx.check(after - before == {'data.hdf5'}, 'the formatted catalog')
    ctx.check(not ctx.env.escapes and os.path.exists(near + '/raw/precious') and os.path.exists(ctx.tmp + '/raw'), 'nothing elsewhere is removed')
    if seen:
        with ctx.h5.File(place + '/data.hdf5', 'r') as f:
            ctx.check(sorted(f.keys()) == ['Snapshot %d' % s for s in seen], 'formatted snapshots')


@harness(configs=[dict(ask=a) for a in ('y', 'n', '?y', '??n')])
def clean(ctx, ask):
    """raw data are deleted only with consent, and only they are"""
    place = ctx.tmp + '/where' + ctx.text('p', 3)
    near = ctx.tmp + '/where'
    for d in (place, near, near + '/raw'):
        ctx.env.confined.os.makedirs(d, exist_ok=True)
    open(near + '/raw/precious', 'w').close()
    open(ctx.tmp + '/raw', 'w').close()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cat = fixture(ctx, place)
        fill(ctx, cat, 0)
        cat.format()
    before = set(tree(ctx, place))
    ctx.env.answers[:] = list(ask)
    cat.clean_raw()
    ctx.check(not ctx.env.answers, 'asked until answered')
    after = set(tree(ctx, place))
    raw = {x for x in before if x.startswith('raw/')}
    ctx.check(len(raw) == 3, 'raw data')
    ctx.check(after == (before if ask[-1] == 'n' else before - raw), 'the raw data and nothing else is removed')
    ctx.check(not ctx.env.escapes and os.path.exists(near + '/raw/precious') and os.path.exists(ctx.tmp + '/raw'), 'nothing elsewhere is removed')
