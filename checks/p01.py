"""P01: where data is kept: what was registered is found again, by the same and by every later session."""
import os
from vsx.core import harness
from vsx import astro

FUNCTIONS = ['_paths._SimIMPaths.' + m for m in ('__init__', '_load_paths', '_setuppath', '_newsimpath', '_newlcpath', '_newproppath')] + ['_paths._checkload_root_file', '_paths._checkload_path_file', '_paths.setupsimim']
BOUNDS = 'paths whose last component holds up to 3 (thorough: 4) arbitrary printable ASCII characters; up to 3 registrations in up to 2 data directories; every sequence of answers to the questions asked, of up to 2 not understood ones and a final one'
OUTSIDE = 'paths with line breaks or characters outside printable ASCII; item names with spaces (the package uses none); two sessions writing at the same time'

KINDS = {'sim': ('_newsimpath', 'sims', 'simulations'), 'lc': ('_newlcpath', 'lcs', 'lightcones'), 'prop': ('_newproppath', 'props', 'galprops')}
N = 3


def start(ctx, name='root'):
    P = ctx.mod('simim._paths')
    root = os.path.join(ctx.tmp, name)
    os.makedirs(root, exist_ok=True)
    p = P._SimIMPaths()
    p._setuppath(root)
    return P, p, root


def place(ctx, name, n=N):
    """a directory with an arbitrary name"""
    d = ctx.tmp + '/d' + ctx.text(name, n)
    ctx.env.confined.os.makedirs(d, exist_ok=True)
    return d


def registry(ctx, got, want, label):
    ctx.check(sorted(got) == sorted(want), label + ': entries')
    for k in want:
        ctx.check(ctx.same(got[k], want[k]), label + ': path')


def all_of(ctx, p, want, label):
    for kind, (_, attr, _) in KINDS.items():
        registry(ctx, getattr(p, attr), want.get(kind, {}), label)


@harness(configs=[dict(kind=k, how=h) for k in KINDS for h in ('given', 'relative', 'auto', 'asked', 'asked None')], thorough=[dict(kind=k, how=h, n=4) for k in KINDS for h in ('given', 'asked')])
def register(ctx, kind, how, n=N):
    """a path registered is the path found, now and later"""
    P, p, root = start(ctx)
    new, attr, ext = KINDS[kind]
    other = [k for k in KINDS if k != kind]
    want = {k: {} for k in KINDS}
    # something is there already
    for k in KINDS:
        d = place(ctx, 'old' + k, 1)
        getattr(p, KINDS[k][0])('old', d)
        want[k]['old'] = d
    if how == 'auto':
        getattr(p, new)('item')
        d = os.path.join(root, 'simim_resources', ext, 'item')
        ctx.check(os.path.isdir(d), 'directory made')
    else:
        d = place(ctx, 'new', n)
        if how == 'given':
            getattr(p, new)('item', d)
        elif how == 'relative':
            here = os.getcwd()
            os.chdir(ctx.tmp)
            try:
                getattr(p, new)('item', d[len(ctx.tmp) + 1:])
            finally:
                os.chdir(here)
        else:
            ctx.env.answers[:] = [d]
            getattr(p, new)('item', None if how == 'asked None' else False)
    want[kind]['item'] = d
    all_of(ctx, p, want, 'this session')
    q = P._SimIMPaths()
    ctx.check(ctx.same(str(q.root), root), 'data directory')
    all_of(ctx, q, want, 'later session')
    e = place(ctx, 'another', 1)
    getattr(q, new)('third', e)
    want[kind]['third'] = e
    all_of(ctx, q, want, 'that session')
    all_of(ctx, P._SimIMPaths(), want, 'still later session')


@harness(configs=[dict(kind=k, answers=a) for k in KINDS for a in (None, 'y', 'n', 'xy', 'x n')])
def replace(ctx, kind, answers):
    """a path is replaced only if the user wants it"""
    P, p, root = start(ctx)
    new, attr, _ = KINDS[kind]
    a, b = place(ctx, 'a', 2), place(ctx, 'b', 2)
    getattr(p, new)('item', a)
    getattr(p, new)('item2', b)
    p = ctx.choice('session', [0, 1]) and P._SimIMPaths() or p
    if answers is None:
        getattr(p, new)('item', b, checkoverwrite=False)
        keep = False
    else:
        ctx.env.answers[:] = list(answers.replace('x', '?'))
        getattr(p, new)('item', b, checkoverwrite=True)
        ctx.check(not ctx.env.answers, 'asked until it is answered')
        keep = answers[-1] == 'n'
    want = {kind: {'item': a if keep else b, 'item2': b}}
    all_of(ctx, p, want, 'this session')
    all_of(ctx, P._SimIMPaths(), want, 'later session')


@harness(configs=[dict(kind=k) for k in KINDS])
def refused(ctx, kind):
    """nothing is registered for directories which do not exist, or without a data directory"""
    P = ctx.mod('simim._paths')
    new, attr, _ = KINDS[kind]
    p = P._SimIMPaths()
    ctx.check(p.root is None and p.sims == {} and p.lcs == {} and p.props == {}, 'nothing to start with')
    ctx.check(ctx.raises(ValueError, getattr(p, new), 'item') and ctx.raises(ValueError, getattr(p, new), 'item', ctx.tmp), 'no data directory')
    ctx.check(ctx.raises(NameError, p._setuppath, ctx.tmp + '/missing'), 'missing data directory')
    ctx.check(p.root is None and P._SimIMPaths().root is None, 'nothing changed')
    P, p, root = start(ctx)
    ctx.env.answers[:] = [ctx.tmp + '/missing' + ctx.text('m', 1)]
    ctx.check(ctx.raises(NameError, getattr(p, new), 'item', False), 'missing directory')
    all_of(ctx, p, {}, 'this session')
    all_of(ctx, P._SimIMPaths(), {}, 'later session')


@harness(configs=[dict(answers=a, confirm=c, rel=r) for a in ('y', 'n', '?y', '?n') for c in (None, 'y', '?n') for r in (False, True)])
def root(ctx, answers, confirm, rel):
    """the data directory changes only if the user wants it, each directory has its own registry"""
    P = ctx.mod('simim._paths')
    a, b = place(ctx, 'a', 2), place(ctx, 'b', 1) + '22'
    ctx.env.confined.os.makedirs(b, exist_ok=True)
    d = place(ctx, 'd', 1)
    p = P._SimIMPaths()
    p._setuppath(a)
    ctx.check(ctx.same(p.root, a) and ctx.same(str(P._SimIMPaths().root), a), 'data directory')
    p._newsimpath('s', d)
    p = ctx.choice('session', [0, 1]) and P._SimIMPaths() or p
    ctx.env.answers[:] = list(answers) + list(confirm or '')
    here = os.getcwd()
    os.chdir(ctx.tmp)
    try:
        p._setuppath(b[len(ctx.tmp) + 1:] if rel else b, confirm_with_user=confirm is not None)
    finally:
        os.chdir(here)
    ctx.check(not ctx.env.answers, 'every question is put')
    now = b if answers[-1] == 'y' and (confirm or 'y')[-1] == 'y' else a
    ent = {'sim': {'s': d}} if now is a else {}
    for q, label in ((p, 'this session'), (P._SimIMPaths(), 'later session')):
        ctx.check(ctx.same(str(q.root), now), 'data directory')
        all_of(ctx, q, ent, label)
    if now is b:
        p._newlcpath('l', d)
        ctx.env.answers[:] = ['y']
        p._setuppath(a)
        all_of(ctx, p, {'sim': {'s': d}}, 'back')
        all_of(ctx, P._SimIMPaths(), {'sim': {'s': d}}, 'back, later session')
        ctx.env.answers[:] = ['y']
        p._setuppath(b)
        all_of(ctx, P._SimIMPaths(), {'lc': {'l': d}}, 'and again')
    for q in [now] + [a]:
        for x in ('.paths', 'simulations', 'lightcones', 'galprops'):
            ctx.check(ctx.env.confined.path.isdir(q + '/simim_resources/' + x), 'directories made')
    # setting it again asks nothing and loses nothing
    p = P._SimIMPaths()
    before = dict(p.sims), dict(p.lcs)
    ctx.env.answers[:] = []
    p._setuppath(p.root)
    ctx.check(sorted(before[0]) == sorted(p.sims) and sorted(before[1]) == sorted(p.lcs), 'kept')


@harness(configs=[dict(given=g) for g in ('path', 'none', 'missing')])
def setup(ctx, given):
    """the questions put to a new user"""
    P = ctx.mod('simim._paths')
    home = ctx.tmp + '/home'
    os.makedirs(home)
    d = place(ctx, 'd', 2)
    old = os.environ.get('HOME')
    os.environ['HOME'] = home
    try:
        ctx.env.answers[:] = [{'path': d, 'none': '', 'missing': d + 'x'}[given], 'y']
        if given == 'missing':
            ctx.check(ctx.raises(NameError, P.setupsimim), 'refused')
            ctx.check(P._SimIMPaths().root is None, 'nothing set')
        else:
            P.setupsimim()
            ctx.check(ctx.same(str(P._SimIMPaths().root), d if given == 'path' else home), 'data directory')
    finally:
        if old is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = old
