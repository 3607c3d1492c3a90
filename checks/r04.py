"""R04: downloads bring exactly the missing files into place, and only complete ones count."""
import os
import types
import warnings
import builtins
import numpy as np
from vsx.core import harness
from vsx.text import plain, resolve, SHELL
from checks._sim import setup_paths
from checks.r03 import tree
from checks import _raw

_SI = 'siminterface.'
FUNCTIONS = [_SI + 'universemachine.UniversemachineCatalogs.download', _SI + 'uchuu.UchuuCatalogs.download', _SI + 'illustris.IllustrisCatalogs.download']
BOUNDS = '2 snapshots selected of a simulation; every subset of their files present already; data files 1 to 12 in selections of up to 4; one transfer which fails before or after part of the data arrived, or (Illustris, TNG) up to 2 rounds in which any part of 2 files arrives; paths with 2 (requested: 1) arbitrary characters'
OUTSIDE = 'what the servers send; files truncated by wget; interrupts from the keyboard; copies of the test box which fail'


class Broken(OSError):
    pass


def put(path, text):
    with builtins.open(plain(path), 'w') as f:
        f.write(plain(text))


def contents(ctx, place):
    o = {}
    for x in tree(ctx, place):
        if x.startswith('raw/') and not x.endswith('/'):
            with builtins.open(plain(os.path.join(place, x)), 'rb') as f:
                o[x] = f.read()
    return o


def transfers(ctx):
    """urlretrieve which fails where told: faults = {number of the transfer: whether some data arrive}"""
    log, faults = [], {}
    m = types.ModuleType('urllib.request')

    def urlretrieve(url, filename=None, *a, **k):
        n = len(log)
        log.append(str(url))
        if faults.get(n) == 'nothing':
            raise Broken('transfer')
        if not ctx.env.confined.inside(filename):
            ctx.env.escapes.append(('urlretrieve', str(filename)))
            raise Broken('outside')
        put(filename, 'par' if faults.get(n) else 'from ' + url)
        if faults.get(n):
            raise Broken('transfer')
        return filename, None
    m.urlretrieve = urlretrieve
    ctx.env.overrides['urllib.request'] = m
    return log, faults


def where(ctx, sym=2):
    place = ctx.tmp + '/dat' + (ctx.text('p', int(sym)) if sym else 'a1')
    for d in (place, ctx.tmp + '/raw', ctx.tmp + '/data2', ctx.tmp + '/data2/raw'):
        ctx.env.confined.os.makedirs(d, exist_ok=True)
    setup_paths(ctx)
    return place


BASE = {'UniverseMachine-uchuu': 'https://skun.iaa.csic.es/SUsimulations/UchuuDR2/Uchuu_UM/'}
PICK = [(2, 5), (7,), (9, 0)]
UM = ('UniverseMachine-BolshoiPlanck', 'UniverseMachine-SMDPL', 'UniverseMachine-MDPL2')


def wanted(sim, snaps, datafiles):
    """{file: address} of the files of these snapshots"""
    names = _raw.um_names(sim)
    o = {}
    for s in snaps:
        if sim in BASE:
            for d in datafiles:
                n = names[s].replace('data1', 'data%d' % d)
                o['raw/' + n] = BASE[sim] + ('SFR/' if d <= 3 else 'SFH/') + n
        else:
            o['raw/' + names[s]] = _raw.UM_PAGES[sim] + names[s]
    return o


@harness(configs=[dict(sim=s, pick=p, again=a) for s in UM + ('UniverseMachine-uchuu',) for p in range(len(PICK)) for a in (False, True)],
         thorough=[dict(sim='UniverseMachine-uchuu', pick=p, again=a, third=True) for p in range(len(PICK)) for a in (False, True)], max_paths=20000)
def transferred(ctx, sim, pick, again, third=False):
    """catalogs transferred file by file"""
    place = where(ctx)
    snaps = PICK[pick]
    kw = {}
    dfs = [1]
    log, faults = transfers(ctx)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cat = _raw.catalogs(ctx, sim, path=place, snaps=list(snaps), meta=ctx.choice('metadata', [True, False]) if sim not in BASE else True)
        if sim in BASE:
            dfs = ctx.choice('data files', [None, [2], [1, 4], [12, 3, 11, 1]] if not third else [[1, 2, 3, 4, 10], list(range(1, 13))])
            if dfs is not None:
                kw['datafiles'] = list(dfs)
            dfs = dfs or [1, 2, 3]
        want = wanted(sim, snaps, dfs)
        other = wanted(sim, [1], [1])
        names = list(want)
        have = ctx.choice('present', [[], names[:1], names[-1:], names])
        if have or ctx.choice('directory', [False, True]):
            os.makedirs(plain(place + '/raw'), exist_ok=True)
        for x in have:
            put(place + '/' + x, 'old')
        if have:
            for x in other:
                put(place + '/' + x, 'other')
        need = names if again else [x for x in names if x not in have]
        at = ctx.choice('failure', [None] + [k for k in (0, 1, 2) if k < len(need)])
        if at is not None:
            faults[at] = ctx.choice('how', ['nothing', 'part'])
        before = contents(ctx, place)
        try:
            cat.download(redownload=True, **kw) if again else cat.download(**kw)
            ctx.check(at is None, 'a failure is not passed over')
        except Broken:
            ctx.check(at is not None, 'no failure')
            got = contents(ctx, place)
            for x in names:
                if x in got:
                    ctx.check(got[x] in (b'old' if x in have else None, ('from ' + want[x]).encode()), 'no part of a file counts as the file')
            # next try; what is there already is not fetched again
            need = names if again else [x for x in names if x not in got]
            del log[:]
            faults.clear()
            cat.download(redownload=True, **kw) if again else cat.download(**kw)
    ctx.check(sorted(log) == sorted(want[x] for x in need), 'exactly what is needed is fetched')
    got = contents(ctx, place)
    for x in names:
        ctx.check(x in got and got[x] == (b'old' if x in have and not again else ('from ' + want[x]).encode()), 'the file is in place')
    for x, v in before.items():
        if x not in names:
            ctx.check(got.get(x) == v, 'other files stay')
    ctx.check(set(got) - set(names) - set(before) <= set(x for x in got if 'data' not in x.split('_')[-1] and not x.endswith(('.txt', '.bin', '.h5'))), 'nothing else')
    ctx.check(cat.metadata is not None, 'metadata')
    ctx.check(not ctx.env.escapes and os.listdir(ctx.tmp + '/data2/raw') == [] and os.listdir(ctx.tmp + '/raw') == [], 'nothing elsewhere')


FILES = {'TNG300-1': 'fof_subhalo_tab_%03d.%d.hdf5', 'Illustris-3-Dark': 'groups_%03d.%d.hdf5'}


@harness(configs=[dict(sim=s, meta=m, again=a) for s in FILES for m in (True, False) for a in (False, True)],
         thorough=[dict(sim=s, meta=True, again=a, rounds=3) for s in FILES for a in (False, True)], max_paths=20000)
def requested(ctx, sim, meta, again, rounds=2):
    """catalogs requested in rounds until every file is there"""
    request(ctx, sim, meta, again, rounds, 0)


@harness(configs=[dict(sim=s, again=a) for s in FILES for a in (False, True)], thorough=[dict(sim=s, again=a, chars=2) for s in FILES for a in (False, True)], max_paths=20000)
def anywhere(ctx, sim, again, chars=1):
    """catalogs requested for any directory"""
    request(ctx, sim, True, again, 0, chars)


LONG = {'no-directories': 'nd', 'recursive': 'r', 'no-clobber': 'nc', 'directory-prefix': 'P'}


def request(ctx, sim, meta, again, rounds, sym):
    place = where(ctx, sym)
    snaps = [4, 11]
    log = []
    bad = []
    state = dict(left=rounds, hit={})

    def wget(words):
        dest, url, flags, words_ = None, None, set(), list(words[1:])
        while words_:
            w = words_.pop(0)
            if w.startswith('--'):
                name, eq, value = w[2:].partition('=')
                if not eq and name in ('header', 'directory-prefix', 'level', 'accept', 'execute', 'output-document'):
                    value = words_.pop(0)
                flags.add(LONG.get(name, name))
                if name == 'directory-prefix':
                    dest = value
            elif w.startswith('-'):
                # short options may be joined, those with a value end a word
                w = w[1:]
                while w:
                    k = 2 if w[0] == 'n' else 1
                    name, w = w[:k], w[k:]
                    flags.add(name)
                    if name in ('P', 'l', 'A', 'e', 'O', 'R', 't', 'T', 'U'):
                        value = w or words_.pop(0)
                        w = ''
                        if name == 'P':
                            dest = value
            else:
                url = w if url is None else url + ' ' + w
        ok = [s for s in snaps if url == 'http://www.tng-project.org/api/%s/files/groupcat-%d/?format=api' % (sim, s)]
        # (not checked here: download catches every exception)
        # the address lists the files; they have their names only with -nd and --content-disposition
        if not flags >= {'nd', 'r', 'content-disposition'} or len(ok) != 1 or not any('API-Key: key' in w for w in words) or dest is None or os.path.abspath(plain(dest)) != os.path.abspath(plain(resolve(place, SHELL)) + '/raw/groups_%03d' % ok[0]):
            bad.append(words)
            raise KeyboardInterrupt()
        log.append(ok[0])
        if log.count(ok[0]) > rounds + 2:
            # everything has arrived, but download goes on
            bad.append('no end')
            raise KeyboardInterrupt()
        arrive = [0, 1]
        if state['left'] and (meta or not state['hit'].get(ok[0])):
            state['left'] -= 1
            arrive = ctx.choice('arrive%d' % len(log), [[0, 1], [], [0], [1]])
        state['hit'][ok[0]] = True
        for k in arrive:
            p = '%s/raw/groups_%03d/' % (place, ok[0]) + FILES[sim] % (ok[0], k)
            if 'nc' in flags and os.path.exists(plain(p)):
                continue
            put(p, 'new')
        return 0 if len(arrive) == 2 else 1024
    raised = []

    def run(words):
        try:
            return wget(words)
        except BaseException as e:
            raised.append(e)
            raise
    ctx.env.runners = {'wget': run}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cat = _raw.catalogs(ctx, sim, path=place, snaps=list(snaps), meta=meta)
        have = {s: ctx.choice('present%d' % s, [[], [0], [1], [0, 1]] if s == 4 else [[], [0, 1]]) for s in (snaps if not sym else snaps[:1])}
        have.setdefault(11, [])
        if any(have.values()) or (not sym and ctx.choice('directory', [False, True])):
            os.makedirs(plain(place + '/raw/groups_001'), exist_ok=True)
            put(place + '/raw/groups_001/' + FILES[sim] % (1, 0), 'other')
        for s in snaps:
            for k in have[s]:
                os.makedirs(plain('%s/raw/groups_%03d' % (place, s)), exist_ok=True)
                put('%s/raw/groups_%03d/' % (place, s) + FILES[sim] % (s, k), 'old')
        before = contents(ctx, place)
        cat.download(redownload=True) if again else cat.download()
    if raised and not bad:
        raise raised[0]
    ctx.check(not bad, 'asks for the snapshot, with the key, for the right place')
    got = contents(ctx, place)
    for s in snaps:
        f = ['raw/groups_%03d/' % s + FILES[sim] % (s, k) for k in (0, 1)]
        if not again and len(have[s]) == 2:
            ctx.check(s not in log and all(got.get(x) == b'old' for x in f), 'what is there is not fetched again')
        elif meta:
            ctx.check(s in log and all(x in got for x in f), 'every file is there')
            if again:
                ctx.check(all(got.get(x) == b'new' for x in f), 'files are replaced when asked')
        elif again or 0 not in have[s]:
            ctx.check(log.count(s) == 1, 'requested')
    ctx.check(all(got.get(x) == v for x, v in before.items() if 'groups_001' in x), 'other files stay')
    ctx.check({x.split('/')[1] for x in got} <= {x.split('/')[1] for x in before} | {'groups_%03d' % s for s in snaps}, 'nothing else')
    ctx.check(not ctx.env.escapes and os.listdir(ctx.tmp + '/data2/raw') == [] and os.listdir(ctx.tmp + '/raw') == [], 'nothing elsewhere')


@harness(configs=[dict(again=a) for a in (False, True)])
def testbox(ctx, again):
    """the small test simulation which comes along"""
    place = where(ctx)
    names = ['sfr_catalog_0.055623.txt', 'sfr_catalog_0.506185.txt', 'sfr_catalog_0.994717.txt']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        snaps = ctx.choice('snapshots', ['all', [1], [2, 0]])
        cat = _raw.catalogs(ctx, '_testbox', path=place, snaps=snaps, meta=ctx.choice('metadata', [True, False]))
        sel = [0, 1, 2] if snaps == 'all' else snaps
        have = ctx.choice('present', [[], [0], [2], [0, 1, 2]])
        if have:
            os.makedirs(plain(place + '/raw'))
        for k in have:
            put(place + '/raw/' + names[k], 'old')
        cat.download(redownload=again)
    got = contents(ctx, place)
    ctx.check(set(got) == {'raw/' + names[k] for k in set(sel) | set(have)}, 'files')
    for k in range(3):
        if 'raw/' + names[k] in got:
            new = k in sel and (again or k not in have)
            with builtins.open(os.path.join(ctx.env.pkgdir, 'simim', 'resources', '_testbox', names[k]), 'rb') as f:
                ctx.check(got['raw/' + names[k]] == (f.read() if new else b'old'), 'contents')
    ctx.check(cat.metadata is not None and not ctx.env.escapes, 'metadata')
