"""python -m vsx.run <PROP> : explore every harness of a property's check; --replay FILE re-runs one counterexample."""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
PY = '/opt/venv/bin/python'


def replay(path):
    from vsx import core
    d = json.load(open(path))
    hs = core.load_check(d['property'])
    h = next(x for x in hs if x.name == d['harness'])
    r = core.run_concrete(h, d['cfg'], d['values'])
    if r[0] == 'violation':
        print('REPRODUCED %s: %s: %s' % (d['property'], r[1], r[2]))
        return 1
    print('not reproduced: %s' % (r[0],), r[1] if len(r) > 1 and r[0] == 'error' else '')
    return 0


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _task(args):
    from vsx import core
    return core.run_task(*args)


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix='vsxrun_')
    os.environ['TMPDIR'] = tempfile.tempdir = scratch
    code = check(argv)
    sys.stdout.flush()
    for _ in range(3):
        shutil.rmtree(scratch, ignore_errors=True)
    os._exit(code)


def check(argv):
    prop = argv[0]
    only = argv[1:] or None
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = float(os.environ.get('VSX_BUDGET', '660' if tier == 'quick' else '6000'))
    t0 = time.time()
    from vsx import core
    hs = core.load_check(prop)
    import importlib
    module = sys.modules['checks.' + prop.lower()]
    known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
             if k['property'] == prop and k['status'] == 'known']
    tasks = []
    for h in hs:
        if only and h.name not in only:
            continue
        cfgs = list(h.configs)
        if tier == 'thorough' and h.thorough:
            cfgs = list(h.thorough)
        for c in cfgs:
            tasks.append((prop, h.name, c, t0 + budget, seed, known))
    nw = int(os.environ.get('VSX_JOBS', '0')) or min(8, os.cpu_count() or 1)
    results, viol = [], None
    ctx = mp.get_context('fork')
    ex = cf.ProcessPoolExecutor(max_workers=nw, mp_context=ctx, initializer=_init)
    futs = {ex.submit(_task, t): t for t in tasks}
    errors = []
    try:
        for f in cf.as_completed(futs, timeout=budget + 120):
            try:
                r = f.result()
            except Exception as e:
                errors.append('%s: %s' % (futs[f][1:3], e))
                continue
            results.append(r)
            if os.environ.get('VSX_VERBOSE'):
                s = r['stats']
                print('%-34s %-60s paths %d aborted %d asserts %d wit %d/%d unk %d conc %d solver %.1fs wall %.1fs %s%s' % (
                    r['harness'], json.dumps(r['cfg'], default=str), s['paths'], s['aborted'], s['assert_queries'],
                    s['witness_checked'], s['witnesses'], s['unknown'], s['concretised'], s['solver_s'], r['wall'],
                    '' if r['complete'] else 'INCOMPLETE ' + r['why'], ' NOTES %s' % r['notes'] if r['notes'] else ''), flush=True)
            for v in r['violations']:
                v = dict(v, property=prop, harness=r['harness'], cfg=r['cfg'])
                d = os.path.join(VERIF, 'replays')
                os.makedirs(d, exist_ok=True)
                p = os.path.join(d, '%s-%s.json' % (prop, r['harness']))
                with open(p, 'w') as fo:
                    json.dump(v, fo, indent=1, default=str)
                # confirm in a fresh process that only ever sees the real libraries
                q = subprocess.run([sys.executable, '-m', 'vsx.run', '--replay', p], cwd=VERIF, capture_output=True, text=True,
                                   env=dict(os.environ, PYTHONPATH=VERIF), timeout=300)
                if q.returncode == 1 and 'REPRODUCED' in q.stdout:
                    viol = viol or (p, v)
                    v['confirmed'] = True
                else:
                    errors.append('violation of %s not reproduced in a fresh process: %s %s' % (r['harness'], q.stdout[-500:], q.stderr[-500:]))
            if viol:
                break
    except cf.TimeoutError:
        errors.append('timeout')
    for f in futs:
        f.cancel()
    procs = list(getattr(ex, '_processes', {}).values())
    hard = bool(viol) or 'timeout' in errors
    ex.shutdown(wait=not hard, cancel_futures=True)
    for p in procs:
        if hard and p.is_alive():
            p.terminate()
    for r in results:
        for e in r['errors']:
            errors.append('%s %s: %s' % (r['harness'], json.dumps(r['cfg'], default=str), e))
        for e in r['mismatch']:
            errors.append('%s %s: encoding disagrees with the real code: %s' % (r['harness'], json.dumps(r['cfg'], default=str), e))
    partial = ['%s %s (%s)' % (r['harness'], json.dumps(r['cfg'], default=str), r['why']) for r in results if not r['complete']]
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    labels = {}
    for r in results:
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    kn = sorted({k for r in results for k in r['known']})
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0) + tot.get('aborted', 0),
            'transitions': tot.get('branches', 0) + tot.get('forced', 0),
            'traces_validated_against_impl': tot.get('witness_checked', 0),
            'samples': [s for r in results for s in r['samples']][:6] or ['none'],
            'what': 'states = symbolic execution paths of the real functions (each stands for every input satisfying its '
                    'path condition); transitions = symbolic branch decisions; traces validated = paths whose solver '
                    'witness was re-run on the unmodified code with every assertion (and every observed output) agreeing',
            'functions_encoded': getattr(module, 'FUNCTIONS', []),
            'bounds': getattr(module, 'BOUNDS', ''),
            'outside_claim': getattr(module, 'OUTSIDE', ''),
            'tasks': len(tasks), 'tasks_finished': len(results),
            'assertion_queries': tot.get('assert_queries', 0), 'discharged': tot.get('discharged', 0),
            'nonlinear_identities_by_normal_form': tot.get('normal_form', 0),
            'discharged_by_evaluation': tot.get('trivial', 0),
            'feasibility_queries': tot.get('feasibility_queries', 0),
            'solver_seconds': round(tot.get('solver_s', 0.0), 2), 'solver_unknown': tot.get('unknown', 0),
            'reachability_witnesses': tot.get('witnesses', 0),
            'values_concretised': tot.get('concretised', 0),
            'exhaustive': not partial and not errors and not viol and tot.get('concretised', 0) == 0,
            'partial_harnesses': partial,
            'undecided': [e[:500] for e in errors][:20],
            'assertions': labels,
            'notes': sorted({n for r in results for n in r['notes']}),
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []) + [
            'real arithmetic stands for float64 (rounding is not modelled; counterexamples must reproduce in float64)',
            'numpy/h5py/scipy operations follow their documented semantics as encoded in vsx (validated per path against the real libraries)'],
        'wall_s': round(wall, 2), 'violations': 1 if viol else 0,
    }
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fo:
            json.dump(ev, fo, indent=1, default=str)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, next(x['what'] for x in known if x['id'] == k)))
    print('%s: %d tasks, %d paths, %d assertions discharged, %d witnesses re-run on the real code, %.1fs solver, %.1fs wall' % (
        prop, len(results), tot.get('paths', 0), tot.get('discharged', 0), tot.get('witness_checked', 0), tot.get('solver_s', 0), wall))
    for p in partial:
        print('PARTIAL (explored up to a budget, not to the bound): ' + p)
    if viol:
        print('  %s' % viol[1]['label'])
        print('  %s' % viol[1]['detail'].strip().replace('\n', '\n  '))
        print('  inputs %s' % json.dumps(viol[1]['values'])[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, viol[0]))
        return 1
    if errors or len(results) < len(tasks):
        # not decided: nothing is claimed for these harnesses, and the evidence says so
        strict = os.environ.get('VSX_STRICT')
        seen = set()
        for e in errors:
            if e.split(':')[0] in seen:
                continue
            seen.add(e.split(':')[0])
            print(('ERROR ' if strict else 'UNDECIDED ') + (e if os.environ.get('VSX_VERBOSE') == '2' else e[:700]))
            if len(seen) > 5:
                break
        if len(results) < len(tasks):
            print('UNDECIDED %d of %d tasks did not finish' % (len(tasks) - len(results), len(tasks)))
        return 2 if strict or not tot.get('discharged') else 0
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
