"""Runs the check of one property:  run.py <property> [--replay FILE] [--seed N] [--tier T] [--unit NAME] [--scale X]

Exit 0: held on everything explored; 1: VIOLATION line printed; 3: the machinery itself failed.
"""
import argparse
import importlib
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
NWORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
BUDGET = {'quick': 600.0, 'thorough': 6 * 3600.0}


def load_check(pid):
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    if REPO != '/repo':
        # a scratch copy: the interpreter's namespace package points to /repo
        import amazon
        amazon.__path__ = [os.path.join(REPO, 'amazon')]
    import amazon.ion.core
    where = os.path.realpath(amazon.ion.core.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('amazon.ion was imported from %s' % where)
    return importlib.import_module('ionpbt.checks.' + pid.lower())


def worker(pid, tier, seed, shard, nshards, scale, only, out):
    from ionpbt.engine import Data, run_case, case_rng, digest
    check = load_check(pid)
    started = time.time()
    result = {'units': {}, 'failures': [], 'truncated': False}
    deadline = started + BUDGET[tier]
    for unit in check.UNITS:
        if only and unit.name not in only:
            continue
        n = max(1, int(unit.count(tier) * scale))
        stats = {'cases': 0, 'nontrivial': 0, 'labels': {}, 'digests': [], 'samples': [], 'seconds': 0.0}
        digests = set()
        t0 = time.time()
        for i in range(shard, n, nshards):
            if time.time() > deadline:
                result['truncated'] = True
                break
            d = Data(case_rng(seed, pid, unit.name, i), tier=tier)
            bad = run_case(unit, d)
            stats['cases'] += 1
            for k, v in d.labels.items():
                stats['labels'][k] = stats['labels'].get(k, 0) + 1
            if d.is_nontrivial:
                stats['nontrivial'] += 1
                digests.add(digest(d.key))
                if len(stats['samples']) < 2 and i >= 8 * nshards:
                    stats['samples'].append(str(d.sample)[:600])
            if bad is not None:
                result['failures'].append({'unit': unit.name, 'index': i, 'choices': d.choices,
                                           'message': bad[0], 'traceback': bad[1]})
                break
        stats['digests'] = sorted(digests)
        stats['seconds'] = time.time() - t0
        result['units'][unit.name] = stats
    with open(out, 'w') as f:
        json.dump(result, f)


def environment(tmp):
    env = dict(os.environ)
    env.update({'PYTHONHASHSEED': '0', 'PYTHONPYCACHEPREFIX': os.path.join(tmp, 'pyc'), 'PYTHONIOENCODING': 'utf-8:backslashreplace',
                'LC_ALL': 'C.UTF-8'})
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONDONTWRITEBYTECODE', None)
    return env


def replay(pid, path, tier):
    from ionpbt.engine import Data, run_case
    with open(path) as f:
        rec = json.load(f)
    check = load_check(pid)
    unit = [u for u in check.UNITS if u.name == rec['unit']][0]
    d = Data(prefix=rec['choices'], tier=rec.get('tier', tier))
    bad = run_case(unit, d)
    print('case: %s' % (d.sample,))
    if bad is None:
        print('the recorded case passes')
        return 0
    print(bad[1])
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick') or 'quick')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--unit', action='append')
    ap.add_argument('--worker', nargs=3)
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    pid = args.property
    if args.tier not in BUDGET:
        args.tier = 'quick'
    sys.setrecursionlimit(5000)
    if args.worker:
        shard, nshards, out = args.worker
        worker(pid, args.tier, args.seed, int(shard), int(nshards), args.scale, args.unit, out)
        return 0
    if args.replay:
        sys.path.insert(0, HERE)
        return replay(pid, args.replay, args.tier)

    started = time.time()
    tmp = tempfile.mkdtemp(prefix='ionpbt-')
    sys.pycache_prefix = os.path.join(tmp, 'pyc')  # never a stale .pyc of the repository
    try:
        return orchestrate(args, pid, tmp, started)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def orchestrate(args, pid, tmp, started):
    env = environment(tmp)
    base = [sys.executable, os.path.join(HERE, 'run.py'), pid, '--seed', str(args.seed), '--tier', args.tier,
            '--scale', str(args.scale)]
    for u in args.unit or ():
        base += ['--unit', u]
    procs = []
    for i in range(NWORKERS):
        out = os.path.join(tmp, 'w%d.json' % i)
        err = open(os.path.join(tmp, 'w%d.err' % i), 'wb')
        procs.append((subprocess.Popen(base + ['--worker', str(i), str(NWORKERS), out], env=env, stdout=err, stderr=err,
                                       cwd=tmp), out, err))
    results, broken = [], []
    for i, (p, out, err) in enumerate(procs):
        rc = p.wait()
        err.close()
        if rc != 0 or not os.path.exists(out):
            with open(err.name, 'rb') as f:
                broken.append('worker %d ended with %s:\n%s' % (i, rc, f.read()[-2500:].decode('utf-8', 'replace')))
            continue
        with open(out) as f:
            results.append(json.load(f))
    failures = sorted((f for r in results for f in r['failures']), key=lambda f: (f['unit'], f['index']))
    if broken and not failures:
        sys.stderr.write('%d workers failed; %s\n' % (len(broken), broken[0]))
        return 3

    os.environ.update(env)
    sys.pycache_prefix = env['PYTHONPYCACHEPREFIX']
    check = load_check(pid)
    from ionpbt.engine import shrink, Data, run_case

    status = 0
    known = []
    for kf in getattr(check, 'KNOWN', ()):
        # (description, probe): probe() is True while the recorded defect is still there
        if kf[1]():
            known.append(kf[0])
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[0]))

    reports = []
    seen_units = set()
    for f in failures:
        if f['unit'] in seen_units:
            continue
        seen_units.add(f['unit'])
        unit = [u for u in check.UNITS if u.name == f['unit']][0]
        best = shrink(unit, f['choices'], args.tier, max_seconds=40.0 if args.tier == 'quick' else 240.0)
        confirmed = best is not None
        choices = best if confirmed else f['choices']
        d = Data(prefix=choices, tier=args.tier)
        bad = run_case(unit, d) if confirmed else None
        rec = {'property': pid, 'unit': f['unit'], 'seed': args.seed, 'tier': args.tier, 'index': f['index'],
               'choices': choices, 'case': str(d.sample)[:8000], 'message': (bad or (f['message'],))[0],
               'traceback': (bad or (None, f['traceback']))[1], 'original_message': f['message'],
               'reproduced_in_fresh_process': confirmed}
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-%s.json' % (pid, f['unit']))
        with open(path, 'w') as fh:
            json.dump(rec, fh, indent=1)
        reports.append({'unit': f['unit'], 'replay': path, 'message': rec['message'][:1000], 'case': rec['case'][:1000]})
        print('unit %s, case %d:\n  %s\n  %s' % (f['unit'], f['index'], rec['case'][:1500], rec['message'][:2500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        status = 1

    units, total, digests, samples = {}, 0, 0, []
    for u in check.UNITS:
        if args.unit and u.name not in args.unit:
            continue
        parts = [r['units'][u.name] for r in results if u.name in r['units']]
        labels = {}
        for p in parts:
            for k, v in p['labels'].items():
                labels[k] = labels.get(k, 0) + v
        distinct = len(set(x for p in parts for x in p['digests']))
        cases = sum(p['cases'] for p in parts)
        total += cases
        digests += distinct
        s = [x for p in parts for x in p['samples']][:3]
        samples += [{'unit': u.name, 'case': x} for x in s]
        units[u.name] = {'cases': cases, 'nontrivial': sum(p['nontrivial'] for p in parts),
                         'distinct_nontrivial': distinct, 'rule': u.rule, 'labels': dict(sorted(labels.items())),
                         'cpu_s': round(sum(p['seconds'] for p in parts), 1)}
    evidence = {
        'property': pid, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total, 'distinct_nontrivial': digests,
            'rule': ' | '.join('%s: %s' % (u.name, u.rule) for u in check.UNITS),
            'samples': samples, 'units': units,
            'truncated_by_time_budget': any(r['truncated'] for r in results),
        },
        'assumptions': list(getattr(check, 'ASSUMPTIONS', ())),
        'known_findings': known,
        'wall_s': round(time.time() - started, 2),
        'violations': len(reports),
    }
    if reports:
        evidence['coverage']['violation_reports'] = reports
    if not args.no_evidence and not args.unit:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
            f.write('\n')
    print('%s: %d cases, %d distinct non-trivial, %.1f s' % (pid, total, digests, time.time() - started))
    for name, u in units.items():
        print('  %-28s %6d cases %6d distinct non-trivial %7.1f cpu-s' % (name, u['cases'], u['distinct_nontrivial'],
                                                                      u['cpu_s']))
    return status


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
