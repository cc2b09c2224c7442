# -*- coding: utf-8 -*-
"""Check one property.   python3-vt harness/run.py PROP [--tier quick|thorough] [--facet NAME] [--np N]
                         python3-vt harness/run.py --replay FILE
Exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed.
"""
import argparse
import importlib
import json
import math
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MIFEM_REPO', '/repo')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
import kit  # noqa: E402
import job as J  # noqa: E402

CORES = 8
KEEP = ['objects/miUsGrid/triangular/mesh/instances/samples/rand0.vtu',
        'objects/miUsGrid/triangular/mesh/instances/realtime/__real_time_mesh__.vtu']


def plan(prop, tier, seed, only_facet, only_np, scale):
    units = {}
    for (p, name), f in sorted(kit.FACETS.items()):
        if p != prop or (only_facet and name != only_facet):
            continue
        for n in f.np:
            if only_np and n != only_np:
                continue
            c = int(math.ceil(f.count(tier, n) * scale))
            if c <= 0:
                continue
            w = f.cost * c
            shards = max(1, min(int(math.ceil(w / 20.)), max(1, c // 2), 64))
            for s in range(shards):
                k = c // shards + (1 if s < c % shards else 0)
                if k <= 0:
                    continue
                sd = zlib.crc32(('%s|%s|%s|%d|%d' % (seed, p, name, n, s)).encode())
                units.setdefault(n, []).append((w * k / c, {'facet': name, 'count': k, 'seed': sd}))
    jobs = []
    for n, us in units.items():
        tot = sum(u[0] for u in us)
        lanes = max(1, CORES // J.width(n))
        bins = max(1, min(len(us), max(int(math.ceil(tot / 25.)), 1)))
        if bins < lanes and tot > 12:
            bins = min(len(us), lanes, max(bins, int(math.ceil(tot / 8.))))
        B = [[0., []] for _ in range(bins)]
        for u in sorted(us, key=lambda u: (-u[0], u[1]['facet'], u[1]['seed'])):
            b = min(B, key=lambda b: b[0])
            b[0] += u[0]
            b[1].append(u[1])
        for b in B:
            jobs.append({'np': n, 'w': b[0], 'tasks': b[1]})
    jobs.sort(key=lambda j: (-j['w'] * 1.0, -j['np']))
    return jobs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--facet')
    ap.add_argument('--np', type=int)
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix='vx', dir='/tmp')
    keep = {}
    for k in KEEP:
        try:
            keep[k] = open(os.path.join(REPO, k), 'rb').read()
        except IOError:
            pass
    procs = []

    def cleanup(*sig):
        for p in procs:
            try:
                p.terminate()
            except Exception:  # noqa
                pass
        for p in procs:
            try:
                p.wait(10)
            except Exception:  # noqa
                p.kill()
        for k, b in keep.items():
            try:
                if open(os.path.join(REPO, k), 'rb').read() != b:
                    open(os.path.join(REPO, k), 'wb').write(b)
            except IOError:
                open(os.path.join(REPO, k), 'wb').write(b)
        shutil.rmtree(scratch, ignore_errors=True)
        if sig:
            os._exit(3)
    signal.signal(signal.SIGTERM, cleanup)
    signal.signal(signal.SIGINT, cleanup)
    try:
        if a.replay:
            code = replay(a, scratch)
        else:
            code = check(a, scratch, procs)
    finally:
        cleanup()
    sys.stdout.flush()
    return code


def replay(a, scratch):
    r = json.load(open(a.replay))
    importlib.import_module('props.' + r['property'])
    f = kit.FACETS[(r['property'], r['facet'])]
    w = J.make_worker(r['np'], scratch)
    ans = J.robust_ask(w, r['property'], f, r['case'], 1)
    w.stop()
    print(json.dumps(ans, indent=1))
    if ans['status'] == 'fail':
        print('VIOLATION property=%s replay=%s' % (r['property'], a.replay))
        return 1
    return 0 if ans['status'] in ('ok', 'reject') else 2


def known_findings(prop):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn)).get('findings', []) if k['property'] == prop]


def check(a, scratch, procs):
    t0 = time.time()
    budget = a.budget or (600. if a.tier == 'quick' else 6 * 3600.)
    stop_at = t0 + budget
    importlib.import_module('props.' + a.prop)
    jobs = plan(a.prop, a.tier, a.seed, a.facet, a.np, a.scale)
    if not jobs:
        print('no facets for', a.prop)
        return 2

    known = []
    for kf in known_findings(a.prop):
        f = kit.FACETS.get((a.prop, kf['facet']))
        w = J.make_worker(kf['np'], scratch)
        ans = J.robust_ask(w, a.prop, f, kf['case'], 1)
        w.stop()
        if ans['status'] == 'error':
            print('harness error:', ans['msg'])
            return 2
        known.append({'what': kf['what'], 'still_fails': ans['status'] == 'fail'})
        if ans['status'] == 'fail':
            print('KNOWN-FINDING: property=%s %s' % (a.prop, kf['what']))

    pending = list(jobs)
    running = []
    results = []
    bad = False
    n = 0
    while pending or running:
        used = sum(J.width(r['np']) for r in running)
        k = 0
        while k < len(pending) and not bad:
            j = pending[k]
            if J.width(j['np']) <= CORES - used or not running:
                pending.pop(k)
                spec = {'prop': a.prop, 'np': j['np'], 'tier': a.tier, 'scratch': scratch,
                        'tasks': j['tasks'], 'stop_at': stop_at}
                n += 1
                sf, rf = scratch + '/spec%d' % n, scratch + '/res%d' % n
                json.dump(spec, open(sf, 'w'))
                p = subprocess.Popen([sys.executable, os.path.join(HERE, 'job.py'), sf, rf],
                                     env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                                              HYPOTHESIS_STORAGE_DIRECTORY=scratch + '/hyp'),
                                     cwd=scratch)
                procs.append(p)
                running.append({'p': p, 'np': j['np'], 'rf': rf, 't': time.time(), 'j': j})
                used += J.width(j['np'])
            else:
                k += 1
        time.sleep(0.05)
        for r in list(running):
            if r['p'].poll() is not None:
                running.remove(r)
                if os.path.exists(r['rf']):
                    R = json.load(open(r['rf']))
                    results.append(R)
                    if R.get('error') or any(t['failure'] or t['error'] for t in R['tasks']):
                        bad = True
                else:
                    results.append({'tasks': [], 'error': 'job died rc=%s' % r['p'].returncode})
                    bad = True
                if a.v:
                    for t in results[-1]['tasks']:
                        print('  %-28s np=%d  n=%-4d rej=%-3d nt=%-4d %.1fs max %.1fs %s %s' % (
                            t['facet'], t['np'], t['evaluations'], t['rejected'], len(set(t['distinct'])),
                            t.get('t', 0), t.get('tmax', 0),
                            'FAIL' if t['failure'] else '', 'ERR' if t['error'] else ''))
                    sys.stdout.flush()
        if bad:
            pending = []
            # let jobs that are already shrinking a failure finish for a moment, then stop
            fail_seen = any(t['failure'] for R in results for t in R['tasks'])
            if fail_seen:
                break
        if time.time() > stop_at + 230:
            if running:
                results.append({'tasks': [], 'error': 'jobs did not end in time: %s' % (
                    [(r['np'], [t['facet'] for t in r['j']['tasks']]) for r in running],)})
            break

    facets = {}
    distinct = set()
    evals = 0
    rej = 0
    samples = []
    failures = []
    errors = []
    for R in results:
        if R.get('error'):
            errors.append(R['error'])
        for t in R['tasks']:
            d = facets.setdefault('%s@np%d' % (t['facet'], t['np']), {
                'evaluations': 0, 'rejected': 0, 'distinct_nontrivial': 0, 'tags': {}})
            d['evaluations'] += t['evaluations']
            d['rejected'] += t['rejected']
            new = set((t['np'], h) for h in t['distinct'])
            d['distinct_nontrivial'] += len(new - distinct)
            distinct |= new
            evals += t['evaluations']
            rej += t['rejected']
            if t.get('truncated'):
                d['truncated'] = True
            for k, v in t['tags'].items():
                d['tags'][k] = d['tags'].get(k, 0) + v
            if t['samples'] and sum(1 for s in samples if s['facet'] == t['facet']) < 2:
                samples.append({'facet': t['facet'], 'np': t['np'], 'case': t['samples'][-1]})
            if t['failure']:
                failures.append(t['failure'])
            if t['error']:
                errors.append('%s: %s\n%s' % (t['facet'], t['error'], json.dumps(t.get('error_case'))))
    ev = {'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
          'seed': a.seed, 'level': 'exploration',
          'coverage': {
              'evaluations': evals, 'distinct_nontrivial': len(distinct),
              'rule': getattr(sys.modules['props.' + a.prop], 'RULE', 'see DESIGN.md'),
              'samples': samples, 'rejected': rej, 'facets': facets, 'known_findings': known},
          'wall_s': round(time.time() - t0, 2), 'violations': len(failures)}
    evdir = os.environ.get('VX_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    fn = os.path.join(evdir, a.prop + '.json')
    json.dump(ev, open(fn + '.tmp', 'w'), indent=1)
    os.rename(fn + '.tmp', fn)

    if failures:
        failures.sort(key=lambda x: len(json.dumps(x['case'])))
        f = failures[0]
        rp = os.path.join(evdir, 'replay_%s.json' % a.prop)
        json.dump(dict(f, property=a.prop, seed=a.seed, tier=a.tier), open(rp, 'w'), indent=1)
        print('%s / %s (np=%d): %s' % (a.prop, f['facet'], f['np'], f['msg']))
        print('case: %s' % json.dumps(f['case'])[:1500])
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    if errors:
        print('CHECK ERROR')
        for e in errors[:3]:
            print(e)
        return 2
    print('%s: held on %d generated cases (%d distinct non-trivial, %d rejected), %.0f s' % (
        a.prop, evals, len(distinct), rej, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
