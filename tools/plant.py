#!/usr/bin/env python3
"""Planted bugs.

plant.py new SPEC.py          SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (python text)[, np]
plant.py check ID... [-j N] [--notest]    validate in scratch copies bound over /repo: demo, build, stable tests, own check
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
S = '/verif/seeded'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def new(spec):
    d = {}
    exec(open(spec).read(), d)
    i = d['id']
    o = '%s/%s' % (S, i)
    os.makedirs(o, exist_ok=True)
    w = '/tmp/plantnew_' + i
    sh('git -C %s worktree add --detach %s HEAD' % (REPO, w))
    try:
        for f, a, b in d['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(a) == 1, (i, f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        r = subprocess.run(['git', '-C', w, 'diff'], text=True, stdout=subprocess.PIPE).stdout
        assert r
        open(o + '/patch.diff', 'w').write(r)
    finally:
        sh('git -C %s worktree remove --force %s' % (REPO, w))
        sh('git -C %s worktree prune' % REPO)
    open(o + '/demo.py', 'w').write(d['demo'].lstrip('\n'))
    n = d.get('np', 1)
    run = '/opt/venv/bin/python "$D/demo.py"'
    if n > 1:
        run = 'mpiexec -n %d --oversubscribe /opt/venv/bin/python "$D/demo.py"' % n
    open(o + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with patch.diff; run with cwd /repo
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W"
%s
''' % run)
    os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    print('new', i)


def check(i, test):
    w = '/tmp/plant_' + i
    v = '/tmp/plantvp_' + i
    out = [i]
    try:
        sh('rm -rf %s %s; cp -a /repo %s; cp -a /opt/vp %s; git -C %s checkout -q -- .' % (w, v, w, v, w))
        ns = "unshare -m bash -c 'mount --bind %s /repo && mount --bind %s /opt/vp && cd /repo && %%s'" % (w, v)
        c = sh(ns % ('bash %s/%s/demo.sh' % (S, i)), timeout=400)
        out.append('clean demo=%d%s' % (c.returncode, '' if c.returncode == 0 else ' BAD ' + c.stdout[-500:]))
        a = sh('git -C %s apply %s/%s/patch.diff' % (w, S, i))
        if a.returncode:
            return i, 'patch does not apply: ' + a.stdout
        b = sh(ns % 'bash /opt/vp/build.sh')
        out.append('build=%d' % b.returncode)
        c = sh(ns % ('bash %s/%s/demo.sh' % (S, i)), timeout=400)
        out.append('patched demo=%d [%s]' % (c.returncode, c.stdout.strip().split('\n')[-1][:160]))
        if test:
            sh(ns % ('bash /opt/vp/test.sh /opt/vp/out.json'))
            o = json.load(open(v + '/out.json'))
            st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            ps = set(o.get('passed', o.get('pass', [])))
            miss = sorted(st - ps)
            out.append('tests missing=%d %s' % (len(miss), miss[:4]))
        p = json.load(open('%s/%s/meta.json' % (S, i)))['property']
        e = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run(ns % ('cd /verif && VX_EVID=/tmp/plantev_%s ./check.sh %s' % (i, p)), shell=True, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
        out.append('check %s rc=%d %s' % (p, r.returncode, [x[:300] for x in r.stdout.split('\n') if x.strip()][-3:]))
    finally:
        sh('rm -rf %s %s /tmp/plantev_%s' % (w, v, i))
    return i, '\n   '.join(out)


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        for f in sys.argv[2:]:
            new(f)
    else:
        a = sys.argv[2:]
        j = 1
        if '-j' in a:
            j = int(a[a.index('-j') + 1])
            del a[a.index('-j'):a.index('-j') + 2]
        t = '--notest' not in a
        a = [x for x in a if x[0] != '-']
        with ThreadPoolExecutor(j) as ex:
            for i, r in ex.map(lambda i: check(i, t), a):
                print(r, flush=True)
