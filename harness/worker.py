# -*- coding: utf-8 -*-
"""Evaluation server. Runs under /opt/venv/bin/python, alone or under mpiexec -n k.

stdin (rank 0): one JSON request per line; answer: one line `@@RES {json}` on a private fd/file.
"""
import json
import os
import sys
import traceback
import warnings
import zlib

warnings.filterwarnings('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MIFEM_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

OUT = os.environ['VX_OUT']          # fifo to answer on (rank 0)
FAILDIR = os.environ['VX_FAILDIR']  # <dir>/fail.<rank>: early notice of an exception on one rank

from mpi4py import MPI  # noqa: E402
COMM = MPI.COMM_WORLD.Dup()
RANK, SIZE = COMM.Get_rank(), COMM.Get_size()
os.chdir(os.environ['VX_SCRATCH'])

import random  # noqa: E402
import numpy as np  # noqa: E402
import kit  # noqa: E402
import importlib  # noqa: E402

import objects.CSCG._3d.master  # noqa: E402,F401
import objects.CSCG._2d.master  # noqa: E402,F401
import objects.miUsGrid.triangular.master as _trim  # noqa: E402,F401
_tra = sys.modules.get('objects.miUsGrid.triangular.mesh.instances.samples.allocator')
if hasattr(_tra, 'generate_rand_mesh_0'):
    # constructing any triangular form caller rewrites the tracked sample file rand0.vtu; keep it
    _tra.generate_rand_mesh_0 = lambda: None

HARNESS_ERRORS = (ImportError, NameError, AttributeError, SyntaxError, MemoryError)


def classify(exc):
    """-> (status, message)"""
    if isinstance(exc, kit.Reject):
        return 'reject', str(exc)
    if isinstance(exc, kit.Violation):
        return 'fail', str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    in_repo = [f for f in tb if f.filename.startswith(REPO + '/')
               or (not f.filename.startswith('/') and not f.filename.startswith('<'))]
    last = tb[-1] if tb else None
    text = '%s: %s' % (type(exc).__name__, str(exc)[:400])
    if in_repo:
        f = in_repo[-1]
        return 'fail', 'raised %s [at %s:%s in %s]' % (text, f.filename, f.lineno, f.name)
    if isinstance(exc, HARNESS_ERRORS) and last is not None and last.filename.startswith(HERE):
        return 'error', ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]
    return 'fail', 'result unusable, %s [checked at %s:%s]' % (
        text, os.path.basename(last.filename) if last else '?', last.lineno if last else '?')


def evaluate(req):
    case = req['case']
    seed = zlib.crc32(json.dumps(case, sort_keys=True).encode()) & 0x7fffffff
    random.seed(seed + RANK)
    np.random.seed((seed + RANK) & 0x7fffffff)
    kit.begin()
    ex = req.get('extra') or {}
    kit.S.stage, kit.S.prev, kit.S.dir = ex.get('stage', 0), ex.get('prev', []), ex.get('dir')
    try:
        importlib.import_module('props.' + req['prop'])
        f = kit.FACETS[(req['prop'], req['facet'])]
        f.ev(case)
        status, msg = 'ok', ''
    except Exception as e:  # noqa
        status, msg = classify(e)
        if status != 'reject' and SIZE > 1:
            with open(os.path.join(FAILDIR, 'fail.%d' % RANK), 'w') as fh:
                json.dump({'status': status, 'msg': 'rank %d: %s' % (RANK, msg), 'n': req['n']}, fh)
        if os.environ.get('VX_TB') and status != 'reject':
            sys.stderr.write('rank %d\n' % RANK + traceback.format_exc())
            sys.stderr.flush()
    return {'status': status, 'msg': msg, 'nontrivial': kit.S.nontrivial, 'tags': kit.S.tags,
            'out': kit.S.out if RANK == 0 else None, 'rank': RANK}


def main():
    out = open(OUT, 'w') if RANK == 0 else None
    # keep library prints off our channels
    stdin = sys.stdin
    if not os.environ.get('VX_TB'):
        sys.stdout.flush()
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
    if RANK == 0:
        out.write(json.dumps({'ready': True, 'size': SIZE}) + '\n')
        out.flush()
    while True:
        line = None
        if RANK == 0:
            line = stdin.readline()
            if not line.strip():
                line = ''
        line = COMM.bcast(line, root=0)
        if not line:
            break
        req = json.loads(line)
        res = evaluate(req)
        res = COMM.gather(res, root=0)
        if RANK == 0:
            order = {'error': 0, 'fail': 1, 'reject': 2, 'ok': 3}
            w = min(res, key=lambda r: order[r['status']])
            tags = sorted(set(t for r in res for t in r['tags']))
            msg = w['msg'] if SIZE == 1 or w['status'] == 'ok' else 'rank %d: %s' % (w['rank'], w['msg'])
            ans = {'n': req['n'], 'status': w['status'], 'msg': msg, 'tags': tags,
                   'nontrivial': any(r['nontrivial'] for r in res), 'out': res[0]['out']}
            out.write(json.dumps(ans) + '\n')
            out.flush()
    try:
        MPI.Finalize()
    except Exception:  # noqa
        pass
    os._exit(0)


if __name__ == '__main__':
    if os.environ.get('VX_FH'):     # debugging: where is every rank after so many seconds?
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ['VX_FH']), file=open('/tmp/fh.%d' % RANK, 'w'))
    main()
