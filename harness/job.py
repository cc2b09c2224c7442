# -*- coding: utf-8 -*-
"""One driver job: Hypothesis (generation + shrinking) feeding one evaluation worker.

usage (python3-vt): job.py SPEC.json RESULT.json
SPEC = {prop, np, tier, scratch, tasks: [{facet, count, seed}], stop_at}
"""
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import kit  # noqa: E402

PY = '/opt/venv/bin/python'
SHRINK_SECONDS = 60


def base_env():
    e = dict(os.environ)
    e.update(HOME=os.environ.get('HOME', '/root'), LANG='C.UTF-8', LC_ALL='C.UTF-8',
             PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
             QT_QPA_PLATFORM='offscreen', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MKL_NUM_THREADS='1', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
             OMPI_MCA_btl='self,vader', OMPI_MCA_pml='ob1', OMPI_MCA_oob_tcp_if_include='lo',
             OMPI_MCA_plm='isolated', OMPI_MCA_rmaps_base_oversubscribe='1',
             OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_mpi_yield_when_idle='1',
             OMPI_MCA_btl_vader_single_copy_mechanism='none', PYTHONWARNINGS='ignore')
    e.pop('PYTHONPATH', None)
    return e


class WorkerDied(Exception):
    pass


class WorkerHung(Exception):
    pass


class Worker(object):
    def __init__(self, np_, scratch):
        self.np_ = np_
        self.base = scratch
        self.p = None
        self.starts = 0

    def start(self):
        self.dir = tempfile.mkdtemp(prefix='w', dir=self.base)
        os.mkdir(self.dir + '/s')
        os.mkdir(self.dir + '/f')
        os.mkdir(self.dir + '/o')
        fifo = self.dir + '/out'
        os.mkfifo(fifo)
        env = base_env()
        env.update(VX_OUT=fifo, VX_FAILDIR=self.dir + '/f', VX_SCRATCH=self.dir + '/s',
                   OMPI_MCA_orte_tmpdir_base=self.dir + '/o', TMPDIR=self.dir + '/o')
        cmd = [PY, HERE + '/worker.py']
        if self.np_ > 1:
            cmd = ['mpiexec', '-n', str(self.np_)] + cmd
        self.fd = os.open(fifo, os.O_RDONLY | os.O_NONBLOCK)
        self.err = open(self.dir + '/stderr', 'w+b')
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                  stderr=None if os.environ.get('VX_TB') else self.err,
                                  env=env, cwd=self.dir + '/s',
                                  start_new_session=True)
        self.buf = b''
        self.starts += 1
        try:
            r = self.read(240)
        except (WorkerDied, WorkerHung) as e:
            raise RuntimeError('worker did not start: %s' % e)
        if not r.get('ready'):
            raise RuntimeError('bad greeting')

    def read(self, timeout):
        t0 = time.time()
        grace = None
        while True:
            if b'\n' in self.buf:
                line, self.buf = self.buf.split(b'\n', 1)
                return json.loads(line)
            r, _, _ = select.select([self.fd], [], [], 0.05)
            if r:
                try:
                    b = os.read(self.fd, 65536)
                except BlockingIOError:
                    b = None
                if b:
                    self.buf += b
                    continue
                if b == b'':
                    time.sleep(0.02)  # no writer (yet, or any more)
            if self.p.poll() is not None:
                b = b''
                try:
                    b = os.read(self.fd, 65536)
                except BlockingIOError:
                    pass
                if b:
                    self.buf += b
                    continue
                if b'\n' not in self.buf:
                    raise WorkerDied('worker ended with code %s: %s' % (self.p.returncode, self.tail()))
            if self.np_ > 1:
                fl = [f for f in os.listdir(self.dir + '/f') if f.startswith('fail.')]
                if fl:
                    if grace is None:
                        grace = time.time()
                    elif time.time() - grace > 12:
                        res = []
                        for f in sorted(fl):
                            try:
                                res.append(json.load(open(self.dir + '/f/' + f)))
                            except Exception:  # noqa
                                pass
                        raise WorkerHung(res)
            if time.time() - t0 > timeout:
                raise WorkerHung([])

    def tail(self):
        try:
            self.err.seek(0)
            return self.err.read()[-1500:].decode('utf8', 'replace')
        except Exception:  # noqa
            return ''

    def stop(self):
        if self.p is None:
            return
        try:
            self.p.stdin.close()
        except Exception:  # noqa
            pass
        try:
            self.p.wait(3)
        except Exception:  # noqa
            pass
        self.kill()

    def kill(self):
        if self.p is None:
            return
        me = set([self.p.pid])
        # collect descendants
        kids = {}
        for d in os.listdir('/proc'):
            if d.isdigit():
                try:
                    s = open('/proc/%s/stat' % d).read()
                    pp = int(s.rsplit(')', 1)[1].split()[1])
                    kids.setdefault(pp, []).append(int(d))
                except Exception:  # noqa
                    pass
        todo = [self.p.pid]
        while todo:
            x = todo.pop()
            for k in kids.get(x, []):
                if k not in me:
                    me.add(k)
                    todo.append(k)
        for x in sorted(me, reverse=True):
            try:
                os.kill(x, signal.SIGKILL)
            except Exception:  # noqa
                pass
        try:
            self.p.wait(5)
        except Exception:  # noqa
            pass
        try:
            os.close(self.fd)
            self.err.close()
        except Exception:  # noqa
            pass
        shutil.rmtree(self.dir, ignore_errors=True)
        self.p = None

    def ask(self, prop, facet, case, timeout, n, extra=None):
        if self.p is None:
            self.start()
        for f in os.listdir(self.dir + '/f'):
            os.unlink(self.dir + '/f/' + f)
        try:
            self.p.stdin.write((json.dumps({'prop': prop, 'facet': facet, 'case': case, 'n': n, 'extra': extra})
                                + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            raise WorkerDied('worker gone: ' + self.tail())
        while True:
            r = self.read(timeout)
            if r.get('n') == n:
                return r


class StagedWorker(object):
    """np = 13: the case is run by 1 rank, then by 3 ranks; a stage sees what the earlier ones gave (kit.S.prev) and a
    directory of its case (kit.S.dir)."""

    def __init__(self, np_, scratch):
        self.np_ = np_
        self.base = scratch
        self.w = {}
        for d in str(np_):
            self.w.setdefault(d, Worker(int(d), scratch))

    @property
    def starts(self):
        return max(w.starts for w in self.w.values())

    def stop(self):
        for w in self.w.values():
            w.stop()

    def kill(self):
        for w in self.w.values():
            w.kill()

    def ask(self, prop, facet, case, timeout, n):
        d = tempfile.mkdtemp(prefix='c', dir=self.base)
        prev, tags, nt = [], [], False
        try:
            for i, c in enumerate(str(self.np_)):
                r = self.w[c].ask(prop, facet, case, timeout, n, {'stage': i, 'prev': prev, 'dir': d})
                tags += r['tags']
                nt = nt or r['nontrivial']
                r['tags'], r['nontrivial'] = sorted(set(tags)), nt
                if r['status'] != 'ok':
                    if r['status'] == 'fail':
                        r['msg'] = 'stage %d on %s ranks: %s' % (i, c, r['msg'])
                    return r
                prev.append(r['out'])
            return r
        finally:
            shutil.rmtree(d, ignore_errors=True)


def make_worker(np_, scratch):
    return Worker(np_, scratch) if np_ < 10 else StagedWorker(np_, scratch)


def width(np_):
    return sum(int(c) for c in str(np_))


def robust_ask(w, prop, f, case, n):
    """ask, with one retry in a fresh worker after a crash or hang."""
    last = None
    for attempt in range(2):
        try:
            return w.ask(prop, f.name, case, f.timeout, n)
        except WorkerHung as e:
            early = e.args[0] if e.args else []
            w.kill()
            if early:
                errs = [x for x in early if x.get('status') == 'error']
                x = (errs or early)[0]
                return {'n': n, 'status': x['status'], 'msg': x['msg'] + ' (other ranks left waiting)',
                        'tags': [], 'nontrivial': True, 'slow': True}
            last = {'n': n, 'status': 'fail', 'tags': [], 'nontrivial': True, 'slow': True,
                    'msg': 'no answer within %d s, twice (ranks out of step or endless loop)' % f.timeout}
        except WorkerDied as e:
            w.kill()
            last = {'n': n, 'status': 'fail', 'tags': [], 'nontrivial': True, 'slow': True,
                    'msg': 'process running the case died, twice: ' + str(e)[-800:]}
    return last


class StopNow(KeyboardInterrupt):
    pass


def run_task(w, prop, task, stop_at, out):
    import hypothesis
    from hypothesis import strategies as st, settings, HealthCheck, Phase, Verbosity
    f = kit.FACETS[(prop, task['facet'])]
    R = {'facet': f.name, 'np': w.np_, 'evaluations': 0, 'rejected': 0, 'nontrivial': 0, 'distinct': [],
         'tags': {}, 'samples': [], 'failure': None, 'error': None, 'truncated': False}
    out['tasks'].append(R)
    seen = {}
    fails = []
    t_first = [None]

    @st.composite
    def cases(draw):
        return f.gen(draw, st)

    def body(case):
        now = time.time()
        if t_first[0] is not None and now - t_first[0] > SHRINK_SECONDS:
            raise StopNow()
        if now > stop_at:
            R['truncated'] = True
            raise StopNow()
        key = json.dumps(case, sort_keys=True)
        if key in seen:
            a = seen[key]
        else:
            R['evaluations'] += 1
            t1 = time.time()
            a = robust_ask(w, prop, f, case, R['evaluations'])
            a['t'] = time.time() - t1
            R['t'] = R.get('t', 0) + a['t']
            if a['t'] > R.get('tmax', 0):
                R['tmax'] = a['t']
                R['slowest'] = case
            seen[key] = {'status': a['status'], 'msg': a['msg'], 'slow': a.get('slow')}
            for t in a['tags']:
                R['tags'][t] = R['tags'].get(t, 0) + 1
            if a['status'] == 'ok' and a['nontrivial']:
                h = hashlib.sha1((f.name + key).encode()).hexdigest()[:12]
                R['distinct'].append(h)
                if len(R['samples']) < 3:
                    R['samples'].append(case)
        if a['status'] == 'error':
            R['error'] = a['msg']
            R['error_case'] = case
            raise StopNow()
        if a['status'] == 'reject':
            R['rejected'] += 1
            hypothesis.reject()
        if a['status'] == 'fail':
            if t_first[0] is None:
                t_first[0] = time.time()
            fails.append((len(key), key, a['msg']))
            if a.get('slow') and (len(fails) >= 4 or 'twice' in a['msg']):
                raise StopNow()
            raise AssertionError(a['msg'])

    t = hypothesis.given(case=cases())(body)
    t = settings(max_examples=task['count'], database=None, deadline=None,
                 suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                 print_blob=False, verbosity=Verbosity.quiet,
                 phases=[Phase.generate, Phase.shrink])(t)
    t = hypothesis.seed(task['seed'])(t)
    try:
        t()
    except StopNow:
        pass
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: Hypothesis re-raises the failure, or reports flakiness
        if not fails and R['error'] is None:
            import traceback
            R['error'] = 'driver: ' + traceback.format_exc()[-3000:]
    if fails and R['error'] is None:
        fails.sort()
        best = fails[0]
        R['failure'] = {'case': json.loads(best[1]), 'msg': best[2], 'np': w.np_, 'facet': f.name,
                        'candidates_failed': len(fails)}
        # does it reproduce alone in a fresh worker? (a hang or crash was already seen twice)
        w.stop()
        try:
            if 'twice' in best[2]:
                R['failure']['reproduces_alone'] = True
                return True
            a = robust_ask(w, prop, f, R['failure']['case'], 0)
            R['failure']['reproduces_alone'] = a['status'] == 'fail'
            if a['status'] == 'fail':
                R['failure']['msg'] = a['msg']
        except Exception:  # noqa
            R['failure']['reproduces_alone'] = None
        return True
    return R['error'] is not None


def main():
    spec = json.load(open(sys.argv[1]))
    out = {'tasks': []}
    importlib.import_module('props.' + spec['prop'])
    w = make_worker(spec['np'], spec['scratch'])

    def bye(*_):
        w.kill()
        os._exit(9)
    signal.signal(signal.SIGTERM, bye)
    try:
        for task in spec['tasks']:
            if run_task(w, spec['prop'], task, spec['stop_at'], out):
                break
    except Exception as e:  # noqa
        import traceback
        out['error'] = traceback.format_exc()[-3000:]
    finally:
        w.stop()
    tmp = sys.argv[2] + '.tmp'
    json.dump(out, open(tmp, 'w'))
    os.rename(tmp, sys.argv[2])


if __name__ == '__main__':
    main()
