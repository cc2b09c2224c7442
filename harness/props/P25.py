# -*- coding: utf-8 -*-
"""P25: iterators, parameter runners and csv files."""
from kit import facet, ensure, close, nontrivial, tag
import gens

RULE = ('case = a run (steps, results, interruptions) of an iterator or of a parameter runner, or operations on a csv table; non-trivial: at '
        'least two steps / combinations / rows')
P = 'P25'


class Stop(Exception):
    """the simulated crash"""


# ------------------------------------------------------------------------------------------------------------------
KINDS = ['float', 'int', 'nan', 'str', 'tiny']


def g_it(draw, st):
    n = draw(st.integers(1, 9))
    c = {'t0': gens.dyadic(draw, st, -2, 2, 4), 'n': n, 'kinds': draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3)),
         'seed': draw(st.integers(0, 999)), 'way': draw(st.sampled_from(['dt n', 'dt T', 'n T', 'n T'])),
         'dt': draw(st.sampled_from([0.5, 0.25, 0.1, 0.3, 1 / 49, 1e-3, 2.])),
         'freq': draw(st.sampled_from([True, False, 1, 3])), 'factor': draw(st.sampled_from([0, 1, 0.5])),
         'file': draw(st.booleans()), 'ext': draw(st.booleans()), 'mitr': draw(st.booleans()), 'runs': []}
    if c['way'] == 'n T':
        c['n'] = draw(st.integers(1, 60))
        c['T'] = c['t0'] + draw(st.sampled_from([1., 0.5, 2., 3., 0.7]))
    k = 0
    for _ in range(draw(st.integers(0, 3)) if c['file'] else 0):
        k = draw(st.integers(k, min(n, c['n'])))
        c['runs'].append([draw(st.sampled_from(['shut', 'reason', 'crash', 'cut', 'fewer'])), k])
    c['message'] = draw(st.sampled_from(['m', ['m', 'n'], []]))
    return c


def value(kind, k, seed, col):
    import math
    x = math.sin(0.37 * (seed + 1) * (col + 1) + 1.3 * k)
    if kind == 'float':
        return x * 10. ** ((seed + k) % 5 - 2)
    if kind == 'int':
        return int(x * 1000)
    if kind == 'nan':
        return float('nan') if (k + seed) % 3 == 1 else x
    if kind == 'str':
        return 'r%d' % int(x * 1000)
    return x * 1e-300 if k % 2 else x * 1e200


def same(a, b, msg):
    if isinstance(b, str) or isinstance(a, str):
        ensure(a == b, '%s: %r, not %r' % (msg, a, b))
    elif b != b:
        ensure(a != a, '%s: %r, not nan' % (msg, a))
    else:
        ensure(abs(float(a) - b) <= 1e-15 * abs(b), '%s: %r, not %r' % (msg, a, b))


def cleanup(name):
    import glob
    import os
    from root.config.main import COMM, RANK
    COMM.barrier()
    if RANK == 0:
        for f in glob.glob(name + '*'):
            os.remove(f)
    COMM.barrier()


def solver_of(log, kinds, seed, first, kind, at, message):
    """the model run knows which step it is in from the number of steps before"""
    if len(kinds) == 1:
        def solver(a, b):
            """
            Parameters
            ----------
            a :
            b :

            Returns
            -------
            exit_code :
            shut_down :
            message :
            r0 :

            """
            return body(a, b)
    elif len(kinds) == 2:
        def solver(a, b):
            """
            Parameters
            ----------
            a :
            b :

            Returns
            -------
            exit_code :
            shut_down :
            message :
            r0 :
            r1 :

            """
            return body(a, b)
    else:
        def solver(tk, tk1):
            """
            Parameters
            ----------
            tk :
            tk1 :

            Returns
            -------
            exit_code :
            shut_down :
            message :
            r0 :
            r1 :
            r2 :

            """
            return body(tk, tk1)

    def body(a, b):
        k = first + len(log) + 1
        if kind == 'crash' and k == at + 1:
            raise Stop()
        log.append((a, b))
        s = 0
        if k == at:
            s = {'shut': True, 'reason': 'because'}.get(kind, 0)
        return (1, s, message) + tuple(value(w, k, seed, c) for c, w in enumerate(kinds))
    return solver


@facet(P, 'iterator', g_it, np={1: 2, 2: 1, 3: 1}, quick={1: 50, 2: 20, 3: 15}, cost=0.1, timeout=100)
def iterator(case):
    """the table of an iterator that is interrupted and resumed any number of times"""
    import math
    import os
    import warnings
    import pandas as pd
    from root.config.main import COMM, RANK
    from tools.iterators.simple import SimpleIterator
    warnings.simplefilter('ignore')
    kinds, seed, n, t0 = case['kinds'], case['seed'], case['n'], case['t0']
    kw = dict(t0=t0)
    T = case.get('T')
    dt = case['dt'] if T is None else (T - t0) / n
    if case['way'] == 'dt n':
        kw.update(dt=dt, max_steps=n)
    elif case['way'] == 'dt T':
        kw.update(dt=dt, max_time=t0 + dt * n)
    else:
        kw.update(max_steps=n, max_time=T)
    name = 'p25it'
    cleanup(name)
    file = name + ('.csv' if case['ext'] else '') if case['file'] else None
    opt = dict(auto_save_frequency=case['freq'], monitor_factor=case['factor'], RDF_filename=file, save_to_mitr=case['mitr'], name='p25name')
    nontrivial(n > 1)
    tag(case['way'] + ' ' + ' '.join(a for a, _ in case['runs']))
    initial = [value(w, 0, seed, c) for c, w in enumerate(kinds)]
    have = 0            # steps in the file

    def one(kind, at, last):
        """run once; the steps in the file afterwards"""
        args = dict(kw)
        total = n
        if kind == 'fewer' and at >= 1:
            total = at
            args = dict(t0=t0, dt=dt, max_steps=at)
        it = SimpleIterator(**args, **opt)
        ensure(it.max_steps == total, 'number of steps is %r, not %r' % (it.max_steps, total))
        close(it.dt, dt, 'step', 1e-14, 0)
        close(it.max_time, t0 + dt * total, 'end time', 1e-13, 1e-15)
        log = []
        it(solver_of(log, kinds, seed, have, kind, at, case['message']), initial)
        crashed = False
        try:
            it.run()
        except Stop:
            crashed = True
        stop = total
        if kind == 'crash' and have < at + 1 <= total:
            ensure(crashed, 'a failing solver did not stop the run')
            stop = at
        elif crashed:
            ensure(False, 'the solver was called for a step it should not do')
        elif kind in ('shut', 'reason') and have < at:
            stop = at
        ran = max(stop - have, 0)
        ensure(len(log) == ran, '%s: solver called %d times for %d steps' % (kind, len(log), ran))
        for i, (a, b) in enumerate(log):
            k = have + i
            close([a, b], [t0 + k * dt, t0 + (k + 1) * dt], 'times of step %d' % (k + 1), 1e-12, 1e-12)
        done = max(stop, have)
        if not crashed:
            ensure(it.running_step == stop + 1 if kind in ('shut', 'reason') and have < at else it.running_step == total + 1, 'running step')
            ensure(bool(it.shut_down) == (kind in ('shut', 'reason') and have < at), 'shut down state is %r' % it.shut_down)
            if it.shut_down:
                ensure(it.shut_down_reason == ('because' if kind == 'reason' else ''), 'shut down reason %r' % it.shut_down_reason)
            close(it.t, t0 + (it.running_step - 1) * dt, 'time at the end', 1e-12, 1e-12)
        if RANK == 0:
            if crashed:
                table(it.RDF, done, 'table after a crash')
            else:
                table(it.RDF, done, 'table')
        else:
            ensure(it.RDF is None, 'table of a slave')
        if file is not None and not crashed:
            if RANK == 0:
                table(pd.read_csv(name + '.csv', index_col=0, float_precision='round_trip'), done, 'file')
                ensure(os.path.isfile(name + '.mitr') == case['mitr'], 'mitr file')
            r = SimpleIterator.read(name + '.csv')
            if RANK == 0:
                table(r, done, 'read')
            else:
                ensure(r is None, 'read of a slave')
            if case['mitr']:
                r = SimpleIterator.read(name)
                if RANK == 0:
                    ensure((r.t0, r.dt, r.max_steps, r.max_time, r.running_step) == (it.t0, it.dt, it.max_steps, it.max_time, it.running_step),
                           'data of the saved iterator')
                    table(r.RDF, done, 'table of the saved iterator')
        return it, done

    def table(df, k, what):
        ensure(list(df.columns) == ['t', 'dt'] + ['r%d' % i for i in range(len(kinds))], '%s: columns %r' % (what, list(df.columns)))
        ensure([int(i) for i in df.index] == list(range(k + 1)), '%s: rows %r instead of 0..%d' % (what, list(df.index), k))
        for i in range(k + 1):
            row = df.loc[i]
            close(float(row['t']), t0 + i * dt, '%s: time of row %d' % (what, i), 1e-12, 1e-12)
            close(float(row['dt']), dt, '%s: step of row %d' % (what, i), 1e-12, 0)
            for j, w in enumerate(kinds):
                same(row['r%d' % j], value(w, i, seed, j), '%s: row %d result %d' % (what, i, j))

    try:
        for kind, at in case['runs']:
            it, done = one(kind, at, False)
            COMM.barrier()
            if RANK == 0:
                # what is left in the file: an automatic save of an earlier moment
                if os.path.isfile(name + '.csv'):
                    with open(name + '.csv') as f:
                        lines = f.readlines()
                    if kind == 'cut':
                        keep = min(len(lines), 2 + at)
                        with open(name + '.csv', 'w') as f:
                            f.writelines(lines[:keep])
                        lines = lines[:keep]
                    left = len(lines) - 2
                    ensure(left <= done, 'file has more rows than steps')
                    table(pd.read_csv(name + '.csv', index_col=0, float_precision='round_trip'), left, 'file after %s' % kind)
                else:
                    ensure(kind == 'crash', 'no file after a run')
                    left = 0
            else:
                left = None
            have = COMM.bcast(left, root=0)
        one('none', -1, True)
    finally:
        cleanup(name)


# ------------------------------------------------------------------------------------------------------------------
def g_run(draw, st):
    num = st.one_of(st.integers(-5, 12), st.sampled_from([0.5, 0.1, 1 / 3, -2.75, 1e-9, 3.141592653589793, 1e10 + 0.5]))
    rows = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(1, 3)))]
    c = {'I1': [[draw(num) for _ in range(r)] for r in rows], 'I2': [[draw(num) for _ in range(r)] for r in rows],
         'I3': draw(st.lists(num, min_size=1, max_size=3)), 'outs': draw(st.integers(1, 3)), 'kw': draw(st.sampled_from([None, 2, 0.5])),
         'file': draw(st.booleans()), 'progress': draw(st.booleans()), 'stops': [], 'again': draw(st.booleans()),
         'same': draw(st.booleans())}
    if c['file']:
        for _ in range(draw(st.integers(0, 2))):
            c['stops'].append([draw(st.sampled_from(['crash', 'cut', 'cut', 'cut'])), draw(st.integers(0, 12)), draw(st.integers(0, 200))])
    return c


def results(a, b, c, kw, outs):
    o = [a + 5 * b - c * kw, a * 1e-7 + b / 3, (a - b) * 1e20]
    return o[:outs]


def runner_solver(log, outs, stop):
    def body(a, b, c, kw):
        if stop is not None and len(log) == stop:
            raise Stop()
        log.append([a, b, c, kw])
        return results(a, b, c, kw, outs)

    if outs == 1:
        def solver(a, b, c, kw=1):
            """
            Parameters
            ----------
            a :
            b :
            c :

            Returns
            -------
            d :

            """
            return body(a, b, c, kw)
    elif outs == 2:
        def solver(a, b, c, kw=1):
            """
            Parameters
            ----------
            a :
            b :
            c :

            Returns
            -------
            d :
            e :

            """
            return body(a, b, c, kw)
    else:
        def solver(a, b, c, kw=1):
            """
            Parameters
            ----------
            a :
            b :
            c :

            Returns
            -------
            d :
            e :
            f :

            """
            return body(a, b, c, kw)
    return solver


def wanted(I1, I2, I3):
    """in order, each once"""
    seq = []
    for c in I3:
        for a, b in zip(I1, I2):
            for x, y in zip(a, b):
                if [x, y, c] not in seq:
                    seq.append([x, y, c])
    return seq


@facet(P, 'runner', g_run, np={1: 2, 2: 1, 3: 1}, quick={1: 40, 2: 15, 3: 12}, cost=0.1, timeout=100)
def runner(case):
    """the table of a parameter runner, interrupted, resumed, read and used again"""
    import os
    import warnings
    from root.config.main import COMM, RANK
    from tools.run.reader import ParallelMatrix3dInputRunner, RunnerDataReader
    warnings.simplefilter('ignore')
    outs = case['outs']
    name = 'p25run.txt'
    cleanup('p25run')
    file = name if case['file'] else None
    kw = {} if case['kw'] is None else {'kw': case['kw']}
    kv = 1 if case['kw'] is None else case['kw']
    seq = wanted(case['I1'], case['I2'], case['I3'])
    nontrivial(len(seq) > 1)
    tag(' '.join(a for a, _, _ in case['stops']))
    names = ['a', 'b', 'c', 'd', 'e', 'f'][:3 + outs]

    def table(df, want, what):
        ensure([str(c) for c in df.columns][:3 + outs] == names, '%s: columns %r' % (what, list(df.columns)))
        ensure(len(df) == len(want), '%s: %d rows instead of %d' % (what, len(df), len(want)))
        for i, q in enumerate(want):
            row = df.iloc[i]
            ensure(int(df.index[i]) == i, '%s: index %r of row %d' % (what, df.index[i], i))
            for k, v in zip(names, q + results(*q, kv, outs)):
                same(row[k], v, '%s: %s of row %d' % (what, k, i))

    def run(R, log, I, have, stop, what, f):
        seq = wanted(*I)
        todo = [q for q in seq if q not in have]
        crashed = False
        try:
            R.iterate(*I, writeto=f, show_progress=case['progress'], **kw)
        except Stop:
            crashed = True
        ensure(crashed == (stop is not None and stop < len(todo)), '%s: stopped: %r' % (what, crashed))
        did = todo[:stop] if crashed else todo
        ensure(log == [q + [kv] for q in did], '%s: the solver got %r instead of %r' % (what, log, did))
        want = have + did
        if not crashed:
            table(R.results, want, what + ', results')
        COMM.barrier()
        if f is not None:
            D = RunnerDataReader(f)
            table(D.results, want, what + ', file')
        return want

    try:
        have = []
        I = (case['I1'], case['I2'], case['I3'])
        for kind, k, cut in case['stops']:
            log = []
            stop = k if kind == 'crash' else None
            R = ParallelMatrix3dInputRunner(runner_solver(log, outs, stop))
            have = run(R, log, I, have, stop, kind, file)
            COMM.barrier()
            if kind == 'cut':
                # the writing of the file stopped at some byte of the results
                if RANK == 0:
                    text = open(name).read()
                    head = text.index('|---')
                    head = text.index('\n', head) + 1
                    size = max(head, len(text) - (cut if k % 3 else cut % 4))
                    with open(name, 'w') as f:
                        f.write(text[:size])
                    left = text[head:size].count('\n')
                else:
                    left = None
                have = have[:COMM.bcast(left, root=0)]
            COMM.barrier()
        log = []
        R = ParallelMatrix3dInputRunner(runner_solver(log, outs, None))
        have = run(R, log, I, have, None, 'full run', file)
        if case['again']:
            # the same runner with other data, into no file or into another one
            del log[:]
            J = I if case['same'] else ([a[::-1] for a in I[0]], [b[::-1] for b in I[1]], I[2])
            run(R, log, J, [], None, 'second use', None if case['same'] else 'p25run2.txt')
            COMM.barrier()
            if file is not None:
                table(RunnerDataReader(file).results, have, 'first file after the second use')
    finally:
        cleanup('p25run')


# ------------------------------------------------------------------------------------------------------------------
def g_csv(draw, st):
    r = draw(st.integers(1, 8))
    cols = draw(st.lists(st.sampled_from(['t', 'x', 'y', 'error', 'K']), min_size=1, max_size=4, unique=True))
    return {'cols': cols, 'rows': [[draw(st.one_of(st.integers(-9, 9), st.floats(-1e6, 1e6))) for _ in cols] for _ in range(r)],
            'drop': draw(st.lists(st.integers(0, r - 1), max_size=r, unique=True)), 'ext': draw(st.booleans())}


@facet(P, 'csv', g_csv, np={1: 1}, quick={1: 20}, cost=0.02, timeout=60)
def csv(case):
    """csv tables"""
    import pandas as pd
    from tools.filer.csv.main import csvFiler
    name = 'p25csv'
    cleanup(name)
    try:
        pd.DataFrame(case['rows'], columns=case['cols']).to_csv(name + '.csv')
        C = csvFiler(name + ('.csv' if case['ext'] else ''))
        nontrivial(len(case['rows']) > 1)
        ensure([str(_) for _ in C.columns] == case['cols'], 'columns')
        keep = list(range(len(case['rows'])))
        for d in [None] + case['drop']:
            if d is not None:
                C.do.drop(d)
                keep.remove(d)
            ensure([int(i) for i in C.df.index] == keep, 'rows %r instead of %r' % (list(C.df.index), keep))
            for i in keep:
                for c, v in zip(case['cols'], case['rows'][i]):
                    same(C.df.loc[i, c], v, 'row %d, %s' % (i, c))
    finally:
        cleanup(name)
