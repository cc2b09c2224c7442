"""P31: rank utilities, assemblers, containers, decorators and small numerical helpers."""
from kit import facet, ensure, close, nontrivial, tag, fail
import gens

RULE = ('case = data and a rank count for a rank utility, or inputs for a container, decorator or helper; non-trivial: more than one rank for '
        'rank utilities, more than one item for the others')
P = 'P31'


# ------------------------------------------------------------------------------------------------------------------
def g_ranks(draw, st):
    kinds = ['int', 'str', 'tuple', 'array', 'dict', 'none', 'float']
    return {'tasks': draw(st.lists(st.sampled_from(kinds), min_size=0, max_size=14)),
            'slow': draw(st.integers(0, 7)), 'odd': draw(st.integers(0, 7)),
            'same': draw(st.sampled_from(kinds + ['two'])), 'diff': draw(st.booleans()),
            'members': draw(st.sampled_from([1, 2, 3, 4, 9, 0, 2.0])), 'groups': draw(st.integers(0, 6)),
            'ab': sorted([draw(st.integers(-9, 9)), draw(st.integers(-9, 9))]), 'seed': draw(st.integers(0, 99))}


def datum(kind, k):
    import numpy as np
    return {'int': k, 'str': ['s%d' % k, 'stop', ''][k % 3] + str(k), 'tuple': (k, 'x'), 'array': np.arange(3.) + k,
            'dict': {'a': k, 'b': [k]}, 'none': None, 'float': k / 3., 'two': (k, np.eye(2) * k)}[kind]


def key(x):
    import numpy as np
    return repr(x.tolist() if isinstance(x, np.ndarray) else x)


@facet(P, 'ranks', g_ranks, np={2: 1, 3: 2, 4: 2, 5: 1, 1: 1}, quick={2: 12, 3: 25, 4: 25, 5: 12, 1: 6}, cost=0.06)
def ranks(a):
    import numpy as np
    import os
    import time
    from root.config.main import COMM, RANK, SIZE, DISPATCHING, CHAINING, GROUP_CORES, CHECK_SAME_IN_ALL_CORES, TREE
    from components.miscellaneous import mirand, mios
    nontrivial(SIZE > 1 and len(a['tasks']) > 1)
    # -- each task is done exactly once, whatever it is
    tasks = [datum(k, i) for i, k in enumerate(a['tasks'])]
    done = []

    def work(x):
        if len(done) == a['slow']:
            time.sleep(0.003)
        done.append(key(x))
        return ('r', key(x))

    given = list(tasks)
    res = DISPATCHING(given if RANK == 0 else None, work)
    allres = COMM.gather((res, done), root=0)
    if RANK == 0:
        got = sorted(d for r, dd in allres for d in dd)
        ensure(got == sorted(key(t) for t in tasks), 'dispatching %s did %s' % ([key(t) for t in tasks], got))
        for r, dd in allres:
            ensure(r == [('r', d) for d in dd], 'the results of a rank are %s for %s' % (r, dd))
        ensure(len(given) == len(tasks), 'dispatching emptied the list of the caller')
        tag('ranks:%d' % SIZE)
    # -- order
    name = 'chain_%d' % a['seed']
    if RANK == 0:
        open(name, 'w').close()
    COMM.barrier()

    def step(p, q=1):
        s = open(name).read()
        if RANK % 2 == 0:
            time.sleep(0.001)
        open(name, 'w').write(s + '%d,' % RANK)
        return RANK * p + q

    r = CHAINING(step, 10, q=a['seed'])
    ensure(r == RANK * 10 + a['seed'], 'chaining returns %s' % r)
    COMM.barrier()
    s = open(name).read()
    ensure(s == ''.join('%d,' % i for i in range(SIZE)), 'chain order %s' % s)
    # -- files
    ensure(mios.isfile(name) is True, 'isfile of an existing file')
    mios.remove(name)
    COMM.barrier()
    ensure(mios.isfile(name) is False, 'isfile of a removed file')
    mios.mkdir('d_%d' % a['seed'])
    COMM.barrier()
    ensure(os.path.isdir('d_%d' % a['seed']), 'mkdir')
    open('d_%d/f%d' % (a['seed'], RANK), 'w').close()
    COMM.barrier()
    li = mios.listdir('d_%d' % a['seed'])
    ensure((sorted(li) if RANK == 0 else li) == (['f%d' % i for i in range(SIZE)] if RANK == 0 else None), 'listdir %s' % li)
    COMM.barrier()
    mios.cleandir('d_%d' % a['seed'])
    COMM.barrier()
    ensure(os.listdir('d_%d' % a['seed']) == [], 'cleandir')
    COMM.barrier()
    mios.rmdir('d_%d' % a['seed'])
    COMM.barrier()
    ensure(not os.path.exists('d_%d' % a['seed']), 'rmdir')
    # -- groups
    kw = {'group_num': a['groups']} if 1 <= a['groups'] <= SIZE else {}
    G = GROUP_CORES(a['members'], **kw)
    n = kw.get('group_num')
    if n is None:
        m = int(min(max(a['members'], 1), SIZE))
        n = -(-SIZE // m)
    ensure(G['group number'] == n == len(G['leaders']), '%d groups: %s' % (n, G))
    blocks = [[L] + list(G[L]) for L in G['leaders']]
    ensure(sum(blocks, []) == list(range(SIZE)), 'groups %s do not partition the ranks' % G)
    ensure(max(map(len, blocks)) - min(map(len, blocks)) <= 1, 'unbalanced groups %s' % G)
    mine = [b for b in blocks if RANK in b][0]
    ensure(G['my leader'] == mine[0], 'leader %s' % G)
    # -- agreement
    val = datum(a['same'], a['seed'])
    odd = a['odd'] % SIZE
    if a['diff'] and SIZE > 1 and a['same'] != 'none':
        if RANK == odd:
            val = datum(a['same'], a['seed'] + 1)
        try:
            CHECK_SAME_IN_ALL_CORES('x', val)
            ok = True
        except AssertionError as e:
            ok = False
            bad = [odd] if odd else list(range(1, SIZE))
            ensure(str(bad) in str(e), 'the differing ranks are %s: %s' % (bad, e))
        ensure(not ok, 'different data on rank %d are not noticed' % odd)
        tag('disagree')
    else:
        CHECK_SAME_IN_ALL_CORES('x', val)
        CHECK_SAME_IN_ALL_CORES()
    # -- tree reduction
    x = np.array([1 << RANK], dtype='i')
    sent = False
    for plan in TREE():
        if plan is None:
            continue
        ensure(not sent, 'a rank sends after it has passed on its data')
        act, kwa = plan
        if act == 'send':
            COMM.send((x, 'm'), **kwa)
            sent = True
        else:
            y, _ = COMM.recv(**kwa)
            x = x + y
    if RANK == 0:
        ensure(x[0] == (1 << SIZE) - 1 and not sent, 'the tree collects %s' % bin(x[0]))
    else:
        ensure(sent, 'rank %d never passed on its data' % RANK)
    # -- shared random numbers
    r = [mirand.randint(*a['ab']), mirand.sample(range(20), 4)]
    rr = COMM.allgather(r)
    ensure(all(q == rr[0] for q in rr), 'shared random numbers %s' % rr)
    ensure(a['ab'][0] <= r[0] <= a['ab'][1] and len(set(r[1])) == 4, 'random numbers %s' % r)


# ------------------------------------------------------------------------------------------------------------------
def g_asm(draw, st):
    n = draw(st.integers(1, 5))
    return {'n': n, 'seed': draw(st.integers(0, 9999)), 'kind': draw(st.sampled_from(['dict', 'list', 'array', 'tuple'])),
            'mode': draw(st.sampled_from(['add', 'replace'])), 'repeat': draw(st.booleans()),
            'fmt': draw(st.sampled_from(['array', 'csc', 'csr'])), 'rows': draw(st.sampled_from(['array', 'list'])),
            'vec': draw(st.sampled_from(['array', 'list', 'dictkeys']))}


def gathering(rng, n, kind, repeat, rows, w=None):
    """lists of dof numbers that use each of 0 ... m-1"""
    import numpy as np
    L = [int(rng.integers(1, 5)) for _ in range(n)]
    if kind == 'array':
        L = [L[0]] * n
    m = int(rng.integers(1, sum(L) + 1))
    if not repeat:
        m = max(m, max(L))
    for _ in range(200):
        g = [list(rng.integers(0, m, q)) if repeat else list(rng.permutation(m)[:q]) for q in L]
        if set(sum(g, [])) == set(range(m)):
            break
    else:
        g, k = [], 0
        for q in L:
            g.append(list(range(k, k + q)))
            k += q
        m = k
    g = [[int(i) for i in r] for r in g]
    out = [np.array(r) for r in g] if rows == 'array' else g
    if kind == 'array':
        return g, np.array(g), m
    if kind == 'dict':
        ks = list(rng.permutation(100)[:n])
        return g, {int(k): r for k, r in zip(ks, out)}, m
    return g, (tuple(out) if kind == 'tuple' else out), m


@facet(P, 'assemble', g_asm, np={1: 1}, quick={1: 120}, cost=0.002)
def assemble(a):
    import numpy as np
    from components.assemblers import VectorAssembler, MatrixAssembler
    from components.distributors import VectorDistributor
    rng = np.random.default_rng(a['seed'])
    g0, G0, m0 = gathering(rng, a['n'], a['kind'], a['repeat'], a['rows'])
    if a['kind'] == 'dict':
        g1, _, m1 = gathering(rng, a['n'], 'list', a['repeat'], a['rows'])
        G1 = {k: r for k, r in zip(G0, g1)}
    else:
        g1, G1, m1 = gathering(rng, a['n'], a['kind'], a['repeat'], a['rows'])
    nontrivial(a['n'] > 1)
    pack = (lambda L: {k: v for k, v in zip(G0, L)}) if a['kind'] == 'dict' else (lambda L: L)
    v = [rng.integers(-8, 9, len(r)) / 4. for r in g0]
    if a['mode'] == 'replace':      # the values of a shared dof agree
        shared = rng.integers(-8, 9, m0) / 4.
        v = [shared[r] for r in g0]
    ref = np.zeros(m0)
    for r, x in zip(g0, v):
        for i, y in zip(r, x):
            ref[i] = y if a['mode'] == 'replace' else ref[i] + y
    VA = VectorAssembler(G0)
    for _ in range(2):
        close(VA(pack([list(x) for x in v] if a['rows'] == 'list' else v), a['mode']), ref, 'assembled vector')
    got = VA(pack(v), a['mode'], dtype=complex)
    ensure(got.dtype == complex, 'dtype')
    close(got.real, ref, 'assembled complex vector')
    M = [rng.integers(-8, 9, (len(p), len(q))) / 4. for p, q in zip(g0, g1)]
    if a['mode'] == 'replace':
        S = rng.integers(-8, 9, (m0, m1)) / 4.
        M = [S[np.ix_(p, q)] for p, q in zip(g0, g1)]
    R = np.zeros((m0, m1))
    for p, q, x in zip(g0, g1, M):
        for i, r in enumerate(p):
            for j, c in enumerate(q):
                R[r, c] = x[i, j] if a['mode'] == 'replace' else R[r, c] + x[i, j]
    got = MatrixAssembler(G0, G1)(pack(M), a['mode'], format=a['fmt'])
    ensure(got.__class__.__name__ == {'array': 'ndarray', 'csc': 'csc_matrix', 'csr': 'csr_matrix'}[a['fmt']], 'the class is %s' % got.__class__)
    close(got if a['fmt'] == 'array' else got.toarray(), R, 'assembled matrix')
    w = rng.integers(-8, 9, m0) / 4.
    D = VectorDistributor(G0)(w if a['vec'] == 'array' else list(w))
    if a['kind'] == 'dict':
        ensure(list(D) == list(G0), 'the keys of the distributed vector')
        D = list(D.values())
    ensure(len(D) == len(g0), 'number of distributed parts')
    for r, x in zip(g0, D):
        close(np.array(x), w[r], 'distributed vector')
    # a gathering that misses numbers is refused
    if m0 > 1:
        bad = [[i + (1 if i >= m0 - 1 else 0) for i in r] for r in g0]
        try:
            VectorAssembler(bad)
        except AssertionError:
            tag('missing')
        else:
            fail('a gathering with a missing number is accepted')


# ------------------------------------------------------------------------------------------------------------------
def g_cont(draw, st):
    leaf = st.one_of(st.integers(-5, 5), st.sampled_from(['abc', '', 'x']), st.floats(-2, 2, allow_nan=False))
    nest = st.recursive(leaf, lambda s: st.lists(s, max_size=4), max_leaves=14)
    return {'nest': [draw(nest) for _ in range(draw(st.integers(0, 4)))],
            'nums': sorted(set(draw(st.lists(st.integers(-40, 40), min_size=1, max_size=9)))), 'at': draw(st.integers(-100, 100)) / 2,
            'start': draw(st.integers(-5, 5)), 'len': draw(st.integers(0, 12)), 'parts': draw(st.lists(st.integers(0, 4), max_size=5)),
            'abc': [draw(st.integers(0, 3)) for _ in range(3)], 'rows': draw(st.integers(1, 5)), 'cols': draw(st.integers(1, 6)),
            'rank': draw(st.integers(0, 5)), 'seed': draw(st.integers(0, 9999)), 'sec': draw(st.integers(0, 10 ** 6)),
            'ms': draw(st.integers(0, 7)), 'npw': draw(st.integers(1, 4)), 'default': draw(st.booleans()),
            'ints': draw(st.booleans()), 'shape': draw(st.sampled_from([[6], [3, 4], [1], [2, 1, 3]])),
            'name': draw(st.text('abZ_19.@ -', min_size=1, max_size=8)), 'ext': draw(st.sampled_from(['', '.mi', '.csv', '.12', '.a.b']))}


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


@facet(P, 'containers', g_cont, np={1: 1}, quick={1: 250}, cost=0.002)
def containers(a):
    import numpy as np
    from components.collections.single_list import single_list
    from components.collections.take_closest import take_closest
    from components.generators.counter import Counter
    from components.generators.customized import CustomizedGenerator
    from components.miscellaneous.timer import MyTimer, break_list_into_parts, initialize_3d_list
    from components.miscellaneous.timer import check_filename, check_filename_mi, check_no_splcharacter
    from components.miscellaneous.timer import check_multiple_close, check_almost_in_range
    from components.miscellaneous.generalized_piecewise_function import genpiecewise
    rng = np.random.default_rng(a['seed'])
    nontrivial(len(flat(a['nest'])) > 1)
    ensure(list(single_list(a['nest'])) == flat(a['nest']), 'single_list %s' % list(single_list(a['nest'])))
    nums = a['nums']
    got = take_closest(nums, a['at'])
    ensure(got == min(nums, key=lambda q: (abs(q - a['at']), q)), 'the closest of %s to %s is %s' % (nums, a['at'], got))
    C, D = Counter(a['start']), Counter(a['start'])
    ensure([next(C) for _ in range(4)] == [a['start'] + i for i in range(4)], 'counter')
    ensure(next(D) == a['start'], 'a second counter')
    calls = []

    def f(i):
        calls.append(i)
        return i * i

    g = CustomizedGenerator(f, nums)
    ensure(len(g) == len(nums) and list(g) == [i * i for i in nums] and calls == nums, 'customized generator')
    ensure(all(i in g for i in nums) and 99 not in g and g[nums[0]] == nums[0] ** 2, 'customized generator')
    L = list(range(a['len']))
    br = break_list_into_parts(L, a['parts'])
    ensure(len(br) == len(a['parts']) and isinstance(br, tuple), 'parts')
    k = 0
    for p, q in zip(a['parts'], br):
        ensure(q == L[k:k + p], 'parts %s of %s: %s' % (a['parts'], L, br))
        k += p
    T = initialize_3d_list(*a['abc'])
    ensure(np.array(T, dtype=object).size == np.prod(a['abc']), 'size of a 3d list')
    if all(a['abc']):
        i, j, k = [rng.integers(0, q) for q in a['abc']]
        T[i][j][k] = 1
        ensure(sum(x == 1 for x in flat(T)) == 1 and len(flat(T)) == np.prod(a['abc']), 'the entries of a 3d list are not independent')
    # -- times
    s = a['sec']
    ensure(MyTimer.hms2seconds(MyTimer.seconds2hms(s)) == s, 'hms of %s is %s' % (s, MyTimer.seconds2hms(s)))
    ensure(MyTimer.dhms2seconds(MyTimer.seconds2dhms(s)) == s, 'dhms of %s is %s' % (s, MyTimer.seconds2dhms(s)))
    x = s + a['ms'] / 8.
    ensure(abs(MyTimer.dhmsm2seconds(MyTimer.seconds2dhmsm(x)) - x) < 1e-6, 'dhmsm of %s is %s' % (x, MyTimer.seconds2dhmsm(x)))
    h, r = divmod(s, 3600)
    ensure(MyTimer.seconds2hmsm(x) == '[%02d:%02d:%02d.%03d]' % (h, r // 60, r % 60, a['ms'] * 125), 'hmsm of %s is %s' % (x, MyTimer.seconds2hmsm(x)))
    # -- checks
    nm = a['name'] + a['ext']
    good = '@' not in nm
    ensure(check_no_splcharacter(nm) is good, 'special characters of %r' % nm)
    fn, ex = None, None
    try:
        fn, ex = check_filename(nm)
    except (AssertionError, Exception):
        ok = False
    else:
        ok = True
    if ok:
        ensure(good and ' ' not in fn and not fn[0].isdigit() and '.' not in fn and any(q.isalnum() for q in fn), '%r is accepted: %r %r' % (nm, fn, ex))
        ensure(nm.replace('.', '_') == fn + ('' if ex is None else '_' + ex) and not (ex and ex.isdigit()), '%r becomes %r %r' % (nm, fn, ex))
    else:
        body = nm.rsplit('.', 1)
        b = body[0].replace('.', '_')
        legal = good and ' ' not in b and b and not b[0].isdigit() and any(q.isalnum() for q in b) and (len(body) == 1 or not all(q.isdigit() for q in body[1]))
        ensure(not legal, '%r is refused' % nm)
    if good and ' ' not in nm:
        mi = check_filename_mi(nm)
        ensure(mi.endswith('.mi') and mi.count('.') == 1 and mi[:-3] == (nm[:-3] if nm.endswith('.mi') else nm).replace('.', '_'), '%r becomes %r' % (nm, mi))
    lo, hi = nums[0], nums[-1]
    if lo < hi:
        ensure(check_almost_in_range(a['at'], lo, hi) is bool(lo <= a['at'] <= hi), '%s in [%s, %s]' % (a['at'], lo, hi))
    q = abs(a['at'])
    ensure(check_multiple_close(q * 0.1, 0.5) is ((2 * q) % 10 == 0), '%s*0.1 multiple of 0.5' % q)
    # -- piecewise
    X = rng.integers(-6, 7, a['shape'])
    Y = rng.integers(-6, 7, a['shape'])
    if not a['ints']:
        X, Y = X / 4., Y / 4.
    which = rng.integers(0, a['npw'] + 1, a['shape'])
    conds = [which == i for i in range(a['npw'])]
    fu = [(lambda p, q, i=i: p * (i + 1) + q) if i % 2 else float(i) + 0.5 for i in range(a['npw'])]
    if a['ints']:
        fu = [f if callable(f) else int(f) for f in fu]
    ref = np.zeros(a['shape'])
    for i in range(a['npw']):
        ref[conds[i]] = (X * (i + 1) + Y)[conds[i]] if i % 2 else (int(i) if a['ints'] else i + 0.5)
    if a['default']:
        fu = fu + [lambda p, q: p - q]
        ref[which == a['npw']] = (X - Y)[which == a['npw']]
    else:
        ref[which == a['npw']] = 7
    close(genpiecewise((X, Y), conds, fu, fillvalue=7), ref, 'piecewise function')


def rref_ok(M, R):
    """R is the reduced row echelon form (or an upper trapezoidal part of it) with the same row space"""
    import numpy as np
    r = np.linalg.matrix_rank(M)
    ensure(np.linalg.matrix_rank(R) == r, 'rank %d, not %d' % (np.linalg.matrix_rank(R), r))
    ensure(np.linalg.matrix_rank(np.vstack([M, R])) == r, 'the row space changed')


@facet(P, 'rows', g_cont, np={1: 1}, quick={1: 80}, cost=0.002)
def rows(a):
    import numpy as np
    from components.miscellaneous.matrix_simplify import rsmat
    rng = np.random.default_rng(a['seed'])
    r = min(a['rank'], a['rows'], a['cols'])
    M = rng.integers(-2, 3, (a['rows'], r)) @ rng.integers(-2, 3, (r, a['cols'])) if r else np.zeros((a['rows'], a['cols']), int)
    nontrivial(r > 1)
    keep = M.copy()
    R = rsmat(M)
    ensure((M == keep).all(), 'the input matrix was changed')
    rref_ok(M.astype(float), R)
    nz = [i for i in range(R.shape[0]) if np.abs(R[i]).max() > 1e-9]
    ensure(len(nz) == np.linalg.matrix_rank(M), 'simplest format %s of %s: %d non-zero rows' % (R.tolist(), M.tolist(), len(nz)))


# ------------------------------------------------------------------------------------------------------------------
def g_deco(draw, st):
    return {'which': draw(st.integers(1, 5)), 'n': draw(st.integers(2, 3)),
            'calls': draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 4), st.booleans()), min_size=2, max_size=12)),
            'kind': draw(st.sampled_from(['int', 'str', 'array', 'big', 'close'])),
            'types': draw(st.sampled_from([['int'], [['int', 'float']], ['natural_number'], ['positive_int'], ['negative_int'], ['sparse_matrix'],
                                           [['ndarray', 'ndim=2']], [['ndarray', 'shape=(2,x)']], [['list', 'ndarray', 'shape=(3)']],
                                           [['ndarray', 'shape=(2,...)']], [None], ['']])),
            'value': draw(st.sampled_from(['1', '0', '-1', '1.5', 'True', '"s"', 'None', '[1,2,3]', '[1,2]', 'np.zeros((2,2))', 'np.zeros((3,2))',
                                           'np.zeros(3)', 'np.zeros((2,2,2))', 'sp.csr_matrix((2,2))', 'sp.coo_matrix((1,3))', '(1,2,3)'])),
            'kw': draw(st.booleans())}


def item(kind, k):
    import numpy as np
    if kind == 'array':
        return np.arange(3.) + k
    if kind == 'big':
        x = np.zeros(2000)
        x[1000] = k
        return x
    if kind == 'close':
        return np.array([1. + k * 2. ** -40, 2.])
    return k if kind == 'int' else 's%d' % k


@facet(P, 'decorators', g_deco, np={1: 1}, quick={1: 150}, cost=0.002)
def decorators(a):
    import numpy as np
    import scipy.sparse as sp
    from components.decorators.all import memoize1, memoize2, memoize3, memoize4, memoize5, accepts
    from components.decorators.classproperty.main import classproperty
    w = a['which']
    kind = a['kind'] if w == 1 else ('int' if a['kind'] != 'str' else 'str')      # the others document that arrays are not supported
    log = []
    val = lambda x: float(np.sum(x)) if not isinstance(x, str) else len(x) + int(x[1:])
    nontrivial(len({(o, k) for o, k, _ in a['calls']}) > 1)
    tag('memoize%d' % w)
    if w in (3, 4):
        if w == 3:
            @memoize3
            def fun(x):
                log.append(x)
                return [val(x), 'r']
        else:
            @memoize4
            def fun(x, y):
                log.append((x, y))
                return [val(x) * 10 + y, 'r']
        for o, k, _ in a['calls']:
            r = fun(item(kind, k)) if w == 3 else fun(item(kind, k), o)
            ensure(r == ([val(item(kind, k)), 'r'] if w == 3 else [val(item(kind, k)) * 10 + o, 'r']), 'memoized function returns %s' % r)
        ensure(len(log) == len({k if w == 3 else (o, k) for o, k, _ in a['calls']}), 'the results are not cached: %s' % log)
    else:
        deco = {1: memoize1, 2: memoize2, 5: memoize5}[w]

        class A:
            def __init__(self, o):
                self.o = o

            @deco
            def m(self, x, y=0):
                log.append(1)
                return self.o * 1000 + val(x) + y / 8

            @deco
            def other(self, x, y=0):
                return -self.o - val(x)

        objs = [A(o) for o in range(3)]
        for n, (o, k, kw) in enumerate(a['calls']):
            if kw:
                r = objs[o].m(item(kind, k), y=k)
            else:
                r = objs[o].m(item(kind, k))
            ensure(r == o * 1000 + val(item(kind, k)) + (k / 8 if kw else 0), 'memoize%d: object %d with %s gives %s' % (w, o, k, r))
            ensure(objs[o].other(item(kind, k)) == -o - val(item(kind, k)), 'memoize%d: the other method' % w)
            if n % 5 == 4:
                objs[o] = None
                objs[o] = A(o)
        if len(a['calls']) < 5:
            ensure(len(log) == len(set(map(tuple, a['calls']))), 'memoize%d computed %d times for %d different questions' % (w, len(log), len(set(map(tuple, a['calls'])))))
    # -- accepted types
    x = eval(a['value'], {'np': np, 'sp': sp})
    t = [tuple(q) if isinstance(q, list) else q for q in a['types']]

    @accepts('self', *t)
    def fn(self, v, extra=None):
        """doc"""
        return ('got', v, extra)

    t = t[0]
    isint = isinstance(x, int)
    name = type(x).__name__
    sh = np.shape(x)
    exp = {None: True, '': True, 'int': name == 'int', ('int', 'float'): name in ('int', 'float'), 'natural_number': isint and x >= 0 if isint else False,
           'positive_int': isint and x > 0 if isint else False, 'negative_int': isint and x < 0 if isint else False, 'sparse_matrix': sp.issparse(x),
           ('ndarray', 'ndim=2'): name == 'ndarray' and len(sh) == 2, ('ndarray', 'shape=(2,x)'): name == 'ndarray' and len(sh) == 2 and sh[0] == 2,
           ('list', 'ndarray', 'shape=(3)'): name in ('list', 'ndarray') and sh == (3,),
           ('ndarray', 'shape=(2,...)'): name == 'ndarray' and len(sh) >= 1 and sh[0] == 2}[t]
    try:
        r = fn(None, x, extra=3)
    except Exception:
        ok = False
    else:
        ok = True
        ensure(r[0] == 'got' and r[1] is x and r[2] == 3, 'an accepting function returns %s' % (r,))
    ensure(ok == exp, 'accepts(%r) with %s: %s' % (t, a['value'], 'accepted' if ok else 'refused'))
    ensure(fn.__name__ == 'fn', 'name')

    class B:
        n = 3

        @classproperty
        def twice(cls):
            return cls.n * 2

    class E(B):
        n = 5

    ensure((B.twice, E.twice, B().twice, E().twice) == (6, 10, 6, 10), 'class properties')


# ------------------------------------------------------------------------------------------------------------------
def g_geo(draw, st):
    d = lambda: gens.dyadic(draw, st, -4, 4, 4)
    return {'p': [[d(), d()] for _ in range(4)], 'v': [[d(), d(), d()] for _ in range(2)], 'n': draw(st.integers(1, 7)),
            'e': draw(st.sampled_from([0, 0, -20, 20])), 'c': d(), 'q': [draw(st.integers(0, 3)) for _ in range(30)], 'seed': draw(st.integers(0, 9999)),
            't': d(), 'rs': [[gens.dyadic(draw, st, 0, 1, 8), gens.dyadic(draw, st, 0, 1, 8)] for _ in range(3)]}


@facet(P, 'geometry', g_geo, np={1: 1}, quick={1: 120}, cost=0.003)
def geometry(a):
    import math
    import numpy as np
    import components.functions._2dSpace.angle as an
    from components.functions._2dSpace.distance import distance
    from components.functions._2dSpace.angles_of_triangle import angles_of_triangle
    from components.functions._2dSpace.check_if_two_lines_parallel import if_two_lines_parallel
    from components.functions._2dSpace.line_intersection import find_line_intersection
    from components.functions._2dSpace.Cartesian_polar_coordinates_switcher import CartPolSwitcher
    from components.functions._2dSpace.transfinite import TransfiniteMapping
    from components.functions._2dSpace.geometrical_functions.straight_line import StraightLine
    from components.functions._2dSpace.geometrical_functions.anticlockwise_arc import ArcAntiClockWise
    from components.functions._2dSpace.geometrical_functions.clockwise_arc import ArcClockWise
    from components.functions._3dSpace.angle import angle_between_two_vectors
    from components.functions._3dSpace.Cartesian_cylinder_coordinate_switcher import CartCylSwitcher
    from components.functions._3dSpace.Cartesian_spherical_coordinate_switcher import CartSphSwitcher
    sc = 2. ** a['e']
    p = [(x * sc, y * sc) for x, y in a['p']]
    nontrivial(len({tuple(q) for q in p}) == 4)
    A, B, C, D = p
    sub = lambda u, v: (u[0] - v[0], u[1] - v[1])
    cr = lambda u, v: u[0] * v[1] - u[1] * v[0]
    dist = lambda u, v: math.hypot(u[0] - v[0], u[1] - v[1])
    close(distance(A, B), dist(A, B), 'distance', rtol=1e-12, atol=0)
    if A != B:
        th = math.atan2(B[1] - A[1], B[0] - A[0]) % (2 * math.pi)
        close(an.angle(A, B), th, 'angle of %s from %s' % (B, A), atol=1e-7)
        n = a['n']
        E = (A[0] + (B[0] - A[0]) * n, A[1] + (B[1] - A[1]) * n)
        F = (C[0] + (B[0] - A[0]) * n, C[1] + (B[1] - A[1]) * n)
        ensure(if_two_lines_parallel(A, B, A, E) and if_two_lines_parallel(A, B, C, F), '%s-%s and %s-%s are parallel' % (A, B, C, F))
        ensure(not if_two_lines_parallel(A, B, F, C), 'opposite directions are not parallel')
    if A != B and C != D and cr(sub(B, A), sub(D, C)) != 0:
        ensure(not if_two_lines_parallel(A, B, C, D), '%s-%s and %s-%s are not parallel' % (A, B, C, D))
        X = find_line_intersection(A, B, C, D)
        s = cr(sub(C, A), sub(D, C)) / cr(sub(B, A), sub(D, C))
        close(np.array(X), np.array([A[0] + s * (B[0] - A[0]), A[1] + s * (B[1] - A[1])]), 'intersection', rtol=1e-9, atol=1e-9 * sc)
    elif A != B and C != D:
        ensure(find_line_intersection(A, B, C, D) is None, 'parallel lines')
    if len({A, B, C}) == 3:
        al = angles_of_triangle(A, B, C)
        ref = []
        for u, v, w in ((A, B, C), (B, A, C), (C, A, B)):
            x, y = sub(v, u), sub(w, u)
            ref.append(math.degrees(abs(math.atan2(cr(x, y), x[0] * y[0] + x[1] * y[1]))))
        close(np.array(al), np.array(ref), 'angles of the triangle %s %s %s' % (A, B, C), atol=1e-5)
    x, y = A
    z = B[0]
    close(np.array(CartPolSwitcher.pol2cart(*CartPolSwitcher.cart2pol(x, y))), np.array([x, y]), 'polar', atol=1e-12 * sc * 8)
    r, ph, zz = CartCylSwitcher.cart2cyl(x, y, z)
    close(np.array([r, zz]), np.array([math.hypot(x, y), z]), 'cylinder', rtol=1e-12, atol=0)
    close(np.array(CartCylSwitcher.cyl2cart(r, ph, zz)), np.array([x, y, z]), 'cylinder', atol=1e-12 * sc * 8)
    az, el, r = CartSphSwitcher.cart2sph(x, y, z)
    close(r, math.sqrt(x * x + y * y + z * z), 'radius', rtol=1e-12, atol=0)
    ensure(abs(el) <= math.pi / 2 + 1e-12, 'elevation %s' % el)
    close(np.array(CartSphSwitcher.sph2cart(az, el, r)), np.array([x, y, z]), 'sphere', atol=1e-12 * sc * 8)
    u, v = [np.array(q) for q in a['v']]
    if u.any() and v.any():
        close(angle_between_two_vectors(u, v), math.atan2(np.linalg.norm(np.cross(u, v)), u @ v), 'angle between vectors', atol=1e-7)
        close(angle_between_two_vectors(u * 0.1, u * 0.3), 0., 'angle of parallel vectors', atol=1e-7)
    # -- arcs and lines
    o = np.linspace(0, 1, 5)
    if A != B:
        g, dg = StraightLine(A, B)()
        close(np.array(g(o)), np.array([A[0] + o * (B[0] - A[0]), A[1] + o * (B[1] - A[1])]), 'line', rtol=1e-12, atol=1e-12 * sc)
        close(np.array(dg(o)), np.array([B[0] - A[0] + 0 * o, B[1] - A[1] + 0 * o]), 'derivative of a line', rtol=1e-12, atol=1e-12 * sc)
    R = dist(A, B)
    if A != B and a['e'] == 0:
        be = math.pi * 2 * (a['n'] / 8)
        E = (A[0] + (B[0] - A[0]) * math.cos(be) - (B[1] - A[1]) * math.sin(be), A[1] + (B[0] - A[0]) * math.sin(be) + (B[1] - A[1]) * math.cos(be))
        for cls, tot in ((ArcAntiClockWise, be), (ArcClockWise, be - 2 * math.pi)):
            g, dg = cls(A, B, E)()
            al = math.atan2(B[1] - A[1], B[0] - A[0]) + tot * o
            close(np.array(g(o)), np.array([A[0] + R * np.cos(al), A[1] + R * np.sin(al)]), cls.__name__, atol=1e-6)
            close(np.array(dg(o)), np.array([-R * tot * np.sin(al), R * tot * np.cos(al)]), 'derivative of ' + cls.__name__, atol=1e-5)
    # -- transfinite interpolation of a curved quadrangle
    q = [np.array(t, float) for t in ((0, 0), (3, 0.5), (3.5, 4), (-0.5, 3))]
    b = [q0 / 8 for q0 in a['q'][:4]]
    edges = [(q[0], q[1]), (q[1], q[2]), (q[3], q[2]), (q[0], q[3])]

    def edge(k):
        (P0, P1), h = edges[k], b[k]
        N = np.array([-(P1 - P0)[1], (P1 - P0)[0]])
        f = lambda s: tuple(P0[i] + s * (P1[i] - P0[i]) + h * s * (1 - s) * N[i] for i in (0, 1))
        df = lambda s: tuple((P1[i] - P0[i]) + h * (1 - 2 * s) * N[i] + 0 * s for i in (0, 1))
        return f, df

    ed = [edge(k) for k in range(4)]
    T = TransfiniteMapping([e[0] for e in ed], [e[1] for e in ed])
    rs = np.array(a['rs'])
    r, s = rs[:, 0], rs[:, 1]
    f = [e[0] for e in ed]
    ref = [(1 - r) * f[3](s)[i] + r * f[1](s)[i] + (1 - s) * f[0](r)[i] + s * f[2](r)[i]
           - (1 - r) * (1 - s) * q[0][i] - r * (1 - s) * q[1][i] - r * s * q[2][i] - (1 - r) * s * q[3][i] for i in (0, 1)]
    close(np.array(T.mapping(r, s)), np.array(ref), 'transfinite mapping', atol=1e-12)
    close(np.array([T.x(r, s), T.y(r, s)]), np.array(ref), 'transfinite components', atol=1e-12)
    h = 1e-5
    d = lambda F, m: (F(r + h, s) - F(r - h, s)) / (2 * h) if m == 0 else (F(r, s + h) - F(r, s - h)) / (2 * h)
    for F, ax, m in ((T.dx_dr, T.x, 0), (T.dx_ds, T.x, 1), (T.dy_dr, T.y, 0), (T.dy_ds, T.y, 1)):
        close(F(r, s), d(ax, m), 'transfinite ' + F.__name__, atol=1e-7)


# ------------------------------------------------------------------------------------------------------------------
def poly(q, nv, k):
    """a polynomial of nv variables and its derivatives as functions"""
    import numpy as np
    terms = []
    for j in range(3):
        e = [q[(7 * k + 5 * j + i) % len(q)] % 3 for i in range(nv)]
        terms.append((q[(3 * k + j) % len(q)] - 1.5, e))

    def val(*x, d=None):
        s = 0 * x[1]
        for c, e in terms:
            e = list(e)
            if d is not None:
                c, e[d] = c * e[d], max(e[d] - 1, 0)
            v = c
            for xi, ei in zip(x, e):
                v = v * xi ** ei
            s = s + v
        return s
    if nv == 3:
        f = lambda t, x, y: val(t, x, y)
    else:
        f = lambda t, x, y, z: val(t, x, y, z)
    return f, val


@facet(P, 'calculus', g_geo, np={1: 1}, quick={1: 100}, cost=0.004)
def calculus(a):
    import numpy as np
    import components.functions.timePlus2dSpace.wrappers as W2
    import components.functions.timePlus3dSpace.wrappers as W3
    from components.functions._2dSpace.constant import CFG as C2
    from components.functions._3dSpace.constant import CFG as C3
    from components.functions.timePlus2dSpace.constant import CFGt as T2
    from components.functions.timePlus3dSpace.constant import CFG as T3
    from components.functions._2dSpace.scaling import ScalingFunc as S2
    from components.functions._3dSpace.scaling import ScalingFunc as S3
    from components.functions._2dSpace.opposite import Opposite as O2
    from components.functions._3dSpace.opposite import Opposite as O3
    rng = np.random.default_rng(a['seed'])
    t = a['t']
    nontrivial(len(set(a['q'])) > 2)
    eq = lambda g, r, msg: close(np.array(g), np.array(r), msg, atol=2e-6)
    for n, W in ((2, W2), (3, W3)):
        nv = n + 1
        X = [rng.integers(-8, 9, (2, 3)) / 8. for _ in range(n)]
        P_ = [poly(a['q'], nv, k) for k in range(2 * n + 2)]
        F = [f for f, _ in P_]
        V = lambda k, d=None: P_[k][1](t, *X, d=d)
        s, s2 = W.scalar(F[0]), W.scalar(F[1])
        v, u = W.vector(*F[2:2 + n]), W.vector(*F[2 + n:2 + 2 * n])
        vi, ui = range(2, 2 + n), range(2 + n, 2 + 2 * n)
        eq(s(t, *X), V(0), 'scalar')
        eq((s + s2)(t, *X), V(0) + V(1), 'sum')
        eq((s - s2)(t, *X), V(0) - V(1), 'difference')
        eq((s * s2)(t, *X), V(0) * V(1), 'product')
        eq((-s)(t, *X), -V(0), 'negative')
        eq(s.time_derivative(t, *X), V(0, 0), 'time derivative')
        eq(s.gradient(t, *X), [V(0, i + 1) for i in range(n)], '%dd gradient' % n)
        eq(s.convection_by(u)(t, *X), sum(V(k, 0 + i + 1) * 0 + V(ui[i]) * V(0, i + 1) for i, k in enumerate(ui)), 'scalar convection')
        eq((v + u)(t, *X), [V(i) + V(j) for i, j in zip(vi, ui)], 'vector sum')
        eq((v - u)(t, *X), [V(i) - V(j) for i, j in zip(vi, ui)], 'vector difference')
        eq((-v)(t, *X), [-V(i) for i in vi], 'vector negative')
        eq(v.dot(u)(t, *X), sum(V(i) * V(j) for i, j in zip(vi, ui)), 'dot product')
        eq(v.time_derivative(t, *X), [V(i, 0) for i in vi], 'vector time derivative')
        eq(v.divergence(t, *X), sum(V(k, i + 1) for i, k in enumerate(vi)), '%dd divergence' % n)
        eq(v.convection_by(u)(t, *X), [sum(V(ui[j]) * V(k, j + 1) for j in range(n)) for k in vi], '%dd convection' % n)
        eq(v[n - 1](t, *X), V(vi[-1]), 'component')
        if n == 2:
            eq(s.curl(t, *X), [V(0, 2), -V(0, 1)], 'curl')
            eq(v.rot(t, *X), V(3, 1) - V(2, 2), 'rot')
        else:
            eq(v.curl(t, *X), [V(4, 2) - V(3, 3), V(2, 3) - V(4, 1), V(3, 1) - V(2, 2)], 'curl')
            eq(v.cross_product(u)(t, *X), np.cross(np.array([V(i) for i in vi]), np.array([V(j) for j in ui]), axis=0), 'cross product')
        T = W.tensor(*[F[(k * 2) % len(F)] for k in range(n * n)])
        eq(T(t, *X), [V((k * 2) % len(F)) for k in range(n * n)], 'tensor')
        eq(T.time_derivative(t, *X), [V((k * 2) % len(F), 0) for k in range(n * n)], 'tensor time derivative')
        for C, args in (((C2, T2) if n == 2 else (C3, T3))[0], X), (((C2, T2) if n == 2 else (C3, T3))[1], [t] + X):
            eq(C(a['c'])()(*args) + 0 * X[0], a['c'] + 0 * X[0], 'constant function')
            c1, c2 = C(1.)(), C(2.)()
            eq(c1(*args) + 0 * X[0], 1. + 0 * X[0], 'constant function')
        g = (lambda x, y: x - 2 * y) if n == 2 else (lambda x, y, z: x - 2 * y + z * z)
        h = (lambda x, y: x * y) if n == 2 else (lambda x, y, z: x * y * z)
        S, O = (S2, O2) if n == 2 else (S3, O3)
        k = S(a['c'])
        f1 = k(g)
        eq(f1(*X), a['c'] * g(*X), 'scaled function')
        f2 = k(h)
        eq(f2(*X), a['c'] * h(*X), 'scaled function')
        eq(f1(*X), a['c'] * g(*X), 'a scaled function after scaling another one')
        eq(O(g)()(*X), -g(*X), 'opposite function')
