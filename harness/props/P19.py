# -*- coding: utf-8 -*-
"""P19: gathering matrices, chains of them, assembly and distribution."""
from kit import facet, ensure, close, nontrivial, tag, reject
import gens
import tri

RULE = ('case = gathering matrices (synthetic ones over random distributions of elements, or those of forms), a chaining, local '
        'data and queries; non-trivial: at least two elements share a dof or at least two gathering matrices are chained')
P = 'P19'


def gs(draw, st):
    nE = draw(st.integers(1, 8))
    gms = []
    for i in range(draw(st.integers(1, 3))):
        n = draw(st.integers(1, 4))
        gms.append([n, draw(st.integers(n, n + 3 * nE)), draw(st.booleans())])
    return {'nE': nE, 'own': [draw(st.integers(0, 5)) for _ in range(nE)], 'gms': gms, 'seed': draw(st.integers(0, 999)),
            'irr': draw(st.integers(0, 4)) == 0, 'seq': draw(st.booleans()),
            'rows': [draw(st.integers(0, 2)) for _ in range(draw(st.integers(1, 3)))],
            'cols': [draw(st.integers(0, 2)) for _ in range(draw(st.integers(1, 3)))],
            'fmt': draw(st.sampled_from(['csc', 'csr'])), 'lock': draw(st.sampled_from(['no', 'sparsity', 'matrix'])),
            'nest': draw(st.booleans())}


def synth(case, first_seen):
    """-> list of (dict of all gathering rows) per gathering matrix, elements of this rank, class of gathering matrices"""
    import random
    from root.config.main import RANK, SIZE
    rnd = random.Random(case['seed'])
    nE = case['nE']
    own = [o % SIZE for o in case['own']]
    out = []
    for n, N, _ in case['gms']:
        rows = {}
        for e in range(nE):
            k = rnd.randint(1, n) if case['irr'] else n
            rows[e] = rnd.sample(range(N), k)
        used = sorted(set(d for r in rows.values() for d in r))
        if first_seen:
            ren = {}
            for r in range(SIZE):
                for e in range(nE):
                    if own[e] == r:
                        for d in rows[e]:
                            ren.setdefault(d, len(ren))
        else:
            perm = list(range(len(used)))
            rnd.shuffle(perm)
            ren = dict(zip(used, perm))
        out.append(dict((e, [ren[d] for d in rows[e]]) for e in rows))
    return out, [e for e in range(nE) if own[e] == RANK]


def lib_gm(rows, mine, irr):
    import numpy as np
    from tools.elementwiseCache.gathering.vector import Gathering_Vector
    from tools.elementwiseCache.gathering.regular.matrix.main import Gathering_Matrix
    from tools.elementwiseCache.gathering.irregular.ir_matrix.main import iR_Gathering_Matrix

    def gv(e):
        r = rows[e]
        if r == list(range(r[0], r[0] + len(r))):
            return Gathering_Vector(e, range(r[0], r[0] + len(r)))
        return Gathering_Vector(e, np.array(r) if e % 2 else list(r))
    return (iR_Gathering_Matrix if irr else Gathering_Matrix)(dict((e, gv(e)) for e in mine))


def ck_numbering(cgm, parts, tots, mine, seq, msg):
    """parts: list of e -> local array of the original numbering. Returns e -> expected chained numbering"""
    import numpy as np
    import topo
    tot = sum(tots)
    ensure(int(cgm.global_num_dofs) == tot, '%s: global_num_dofs %r instead of %d' % (msg, cgm.global_num_dofs, tot))
    ensure(len(cgm) == len(mine) and sorted(cgm) == sorted(mine) and all(e in cgm for e in mine), '%s: elements' % msg)
    ensure(cgm.num_GMs == len(parts), '%s: num_GMs' % msg)
    off = np.concatenate([[0], np.cumsum(tots)]).astype(int)
    num = {}
    maps = {}
    for e in mine:
        v = np.asarray(cgm[e])
        exp = np.concatenate([np.asarray(p(e), dtype=int) + off[j] for j, p in enumerate(parts)])
        ensure(v.shape == exp.shape, '%s: length of the row of element %d' % (msg, e))
        if not seq:
            ensure(np.array_equal(v, exp), '%s: row of element %d is %r instead of %r' % (msg, e, list(v), list(exp)))
        for a, b in zip(exp, v):
            maps.setdefault(int(a), set()).add(int(b))
        num[int(e)] = [int(_) for _ in v]
    if seq:
        al = {}
        from root.config.main import COMM
        for m in COMM.allgather(maps):
            for a in m:
                al.setdefault(a, set()).update(m[a])
        bad = [(a, sorted(al[a])) for a in al if len(al[a]) != 1]
        ensure(not bad, '%s: dofs with several sequent numbers: %r' % (msg, bad[:4]))
        im = sorted(list(s)[0] for s in al.values())
        ensure(im == list(range(tot)), '%s: sequent numbering is not a bijection (%d dofs): %r' % (msg, tot, im[:30]))
    return num


def ck_find(cgm, num, dofs, msg, seq, N=None):
    F = cgm.do.find
    tot = int(cgm.global_num_dofs)
    many = F.elements_and_local_indices_of_dofs(list(dofs))
    for d in dofs:
        exp = sorted((e, num[e].index(d)) for e in num if d in num[e])
        for q in (d, d - tot):
            got = F.elements_and_local_indices_of_dof(q)
            if not exp:
                ensure(got is None, '%s: dof %d found in %r but is not local' % (msg, q, got))
            else:
                ensure(got is not None, '%s: dof %d not found, it is in %r' % (msg, q, exp))
                ensure(sorted(zip([int(_) for _ in got[0]], [int(_) for _ in got[1]])) == exp,
                       '%s: dof %d found in %r instead of %r' % (msg, q, got, exp))
            if not seq:
                got = F.elements_contain_dof_numbered(q)
                ensure((got is None) == (not exp), '%s: elements_contain_dof_numbered(%d)' % (msg, q))
                if exp:
                    ensure(sorted(got[0]) == [e for e, _ in exp], '%s: elements_contain_dof_numbered(%d) gave %r' % (msg, q, got))
        ensure(sorted(zip([int(_) for _ in many[0][d]], [int(_) for _ in many[1][d]])) == exp,
               '%s: elements_and_local_indices_of_dofs: dof %d' % (msg, d))


def scatter(num_r, num_c, tr, tc, loc):
    """dense sum over all ranks"""
    import numpy as np
    from root.config.main import COMM
    A = np.zeros((tr, tc))
    for e in num_r:
        for i, r in enumerate(num_r[e]):
            for j, c in enumerate(num_c[e]):
                A[r, c] += loc[e][i, j]
    return sum(COMM.allgather(A))


def dense(X):
    from root.config.main import COMM
    return sum(COMM.allgather(X.toarray()))


@facet(P, 'synthetic', gs, np={1: 1, 2: 1, 3: 1}, quick={1: 90, 2: 50, 3: 60}, cost=0.03)
def synthetic(case):
    """random gathering matrices: chains, finders, ranges, assembly with and without locks"""
    import numpy as np
    from scipy import sparse as sp
    import fm
    from tools.elementwiseCache.gathering.chain import GatheringMatrixChaining
    from tools.elementwiseCache.gathering.regular.chain_matrix.main import Chain_Gathering_Matrix
    from tools.elementwiseCache.gathering.irregular.ir_chain_matrix.main import iR_Chain_Gathering_Matrix
    from tools.elementwiseCache.dataStructures.objects.sparseMatrix.main import EWC_SparseMatrix
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
    irr = case['irr']
    seq = case['seq'] and not irr
    rows, mine = synth(case, seq)
    G = [lib_gm(r, mine, irr) for r in rows]
    nontrivial(case['nE'] > 1 or len(G) > 1)
    tag('irregular' if irr else ('sequent' if seq else 'silly'))
    cm = 'sequent' if seq else 'silly'
    tots = [1 + max(d for r in R.values() for d in r) for R in rows]
    for g, R, t in zip(G, rows, tots):
        ensure(int(g.global_num_dofs) == t, 'global_num_dofs of a gathering matrix')
        ensure(int(g.global_len) == case['nE'] and len(g) == len(mine), 'lengths of a gathering matrix')
        own = set(d for e in mine for d in R[e])
        if not irr:
            ensure(set(int(_) for _ in g.local_dofs) == own, 'local_dofs')
            ensure(tuple(g.global_shape) == (case['nE'], len(R[0])), 'global_shape')
        if mine:
            ensure(tuple(int(_) for _ in g.local_range) == (min(own), max(own) + 1), 'local_range')
        for d in range(t):
            got = g.do.find.elements_and_local_indices_of_dof(d)
            exp = [(e, R[e].index(d)) for e in mine if d in R[e]]
            ensure((got is None and not exp) or (got is not None and sorted(zip(*got)) == sorted(exp)), 'find in a gathering matrix')
        g2 = lib_gm(R, mine, irr)
        ensure(bool(g2 == g) and bool(g == g), 'equal gathering matrices')
        R3 = dict((e, list(R[e])) for e in R)
        e0 = case['seed'] % case['nE']
        if len(R3[e0]) > 1:
            R3[e0] = R3[e0][::-1]
            ensure(not (lib_gm(R3, mine, irr) == g), 'different gathering matrices are equal')
    K = iR_Chain_Gathering_Matrix if irr else Chain_Gathering_Matrix

    def mk(idx, i):
        idx = [_ % len(G) for _ in idx]
        L = [G[_] for _ in idx]
        if i == 0 and case['nest'] and not seq and len(L) > 1:
            c = K([K(L[:-1]), L[-1]])
            if len(L) > 2:
                c2 = K(K(L))
                ensure(bool(c2 == c), 'nested chain and flat chain differ')
        elif i == 0 and case['nest']:
            c = K(L, chain_method=cm)
        else:
            c = GatheringMatrixChaining(*L)(chain_method=cm)
        isq = seq and len(L) > 1
        num = ck_numbering(c, [lambda e, R=rows[_]: R[e] for _ in idx], [tots[_] for _ in idx], mine, isq,
                           'chain of %r' % (idx,))
        T = int(c.global_num_dofs)
        ck_find(c, num, range(T), 'chain of %r' % (idx,), c.chain_method == 'sequent')
        return c, num, T
    cr, nr, tr = mk(case['rows'], 0)
    cc, nc, tc = mk(case['cols'], 1)
    rnd = np.random.RandomState(case['seed'])
    clock = [0]

    def loc(e):
        s = fm.hval(np.arange(len(nr[e]) * len(nc[e])), e, case['seed']).reshape((len(nr[e]), len(nc[e])))
        mask = s > -0.4
        return np.where(mask, np.round(8 * s) / 8. + (1 + clock[0]) * 2., 0.)

    def local(e):
        a = loc(e)
        return sp.csr_matrix(a) if (e + case['seed']) % 2 else sp.csc_matrix(a)
    E = dict((e, object()) for e in mine)
    A = EWC_SparseMatrix(E, local, 'no_cache')
    A.assembler.chain_method = cm
    if cr.chain_method == cm and cc.chain_method == cm:
        A.gathering_matrices = (cr, cc)
    else:
        A.gathering_matrices = ([G[_ % len(G)] for _ in case['rows']], [G[_ % len(G)] for _ in case['cols']])
        if seq and len(case['rows']) > 1:
            for e in mine:
                ensure(list(A.gathering_matrices[0][e]) == nr[e], 'equal chains are numbered differently')
    A.assembler.format = case['fmt']
    if case['lock'] == 'sparsity':
        A.do.lock_sparsity()
    if case['lock'] == 'matrix':
        A.do.lock_assembled_matrix()
    first = None
    for step in range(3):
        exp = scatter(nr, nc, tr, tc, dict((e, loc(e)) for e in mine))
        M = A.assembled
        ensure(tuple(M.shape) == (tr, tc), 'shape of the assembled matrix')
        if case['lock'] == 'matrix' and first is not None:
            ensure(M is first, 'a locked assembled matrix is reassembled')
        else:
            ensure(M.mtype == case['fmt'], 'format of the assembled matrix')
            close(dense(M.M), exp, 'assembled matrix, step %d (lock %s)' % (step, case['lock']), 1e-12, 1e-12)
        if first is None:
            first = M
        clock[0] += 1
    A.do.unlock_assembled_matrix()
    A.do.unlock_sparsity()
    exp = scatter(nr, nc, tr, tc, dict((e, loc(e)) for e in mine))
    close(dense(A.assembled.M), exp, 'assembled matrix after unlocking', 1e-12, 1e-12)
    # vector
    V = EWC_ColumnVector(E, lambda e: sp.csc_matrix(loc(e)[:, :1]))
    V.assembler.chain_method = cm
    V.gathering_matrix = [G[_ % len(G)] for _ in case['rows']]
    ve = scatter(nr, dict((e, [0]) for e in nr), tr, 1, dict((e, loc(e)[:, :1]) for e in mine))
    v = V.assembled
    ensure(tuple(v.shape) == (tr, 1), 'shape of the assembled vector')
    close(dense(v.V), ve, 'assembled vector', 1e-12, 1e-12)
    # multiples and transposes keep the gathering matrices
    for B, ref, t in ((A * 2, 2 * exp, 'A*2'), (A.T, exp.T, 'A.T'), (-A, -exp, '-A'), (A / 4, exp / 4, 'A/4')):
        close(dense(B.assembled.M), ref, 'assembled ' + t, 1e-12, 1e-12)
    for B, k, t in ((V * 2, 2, 'V*2'), (-V, -1, '-V')):
        close(dense(B.assembled.V), k * ve, 'assembled ' + t, 1e-12, 1e-12)


F3 = ['0-f', '1-f', '2-f', '3-f', '0-t', '1-t', '2-t']
F2 = ['0-f-i', '1-f-i', '1-f-o', '2-f-o', '1-t-o']
FT = ['0-f-i', '1-f-i', '1-f-o', '2-f-o', '0-f-o', '2-f-i']


def gf(draw, st):
    w = draw(st.sampled_from(['3', '3', '2', '2', 't']))
    c = {'w': w, 'seed': draw(st.integers(0, 99))}
    if w == 't':
        c['t'] = tri.gen(draw, st)
        c['p'] = draw(st.integers(1, 2))
        ids = FT
    else:
        nd = int(w)
        m = gens.mesh3(draw, st, ids=['crazy', 'cuboid', 'crazy_periodic', 'bridge_arch_cracked'], nmax=3, max_elements=10) if nd == 3 \
            else gens.mesh2(draw, st, nmax=3, max_elements=16)
        c['m'] = gens.min2_periodic(m)
        c['sp'] = gens.space(draw, st, nd, 2, nd + 2)
        c['edm'] = draw(st.sampled_from([None, None, 'chaotic']))
        ids = F3 if nd == 3 else F2
    c['f'] = [[draw(st.sampled_from(ids)), draw(st.booleans())] for _ in range(draw(st.integers(1, 4)))]
    c['cm'] = draw(st.sampled_from(['silly', 'sequent']))
    c['via'] = draw(st.sampled_from(['method', 'cgm', 'none']))
    c['pick'] = [draw(st.integers(0, 5000)) for _ in range(6)]
    c['again'] = draw(st.booleans())
    return c


@facet(P, 'forms', gf, np={1: 1, 2: 1, 4: 1}, quick={1: 50, 2: 30, 4: 20}, cost=0.15)
def forms(case):
    """chains of the gathering matrices of forms; global vectors are distributed to the forms and collected again"""
    import numpy as np
    import fm
    from root.config.main import RANK
    from scipy.sparse import csc_matrix
    from tools.elementwiseCache.gathering.chain import GatheringMatrixChaining
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    from tools.miLinearAlgebra.dataStructures.vectors.distributed.main import DistributedVector
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    if case['w'] == 't':
        fc = tri.call(case['t'], case['p'])
        M = fc.mesh
    else:
        M, S, fc, nodes = fm.setup(case)
    hyb = {'t': [False], '2': [False, True], '3': [False, True]}[case['w']]
    fs = []
    for i, h in case['f']:
        if '-t' in i:
            fs.append(fc(i, hybrid=True) if case['w'] == '3' else fc(i))
        elif case['w'] == 't':
            fs.append(fc(i))
        else:
            fs.append(fc(i, hybrid=h))
    nontrivial(len(fs) > 1 or case['w'] == 't' or M.elements.global_num > 1)
    tag('%s %s %d forms' % (case['w'], case['cm'], len(fs)))
    mine = [int(e) for e in M.elements]
    gat = [f.numbering.gathering for f in fs]
    loc = [dict((e, np.array([int(_) for _ in g[e]], dtype=int)) for e in mine) for g in gat]
    tots = [f.num.GLOBAL_dofs if case['w'] == 't' else f.num.global_dofs for f in fs]
    for _ in range(2 if case['again'] else 1):
        cgm = GatheringMatrixChaining(*fs)(chain_method=case['cm'])
        seq = case['cm'] == 'sequent' and len(fs) > 1
        num = ck_numbering(cgm, [lambda e, L=L: L[e] for L in loc], tots, mine, seq, 'chain')
        tot = sum(tots)
        ck_find(cgm, num, sorted(set(p % tot for p in case['pick'])), 'chain', seq)
        if case['again']:   # other chains in between
            for k in range(len(fs)):
                GatheringMatrixChaining(fs[k], fs[0])(chain_method=case['cm'])
    # distribute
    v = fm.hval(np.arange(tot), 3, case['seed'])
    lfv = LocallyFullVector(np.array(v))
    ensure(tuple(lfv.shape) == (tot,) and len(lfv) == tot, 'shape of a locally full vector')
    if case['via'] == 'cgm':
        lfv.do.distributed_to(*fs, chain_method=cgm)
    elif case['via'] == 'none' and case['cm'] == 'silly':
        k = case['seed'] % len(fs)
        args = list(fs)
        if len(fs) > 1:
            fs[k].cochain.local = dict((e, v[np.array(num[e])[sum(len(L[e]) for L in loc[:k]):][:len(loc[k][e])]]) for e in mine)
            args[k] = None
        lfv.do.distributed_to(*args)
    else:
        lfv.do.distributed_to(*fs, chain_method=case['cm'])
    for e in mine:
        s = 0
        for k, f in enumerate(fs):
            n = len(loc[k][e])
            close(np.asarray(f.cochain.local[e]).ravel(), v[np.array(num[e][s:s + n], dtype=int)],
                  'cochain of form %d in element %d after distribution' % (k, e), 1e-14, 1e-14)
            s += n
    # collect
    back = LocallyFullVector(fs, chain_method=case['cm'])
    close(back.V, v, 'locally full vector collected from the forms (%s)' % case['cm'], 1e-13, 1e-13)
    # assembled concatenation = multiplicity x value
    mult = np.zeros(tot)
    for e in mine:
        for d in num[e]:
            mult[d] += 1
    mult = fm.allsum(mult)
    X = concatenate([f.cochain.EWC for f in fs])
    X.assembler.chain_method = case['cm']
    X.gathering_matrix = fs
    g = X.assembled
    close(dense(g.V).ravel(), v * mult, 'assembled cochains', 1e-12, 1e-12)
    lg = LocallyFullVector(g)
    close(lg.V, v * mult, 'locally full vector of a global vector', 1e-12, 1e-12)
    if case['cm'] == 'silly':
        from root.config.main import SIZE
        w = fm.hval(np.arange(tot), 5, case['seed'])
        I = (np.arange(tot) * 7 + case['seed']) % SIZE == RANK
        dv = DistributedVector(csc_matrix(np.where(I, w, 0.)[:, None]))
        dv.do.distributed_to(*fs)
        for e in mine:
            s = 0
            for k, f in enumerate(fs):
                n = len(loc[k][e])
                close(np.asarray(f.cochain.local[e]).ravel(), w[np.array(num[e][s:s + n], dtype=int)],
                      'cochain of form %d in element %d after distribution of a distributed vector' % (k, e), 1e-14, 1e-14)
                s += n


def gl(draw, st):
    n = draw(st.integers(1, 5))
    return {'n': n, 'seed': draw(st.integers(0, 999)), 'keys': draw(st.sampled_from(['list', 'int', 'str'])),
            'N': [draw(st.integers(1, 7)), draw(st.integers(1, 7))], 'dup': draw(st.integers(0, 3)) == 0,
            'fmt': draw(st.sampled_from(['array', 'csr', 'csc'])), 'tup': draw(st.booleans())}


@facet(P, 'local', gl, np={1: 1}, quick={1: 250}, cost=0.004)
def local(case):
    """local assemblers and distributors"""
    import random
    import numpy as np
    from components.assemblers import VectorAssembler, MatrixAssembler
    from components.distributors import VectorDistributor
    rnd = random.Random(case['seed'])
    n = case['n']
    keys = {'list': list(range(n)), 'int': [3 * i + 1 for i in range(n)], 'str': ['k%d' % i for i in range(n)]}[case['keys']]
    G = []
    for N in case['N']:
        rows = []
        for i in range(n):
            k = rnd.randint(1, N)
            rows.append([rnd.randrange(N) for _ in range(k)] if case['dup'] else rnd.sample(range(N), k))
        used = sorted(set(d for r in rows for d in r))
        ren = dict((d, i) for i, d in enumerate(used))
        G.append([[ren[d] for d in r] for r in rows])
    nontrivial(n > 1)
    tag('%s %s dup=%s' % (case['keys'], case['fmt'], case['dup']))
    tot = [1 + max(d for r in g for d in r) for g in G]

    def wrap(L, arr=True):
        L = [np.array(x) if arr and (i + case['seed']) % 2 else x for i, x in enumerate(L)]
        if case['keys'] == 'list':
            return tuple(L) if case['tup'] else L
        return dict(zip(keys, L))
    V = [[rnd.randint(-8, 8) / 4. for _ in r] for r in G[0]]
    add = np.zeros(tot[0])
    rep = np.zeros(tot[0])
    for r, v in zip(G[0], V):
        for d, x in zip(r, v):
            add[d] += x
            rep[d] = x
    A = VectorAssembler(wrap(G[0]))
    close(A(wrap(V), 'add'), add, 'vector assembly (add)', 1e-13, 1e-13)
    close(A(wrap(V), 'replace'), rep, 'vector assembly (replace)', 1e-13, 1e-13)
    I = A(wrap([[1] * len(r) for r in G[0]]), 'add', dtype=int)
    ensure(I.dtype == int and int(I.sum()) == sum(len(r) for r in G[0]), 'counts')
    D = VectorDistributor(wrap(G[0], False))
    w = np.arange(tot[0]) * 1.5 - 2
    o = D(w)
    ensure(isinstance(o, dict) == (case['keys'] != 'list') and len(o) == n, 'container of distributed data')
    for i, k in enumerate(keys):
        close(o[k], w[G[0][i]], 'distributed data', 1e-14, 1e-14)
    M = [np.array([[rnd.randint(-8, 8) / 4. for _ in c] for _ in r]) for r, c in zip(G[0], G[1])]
    add = np.zeros(tot)
    rep = np.zeros(tot)
    for r, c, m in zip(G[0], G[1], M):
        for i, d in enumerate(r):
            for j, b in enumerate(c):
                add[d, b] += m[i, j]
                rep[d, b] = m[i, j]
    B = MatrixAssembler(wrap(G[0]), wrap(G[1]))
    for mode, ref in (('add', add), ('replace', rep)):
        X = B(wrap(M, False), mode, format=case['fmt'])
        if case['fmt'] != 'array':
            ensure(X.__class__.__name__ == case['fmt'] + '_matrix', 'format of the assembled matrix')
            X = X.toarray()
        ensure(tuple(X.shape) == tuple(tot), 'shape of the assembled matrix %r instead of %r' % (X.shape, tuple(tot)))
        close(X, ref, 'matrix assembly (%s, %s)' % (mode, case['fmt']), 1e-13, 1e-13)
