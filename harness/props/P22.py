# -*- coding: utf-8 -*-
"""P22: global matrices and vectors against the dense sums over the ranks."""
from kit import facet, ensure, close, nontrivial, tag, reject

RULE = ('case = global matrices and vectors with random splits over the ranks and a program of operations; non-trivial: at least '
        'two operations were executed on matrices with entries')
P = 'P22'
OPS = ['neg', 'mul', 'rmul', 'add', 'sub', 'T', 'matmul', 'matmul', 'vec', 'vec', 'claim', 'claim', 'gather', 'clean', 'split',
       'nonempty', 'shared', 'cond', 'vneg', 'vadd', 'vsub', 'vmul', 'vgather', 'vgather', 'lfv', 'dvgather', 'dvlfv', 'lfvop',
       'whether', 'set', 'clear', 'vclean', 'dclean']


def entries(draw, st, kmax=14):
    return [[draw(st.integers(0, 99)), draw(st.integers(0, 99)), draw(st.integers(-6, 6)) / 2., draw(st.integers(0, 11))]
            for _ in range(draw(st.integers(0, kmax)))]


def gen(draw, st):
    n = [draw(st.integers(1, 6)), draw(st.integers(1, 6))]
    if draw(st.booleans()):
        n[1] = n[0]
    c = {'n': n, 'mats': [], 'vecs': [], 'dvs': [], 'lfs': []}
    for _ in range(draw(st.integers(1, 3))):
        c['mats'].append([draw(st.integers(0, 1)), draw(st.integers(0, 1)), draw(st.sampled_from(['csr', 'csc'])),
                          draw(st.sampled_from(['any', 'any', 'row', 'column', 'master', 'last', 'dup'])), entries(draw, st)])
    for _ in range(draw(st.integers(1, 2))):
        c['vecs'].append([draw(st.integers(0, 1)), draw(st.sampled_from(['any', 'dup', 'master', 'last', 'array1', 'array2', 'none', 'csr'])),
                          entries(draw, st, 8)])
        c['dvs'].append([draw(st.integers(0, 1)), draw(st.sampled_from(['any', 'master', 'last', 'array1', 'array2', 'csr'])),
                         entries(draw, st, 8)])
        c['lfs'].append([draw(st.integers(0, 1)), draw(st.sampled_from(['array', 'csc', 'int'])), entries(draw, st, 8)])
    c['ops'] = [[draw(st.sampled_from(OPS)), draw(st.integers(0, 99)), draw(st.integers(0, 99)), draw(st.integers(-8, 8)) / 4.,
                 draw(st.integers(0, 11))] for _ in range(draw(st.integers(2, 9)))]
    return c


def pick_owner(pattern, r, c, o, size):
    if pattern == 'row':
        return (r * 7 + r // 3) % size
    if pattern == 'column':
        return (c * 5 + 1) % size
    if pattern == 'master':
        return 0
    if pattern == 'last':
        return size - 1
    return o % size


def build(ent, shape, fmt, pattern, rank, size):
    """-> (local scipy matrix, dense sum)"""
    import numpy as np
    from scipy import sparse as sp
    D = np.zeros(shape)
    loc = {}
    dup = []
    for r, c, v, o in ent:
        r, c = r % shape[0], c % shape[1]
        w = pick_owner(pattern, r, c, o, size)
        D[r, c] += v
        if w == rank:
            if pattern == 'dup':
                dup.append((r, c, v))
            else:
                loc[(r, c)] = loc.get((r, c), 0.) + v
    items = dup if pattern == 'dup' else [(r, c, v) for (r, c), v in loc.items()]
    # direct construction so that duplicates and order are kept
    k = 0 if fmt == 'csr' else 1
    ptr, ind, dat = [0], [], []
    for a in range(shape[k]):
        for it in items:
            if it[k] == a:
                ind.append(it[1 - k])
                dat.append(it[2])
        ptr.append(len(ind))
    cls = sp.csr_matrix if fmt == 'csr' else sp.csc_matrix
    M = cls((np.array(dat, dtype=float), np.array(ind, dtype=int), np.array(ptr)), shape=shape)
    if pattern != 'dup':
        M.sort_indices()
    return M, D


def build_dv(ent, n, pattern, rank, size):
    seen = set()
    out = []
    for r, c, v, o in ent:
        r %= n
        if r not in seen:
            seen.add(r)
            out.append([r, 0, v, o])
    return build(out, (n, 1), 'csc', 'any' if pattern not in ('master', 'last') else pattern, rank, size)


def gsum(M):
    from root.config.main import COMM
    return sum(COMM.allgather(M.toarray()))


@facet(P, 'program', gen, np={1: 1, 2: 2, 3: 2, 4: 1}, quick={1: 60, 2: 80, 3: 80, 4: 60}, cost=0.03)
def program(case):
    """programs of operations on global matrices and vectors of any split against dense numpy"""
    import numpy as np
    from root.config.main import COMM, RANK, SIZE, MASTER_RANK
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix
    from tools.miLinearAlgebra.dataStructures.vectors.GLOBAL.main import GlobalVector
    from tools.miLinearAlgebra.dataStructures.vectors.distributed.main import DistributedVector
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    n = case['n']
    Ms, Vs, Ds, Ls = [], [], [], []
    for a, b, fmt, pat, ent in case['mats']:
        M, D = build(ent, (n[a], n[b]), fmt, pat, RANK, SIZE)
        Ms.append([GlobalMatrix(M), D])
    for a, how, ent in case['vecs']:
        if how == 'none':
            M, D = build(ent, (n[a], 1), 'csc', 'master', RANK, SIZE)
            if RANK != MASTER_RANK:
                M = None
        else:
            M, D = build(ent, (n[a], 1), 'csr' if how == 'csr' else 'csc', how if how in ('dup', 'master', 'last') else 'any', RANK, SIZE)
            if how == 'array1':
                M = M.toarray()[:, 0]
            elif how == 'array2':
                M = M.toarray()
        Vs.append([GlobalVector(M), D])
    for a, how, ent in case['dvs']:
        M, D = build_dv(ent, n[a], how, RANK, SIZE)
        if how == 'array1':
            M = M.toarray()[:, 0]
        elif how == 'array2':
            M = M.toarray()
        elif how == 'csr':
            M = M.tocsr()
        Ds.append([DistributedVector(M), D])
    for a, how, ent in case['lfs']:
        M, D = build(ent, (n[a], 1), 'csc', 'any', 0, 1)
        if how == 'int':
            D = D * 0
            Ls.append([LocallyFullVector(n[a]), D])
        else:
            Ls.append([LocallyFullVector(M if how == 'csc' else M.toarray()[:, 0]), D])

    def ckM(x, msg):
        ensure(tuple(x[0].shape) == x[1].shape, '%s: shape %s' % (msg, x[0].shape))
        close(gsum(x[0].M), x[1], msg, rtol=0, atol=1e-9)

    def ckV(x, msg):
        if x[0].V is None:
            return
        ensure(len(x[0]) == len(x[1]) and tuple(x[0].shape) == x[1].shape, '%s: shape' % msg)
        close(gsum(x[0].V), x[1], msg, rtol=0, atol=1e-9)

    def pattern(X):
        """which rows / columns store entries on more than one rank"""
        M = X.M.tocoo()
        out = []
        for ax, N in ((M.row, X.shape[0]), (M.col, X.shape[1])):
            f = np.zeros(N, dtype=int)
            f[ax] = 1
            out.append(sum(COMM.allgather(f)))
        return out

    done = 0
    for op, i, j, s, k in case['ops']:
        A = Ms[i % len(Ms)]
        B = Ms[j % len(Ms)]
        v, w = Vs[i % len(Vs)], Vs[j % len(Vs)]
        d, l, m = Ds[i % len(Ds)], Ls[i % len(Ls)], Ls[j % len(Ls)]
        did = True
        new = None
        if op == 'neg':
            new = [-A[0], -A[1]]
        elif op == 'mul':
            new = [A[0] * s, A[1] * s]
        elif op == 'rmul':
            new = [int(4 * s) * A[0], A[1] * int(4 * s)]
        elif op in ('add', 'sub'):
            if A[1].shape != B[1].shape:
                did = False
            else:
                new = [A[0] + B[0], A[1] + B[1]] if op == 'add' else [A[0] - B[0], A[1] - B[1]]
        elif op == 'T':
            new = [A[0].T, A[1].T]
        elif op == 'matmul':
            if A[1].shape[1] != B[1].shape[0]:
                did = False
            elif not (A[0].whether.regularly_distributed or B[0].whether.regularly_distributed or
                      (A[0].whether.master_dominating and B[0].whether.master_dominating)):
                did = False
            else:
                new = [A[0] @ B[0], A[1] @ B[1]]
        elif op == 'vec':
            x = (v, d, l)[k % 3]
            if len(x[1]) != A[1].shape[1] or A[0].mtype not in ('csr', 'csc') or x[0].V is None:
                did = False
            else:
                nv = [A[0] @ x[0], A[1] @ x[1]]
                ensure(nv[0].__class__ is GlobalVector, 'matrix @ vector is a global vector')
                ckV(nv, 'matrix @ %s' % x[0].__class__.__name__)
                Vs.append(nv)
        elif op == 'claim':
            A[0].do.claim_distribution_pattern()
            got = COMM.allgather(A[0].whether.regularly_distributed)
            types = COMM.allgather(A[0].mtype)
            r, c = pattern(A[0])
            if set(types) == {'csr'}:
                exp = 'row' if np.all(r < 2) else False
            elif set(types) == {'csc'}:
                exp = 'column' if np.all(c < 2) else False
            else:
                ensure(set(types) == {'lil'}, 'types of the local matrices are %s' % types)
                exp = False
            ensure(all(g == exp for g in got), 'distribution pattern claimed %s, it is %s' % (got, exp))
        elif op == 'gather':
            core = k % SIZE
            G = A[0].do.gather_M_to_core(core)
            if RANK == core:
                close(G, A[1], 'matrix gathered to rank %d' % core, rtol=0, atol=1e-9)
            else:
                ensure(G.shape == A[1].shape and (G.nnz == 0 or not np.any(G.toarray())), 'gathering leaves entries elsewhere')
        elif op in ('clean', 'split'):
            if A[0].mtype not in ('csr', 'csc'):
                did = False
            else:
                core = k % SIZE if op == 'clean' else MASTER_RANK
                kw = {} if op == 'clean' else {'splitting_factor': 1 + j % 5}
                G = A[0].do.gather_M_to_core(core, clean_local=True, **kw)
                exp = A[1] if RANK == core else A[1] * 0
                close(G, exp, 'matrix gathered to rank %d and cleaned elsewhere' % core, rtol=0, atol=1e-9)
                close(A[0].M, exp, 'local matrix after gathering to rank %d' % core, rtol=0, atol=1e-9)
                A[0].whether.regularly_distributed  # must still be accessible
        elif op == 'nonempty':
            if A[0].mtype not in ('csr', 'csc'):
                did = False
            else:
                M = A[0].M.tocoo()
                ensure([int(_) for _ in A[0].nonempty_columns] == sorted(set(int(_) for _ in M.col)), 'nonempty columns of a ' + A[0].mtype)
                ensure([int(_) for _ in A[0].nonempty_rows] == sorted(set(int(_) for _ in M.row)), 'nonempty rows of a ' + A[0].mtype)
        elif op == 'shared':
            if A[0].mtype not in ('csr', 'csc'):
                did = False
            else:
                r, _ = pattern(A[0])
                here = np.zeros(A[0].shape[0], dtype=bool)
                here[A[0].M.tocoo().row] = True
                ensure(np.array_equal(np.asarray(A[0].shared_rows), here & (r > 1)), 'shared rows of a ' + A[0].mtype)
        elif op == 'cond':
            M = A[1]
            stored = sum(np.array(COMM.allgather(A[0].M.toarray() != 0), dtype=int))
            if A[0].mtype in ('csr', 'csc') and np.array_equal(stored > 0, M != 0) and \
                    A[0].GLOBAL_approx_nnz == sum(COMM.allgather(int(np.count_nonzero(A[0].M.toarray())))):
                close(A[0].condition.sparsity, np.count_nonzero(M) / float(M.size), 'sparsity', rtol=0, atol=1e-12)
            if M.shape[0] == M.shape[1]:
                sv = np.linalg.svd(M, compute_uv=False)
                if sv[-1] > 1e-6 * sv[0] > 0:
                    close(A[0].condition.condition_number, sv[0] / sv[-1], 'condition number', rtol=1e-6)
                ev, U = A[0].condition.eig
                res = M @ U - U * ev
                ensure(np.max(np.abs(res)) < 1e-7 * (1 + np.max(np.abs(M))) and abs(np.sum(ev) - np.trace(M)) < 1e-6 * (1 + abs(M).sum()),
                       'eigenvalues and vectors')
        elif op in ('vneg', 'vadd', 'vsub', 'vmul'):
            if v[0].V is None or w[0].V is None or v[1].shape != w[1].shape:
                did = False
            else:
                nv = {'vneg': lambda: [-v[0], -v[1]], 'vadd': lambda: [v[0] + w[0], v[1] + w[1]],
                      'vsub': lambda: [v[0] - w[0], v[1] - w[1]],
                      'vmul': lambda: [v[0] * s, v[1] * s] if k % 2 else [s * v[0], v[1] * s]}[op]()
                ensure(nv[0].__class__ is GlobalVector, op)
                ckV(nv, op)
                Vs.append(nv)
        elif op in ('vgather', 'dvgather', 'vclean', 'dclean'):
            x = v if op[0] == 'v' else d
            if x[0].V is None:
                did = False
            else:
                core = k % SIZE
                G = x[0].do.gather_V_to_core(core, clean_local=op in ('vclean', 'dclean'))
                if RANK == core:
                    ensure(G is not None and G.shape == (len(x[1]),), 'gathered vector')
                    close(G, x[1][:, 0], '%s gathered to rank %d' % (x[0].__class__.__name__, core), rtol=0, atol=1e-9)
                elif op[0] == 'v' and core != RANK:
                    pass
                if op == 'dclean' or op == 'vclean':
                    (Vs if op[0] == 'v' else Ds)[i % len(Vs if op[0] == 'v' else Ds)][0] = \
                        x[0].__class__(G if RANK == core else np.zeros(len(x[1])))
        elif op in ('lfv', 'dvlfv'):
            x = v if op == 'lfv' else d
            if x[0].V is None:
                did = False
            else:
                L = LocallyFullVector(x[0])
                ensure(len(L) == len(x[1]) and L.shape == (len(x[1]),), 'shape of the locally full vector')
                close(L.V, x[1][:, 0], 'locally full vector of a %s' % x[0].__class__.__name__, rtol=0, atol=1e-9)
                close(L.vector_norm, np.linalg.norm(x[1]), 'norm', rtol=1e-10)
                Ls.append([L, x[1]])
        elif op == 'lfvop':
            if l[1].shape != m[1].shape:
                did = False
            else:
                nl = [l[0] - m[0], l[1] - m[1]] if k % 2 else [l[0] + m[0], l[1] + m[1]]
                close(nl[0].V, nl[1][:, 0], 'locally full vector arithmetic', rtol=0, atol=1e-9)
                close(nl[0].vector_norm, np.linalg.norm(nl[1]), 'norm', rtol=1e-10)
                Ls.append(nl)
        elif op == 'whether':
            nz = COMM.allgather(int(A[0].nnz))
            ensure(A[0].whether.globally_empty == (sum(nz) == 0), 'globally empty')
            ensure(A[0].whether.master_dominating == (sum(nz) == nz[MASTER_RANK]), 'master dominating')
            ensure(A[0].whether.square == (A[1].shape[0] == A[1].shape[1]), 'square')
            ensure(A[0].GLOBAL_approx_nnz == sum(nz), 'number of stored entries')
            for x in (v, d):
                if x[0].V is not None:
                    nz = COMM.allgather(int(x[0].nnz))
                    ensure(x[0].whether.globally_empty == (sum(nz) == 0), 'globally empty')
                    ensure(x[0].whether.master_dominating == (sum(nz) == nz[MASTER_RANK]), 'master dominating')
        elif op in ('set', 'clear'):
            if A[0].whether.regularly_distributed:
                did = False
            else:
                r, c = j % A[1].shape[0], k % A[1].shape[1]
                N = [GlobalMatrix(A[0].M.copy()), A[1].copy()]
                if op == 'set':
                    N[0].adjust.___PRIVATE_set_value___(r, c, s)
                    N[1][r, c] = s
                else:
                    N[0].adjust.___PRIVATE_clear_row___(r)
                    N[1][r] = 0
                new = N
        if new is not None:
            ensure(new[0].__class__ is GlobalMatrix, 'result of ' + op)
            ckM(new, 'result of %s' % op)
            if len(Ms) < 8:
                Ms.append(new)
        if did:
            done += 1
            tag(op)
    for x in Ms:
        ckM(x, 'a matrix at the end of the program')
    for x in Vs + Ds:
        ckV(x, 'a vector at the end of the program')
    for x in Ls:
        close(x[0].V, x[1][:, 0], 'a locally full vector at the end of the program', rtol=0, atol=1e-9)
    nontrivial(done > 1 and any(len(m[4]) for m in case['mats']))
