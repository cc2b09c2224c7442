# -*- coding: utf-8 -*-
"""P28: hybrid and conforming discretizations."""
from kit import facet, ensure, close, nontrivial, tag, reject
import gens

RULE = ('case = mesh, space, degree of the form, choice of essential and natural boundaries, data; the hybrid problem with Lagrange '
        'multipliers is compared with the conforming one; non-trivial: at least two elements')
P = 'P28'


def g3(draw, st):
    k = draw(st.integers(0, 2))
    ids = ['crazy', 'cuboid', 'cuboid', 'ct', 'bridge_arch_cracked'] + (['crazy_periodic', 'cuboid_periodic'] if k == 2 else [])
    m = gens.min2_periodic(gens.mesh3(draw, st, ids=ids, nmax=3, max_elements=draw(st.sampled_from([6, 6, 12])), cmax=0.2))
    return {'m': m, 'sp': gens.space(draw, st, 3, 2, draw(st.sampled_from([3, 4, 5]))), 'edm': draw(st.sampled_from([None, None, 'chaotic'])), 'k': k,
            'ess': draw(st.integers(0, 63)), 'u': [['smooth', gens.smooth(draw, st, 3), draw(st.sampled_from([0., 1., -0.5]))] for _ in range(4)],
            't': gens.dyadic(draw, st, -1, 2, 4), 'seed': draw(st.integers(0, 99)), 'how': draw(st.sampled_from(['spd', 'mixed'])),
            'vec': draw(st.booleans()), 'solver': draw(st.sampled_from(['direct', 'schur']))}


@facet(P, 'three', g3, np={1: 2, 2: 1, 3: 1}, quick={1: 30, 2: 20, 3: 12}, cost=0.5, timeout=200)
def three(case):
    """3d hybrid_pairing of 0-, 1- and 2-forms: the solution of the hybrid system is that of the conforming one"""
    import numpy as np
    import fm
    from root.config.main import COMM
    from tools.elementwiseCache.dataStructures.objects.sparseMatrix.main import EWC_SparseMatrix
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    from tools.miLinearAlgebra.linearSystem.main import LinearSystem
    from scipy import sparse as sp
    M, S, fc, nodes = fm.setup(case)
    k = case['k']
    names = list(M.boundaries.names)
    ess = [b for i, b in enumerate(names) if (case['ess'] >> i) & 1]
    nat = [b for b in names if b not in ess]
    mixed = case['how'] == 'mixed' and k == 2
    if mixed and not nat:
        reject('pressure is not unique')
    nontrivial(M.elements.global_num > 1)
    tag('k=%d %s %d/%d' % (k, 'mixed' if mixed else 'spd', len(ess), len(nat)))
    F = [fm.wrap(fm.func(x), 3) for x in case['u']]
    f = fc('%d-f' % k, hybrid=True)
    t = fc('%d-adt' % k)
    up = fc('%d-f' % (k + 1), hybrid=True)
    fcon = fc('%d-f' % k, hybrid=False)
    if k == 0:
        f.BC.CF = fc('scalar', F[0])
        t.prime.BC.CF = fc('vector', F[1:]).flux if case['vec'] else fc('scalar', F[1])
        e = fc('0-e')
    elif k == 1:
        f.BC.CF = fc('vector', F[:3])
        t.prime.BC.CF = fc('vector', F[1:]).components.T_para
        e = fc('1-e')
    else:
        f.BC.CF = fc('vector', F[:3])
        t.prime.BC.CF = fc('vector', F[1:]) if case['vec'] else fc('scalar', F[3])
    f.BC.CF.current_time = case['t']
    t.prime.BC.CF.current_time = case['t']
    # prescribed values
    pre_n, pre_e = {}, {}
    if nat:
        t.BC.boundaries = nat
        L = t.BC.interpret.local
        d, c = L.dofs, L.cochains
        pre_n = dict((int(i), (np.array(d[i], dtype=int), np.array(c[i], dtype=float))) for i in d)
    if ess:
        f.BC.boundaries = ess
        L = f.BC.interpret.local
        d, c = L.dofs, L.cochains
        pre_e = dict((int(i), (np.array(d[i], dtype=int), np.array(c[i], dtype=float))) for i in d)
    f.BC.boundaries = ess
    t.BC.boundaries = nat
    E = f.matrices.incidence
    A = f.matrices.mass
    TT = t.matrices.trace.T
    C = None
    if k == 2:
        T, D, b2 = f.special.hybrid_pairing(t, time=case['t'])
    else:
        T, D, C, b2, eGM = f.special.hybrid_pairing(t, e, time=case['t'])
    if k < 2 and fm.allsum(float(sum(abs(C[i]).sum() for i in M.elements))) == 0.:
        reject('no edge multiplier is needed')
    nb = f.num.basis
    load = {}
    for i in M.elements:
        load[int(i)] = fm.hval(np.arange(nb), int(i), case['seed'])
    b1 = EWC_ColumnVector(M.elements, lambda i: sp.csc_matrix(load[int(i)][:, None]))
    b1.gathering_matrix = f
    b2.gathering_matrix = t
    Mp = up.matrices.mass
    src = dict((int(i), fm.hval(np.arange(up.num.basis), int(i), case['seed'] + 1)) for i in M.elements)
    if mixed:
        bs = EWC_ColumnVector(M.elements, lambda i: sp.csc_matrix(src[int(i)][:, None]))
        bs.gathering_matrix = up
        rows = [(A, E.T, TT), (E, None, None), (T, None, D)]
        gms = (f, up, t)
        rhs = [b1, bs, b2]
    else:
        A = A + E.T @ Mp @ E
        if k == 2:
            rows, gms, rhs = [(A, TT), (T, D)], (f, t), [b1, b2]
        else:
            b3 = EWC_ColumnVector(M, e)
            b3.gathering_matrix = eGM
            rows, gms, rhs = [(A, TT, None), (T, D, C), (None, C.T, None)], (f, t, eGM), [b1, b2, b3]
    # the local matrices for the reference, before the system is customized
    loc = {}
    for i in M.elements:
        a = (f.matrices.mass[i] if mixed else A[i]).toarray()
        loc[int(i)] = (a, E[i].toarray(), TT[i].toarray())
    B = bmat(rows)
    B.gathering_matrices = (gms, gms)
    r = concatenate(rhs)
    LS = LinearSystem(B, r)
    if case['solver'] == 'schur' and not mixed:
        X = LS.solve('Schur', rank=2, blocks=1)()
        ensure(X[1] == 0, 'information of the Schur solver')
        xl = dict((int(i), np.asarray(X[0][i]).ravel()[:nb]) for i in M.elements)
        pl = {}
    else:
        X = LS.solve('direct')()[0]
        X.do.distributed_to(*[q for q in gms if q in (f, up, t)])
        xl = dict((int(i), np.asarray(f.cochain.local[i])) for i in M.elements)
        pl = dict((int(i), np.asarray(up.cochain.local[i])) for i in M.elements) if mixed else {}
    # ------------------------------------------------------------ conforming reference
    G = fcon.numbering.gathering
    N = fcon.num.global_dofs
    U = up.num.global_dofs if mixed else 0
    GU = up.numbering.gathering
    part = []
    for i in M.elements:
        i = int(i)
        a, em, tt = loc[i]
        b = load[i].copy()
        if i in pre_n:
            z = np.zeros(tt.shape[1])
            z[pre_n[i][0]] = pre_n[i][1]
            b = b - tt @ z
        part.append(([int(_) for _ in G[i]], [int(_) for _ in GU[i]] if mixed else [], a, em, b, src[i],
                     [(int(G[i][int(q)]), v) for q, v in zip(*pre_e[i])] if i in pre_e else []))
    K = np.zeros((N + U, N + U))
    R = np.zeros(N + U)
    fix = {}
    for p in COMM.allgather(part):
        for g, gu, a, em, b, s, es in p:
            K[np.ix_(g, g)] += a
            R[g] += b
            if mixed:
                gu = [N + q for q in gu]
                K[np.ix_(g, gu)] += em.T
                K[np.ix_(gu, g)] += em
                R[gu] += s
            for q, v in es:
                if q in fix:
                    close(v, fix[q], 'essential value of one dof given by two elements', 1e-5, 1e-4)
                fix[q] = v
    for q, v in fix.items():
        K[q] = 0
        K[q, q] = 1.
        R[q] = v
    cond = np.linalg.cond(K)
    if not cond < 1e9:
        reject('the conforming problem is ill conditioned')
    x = np.linalg.solve(K, R)
    base = fm.tol(case['m'], 1e-8, 1e-4) if k else 1e-8
    tol = max(base, 1e-11 * cond) * max(1., float(np.max(np.abs(x))))
    for i in M.elements:
        i = int(i)
        close(xl[i], x[[int(_) for _ in G[i]]], 'hybrid solution in element %d' % i, 0, tol)
        if mixed:
            close(pl[i], x[[N + int(_) for _ in GU[i]]], 'hybrid potential in element %d' % i, 0, tol)


def g2(draw, st):
    m = gens.min2_periodic(gens.mesh2(draw, st, nmax=3, max_elements=draw(st.sampled_from([4, 8, 16]))))
    return {'m': m, 'sp': gens.space(draw, st, 2, 3, 5), 'edm': None, 'ess': draw(st.integers(0, 63)),
            'u': [['smooth', gens.smooth(draw, st, 2), draw(st.sampled_from([0., 1., -0.5]))] for _ in range(2)],
            't': gens.dyadic(draw, st, -1, 2, 4), 'seed': draw(st.integers(0, 99)), 'how': draw(st.sampled_from(['spd', 'mixed', 'mixed'])),
            'seq': draw(st.booleans()), 'val': draw(st.booleans())}


@facet(P, 'two', g2, np={1: 2, 2: 1, 3: 1, 4: 1}, quick={1: 30, 2: 25, 3: 15, 4: 8}, cost=0.25, timeout=200)
def two(case):
    """2d: outer 1-form hybridized by the 1-trace form"""
    import numpy as np
    import fm
    from root.config.main import COMM
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    from tools.miLinearAlgebra.linearSystem.main import LinearSystem
    from scipy import sparse as sp
    M, S, fc, nodes = fm.setup(case)
    names = list(M.boundaries.names)
    ess = [b for i, b in enumerate(names) if (case['ess'] >> i) & 1]
    nat = [b for b in names if b not in ess]
    mixed = case['how'] == 'mixed'
    if mixed and not nat:
        reject('pressure is not unique')
    nontrivial(M.elements.global_num > 1)
    tag('%s %d/%d' % (case['how'], len(ess), len(nat)))
    F = [fm.wrap(fm.func(x), 2) for x in case['u']]
    f, p, t = fc('1-f-o', hybrid=True), fc('2-f-o', hybrid=True), fc('1-t-o')
    fcon = fc('1-f-o', hybrid=False)
    pre = {}
    if ess:
        f.BC.CF = fc('vector', F)
        f.BC.CF.current_time = case['t']
        f.BC.boundaries = ess
        L = f.BC.interpret.local
        d, c = L.dofs, L.cochains
        pre = dict((int(i), (np.array(d[i], dtype=int), np.array(c[i], dtype=float))) for i in d)
    Mf, Mp, E, n = f.matrices.mass, p.matrices.mass, f.matrices.incidence, t.matrices.trace
    nb = f.num.basis

    def load(i):
        return fm.hval(np.arange(nb), int(i), case['seed'])

    def src(i):
        return fm.hval(np.arange(p.num.basis), int(i), case['seed'] + 1)

    def flux(i):
        z = np.zeros(nb)
        if int(i) in pre:
            z[pre[int(i)][0]] = pre[int(i)][1]
        return n[i] @ z

    def col(fun, form):
        v = EWC_ColumnVector(M.elements, lambda i: sp.csc_matrix(fun(i)[:, None]))
        v.gathering_matrix = form
        return v
    if mixed:
        B = bmat(([Mf, E.T @ Mp, -n.T], [E, None, None], [n, None, None]))
        gms, rhs = (f, p, t), [col(load, f), col(src, p), col(flux, t)]
    else:
        B = bmat(([Mf + E.T @ Mp @ E, -n.T], [n, None]))
        gms, rhs = (f, t), [col(load, f), col(flux, t)]
    if case['seq']:
        B.assembler.chain_method = 'sequent'
    B.gathering_matrices = (gms, gms)
    b = concatenate(rhs)
    if case['seq']:
        b.assembler.chain_method = 'sequent'
    b.gathering_matrix = gms
    LS = LinearSystem(B, b)
    if nat:
        t.BC.boundaries = nat
        B.customize.identify_global_rows_according_to(len(gms) - 1, t.BC.interpret)
    X = LS.solve('direct')()[0]
    if case['seq']:
        X.do.distributed_to(*gms, chain_method=b.gathering_matrix)
    else:
        X.do.distributed_to(*gms)
    G, GP = fcon.numbering.gathering, p.numbering.gathering
    N, U = fcon.num.global_dofs, p.num.global_dofs if mixed else 0
    part = []
    for i in M.elements:
        i = int(i)
        em, mp = E[i].toarray(), Mp[i].toarray()
        a = Mf[i].toarray()
        if not mixed:
            a = a + em.T @ mp @ em
        part.append(([int(_) for _ in G[i]], [N + int(_) for _ in GP[i]], a, em, mp, load(i), src(i),
                     [(int(G[i][int(q)]), v) for q, v in zip(*pre[i])] if i in pre else []))
    K = np.zeros((N + U, N + U))
    R = np.zeros(N + U)
    fix = {}
    for q in COMM.allgather(part):
        for g, gu, a, em, mp, l, s, es in q:
            K[np.ix_(g, g)] += a
            R[g] += l
            if mixed:
                K[np.ix_(g, gu)] += em.T @ mp
                K[np.ix_(gu, g)] += em
                R[gu] += s
            for x, v in es:
                fix[x] = v
    for x, v in fix.items():
        K[x] = 0
        K[x, x] = 1.
        R[x] = v
    cond = np.linalg.cond(K)
    if not cond < 1e9:
        reject('the conforming problem is ill conditioned')
    x = np.linalg.solve(K, R)
    tol = max(fm.tol(case['m'], 1e-8, 1e-4), 1e-11 * cond) * max(1., float(np.max(np.abs(x))))
    for i in M.elements:
        i = int(i)
        close(f.cochain.local[i], x[[int(_) for _ in G[i]]], 'hybrid solution in element %d' % i, 0, tol)
        if mixed:
            close(p.cochain.local[i], x[[N + int(_) for _ in GP[i]]], 'hybrid potential in element %d' % i, 0, tol)


def gx(draw, st):
    m = gens.mesh3(draw, st, ids=['crazy', 'cuboid'], nmax=2, max_elements=8, cmax=0.)
    sp = gens.space(draw, st, 3, 3, draw(st.sampled_from([5, 6, 7])))
    d = [(b[1] if b[0] == 'Lobatto' else len(b[1]) - 1) - 1 for b in sp]
    return {'m': m, 'sp': sp, 'edm': draw(st.sampled_from([None, None, 'chaotic'])), 'ess': draw(st.integers(0, 62)), 'u': gens.poly(draw, st, 3, d),
            'dual': draw(st.booleans())}


@facet(P, 'exact', gx, np={1: 1, 2: 1, 3: 1}, quick={1: 10, 2: 10, 3: 5}, cost=0.5, timeout=200)
def exact(case):
    """3d mixed Poisson problem with a solution in the spaces: reproduced, flux continuous, div u = f"""
    import numpy as np
    import fm
    import bld
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    from tools.miLinearAlgebra.linearSystem.main import LinearSystem
    M, S, fc, nodes = fm.setup(case)
    names = list(M.boundaries.names)
    ess = [b for i, b in enumerate(names) if (case['ess'] >> i) & 1]
    nat = [b for b in names if b not in ess]
    if not nat:
        reject('pressure is not unique')
    p = bld.Poly(case['u'])
    nontrivial(M.elements.global_num > 1 and any(any(q) for _, q in p.t))
    g = [p.d(i) for i in range(3)]

    def lap(t, *x):
        return -(g[0].d(0)(t, *x) + g[1].d(1)(t, *x) + g[2].d(2)(t, *x))
    pf, sf = fc('scalar', fm.wrap(p, 3)), fc('scalar', fm.wrap(lap, 3))
    uf = fc('vector', [fm.wrap(lambda t, *x, i=i: -g[i](t, *x), 3) for i in range(3)])
    u, q, t, s = fc('2-f', hybrid=True), fc('3-f', hybrid=True), fc('2-adt'), fc('3-f', hybrid=True)
    dq = fc('3-adf', q)
    for c in (pf, sf, uf):
        c.current_time = 0.
    u.BC.CF, u.BC.boundaries = uf, ess
    t.prime.BC.CF, t.BC.boundaries = pf, nat
    s.CF = sf
    s.discretize()
    T, D, b3 = u.special.hybrid_pairing(t, time=0)
    E = u.matrices.incidence
    ET = E.T if case['dual'] else E.T @ q.matrices.mass
    A = bmat(([u.matrices.mass, -ET, t.matrices.trace.T], [E, None, None], [T, None, D]))
    b1 = EWC_ColumnVector(M, u)
    b1.gathering_matrix = u
    b2 = s.cochain.EWC
    b2.gathering_matrix = q
    b3.gathering_matrix = t
    w = dq if case['dual'] else q
    A.gathering_matrices = ((u, w, t), (u, w, t))
    X = LinearSystem(A, concatenate([b1, b2, b3])).solve('direct')()[0]
    X.do.distributed_to(u, w, t)
    sc = max([1.] + [sum(abs(c) for c, _ in p.t)])
    u.CF, q.CF = uf, pf
    ensure(q.error.L() < 1e-8 * sc, 'error of the potential %r' % q.error.L())
    ensure(u.error.L() < 1e-8 * sc, 'error of the flux %r' % u.error.L())
    G = u.numbering.gathering
    for e in M.elements:
        close(E[e] @ u.cochain.local[e], s.cochain.local[e], 'conservation in element %d' % e, 0, 1e-8 * sc)
    ensure(len(G) == len(M.elements), 'gathering')
