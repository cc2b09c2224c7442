# -*- coding: utf-8 -*-
"""P23: linear solvers."""
from kit import facet, ensure, close, nontrivial, tag, reject
import gens

RULE = ('case = non-singular well-conditioned system with a random split over the ranks, solver, routine and parameters; non-trivial: '
        'at least three unknowns and a right hand side that is not zero')
P = 'P23'
SOL = [('direct', 'auto'), ('direct', '0'), ('GMRES', 'auto'), ('GMRES', '0'), ('GMRES', '0'), ('GMRES', '1'), ('GMRES', '1'),
       ('GMRES', 'sp'), ('LGMRES', 'auto'), ('LGMRES', '0'), ('LGMRES', '0'), ('LGMRES', 'sp'), ('BiCGSTAB', 'auto'), ('TFQMR', 'auto'),
       ('GCROTmk', 'auto')]


def gen(draw, st):
    n = draw(st.integers(1, 14))
    c = {'n': n, 'seed': draw(st.integers(0, 9999)), 'kind': draw(st.sampled_from(['any', 'any', 'any', 'eye', 'diag', 'few', 'sym', 'sparse', 'stag', 'stag'])),
         'split': draw(st.sampled_from(['any', 'row', 'master', 'parts'])), 'fmt': draw(st.sampled_from(['csr', 'csc'])),
         'b': draw(st.sampled_from(['any', 'any', 'any', 'zero', 'unit'])), 'x0': draw(st.sampled_from([0, 0, 'rand', 'exact', 'zero'])),
         's': list(draw(st.sampled_from(SOL))), 'pc': draw(st.sampled_from([None, None, 'id', 'tuple', 'none'])),
         'restart': draw(st.integers(3, 20)), 'k': draw(st.integers(0, 4)), 'maxiter': draw(st.integers(1, 30)),
         'forced': draw(st.integers(0, 5)) == 0, 'tol': draw(st.integers(3, 9)), 'atol': draw(st.integers(2, 9)),
         'cod': draw(st.booleans())}
    return c


def system(case):
    """dense system, deterministic: A = diagonally dominant"""
    import random
    import numpy as np
    rnd = random.Random(case['seed'])
    n, kind = case['n'], case['kind']
    d = [(rnd.random() + 0.5) * rnd.choice([1, 1, -1, 4]) for _ in range(n)]
    if kind == 'eye':
        A = np.eye(n) * 2.
    elif kind == 'diag':
        A = np.diag(d)
    elif kind == 'stag':
        # restarted Krylov methods (nearly) stagnate
        A = np.roll(np.eye(n), 1, axis=0) + 10. ** -rnd.randint(2, 5) * np.array([[rnd.random() - 0.5 for _ in range(n)] for _ in range(n)])
    else:
        R = np.array([[rnd.random() - 0.5 for _ in range(n)] for _ in range(n)])
        if kind == 'sparse':
            R *= np.array([[rnd.random() < 0.3 for _ in range(n)] for _ in range(n)])
        if kind == 'few':
            d = [2. if i % 2 else 1. for i in range(n)]
            R = np.triu(R, 1) * np.array([[1. if abs(i - j) == 1 else 0 for i in range(n)] for j in range(n)])
        if kind == 'sym':
            R = (R + R.T) / 2
            d = [abs(_) for _ in d]
        s = np.maximum(np.sum(np.abs(R), axis=1), 1e-3)
        m = np.max(s / np.abs(np.array(d)))
        A = np.diag(d) + R * (0.6 / m)
    if case['b'] == 'zero':
        b = np.zeros(n)
    elif case['b'] == 'unit':
        b = np.zeros(n)
        b[rnd.randrange(n)] = 1.
    else:
        b = np.array([4 * rnd.random() - 2 for _ in range(n)])
    return A, b, rnd


def split(A, case, rank, size):
    import random
    import numpy as np
    rnd = random.Random(case['seed'] + 1)
    L = np.zeros(A.shape)
    how = case['split']
    for i in np.ndindex(*A.shape):
        o = rnd.randrange(size)
        q = rnd.randrange(size)
        if A[i] == 0:
            continue
        if how == 'row':
            o = (i[0] * 3) % size
        elif how == 'master':
            o = 0
        if how == 'parts':
            if q == rank:
                L[i] += 1.5
            if o == rank:
                L[i] += A[i] - 1.5
        elif o == rank:
            L[i] += A[i]
    return L


@facet(P, 'regular', gen, np={1: 2, 2: 2, 3: 1, 4: 1}, quick={1: 110, 2: 110, 3: 70, 4: 40}, cost=0.02)
def regular(case):
    """every regular solver, routine and parameter: reported convergence and residual, reproduction of the solution"""
    import warnings
    import numpy as np
    from scipy import sparse as sp
    from root.config.main import COMM, RANK, SIZE
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix
    from tools.miLinearAlgebra.dataStructures.vectors.GLOBAL.main import GlobalVector
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    from tools.miLinearAlgebra.solvers.regular.allocator import RegularSolverDistributor
    from components.exceptions import LinerSystemSolverDivergenceError
    warnings.simplefilter('ignore')
    A, b, rnd = system(case)
    n = case['n']
    if case['kind'] == 'stag' and (np.linalg.cond(A) > 1e3 or case['pc'] in ('id', 'tuple')):
        reject('no diagonal or ill conditioned')
    xs = np.linalg.solve(A, b)
    AL, bL = split(A, case, RANK, SIZE), split(b, case, RANK, SIZE)
    GA = GlobalMatrix((sp.csr_matrix if case['fmt'] == 'csr' else sp.csc_matrix)(AL))
    Gb = GlobalVector(bL)
    solver, routine = case['s']
    x0 = case['x0']
    if x0 == 'rand':
        v0 = np.array([2 * rnd.random() - 1 for _ in range(n)])
    elif x0 == 'exact':
        v0 = xs.copy()
    else:
        v0 = np.zeros(n)
    X0 = 0 if x0 == 0 else LocallyFullVector(v0.copy())
    tol, atol = 10. ** -case['tol'], 10. ** -case['atol']
    mpi = solver in ('GMRES', 'LGMRES', 'BiCGSTAB') and routine != 'sp'
    nontrivial(n >= 3 and np.any(b))
    tag('%s-%s' % (solver, routine))
    kw = {'COD': case['cod']}
    pc = None
    if solver != 'direct':
        if case['pc'] in ('id', 'tuple'):
            pc = 'Jacobi' if mpi else 'spiLU'
            kw['preconditioner'] = pc if case['pc'] == 'id' else (pc, {} if mpi else {'drop_tol': 1e-6})
        elif case['pc'] == 'none':
            kw['preconditioner'] = None
        kw.update(tol=tol, atol=atol, maxiter=str(case['maxiter']) if case['forced'] and mpi else case['maxiter'])
        if solver == 'GMRES':
            kw['restart'] = case['restart']
        elif solver in ('LGMRES', 'GCROTmk'):
            kw['m'] = case['restart']
            kw['k'] = case['k'] + (1 if solver == 'GCROTmk' or routine == 'sp' else 0)
    S = RegularSolverDistributor(solver, routine=routine, name='check')
    diverged = False
    try:
        out = S(GA, Gb, **kw) if solver == 'direct' else S(GA, Gb, X0, **kw)
    except LinerSystemSolverDivergenceError:
        diverged = True
    dv = COMM.allgather(diverged)
    ensure(len(set(dv)) == 1, 'only some ranks report divergence')
    if diverged:
        ensure(solver == 'BiCGSTAB', '%s diverges for a diagonally dominant system' % solver)
        return
    x, info, beta, iters, msg = out
    ensure(x.__class__ is LocallyFullVector and x.shape == (n,), 'the result')
    allx = COMM.allgather(x.V)
    for y in allx:
        ensure(np.array_equal(y, x.V, equal_nan=True), 'the ranks have different results')
    ensure(len(set(COMM.allgather((info, iters, repr(beta))))) == 1, 'the ranks have different information')
    ensure(isinstance(msg, str), 'message')
    r = b - A @ x.V
    sc = np.linalg.norm(b) + np.linalg.norm(A) * (1 + np.linalg.norm(x.V))
    if pc == 'Jacobi':
        D = 1 / np.diag(A)
        rr, r0 = D * r, D * (b - A @ v0)
        sc = np.linalg.norm(D) * sc
    else:
        rr, r0 = r, b - A @ v0
    res = np.linalg.norm(rr)
    if routine == 'sp' and info > 0 and np.linalg.norm(r0) < 1e-12:
        return  # scipy's gmres breaks down (and says so) if it starts from the solution
    if solver == 'direct':
        close(x.V, xs, 'direct solution', rtol=1e-8, atol=1e-9)
        ensure(info == 0, 'direct solver reports info=%s' % info)
    else:
        if np.isfinite(res):
            ensure(abs(beta - res) <= 1e-6 * res + 1e-12 * sc, '%s reports residual %r, it is %r' % (solver, beta, res))
        if info == 0:
            lim = max(atol, tol * (np.linalg.norm(r0) if mpi else np.linalg.norm(b)))
            ensure(res <= lim * 1.01 + 1e-12 * sc, '%s reports convergence with residual %r, the tolerance is %r' % (solver, res, lim))
        else:
            ensure(info > 0, 'info %s' % info)
        if mpi:
            M = case['maxiter']
            if case['forced']:
                ensure(iters == M, '%d iterations for a forced number of %d' % (iters, M))
            else:
                ensure(iters <= M, '%d iterations for a maximum of %d' % (iters, M))
        ensure(np.all(np.isfinite(x.V)) or solver == 'BiCGSTAB', '%s returns non-finite values' % solver)
        if solver in ('GMRES', 'LGMRES') and case['restart'] >= n and case['maxiter'] >= 6:
            # the whole Krylov space is used
            ensure(res <= max(atol, tol * np.linalg.norm(r0), 1e-9 * sc) * 1.01,
                   '%s with a complete Krylov subspace leaves the residual %r (start %r)' % (solver, res, np.linalg.norm(r0)))
            if not case['forced'] and atol >= 1e-8:
                ensure(info == 0, '%s with a complete Krylov subspace reports info=%s' % (solver, info))
    if not case['cod']:
        close(sum(COMM.allgather(GA.M.toarray())), A, 'matrix after solving', rtol=0, atol=1e-12)
        close(GA.M.toarray(), AL, 'local matrix after solving', rtol=0, atol=0)
        close(Gb.V.toarray()[:, 0], bL, 'local vector after solving', rtol=0, atol=0)
        if X0 != 0:
            close(X0.V, v0, 'initial guess after solving', rtol=0, atol=0)


def gst(draw, st):
    return {'n': draw(st.integers(4, 14)), 'seed': draw(st.integers(0, 9999)), 'kind': draw(st.sampled_from(['roll', 'roll', 'roll', 'dom'])),
            'eps': draw(st.integers(8, 40)) / 10., 'restart': draw(st.integers(3, 4)), 's': draw(st.sampled_from([['GMRES', '0'], ['GMRES', '1'], ['LGMRES', '0']])),
            'maxiter': draw(st.integers(2, 9)), 'tol': draw(st.sampled_from([3, 4, 6])), 'split': 'any', 'b': 'any', 'd': draw(st.integers(2, 6))}


@facet(P, 'stagnate', gst, np={1: 1, 2: 1, 3: 1}, quick={1: 120, 2: 60, 3: 20}, cost=0.01)
def stagnate(case):
    """slow and stagnating iterations are not reported as converged; BiCGSTAB converges for strongly dominant diagonals"""
    import random
    import warnings
    import numpy as np
    from scipy import sparse as sp
    from root.config.main import COMM, RANK, SIZE
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix
    from tools.miLinearAlgebra.dataStructures.vectors.GLOBAL.main import GlobalVector
    from tools.miLinearAlgebra.solvers.regular.allocator import RegularSolverDistributor
    warnings.simplefilter('ignore')
    n, rnd = case['n'], random.Random(case['seed'])
    R = np.array([[rnd.random() - 0.5 for _ in range(n)] for _ in range(n)])
    if case['kind'] == 'roll':
        A = np.roll(np.eye(n), 1, axis=0) + 10. ** -case['eps'] * R
        b = np.zeros(n)
        b[rnd.randrange(n)] = 2.
    else:
        n2 = n // 2
        A = np.diag([1. + 2 * rnd.random() for _ in range(n)]) + 2 * R / n
        if case['d'] > 3:
            A = A[:n2, :n2]
        b = np.array([4 * rnd.random() - 2 for _ in range(len(A))])
    if np.linalg.cond(A) > 100:
        reject('ill conditioned')
    nontrivial(True)
    tol = 10. ** -case['tol']
    GA, Gb = GlobalMatrix(sp.csr_matrix(split(A, case, RANK, SIZE))), GlobalVector(split(b, case, RANK, SIZE))
    if case['kind'] == 'dom':
        x, info, beta, it, _ = RegularSolverDistributor('BiCGSTAB')(GA, Gb, 0, tol=tol * 1e-3, atol=1e-9, maxiter=40)
        ensure(it <= len(A) + 1, 'BiCGSTAB needs %d iterations for %d unknowns' % (it, len(A)))
        ensure(info == 0, 'BiCGSTAB: info=%s residual %r after %d iterations for a strongly dominant diagonal' % (info, beta, it))
        close(x.V, np.linalg.solve(A, b), 'BiCGSTAB', rtol=1e-3, atol=1e-4)
        return
    solver, routine = case['s']
    kw = {'m': case['restart'], 'k': 1} if solver == 'LGMRES' else {'restart': case['restart']}
    x, info, beta, it, _ = RegularSolverDistributor(solver, routine=routine)(GA, Gb, 0, tol=tol, atol=1e-10, maxiter=case['maxiter'], **kw)
    res = np.linalg.norm(b - A @ x.V)
    tag('info %s' % info)
    if info == 0:
        ensure(res <= 1.01 * tol * np.linalg.norm(b) + 1e-10, '%s reports convergence to %r with residual %r of %r' % (solver, tol, res, np.linalg.norm(b)))
    else:
        ensure(res <= np.linalg.norm(b) * (1 + 1e-9), 'the residual grows')


def gpc(draw, st):
    return {'n': draw(st.integers(1, 10)), 'seed': draw(st.integers(0, 9999)), 'kind': draw(st.sampled_from(['any', 'diag', 'sym'])),
            'split': draw(st.sampled_from(['any', 'row', 'parts', 'master'])), 'b': 'any'}


@facet(P, 'precond', gpc, np={1: 1, 2: 1, 3: 1}, quick={1: 10, 2: 15, 3: 15}, cost=0.01)
def precond(case):
    """Jacobi: the inverse of the global diagonal; parameters of spiLU; condition number and shapes"""
    import numpy as np
    from scipy import sparse as sp
    from root.config.main import COMM, RANK, SIZE
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix
    from tools.miLinearAlgebra.preconditioners.allocator import PreconditionerAllocator
    A, b, _ = system(case)
    nontrivial(case['n'] >= 3)
    GA = GlobalMatrix(sp.csr_matrix(split(A, case, RANK, SIZE)))
    J = PreconditionerAllocator('Jacobi')(GA)
    ensure(J.applying_method == 'left_multiply_invM', 'way to apply Jacobi')
    close(J.invM.toarray(), np.diag(1 / np.diag(A)), 'Jacobi preconditioner', rtol=1e-10)
    I = PreconditionerAllocator('spiLU')(GA, drop_tol=1e-3, fill_factor=7, drop_rule='dynamic')
    ensure((I.drop_tol, I.fill_factor, I.drop_rule) == (1e-3, 7, 'dynamic'), 'parameters of spiLU')
    close(GA.condition.condition_number, np.linalg.cond(A), 'condition number', rtol=1e-6)


F3 = ['0-f', '1-f', '2-f', '3-f', '0-t', '1-t', '2-t', '0-e']
F2 = ['0-f-i', '1-f-i', '1-f-o', '2-f-i', '0-f-o']


def gsch(draw, st):
    w = draw(st.sampled_from(['3', '2', '2', 't']))
    c = {'w': w, 'seed': draw(st.integers(0, 99)), 'edm': None}
    if w == 't':
        import tri
        c['t'] = tri.gen(draw, st, nmax=2)
        c['p'] = draw(st.integers(1, 2))
        first, ids = ['2-f-i', '2-f-o'], ['0-f-i', '1-f-i', '1-f-o', '0-f-o']
    else:
        nd = int(w)
        m = gens.mesh3(draw, st, nmax=2, max_elements=4, ids=['crazy', 'cuboid', 'psc']) if nd == 3 else \
            gens.mesh2(draw, st, nmax=3, max_elements=6, ids=['crazy', 'chp1', 'rectangle', 'cic'])
        c['m'] = gens.min2_periodic(m)
        c['sp'] = gens.space(draw, st, nd, 2, nd + 1)
        ids = F3 if nd == 3 else F2
        first = [i for i in ids if i[1:3] == '-f']
    c['nM'] = draw(st.integers(1, 2))
    c['f'] = [[draw(st.sampled_from(first)), True] for _ in range(c['nM'])] + \
             [[draw(st.sampled_from(ids)), draw(st.booleans())] for _ in range(draw(st.integers(1, 3)))]
    c['swap'] = draw(st.integers(0, 2)) == 0
    c['seq'] = draw(st.integers(0, 2)) == 0
    c['zero'] = draw(st.integers(0, 511))
    c['ops'] = [[draw(st.sampled_from(['bc', 'bc', 'unk'])), draw(st.integers(0, 9)), draw(st.integers(1, 63)), draw(st.integers(0, 9999)),
                 draw(st.integers(-8, 8)) / 4.] for _ in range(draw(st.integers(0, 2)))]
    c['other'] = draw(st.sampled_from(['direct', 'GMRES', 'LGMRES']))
    return c


@facet(P, 'schur', gsch, np={1: 1, 2: 1, 3: 1}, quick={1: 40, 2: 30, 3: 25}, cost=0.15)
def schur(case):
    """linear systems of forms: Schur complements, assembled solves and distribution of results against the dense solution"""
    import warnings
    import numpy as np
    from scipy import sparse as sp
    import fm
    from root.config.main import COMM
    from tools.elementwiseCache.dataStructures.objects.sparseMatrix.main import EWC_SparseMatrix
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    from tools.miLinearAlgebra.linearSystem.main import LinearSystem
    from objects.CSCG.tools.distribute_local_cochain import distribute_local_cochain
    from props import P20
    from props.P19 import dense
    warnings.simplefilter('ignore')
    M, fc, fs = P20.setup(case)
    k, nM = len(fs), case['nM']
    order = list(range(k))
    if case['swap']:
        order = list(range(nM)) + list(range(k - 1, nM - 1, -1))
    cols = [fs[i] for i in order]
    mine = [int(e) for e in M.elements]
    nr = [f.num.basis for f in fs]
    nontrivial(k > 1 and sum(COMM.allgather(len(mine))) > 1)
    tag('%s k=%d ops=%d' % (case['w'], k, len(case['ops'])))

    def loc(i, j, e):
        """row block i (form i), column block j (form order[j])"""
        q = order[j]
        a = fm.hval(np.arange(nr[i] * nr[q]), e + 31 * i + 17 * q, case['seed']).reshape(nr[i], nr[q])
        a = np.round(8 * a) / 8
        if i == q:
            a = a + 4. * (sum(nr)) * np.eye(nr[i])
        return a

    def vec(i, e):
        return np.round(8 * fm.hval(np.arange(nr[i]), e + 5 * i, case['seed'] + 1)) / 2 + 1.
    B = []
    for i in range(k):
        B.append([])
        for j in range(k):
            if (case['zero'] >> (3 * i + j)) & 1 and i != order[j]:
                B[-1].append(None)
            else:
                B[-1].append(EWC_SparseMatrix(M.elements, lambda e, i=i, j=j: sp.csc_matrix(loc(i, j, e)), 'no_cache'))
    # blocks may not be None in a whole row or column: the diagonal ones are there
    A = bmat(B)
    b = concatenate([EWC_ColumnVector(M.elements, lambda e, i=i: sp.csc_matrix(vec(i, e)[:, None])) for i in range(k)])
    if case['seq']:
        A.assembler.chain_method = 'sequent'
        b.assembler.chain_method = 'sequent'
    A.gathering_matrices = (fs, cols)
    b.gathering_matrix = fs
    LS = LinearSystem(A, b)
    ensure(tuple(LS.block_shape) == (k, k), 'block shape')
    GMr, GMc = A.gathering_matrices
    tot = int(GMr.global_num_dofs)
    ensure(tuple(int(_) for _ in LS.GLOBAL_shape) == (tot, tot), 'global shape')
    names = sorted(M.boundaries.names)
    from props.P20 import names_of
    for o, i, sel, r, v in case['ops']:
        i = i % k
        if case['swap']:
            continue
        if o == 'bc':
            if not names or (case['w'] == 't' and case['f'][i][0][0] == '2') or case['f'][i][0] in ('3-f', '2-f-i', '0-e', '1-t') or \
                    case['f'][i][0] == '1-f-i' and case['w'] == '2':
                continue
            cf = P20.mk_cf(fc, case['f'][i][0], (v, 1. + v), case['w'])
            if cf is None:
                continue
            cf.current_time = 0.
            fs[i].BC.boundaries = names_of(M, sel)
            fs[i].BC.CF = cf
            LS.customize.apply_strong_BC(i, i, fs[i])
        else:
            LS.customize.set_unknown_to(r % tot, v)
    GA = dense(A.assembled.M)
    Gb = dense(b.assembled.V).ravel()
    c = np.linalg.cond(GA)
    if not c < 1e6:
        reject('ill conditioned')
    # the first blocks must be locally invertible as well
    x = np.linalg.solve(GA, Gb)
    X = LS.solve('Schur', rank=2, blocks=nM)()
    ensure(X[1] == 0, 'information of the Schur solver')
    X = X[0]
    ensure(sorted(int(e) for e in X) == sorted(mine), 'elements of the local solutions')
    sc = 1e-9 * c
    for e in mine:
        close(X[e], x[np.asarray(GMc[e])], 'local solution of the Schur complement solver, element %d' % e, rtol=sc, atol=sc)
    if not any(('-t' in i or '-e' in i) for i, _ in case['f']):
        distribute_local_cochain(X, cols)
        s = 0
        for f in cols:
            for e in mine:
                close(f.cochain.local[e], X[e][s:s + f.num.basis], 'distributed cochain', 0, 0)
            s += f.num.basis
    if case['other'] == 'direct':
        y, info = LS.solve('direct')()[:2]
    elif case['other'] == 'GMRES':
        y, info = LS.solve('GMRES', routine='0', name='a')(0, restart=min(tot + 1, 60), maxiter=30, tol=1e-12, atol=1e-10, preconditioner='Jacobi' if np.min(np.abs(np.diag(GA))) > 0.1 else None)[:2]
    else:
        y, info = LS.solve('LGMRES')(0, m=min(tot + 1, 60), k=2, maxiter=30, tol=1e-12, atol=1e-10)[:2]
    if case['other'] == 'direct' or info == 0:
        close(y.V, x, 'solution by ' + case['other'], rtol=10 * sc, atol=10 * sc)
    else:
        ensure(tot > 60 or not np.isfinite(y.V).all() or np.linalg.norm(GA @ y.V - Gb) < 1e-7 * (1 + np.linalg.norm(Gb)) * c, case['other'] + ' does not converge')
    close(LS.condition.condition_number, c, 'condition number', rtol=1e-5)
    close(dense(A.assembled.M), GA, 'matrix after solving', 1e-13, 1e-13)
    if not case['seq'] and not case['swap'] and not any('-e' in i for i, _ in case['f']):
        y.do.distributed_to(*fs)
        s = 0
        for f in fs:
            g = f.numbering.gathering
            for e in mine:
                close(f.cochain.local[e], y.V[np.asarray(g[e]) + s], 'cochain of a distributed solution', 0, 0)
            s += f.num.global_dofs
