# -*- coding: utf-8 -*-
"""P20: customizations of element-wise systems."""
from kit import facet, ensure, close, nontrivial, tag
import gens
import tri

RULE = ('case = mesh, forms chained to a block system of random local matrices, boundary selections and a history of '
        'customizations; non-trivial: at least two customizations were applied')
P = 'P20'
F3 = ['0-f', '1-f', '2-f', '0-t', '1-t', '2-t']
F2 = ['0-f-i', '1-f-i', '1-f-o', '0-f-o']
FT = ['0-f-i', '1-f-i', '1-f-o', '0-f-o']


def gen(draw, st):
    w = draw(st.sampled_from(['3', '3', '2', '2', 't', 't']))
    c = {'w': w, 'seed': draw(st.integers(0, 99))}
    if w == 't':
        c['t'] = tri.gen(draw, st, nmax=2)
        c['p'] = draw(st.integers(1, 2))
        ids = FT
    else:
        nd = int(w)
        if nd == 3:
            c['m'] = gens.mesh3(draw, st, nmax=2, max_elements=6, ids=['crazy', 'bridge_arch_cracked', 'cuboid', 'psc', 'LDC'])
        else:
            c['m'] = gens.mesh2(draw, st, nmax=3, max_elements=9, ids=['crazy', 'chp1', 'quadrangle', 'rectangle', 'cic', 'bcr'])
        c['m'] = gens.min2_periodic(c['m'])
        c['sp'] = gens.space(draw, st, nd, 2, nd + 1)
        c['edm'] = draw(st.sampled_from([None, None, 'chaotic']))
        ids = F3 if nd == 3 else F2
    c['f'] = [[draw(st.sampled_from(ids)), draw(st.booleans())] for _ in range(draw(st.integers(1, 3)))]
    if len(c['f']) > 1 and draw(st.booleans()):
        c['f'][-1] = list(c['f'][0])
    c['cm'] = draw(st.sampled_from(['silly', 'sequent']))
    c['zero'] = draw(st.integers(0, 511))
    c['kind'] = draw(st.sampled_from(['no_cache', 'all_diff', 'dict', 'const']))
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        ops.append([draw(st.sampled_from(['id', 'id', 'off', 'set', 'const', 'system'])), draw(st.integers(0, 5)), draw(st.integers(0, 5)),
                    draw(st.integers(1, 63)), draw(st.integers(-8, 8)) / 4., draw(st.booleans())])
    c['ops1'] = ops
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        ops.append([draw(st.sampled_from(['clr', 'ij', 'ij', 'idr', 'vi', 'vi', 'unk'])), draw(st.integers(0, 9999)),
                    draw(st.integers(0, 9999)), draw(st.integers(0, 9999)), draw(st.integers(-8, 8)) / 4., draw(st.booleans())])
    c['ops2'] = ops
    return c


def setup(case):
    import fm
    if case['w'] == 't':
        fc = tri.call(case['t'], case['p'])
        M = fc.mesh
    else:
        M, S, fc, nodes = fm.setup(case)
    fs = []
    for i, h in case['f']:
        if '-t' in i:
            fs.append(fc(i, hybrid=True))
        elif case['w'] == 't':
            fs.append(fc(i))
        else:
            fs.append(fc(i, hybrid=h))
    return M, fc, fs


def names_of(M, sel):
    names = sorted(M.boundaries.names)
    out = [b for i, b in enumerate(names) if (sel >> i) & 1]
    return out or names[:1]


@facet(P, 'history', gen, np={1: 1, 2: 1, 3: 1}, quick={1: 50, 2: 35, 3: 25}, cost=0.25)
def history(case):
    """block systems under histories of customizations"""
    import numpy as np
    from scipy import sparse as sp
    import fm
    from root.config.main import COMM
    from tools.elementwiseCache.dataStructures.objects.sparseMatrix.main import EWC_SparseMatrix
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    from tools.miLinearAlgebra.linearSystem.main import LinearSystem
    from props.P19 import scatter, dense
    M, fc, fs = setup(case)
    k = len(fs)
    mine = [int(e) for e in M.elements]
    gat = [f.numbering.gathering for f in fs]
    nb = [f.num.basis for f in fs]
    off = np.concatenate([[0], np.cumsum(nb)]).astype(int)
    N = int(off[-1])
    tag('%s %s %d' % (case['w'], case['cm'], k))
    nontrivial(len(case['ops1']) + len(case['ops2']) > 1)

    def loc(i, j, e):
        a = fm.hval(np.arange(nb[i] * nb[j]), (0 if case['kind'] == 'const' else e) + 31 * i + 17 * j, case['seed']).reshape(nb[i], nb[j])
        return np.round(4 * a) + 5.

    def vec(i, e):
        return np.round(8 * fm.hval(np.arange(nb[i]), e + 5 * i, case['seed'] + 1)) / 2 + 9.
    B, Z = [], []
    for i in range(k):
        B.append([])
        for j in range(k):
            if (case['zero'] >> (3 * i + j)) & 1 and i != j:
                B[-1].append(None)
                Z.append((i, j))
                continue

            def g(e, i=i, j=j):
                return sp.csr_matrix(loc(i, j, e)) if (i + j + case['seed']) % 2 else sp.csc_matrix(loc(i, j, e))
            if case['kind'] == 'dict':
                B[-1].append(EWC_SparseMatrix(M.elements, dict((e, g(e)) for e in mine)))
            elif case['kind'] == 'const':
                B[-1].append(EWC_SparseMatrix(M.elements, g(0), 'constant'))
            else:
                B[-1].append(EWC_SparseMatrix(M.elements, g, case['kind']))
    V = [EWC_ColumnVector(M.elements, lambda e, i=i: sp.csc_matrix(vec(i, e)[:, None])) for i in range(k)]
    A = bmat(B)
    b = concatenate(V)
    A.assembler.chain_method = case['cm']
    b.assembler.chain_method = case['cm']
    A.gathering_matrices = (fs, fs)
    b.gathering_matrix = fs
    LS = LinearSystem(A, b)
    cgm = A.gathering_matrices[0]
    tot = int(cgm.global_num_dofs)
    num = dict((e, [int(_) for _ in cgm[e]]) for e in mine)
    alln = {}
    for d in COMM.allgather(num):
        alln.update(d)
    els = sorted(alln)

    def local0(e):
        a = np.zeros((N, N))
        for i in range(k):
            for j in range(k):
                if (i, j) not in Z:
                    a[off[i]:off[i + 1], off[j]:off[j + 1]] = loc(i, j, e)
        return a
    LA = dict((e, local0(e)) for e in mine)
    Lb = dict((e, np.concatenate([vec(i, e) for i in range(k)])) for e in mine)

    def glob(L):
        if L is LA:
            return scatter(num, num, tot, tot, L)
        return scatter(num, dict((e, [0]) for e in num), tot, 1, dict((e, L[e][:, None]) for e in L)).ravel()
    A0, b0 = glob(LA), glob(Lb)

    def same(GA, Gb, what):
        close(dense(A.assembled.M), GA, 'assembled matrix ' + what, 1e-12, 1e-11)
        close(dense(b.assembled.V).ravel(), Gb, 'assembled vector ' + what, 1e-12, 1e-11)

    def same_local(what):
        for e in mine:
            close(A[e].toarray(), LA[e], 'local matrix of element %d %s' % (e, what), 1e-13, 1e-13)
            close(b[e].toarray().ravel(), Lb[e], 'local vector of element %d %s' % (e, what), 1e-13, 1e-13)

    def others(i, dofs):
        """other local dofs of block i, sharing the global dofs"""
        G = set()
        for s in COMM.allgather(set(num[e][off[i] + d] for e in dofs for d in dofs[e])):
            G |= s
        return dict((e, [d for d in range(nb[i]) if num[e][off[i] + d] in G and d not in dofs.get(e, [])]) for e in mine), G
    names = sorted(M.boundaries.names)
    diag = {}
    for n, (o, i, j, sel, v, early) in enumerate(case['ops1']):
        i, j = i % k, j % k
        what = 'after %s (%d)' % (o, n)
        if not names:
            continue
        f = fs[i]
        bns = names_of(M, sel)
        f.BC.boundaries = bns
        if o in ('set', 'system'):
            cf = mk_cf(fc, case['f'][i][0], (v, 1. + v), case['w'])
            if cf is None:
                o = 'const' if o == 'set' else 'id'
            else:
                cf.current_time = 0.
                f.BC.CF = cf
        if o in ('const', 'id', 'off'):
            f.BC.CF = None
        if o == 'off' and (i == j or case['f'][i] != case['f'][j]):
            o = 'id'
        itp = f.BC.interpret
        lo = itp.local
        dofs = dict((int(e), [int(_) for _ in lo.dofs[e]]) for e in lo.dofs)
        oth, G = others(i, dofs)
        if o == 'off':
            fs[j].BC.boundaries = bns
            A.customize.off_diagonally_identify_rows_according_to(i, j, itp, fs[j].BC.interpret)
        elif o == 'id':
            A.customize.identify_global_rows_according_to(i, itp)
        elif o == 'const':
            b.customize.set_constant_entries_according_to(i, itp, v)
        elif o == 'set':
            b.customize.set_entries_according_to(i, itp)
        else:
            LS.customize.apply_strong_BC(i, i, f if early else itp)
        if o in ('id', 'off', 'system'):
            J = j if o == 'off' else i
            for e in dofs:
                for d in dofs[e]:
                    LA[e][off[i] + d, :] = 0
                for d in dofs[e]:
                    LA[e][off[i] + d, off[J] + d] = 1
            for e in mine:
                for d in oth[e]:
                    LA[e][off[i] + d, :] = 0
        if o in ('const', 'set', 'system'):
            for e in dofs:
                for q, d in enumerate(dofs[e]):
                    Lb[e][off[i] + d] = v if o == 'const' else lo.cochains[e][q]
            for e in mine:
                for d in oth[e]:
                    Lb[e][off[i] + d] = 0
        if early or n == len(case['ops1']) - 1:
            same_local(what)
            same(glob(LA), glob(Lb), what)
        if o in ('id', 'system'):
            GA = glob(LA)
            for r in G:
                nz = np.argwhere(np.abs(GA[r]) > 0).ravel()
                ensure(list(nz) == [r], 'internal: model of row %d' % r)
    GA, Gb = glob(LA), glob(Lb)
    for n, (o, p, q, r, v, early) in enumerate(case['ops2']):
        e = els[p % len(els)]
        i, j = alln[e][q % N], alln[e][r % N]
        what = 'after %s (%d, %d)' % (o, i, j)
        if o == 'clr':
            A.customize.clear_global_row(i)
            GA[i, :] = 0
        elif o == 'ij':
            A.customize.set_assembled_M_ij_to(i, j, v)
            GA[i, j] = v
        elif o == 'idr':
            (LS.customize if early else A.customize).identify_global_row(i)
            GA[i, :] = 0
            GA[i, i] = 1
        elif o == 'vi':
            b.customize.set_assembled_V_i_to(i, v)
            Gb[i] = v
        else:
            LS.customize.set_unknown_to(i, v)
            GA[i, :] = 0
            GA[i, i] = 1
            Gb[i] = v
        if early or n == len(case['ops2']) - 1:
            same(GA, Gb, what)
    for i in range(k):
        for j in range(k):
            if B[i][j] is not None and mine:
                e = mine[case['seed'] % len(mine)]
                close(B[i][j][e].toarray(), loc(i, j, e), 'block %d,%d after customizing the whole' % (i, j), 0, 1e-14)
    A.customize.clear()
    b.customize.clear()
    same(A0, b0, 'after clearing the customizations')
    A.do.lock_assembled_matrix()
    for fun in (lambda: A.customize.clear_global_row(0), lambda: A.customize.identify_global_row(0),
                lambda: A.customize.set_assembled_M_ij_to(0, 0, 1)):
        try:
            fun()
        except AssertionError:
            pass
        else:
            ensure(False, 'a locked matrix was customized')


def mk_cf(fc, id_, u, w):
    """a field that may be prescribed to the form, or None"""
    a, b = u
    if w == '3':
        def s(t, x, y, z):
            return a + b * x - 0.5 * y * z + t

        def s2(t, x, y, z):
            return b * y + x * z - a
        if id_ in ('0-f', '0-t', '2-t'):
            return fc('scalar', s)
        if id_ in ('1-f', '2-f'):
            return fc('vector', [s, s2, s])
        return None

    def s(t, x, y):
        return a + b * x - 0.5 * y * y + t

    def s2(t, x, y):
        return b * y + x * x - a
    if id_ == '1-f-o' or (w == 't' and id_ == '1-f-i'):
        return fc('vector', [s, s2])
    if w == 't' and id_[0] == '0':
        return fc('scalar', s)
    return None


@facet(P, 'adjust', gen, np={1: 1, 2: 1}, quick={1: 30, 2: 15}, cost=0.2)
def adjust(case):
    """adjusted copies of single systems"""
    import numpy as np
    from scipy import sparse as sp
    import fm
    from tools.elementwiseCache.dataStructures.objects.sparseMatrix.main import EWC_SparseMatrix
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
    from props.P19 import scatter, dense
    M, fc, fs = setup(case)
    f = fs[0]
    names = sorted(M.boundaries.names)
    nontrivial(bool(names))
    tag(case['f'][0][0])
    if not names:
        return
    g = f.numbering.gathering
    n = f.num.basis
    mine = [int(e) for e in M.elements]
    num = dict((e, [int(_) for _ in g[e]]) for e in mine)
    tot = int(g.global_num_dofs)

    def loc(e):
        return np.round(4 * fm.hval(np.arange(n * n), e, case['seed']).reshape(n, n)) + 5.

    def dat(e):
        return sp.csr_matrix(loc(e)) if (e + case['seed']) % 2 else sp.csc_matrix(loc(e))
    A = EWC_SparseMatrix(M.elements, dict((e, dat(e)) for e in mine) if case['kind'] == 'dict' else dat,
                         None if case['kind'] == 'dict' else 'no_cache')
    v = EWC_ColumnVector(M.elements, lambda e: sp.csc_matrix(loc(e)[:, :1]))
    if case['zero'] % 3:
        A.gathering_matrices = (f, f)
        v.gathering_matrix = f
    sel = case['ops1'][0][3] if case['ops1'] else 1
    f.BC.boundaries = names_of(M, sel)
    cf = mk_cf(fc, case['f'][0][0], (0.5, 1.25), case['w'])
    if cf is not None:
        cf.current_time = 0.
        f.BC.CF = cf
    itp = f.BC.interpret
    lo = itp.local
    dofs = dict((int(e), [int(_) for _ in lo.dofs[e]]) for e in lo.dofs)
    C = A.adjust.clear_rows_according_to(itp)
    I = A.adjust.identify_rows_according_to(itp)
    J = A.adjust.identify_rows_according_to(itp, col_itp=itp)
    W = v.adjust.set_entries_according_to(itp) if cf is not None else None
    exp = {}
    for e in mine:
        a = loc(e)
        c, i, w = a.copy(), a.copy(), a[:, 0].copy()
        for d in dofs.get(e, []):
            c[d] = 0
            i[d] = 0
        for q, d in enumerate(dofs.get(e, [])):
            i[d, d] = 1
            if W is not None:
                w[d] = lo.cochains[e][q]
        exp[e] = (c, i, w)
        close(C[e].toarray(), c, 'clear_rows_according_to, element %d' % e, 1e-14, 1e-14)
        close(I[e].toarray(), i, 'identify_rows_according_to, element %d' % e, 1e-14, 1e-14)
        close(J[e].toarray(), i, 'identify_rows_according_to with columns, element %d' % e, 1e-14, 1e-14)
        close(A[e].toarray(), a, 'original matrix after adjusting, element %d' % e, 0, 0)
        close(v[e].toarray().ravel(), a[:, 0], 'original vector after adjusting, element %d' % e, 0, 0)
        if W is not None:
            close(W[e].toarray().ravel(), w, 'set_entries_according_to, element %d' % e, 1e-14, 1e-14)
    if case['zero'] % 3:
        for X, q, s in ((C, 0, 'cleared'), (I, 1, 'identified'), (J, 1, 'identified')):
            close(dense(X.assembled.M), scatter(num, num, tot, tot, dict((e, exp[e][q]) for e in mine)), s + ' assembled', 1e-12, 1e-12)
        if W is not None:
            close(dense(W.assembled.V), scatter(num, dict((e, [0]) for e in num), tot, 1, dict((e, exp[e][2][:, None]) for e in mine)),
                  'vector assembled', 1e-12, 1e-12)
