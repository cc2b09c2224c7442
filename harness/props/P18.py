# -*- coding: utf-8 -*-
"""P18: element-wise sparse matrices and column vectors: expression programs against dense algebra."""
from kit import facet, ensure, close, nontrivial, tag
import gens

RULE = ('case = mesh, leaves (cache modes, sizes), a program of operations (a DAG of expressions) and a random history of '
        'element evaluations; non-trivial: a node made from at least two operations is evaluated in at least two elements')
P = 'P18'
KEYS = ['a', 'b', 'ab', 'ba', 'abc', 'c', 'bc', 'aa', '1', '11', '1:a', '2:ab', '>', '<', '>a<', 'aaa', ' ', 'CT', '>C', 'T<']


def _mesh(draw, st, dims=(2, 2, 3)):
    nd = draw(st.sampled_from(dims))
    if nd == 2:
        return gens.mesh2(draw, st, ids=['crazy', 'rectangle', 'chp1'], nmax=3, max_elements=9)
    return gens.mesh3(draw, st, ids=['crazy', 'cuboid'], nmax=2, max_elements=8)


def _keys(draw, st):
    return [draw(st.sampled_from(KEYS)) for _ in range(draw(st.integers(1, 4)))]


MK = ['const', 'const', 'dict', 'all_diff', 'no_cache', 'key', 'key', 'ident', 'empty', 'nonsing', 'key_ns']
VK = ['empty', 'dict', 'no_cache', 'key', 'key', 'form']


def gt(draw, st):
    m = _mesh(draw, st)
    nd = len(m['lay'])
    # node: ['M'|'V', shape, kind or op, args]
    N = []
    dims = [draw(st.integers(1, 3)), draw(st.integers(1, 4))]
    sp = gens.space(draw, st, nd, 2, nd + 1)
    c = {'m': m, 'sp': sp, 'edm': None, 'on': draw(st.sampled_from(['mesh', 'elements', 'dict'])),
         'seed': draw(st.integers(0, 99))}
    nforms = draw(st.integers(0, 2))
    for i in range(nforms):   # form leaves: index, kind (mass | incidence | vector)
        N.append(['F', draw(st.integers(0, nd)), draw(st.sampled_from(['mass', 'E', 'vec', 'emptyvec'])), []])
    for i in range(draw(st.integers(2, 4))):
        k = draw(st.sampled_from(MK))
        r = draw(st.sampled_from(dims))
        s = r if k in ('ident', 'nonsing', 'key_ns') else draw(st.sampled_from(dims))
        N.append(['M', [r, s], k, _keys(draw, st), draw(st.sampled_from(['csr', 'csc']))])
    for i in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(VK))
        N.append(['V', [draw(st.sampled_from(dims)), 1], 'no_cache' if k == 'form' else k, _keys(draw, st)])
    # form dims are unknown here: the evaluator resolves operands by trying candidates in order
    ops = []
    for i in range(draw(st.integers(3, 11))):
        ops.append([draw(st.sampled_from(['mul', 'rmul', 'div', 'neg', 'add', 'sub', 'add', 'sub', 'mm', 'mm', 'mv', 'mv', 'mf', 'T', 'T',
                                          'inv', 'sum', 'bmat', 'bmat', 'cat', 'vmul', 'vrmul', 'vneg', 'vadd', 'vsub', 'vsum'])),
                    [draw(st.integers(0, 40)) for _ in range(4)],
                    draw(st.sampled_from([2, -1, 0.5, -3, 1.25, 0, 1]))])
    c['N'] = N
    c['ops'] = ops
    c['hist'] = [[draw(st.integers(0, 40)), draw(st.integers(0, 30))] if draw(st.integers(0, 6)) else 'step'
                 for _ in range(draw(st.integers(4, 14)))]
    return c


class Node(object):
    def __init__(self, typ, shape, obj, ref, ns=False, depth=0, args=()):
        self.typ, self.shape, self.obj, self.ref = typ, tuple(shape), obj, ref
        self.ns, self.depth, self.args = ns, depth, args
        self.gm = None


def leaf(spec, i, mesh, elems, clock, seed):
    """-> (object, reference e -> dense)"""
    import numpy as np
    from scipy import sparse as sp
    import fm
    from tools.elementwiseCache.dataStructures.objects.sparseMatrix.main import EWC_SparseMatrix as EM
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector as EV
    typ, shape, kind, keys = spec[:4]
    r, s = shape
    fmt = spec[4] if typ == 'M' else 'csc'
    mk = sp.csr_matrix if fmt == 'csr' else sp.csc_matrix

    def dense(a, ns=False):
        d = np.round(4 * fm.hval(np.arange(r * s) + 1000 * i, a, seed)) / 2.
        d = d.reshape((r, s))
        if ns:
            d = d / 8. + np.diag(3. + np.arange(r) + (a % 7))
        return d

    def cls(e):
        return keys[int(e) % len(keys)]

    def kref(e):
        return dense(3 + KEYS.index(cls(e)), kind == 'key_ns')

    if typ == 'M':
        if kind == 'const':
            A = mk(dense(1))
            return EM(mesh, A, 'constant'), lambda e: dense(1)
        if kind == 'nonsing':
            A = mk(dense(1, True))
            return EM(mesh, A), lambda e: dense(1, True)
        if kind == 'dict':
            return EM(mesh, dict((e, mk(dense(5 + int(e)))) for e in elems)), lambda e: dense(5 + int(e))
        if kind == 'all_diff':
            return EM(mesh, lambda e: mk(dense(5 + int(e))), 'all_diff'), lambda e: dense(5 + int(e))
        if kind == 'no_cache':
            return (EM(mesh, lambda e: mk(dense(5 + int(e) + 100 * clock[0])), 'no_cache'),
                    lambda e: dense(5 + int(e) + 100 * clock[0]))
        if kind in ('key', 'key_ns'):
            return EM(mesh, lambda e: mk(kref(e)), cls), kref
        if kind == 'ident':
            return EM(mesh, ('identity', r)), lambda e: np.eye(r)
        if kind == 'empty':
            return EM(mesh, (r, s)), lambda e: np.zeros((r, s))
    if kind == 'empty':
        return EV(mesh, r), lambda e: np.zeros((r, 1))
    if kind == 'dict':
        return EV(mesh, dict((e, mk(dense(5 + int(e)))) for e in elems)), lambda e: dense(5 + int(e))
    if kind == 'no_cache':
        return (EV(mesh, lambda e: mk(dense(5 + int(e) + 100 * clock[0]))), lambda e: dense(5 + int(e) + 100 * clock[0]))
    if kind == 'key':
        return EV(mesh, lambda e: mk(kref(e)), cls), kref
    raise Exception(kind)


def _form(fc, nd, k):
    return fc('%d-f-o' % k if nd == 2 else '%d-f' % k, hybrid=True)


def form_leaf(spec, i, fc, M, nodes, clock, seed):
    import numpy as np
    import fm
    nd = len(nodes)
    k, kind = spec[1], spec[2]
    if kind == 'E':
        k = min(k, nd - 1)
    f = _form(fc, nd, k)
    n = f.num.basis
    if kind == 'mass':
        from props import P14
        g = _form(fc, nd, k)        # an independent form
        A = g.matrices.mass
        D = dict((e, P14.arr(A[e]).copy()) for e in M.elements)
        return Node('M', (n, n), f.matrices.mass, lambda e: D[e], True)
    if kind == 'E':
        from props import P08, P14
        D = P14.arr(P08.ref_incidence(nd, [len(_) - 1 for _ in nodes], k, 'o' if nd == 2 else ''))
        return Node('M', D.shape, f.matrices.incidence, lambda e: D)
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector as EV
    if kind == 'emptyvec':
        return Node('V', (n, 1), EV(f), lambda e: np.zeros((n, 1)))

    def put():
        f.cochain.local = dict((e, fm.hval(np.arange(n), 7 + int(e), seed + 10 * clock[0] + i)) for e in M.elements)
    put()
    clock[1].append(put)
    N = Node('V', (n, 1), f.cochain.EWC,
             lambda e: fm.hval(np.arange(n), 7 + int(e), seed + 10 * clock[0] + i)[:, None])
    N.form = f
    return N


def build(case):
    """-> nodes, elements list, clock"""
    import numpy as np
    import fm
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    M, S, fc, nodes = fm.setup(case)
    elems = list(M.elements)
    clock = [0, []]
    mesh = {'mesh': M, 'elements': M.elements, 'dict': None}[case['on']]
    if mesh is None:
        mesh = M if any(s[0] == 'F' for s in case['N']) else dict((e, M.elements[e]) for e in M.elements)
    L = []
    for i, s in enumerate(case['N']):
        if s[0] == 'F':
            L.append(form_leaf(s, i, fc, M, nodes, clock, case['seed']))
        else:
            o, ref = leaf(s, i, mesh, elems, clock, case['seed'])
            L.append(Node(s[0], s[1], o, ref, s[2] in ('nonsing', 'key_ns', 'ident')))
    for op, a, x in case['ops']:
        def pick(j, typ, shape=None, cond=None):
            C = [n for n in L if n.typ == typ and (shape is None or
                 all(w is None or w == v for w, v in zip(shape, n.shape))) and (cond is None or cond(n))]
            return C[a[j] % len(C)] if C else None
        V = op[0] == 'v'
        base = op[1:] if V else op
        T = 'V' if V else 'M'
        A = pick(0, T)
        if op in ('cat',):
            A = pick(0, 'V')
        elif op in ('mv',):
            A = pick(0, 'M', None, lambda n: any(v.typ == 'V' and v.shape[0] == n.shape[1] for v in L))
        elif op == 'mm':
            A = pick(0, 'M', None, lambda n: any(v.typ == 'M' and v.shape[0] == n.shape[1] for v in L))
        elif op == 'mf':
            A = pick(0, 'M', None, lambda n: any(hasattr(v, 'form') and v.shape[0] == n.shape[1] for v in L))
        elif op == 'inv':
            A = pick(0, 'M', None, lambda n: n.ns)
        if A is None:
            continue
        ra = A.ref
        new = None
        if base in ('mul', 'rmul'):
            x_ = x
            o = A.obj * x if base == 'mul' else x * A.obj
            new = Node(T, A.shape, o, lambda e, ra=ra, x=x_: ra(e) * x, A.ns and abs(x) >= 0.5)
        elif base == 'div':
            x = x or 2
            new = Node(T, A.shape, A.obj / x, lambda e, ra=ra, x=x: ra(e) / x, A.ns)
        elif base == 'neg':
            new = Node(T, A.shape, -A.obj, lambda e, ra=ra: -ra(e), A.ns)
        elif base in ('add', 'sub'):
            B = pick(1, T, A.shape)
            sg = 1 if base == 'add' else -1
            o = A.obj + B.obj if sg == 1 else A.obj - B.obj
            new = Node(T, A.shape, o, lambda e, ra=ra, rb=B.ref, sg=sg: ra(e) + sg * rb(e))
        elif base == 'sum':
            Bs = [pick(j, T, A.shape) for j in range(1, 2 + a[3] % 3)]
            o = A.obj.___PRIVATE_sum___([B.obj for B in Bs])
            new = Node(T, A.shape, o, lambda e, rs=[ra] + [B.ref for B in Bs]: sum(r(e) for r in rs))
        elif op in ('mm', 'mv', 'mf'):
            if op == 'mf':
                B = pick(1, 'V', (A.shape[1], None), lambda n: hasattr(n, 'form'))
            else:
                B = pick(1, 'M' if op == 'mm' else 'V', (A.shape[1], None))
            o = A.obj @ (B.form if op == 'mf' else B.obj)
            new = Node('M' if op == 'mm' else 'V', (A.shape[0], B.shape[1]), o,
                       lambda e, ra=ra, rb=B.ref: ra(e) @ rb(e))
        elif op == 'T':
            new = Node('M', A.shape[::-1], A.obj.T, lambda e, ra=ra: ra(e).T, A.ns)
        elif op == 'inv':
            new = Node('M', A.shape, A.obj.inv, lambda e, ra=ra: np.linalg.inv(ra(e)), True)
        elif op == 'bmat':
            # [[A, B, ..], [C, None, ..]]
            I, J = 1 + a[1] % 2, 1 + a[2] % 3
            rows = [A.shape[0]] + [None] * (I - 1)
            cols = [A.shape[1]] + [None] * (J - 1)
            G = [[None] * J for _ in range(I)]
            G[0][0] = A
            for i in range(I):
                for j in range(J):
                    if (i, j) == (0, 0):
                        continue
                    must = rows[i] is None or cols[j] is None
                    if not must and (a[3] >> (i + j)) & 1:
                        continue
                    C = [n for n in L if n.typ == 'M' and (rows[i] is None or n.shape[0] == rows[i]) and
                         (cols[j] is None or n.shape[1] == cols[j])]
                    if not C:
                        break
                    B = C[(a[3] + 7 * i + 3 * j) % len(C)]
                    G[i][j] = B
                    rows[i], cols[j] = B.shape
            if any(r is None for r in rows) or any(c is None for c in cols):
                continue
            o = bmat([[None if g is None else g.obj for g in R] for R in G])
            ensure(list(o.bmat_shape) == [I, J], 'bmat_shape %r' % (o.bmat_shape,))
            new = Node('M', (sum(rows), sum(cols)), o,
                       lambda e, G=G, rows=rows, cols=cols: np.block(
                           [[np.zeros((rows[i], cols[j])) if g is None else g.ref(e) for j, g in enumerate(R)]
                            for i, R in enumerate(G)]))
        elif op == 'cat':
            Vs = [A] + [pick(j, 'V') for j in range(1, 2 + a[3] % 3)]
            o = concatenate([v.obj for v in Vs])
            ensure(list(o.con_shape) == [len(Vs)], 'con_shape')
            new = Node('V', (sum(v.shape[0] for v in Vs), 1), o,
                       lambda e, Vs=Vs: np.vstack([v.ref(e) for v in Vs]))
        if new is not None and new.shape[0] * new.shape[1] <= 40000:
            new.depth = 1 + A.depth
            new.op = op
            L.append(new)
    return M, L, elems, clock


def same(o, ref, msg, typ):
    import numpy as np
    from scipy import sparse as sp
    ensure(sp.issparse(o), '%s: not a sparse matrix but %s' % (msg, type(o).__name__))
    sc = max(1., float(np.max(np.abs(ref))) if ref.size else 1.)
    ensure(tuple(o.shape) == tuple(ref.shape), '%s: shape %r instead of %r' % (msg, o.shape, ref.shape))
    close(o.toarray(), ref, msg, 1e-9, 1e-10 * sc)


@facet(P, 'tree', gt, np={1: 2, 3: 1}, quick={1: 220, 3: 60}, cost=0.1)
def tree(case):
    """programs of element-wise operations, evaluated in random order and repeatedly while lazily generated data changes"""
    import fm
    M, L, elems, clock = build(case)
    ntot = M.elements.global_num
    deep = 0
    for n in L:
        o = n.obj
        ensure(len(o) == len(elems) and sorted(o) == sorted(elems) and all(e in o for e in elems), 'elements of an expression')
        ensure(-1 not in o and ntot not in o, 'an element outside the mesh is in the expression')
        if n.typ == 'M':
            ensure(o.global_length == ntot, 'global_length %r instead of %r' % (o.global_length, ntot))
        tag(getattr(n, 'op', 'leaf'))
    seen = set()
    for h in case['hist'] + [[j, j] for j in range(len(L))]:
        if h == 'step':
            clock[0] += 1
            for f in clock[1]:
                f()
            continue
        n = L[-1 - (h[0] % len(L) if h[0] % 3 else h[0] // 3 % max(1, len(L) - len(case['N'])))]
        if not elems:
            continue
        for e in (elems[h[1] % len(elems)], elems[(h[1] + 1) % len(elems)]):
            same(n.obj[e], n.ref(e), 'node %d (%s) in element %d, step %d' %
                 (L.index(n), getattr(n, 'op', 'leaf'), e, clock[0]), n.typ)
            if n.depth > 1:
                seen.add((id(n), e))
    nontrivial(len(seen) > 1)


def gb(draw, st):
    m = _mesh(draw, st)
    nd = len(m['lay'])
    I, J = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return {'m': m, 'sp': gens.space(draw, st, nd, 2, nd + 1), 'edm': None, 'seed': draw(st.integers(0, 99)),
            'rows': [[draw(st.integers(0, nd)), draw(st.booleans())] for _ in range(I)],
            'cols': [[draw(st.integers(0, nd)), draw(st.booleans())] for _ in range(J)],
            'G': [[draw(st.sampled_from(['const', 'dict', 'key', 'all_diff', 'no_cache', None])) for _ in range(J)] for _ in range(I)],
            'own': draw(st.booleans()), 'sq': draw(st.booleans()),
            'cut': [[draw(st.integers(0, 3)) for _ in range(4)] for _ in range(3)]}


@facet(P, 'blocks', gb, np={1: 3, 2: 1}, quick={1: 60, 2: 20}, cost=0.1)
def blocks(case):
    """block structure of bmat matrices and concatenated vectors; gathering matrices follow the operations"""
    import numpy as np
    import fm
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    M, S, fc, nodes = fm.setup(case)
    nd = len(nodes)
    elems = list(M.elements)
    clock = [0, []]
    if case['sq']:
        case['cols'] = case['rows']
        case['G'] = [[(R + R + R)[j] for j in range(len(case['rows']))] for R in case['G']]

    def mkf(s):
        return fc('%d-f-o' % s[0] if nd == 2 else '%d-f' % s[0], hybrid=s[1])
    R = [mkf(s) for s in case['rows']]
    C = R if case['sq'] else [mkf(s) for s in case['cols']]
    G = []
    refs = []
    for i, f in enumerate(R):
        G.append([])
        refs.append([])
        for j, g in enumerate(C):
            k = case['G'][i][j]
            sh = [f.num.basis, g.num.basis]
            if k is None:
                G[-1].append(None)
                refs[-1].append(lambda e, sh=sh: np.zeros(sh))
            else:
                o, r = leaf(['M', sh, k, ['a', 'ab', 'b'], 'csr' if (i + j) % 2 else 'csc'], 10 * i + j, M, elems, clock, case['seed'])
                if case['own']:
                    o.gathering_matrices = (f, g)
                G[-1].append(o)
                refs[-1].append(r)
    if any(all(b is None for b in r) for r in G) or any(all(r[j] is None for r in G) for j in range(len(C))):
        from kit import reject
        reject('empty row or column')
    nontrivial(len(R) > 1 or len(C) > 1)
    tag('%dx%d' % (len(R), len(C)))
    A = bmat(G)
    ensure(list(A.bmat_shape) == [len(R), len(C)], 'bmat_shape')
    if not case['own']:
        A.gathering_matrices = (R, C)

    def chain(fs, e):
        o, s = [], 0
        for f in fs:
            o.append(np.array([int(_) for _ in f.numbering.gathering[e]], dtype=int) + s)
            s += f.num.global_dofs
        return np.concatenate(o), s

    def ckgm(X, fr, fcs, msg):
        for gm, fs, w in zip(X.gathering_matrices, (fr, fcs), 'row col'.split()):
            ensure(gm is not None, '%s: no %s gathering matrix' % (msg, w))
            tot = sum(f.num.global_dofs for f in fs)
            ensure(gm.global_num_dofs == tot, '%s: global_num_dofs' % msg)
            for e in elems:
                n, s = chain(fs, e)
                ensure(np.array_equal(np.asarray(gm[e]), n), '%s: %s gathering of element %d' % (msg, w, e))

    def full(e, ri=slice(None), ci=slice(None)):
        return np.block([[r(e) for r in row[ci]] for row in refs[ri]])
    B = A.blocks
    ensure(list(B.shape) == [len(R), len(C)], 'shape of blocks')
    for t, X, fr, fcs, ref in [('bmat', A, R, C, full), ('-bmat', -A, R, C, lambda e: -full(e)),
                               ('bmat*2', A * 2, R, C, lambda e: 2 * full(e)), ('3*bmat', 3 * A, R, C, lambda e: 3 * full(e)),
                               ('bmat/2', A / 2, R, C, lambda e: full(e) / 2), ('bmat.T', A.T, C, R, lambda e: full(e).T),
                               ('bmat.T.T', A.T.T, R, C, full)]:
        ckgm(X, fr, fcs, t)
        for e in elems:
            same(X[e], ref(e), '%s in element %d' % (t, e), 'M')
    for i in range(len(R)):
        for j in range(len(C)):
            b = B[i, j]
            if G[i][j] is not None:
                ensure(b is G[i][j], 'blocks[%d, %d] is not that block' % (i, j))
            for e in elems:
                same(b[e], refs[i][j](e), 'blocks[%d, %d] in element %d' % (i, j, e), 'M')
    clock[0] += 1
    for c in case['cut']:
        i0, i1 = sorted([c[0] % len(R), c[1] % len(R)])
        j0, j1 = sorted([c[2] % len(C), c[3] % len(C)])
        ri, ci = slice(i0, i1 + 1), slice(j0, j1 + 1)
        b = B[ri, ci]
        for e in elems:
            same(b[e], full(e, ri, ci), 'blocks[%d:%d, %d:%d] in element %d' % (i0, i1 + 1, j0, j1 + 1, e), 'M')
    # vectors
    V, vr = [], []
    for i, f in enumerate(C):
        o, r = leaf(['V', [f.num.basis, 1], ['dict', 'no_cache', 'key', 'empty'][(case['seed'] + i) % 4], ['a', 'b']], 50 + i, M, elems,
                    clock, case['seed'])
        if case['own']:
            o.gathering_matrix = f
        V.append(o)
        vr.append(r)
    v = concatenate(V)
    ensure(list(v.con_shape) == [len(C)], 'con_shape')
    if not case['own']:
        v.gathering_matrix = C
    w = A @ v
    for e in elems:
        x = np.vstack([r(e) for r in vr])
        same(v[e], x, 'concatenation in element %d' % e, 'V')
        same(w[e], full(e) @ x, 'bmat @ concatenation in element %d' % e, 'V')
        for y, sg in ((v, 1), (-v, -1), (v * 2, 2), (2 * v, 2), (v.___PRIVATE_sum___([v]), 2)):
            n, s = chain(C, e)
            ensure(y.gathering_matrix is not None and np.array_equal(np.asarray(y.gathering_matrix[e]), n),
                   'gathering matrix of a vector')
            same(y[e], sg * x, 'multiple of a concatenation', 'V')
    B = v.blocks
    ensure(list(B.shape) == [len(C)], 'shape of vector blocks')
    for j in range(len(C)):
        ensure(B[j] is V[j], 'vector block %d' % j)
        y = B[j:]
        for e in elems:
            same(y[e], np.vstack([r(e) for r in vr[j:]]), 'vector blocks[%d:]' % j, 'V')


def gu(draw, st):
    m = _mesh(draw, st)
    nd = len(m['lay'])
    return {'m': m, 'sp': gens.space(draw, st, nd, 2, nd + 1), 'edm': None, 'seed': draw(st.integers(0, 99)),
            'k': draw(st.integers(0, nd - 1)), 'kind': draw(st.sampled_from(['const', 'key', 'all_diff', 'dict', 'nonsing'])),
            'vk': draw(st.sampled_from(['empty', 'key', 'dict', 'no_cache'])),
            'rows': [draw(st.integers(0, 500)) for _ in range(draw(st.integers(1, 3)))],
            'op': draw(st.sampled_from(['identify', 'set', 'clear'])), 'rot': draw(st.integers(0, 30))}


@facet(P, 'customized', gu, np={1: 2, 2: 1}, quick={1: 50, 2: 15}, cost=0.1)
def customized(case):
    """expressions over customized operands use the customized local matrices of each element"""
    import numpy as np
    import fm
    M, S, fc, nodes = fm.setup(case)
    nd = len(nodes)
    elems = list(M.elements)
    nontrivial(M.elements.global_num > 1)
    f = fc('%d-f-o' % case['k'] if nd == 2 else '%d-f' % case['k'], hybrid=False)
    n = f.num.basis
    clock = [0, []]
    A, ra = leaf(['M', [n, n], case['kind'], ['a', 'b'], 'csr'], 1, M, elems, clock, case['seed'])
    D, rd = leaf(['M', [n, n], 'const', [], 'csc'], 2, M, elems, clock, case['seed'])
    v, rv = leaf(['V', [n, 1], case['vk'], ['a', 'b']], 3, M, elems, clock, case['seed'])
    A.gathering_matrices = (f, f)
    v.gathering_matrix = f
    tag(case['op'] + ' ' + case['kind'] + ' ' + case['vk'])
    for r in case['rows']:
        r = r % f.num.global_dofs
        if case['op'] == 'identify':
            A.customize.identify_global_row(r)
        elif case['op'] == 'set':
            A.customize.set_assembled_M_ij_to(r, r, 7)
        else:
            A.customize.clear_global_row(r)
        v.customize.set_assembled_V_i_to(r, 2.5)
    a = dict((e, A[e].toarray()) for e in elems)
    b = dict((e, v[e].toarray()) for e in elems)
    if case['op'] != 'set':
        ch = sum(not np.array_equal(a[e], ra(e)) for e in elems)
        ensure(fm.allsum(ch) >= 1, 'a customization has no effect')
    X = {'A*2': (A * 2, lambda e: 2 * a[e]), 'A/2': (A / 2, lambda e: a[e] / 2), '-A': (-A, lambda e: -a[e]),
         'A.T': (A.T, lambda e: a[e].T), 'A+D': (A + D, lambda e: a[e] + rd(e)), 'D-A': (D - A, lambda e: rd(e) - a[e]),
         'A@D': (A @ D, lambda e: a[e] @ rd(e)), 'sum': (D.___PRIVATE_sum___([A, D]), lambda e: a[e] + 2 * rd(e)),
         'A@v': (A @ v, lambda e: a[e] @ b[e]), 'D@v': (D @ v, lambda e: rd(e) @ b[e]), '-v': (-v, lambda e: -b[e]),
         'v*2': (v * 2, lambda e: 2 * b[e]), 'v+v': (v + v, lambda e: 2 * b[e]),
         '(A.T*2)@A': ((A.T * 2) @ A, lambda e: 2 * a[e].T @ a[e])}
    k = case['rot'] % max(1, len(elems))
    for e in elems[k:] + elems[:k]:
        for t in sorted(X):
            same(X[t][0][e], X[t][1](e), '%s (customized operand) in element %d' % (t, e), 'M')
    A.customize.clear()
    for e in elems:
        same(A[e], ra(e), 'matrix after its customizations are cleared', 'M')
