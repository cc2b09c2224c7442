# -*- coding: utf-8 -*-
"""P15: special trilinear operators, projections and vortex detection."""
from kit import facet, ensure, close, gclose, nontrivial, tag
import gens

RULE = ('case = structured mesh, up to three spaces, operator, output kinds, cochain history; non-trivial: at least 2 '
        'elements or some degree above 1')
P = 'P15'

# method, degree of self, degree of u, degree of e, outputs
OPS3 = [('cross_product_1f__ip_1f', 1, 1, 1, ['2-M-1', '2-M-0']),
        ('cross_product_2f__ip_2f', 1, 2, 2, ['2-M-1', '2-M-0', 'MDM']),
        ('cross_product_2f__ip_2f', 2, 2, 2, ['2-M-1', '2-M-0', 'MDM', 'cache']),
        ('cross_product_2f__ip_1f', 2, 2, 1, ['2-M-1', 'MDM']),
        ('cross_product_1f__ip_2f', 2, 1, 2, ['2-M-1', '2-M-0', 'MDM']),
        ('curl_self_cross_product_self__ip_2f', 1, 1, 2, ['e'])]
# kind of all forms
OPS2 = [('outer', 0, ['2-M-1', '2-M-0', 'MDM']), ('inner', 0, ['2-M-1']), ('inner', 2, ['2-M-1'])]


def _hist(draw, st, outs):
    """history: create an output, set a cochain of an operand, look at everything created so far"""
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        o = draw(st.sampled_from(['make', 'make', 'set', 'look']))
        if o == 'make':
            ops.append(['make', draw(st.sampled_from(outs))])
        elif o == 'set':
            ops.append(['set', draw(st.integers(0, 2)), draw(st.integers(0, 60))])
        else:
            ops.append(['look'])
    return [['make', draw(st.sampled_from(outs))]] + ops + [['look']]


def g3(draw, st):
    m = gens.min2_periodic(gens.mesh3(draw, st, nmax=2, max_elements=4))
    op = draw(st.integers(0, len(OPS3) - 1))
    tot = 4
    return {'m': m, 'op': op, 'sps': [gens.space(draw, st, 3, 2, tot) for _ in range(3)],
            'same': draw(st.sampled_from(['diff', 'space', 'uu', 'all'])),
            'hyb': draw(st.booleans()), 'edm': draw(st.sampled_from([None, None, 'chaotic'])),
            'seeds': [draw(st.integers(0, 60)) for _ in range(3)], 'hist': _hist(draw, st, OPS3[op][4]),
            'qd': draw(st.integers(0, 2))}


def g2(draw, st):
    m = gens.min2_periodic(gens.mesh2(draw, st, nmax=3, max_elements=6, smooth_only=True))
    op = draw(st.integers(0, len(OPS2) - 1))
    return {'m': m, 'op': op, 'sps': [gens.space(draw, st, 2, 3, 6) for _ in range(3)],
            'same': draw(st.sampled_from(['diff', 'space', 'uu', 'all'])),
            'hyb': draw(st.booleans()), 'edm': draw(st.sampled_from([None, None, 'chaotic'])),
            'seeds': [draw(st.integers(0, 60)) for _ in range(3)], 'hist': _hist(draw, st, OPS2[op][2]),
            'qd': draw(st.integers(0, 2))}


def gcurl(draw, st):
    m = gens.min2_periodic(gens.mesh3(draw, st, ids=['crazy', 'cuboid'], nmax=2, max_elements=4, cmax=0.))
    return {'m': m, 'sps': [gens.space(draw, st, 3, 2, 4) for _ in range(3)],
            'same': draw(st.sampled_from(['diff', 'space'])),
            'hyb': draw(st.booleans()), 'edm': None,
            'seeds': [draw(st.integers(0, 60)) for _ in range(3)],
            'hist': _hist(draw, st, ['2-M-1', '2-M-0', 'MDM']), 'again': draw(st.booleans())}


def gre(draw, st):
    """rounds of the same question, each with one operand replaced by a new form (if possible at its address)"""
    return {'op': draw(st.sampled_from(['cross_product_2f__ip_1f', 'inner_curl__cross_product_2f'])),
            'c': draw(st.sampled_from([0., 0., 0.1])),
            'rounds': draw(st.lists(st.tuples(st.integers(0, 2), st.integers(1, 2)), min_size=2, max_size=4)),
            'seed': draw(st.integers(0, 60))}


def gv(draw, st):
    m = gens.min2_periodic(gens.mesh3(draw, st, nmax=2, max_elements=6))
    return {'m': m, 'sp': gens.space(draw, st, 3, 3, 7), 'k': draw(st.integers(1, 2)),
            'hyb': draw(st.booleans()), 'edm': draw(st.sampled_from([None, None, 'chaotic'])),
            'g': [gens.points(draw, st) for _ in range(3)], 'seed': [draw(st.integers(0, 60)) for _ in range(2)]}


def _forms(case, nd, ks, kind):
    """the three operands; 'same' decides what they share"""
    import bld
    import fm
    import ref
    M = bld.mk_mesh(case['m'], case.get('edm'))
    if case['same'] == 'diff':
        sps = case['sps']
    else:
        sps = [case['sps'][0]] * 3
    fcs = [bld.mk_fc(M, bld.mk_space(s)) for s in sps] if case['same'] == 'diff' \
        else [bld.mk_fc(M, bld.mk_space(sps[0]))] * 3
    F = [fm.form(fcs[i], nd, ks[i], kind, case['hyb']) for i in range(3)]
    if case['same'] in ('uu', 'all') and ks[1] == ks[2]:
        F[2] = F[1]
    if case['same'] == 'all' and ks[0] == ks[1]:
        F[1] = F[0]
        if ks[2] == ks[0]:
            F[2] = F[0]
    return M, F, [[ref.nodes1d(b) for b in s] for s in sps], sps


def _set(f, seed):
    import fm
    fm.rand_cochain(f, seed)


def _tensor(W, B):
    """reference tensor of int (w x u) . e from pushed bases"""
    import numpy as np
    w, u, e = B
    if len(w) == 1:   # 2d: w k x (u0, u1) = (-w u1, w u0)
        ew = lambda a, b, c: np.einsum('il,jl,kl->ijk', a * W, b, c, optimize=True)
        return -ew(w[0], u[1], e[0]) + ew(w[0], u[0], e[1])
    T = 0
    for a, b, c in ((1, 2, 0), (2, 0, 1), (0, 1, 2)):
        T = T + np.einsum('il,jl,kl->ijk', w[a] * W, u[b], e[c], optimize=True) \
            - np.einsum('il,jl,kl->ijk', w[b] * W, u[a], e[c], optimize=True)
    return T


def _history(case, call, F, T, els, tolv, curlself=False):
    """T[i] reference tensors of the local elements"""
    import numpy as np
    made = []
    cache = {}
    for f, s in zip(F, case['seeds']):
        _set(f, s)

    def look():
        L = [f.cochain.local for f in F]
        for kind, R in made:
            for i, e in enumerate(els):
                t = T[i]
                w, u = np.asarray(L[0][e]), np.asarray(L[1][e])
                if kind == '2-M-1':
                    got, ref_ = R[e].toarray(), np.einsum('ijk,i->kj', t, w)
                elif kind in ('2-M-0', 'cache'):
                    got, ref_ = R[e].toarray(), np.einsum('ijk,j->ki', t, u)
                elif kind == 'e':
                    got, ref_ = R[e].toarray().ravel(), np.einsum('ijk,i,j->k', t, w, w)
                else:
                    got, ref_ = np.asarray(R[e]), t
                close(got, ref_, '%s of element %d is not the integral of the products' % (kind, e), rtol=0,
                      atol=tolv[i])

    for o in case['hist']:
        if o[0] == 'make':
            made.append([o[1], call(o[1], cache)])
        elif o[0] == 'set':
            _set(F[o[1]], o[2])
        else:
            look()


def _run(case, nd, meth, ks, kind, curlself=False):
    import numpy as np
    import fm
    import ref
    M, F, nodes, sps = _forms(case, nd, ks, kind)
    if case['same'] == 'diff' and F[0].space is F[1].space:
        pass
    p = [[len(n) - 1 for n in N] for N in nodes]
    nontrivial(M.elements.global_num > 1 or max(map(max, p)) > 1)
    els = [int(_) for _ in M.elements]
    geo = ref.Geo(M)
    sm = [sum(p[j][a] for j in range(3)) for a in range(nd)]
    aff = case['m']['id'] in ('cuboid', 'cuboid_periodic', 'rectangle', 'rectangle_periodic') or \
        (case['m']['id'].startswith('crazy') and case['m']['kw'].get('c') == 0.)
    tag('affine' if aff else 'curved')
    nq = max(sm) // 2 + 2 + (0 if aff else 5 if nd == 3 else 9)
    qd = [nq - 1 + case['qd']] * nd

    def ten(e, n):
        g, _ = ref.gauss(n)
        _, w = ref.tgauss(n, nd)
        grids = [g] * nd
        B = []
        for j in range(3):
            b, J = ref.pushed_basis(geo, e, nodes[j], ks[j], kind, grids)
            B.append(b)
        if curlself:
            # degree 1 form of space 0, its curl is a degree 2 form: columns of the incidence matrix
            from props import P08
            D = P08.ref_incidence(3, p[0], 1, '')
            c2, J = ref.pushed_basis(geo, e, nodes[0], 2, kind, grids)
            D = np.asarray(D)
            B[0] = [D.T @ c for c in c2]
        return _tensor(w * np.abs(ref.det(J)), B)
    T, tolv = [], []
    for e in els:
        t = ten(e, nq)
        sc = float(np.max(np.abs(t)))
        qe = 0. if aff else 20 * float(np.max(np.abs(t - ten(e, nq - 2))))
        n = t.shape[0] * t.shape[1]
        T.append(t)
        tolv.append((qe + fm.tol(case['m'], 1e-8, 2e-5) * sc) * (n if curlself else max(t.shape)))
    f = F[0]
    if curlself:
        call = lambda o, cache: f.special.curl_self_cross_product_self__ip_2f(F[2], quad_degree=qd)
    else:
        def call(o, cache):
            fun = getattr(f.special, meth)
            if o == 'cache':
                mdm = fun(F[1], F[2], quad_degree=qd, output='MDM')
                c = {'3D_matrix': dict((e, np.array(mdm[e])) for e in M.elements)}
                return fun(F[1], F[2], output='2-M-0', cache=c)
            return fun(F[1], F[2], quad_degree=qd, output=o)
    if curlself:
        F = [F[0], F[0], F[2]]
    _history(case, call, F, T, els, tolv, curlself)


@facet(P, 'three', g3, np={1: 3, 2: 2}, quick={1: 70, 2: 30}, cost=0.35)
def three(case):
    """3d cross-product operators are the integrals of the products of the reconstructed forms"""
    meth, k0, k1, k2, _ = OPS3[case['op']]
    tag('%d-f %s' % (k0, meth))
    _run(case, 3, meth, [k0, k1, k2], '', meth.startswith('curl_self'))


@facet(P, 'two', g2, np={1: 1, 2: 1}, quick={1: 50, 2: 30}, cost=0.2)
def two(case):
    """2d cross-product operators are the integrals of the products of the reconstructed forms"""
    kind, k0, _ = OPS2[case['op']]
    tag('%d-f-%s' % (k0, kind))
    _run(case, 2, 'cross_product_1f__ip_1f', [k0, 1, 1], kind)


@facet(P, 'curl', gcurl, np={1: 1, 2: 1}, quick={1: 25, 2: 10}, cost=0.5)
def curl(case):
    """(curl(self x B), b) on orthogonal elements, for the operands given now (not for earlier ones)"""
    import numpy as np
    import ref
    M, F, nodes, sps = _forms(case, 3, [2, 2, 2], '')
    p = [[len(n) - 1 for n in N] for N in nodes]
    nontrivial(M.elements.global_num > 1 or max(map(max, p)) > 1)
    if case['again']:
        # the same question about other operands before
        M0, G, _, _ = _forms(dict(case, sps=[[['Lobatto', 1]] * 3] * 3), 3, [2, 2, 2], '')
        for i, f in enumerate(G):
            _set(f, i)
        G[0].special.inner_curl__cross_product_2f(G[1], G[2], output='2-M-1')
        del G, M0
    els = [int(_) for _ in M.elements]
    geo = ref.Geo(M)
    n = max(max(x) for x in p) * 3 // 2 + 3
    T, tolv = [], []
    for e in els:
        g, _ = ref.gauss(n)
        _, w = ref.tgauss(n, 3)
        B = []
        for j in range(3):
            b, J = ref.pushed_basis(geo, e, nodes[j], 2, '', [g] * 3)
            B.append(b)
        t = _curl_tensor(B, w * np.abs(ref.det(J)), ref.inv(J), g)
        T.append(t)
        tolv.append(1e-8 * float(np.max(np.abs(t)) + 1) * max(t.shape))

    def call(o, cache):
        return F[0].special.inner_curl__cross_product_2f(F[1], F[2], output=o)
    _history(case, call, F, T, els, tolv)


@facet(P, 'reuse', gre, np={1: 1}, quick={1: 6}, cost=3)
def reuse(case):
    """the operator of the forms given now, whatever forms (perhaps at the same address) were given before"""
    import gc
    import numpy as np
    import bld
    import fm
    import ref
    nontrivial(len(set(map(tuple, case['rounds']))) > 1)
    tag(case['op'])
    k = 1 if case['op'].endswith('1f') else 2
    M = bld.mk_mesh({'id': 'crazy', 'kw': {'c': case['c'] if k == 1 else 0.}, 'lay': [1, 1, 1]}, None)
    sps = [None] + [[['Lobatto', p], ['Lobatto', 1], ['Lobatto', 1]] for p in (1, 2)]
    fcs = [None] + [bld.mk_fc(M, bld.mk_space(s)) for s in sps[1:]]
    deg = [1, 1, 1]
    ks = [2, 2, k]
    F = [fcs[1]('%d-f' % q, hybrid=False) for q in ks]
    geo = ref.Geo(M)
    g, _ = ref.gauss(5)
    _, w = ref.tgauss(5, 3)
    again = 0
    for r, (j, p) in enumerate([(0, 1)] + case['rounds']):
        if r:
            # the old operand goes; try to get the new one at an address the library has seen
            F[j] = None
            for _ in range(5):
                F[j] = fcs[3 - p]('%d-f' % ks[j], hybrid=False)
                _set(F[0], 0)
                R = getattr(F[0].special, case['op'])(F[1], F[2], quad_degree=[4, 4, 4], output='2-M-1')
                old = id(F[j])
                R = F[j] = None
                gc.collect()
                pool = []
                for _ in range(3):
                    pool.append(fcs[p]('%d-f' % ks[j], hybrid=False))
                    if id(pool[-1]) == old:
                        break
                F[j] = pool[-1]
                del pool
                if id(F[j]) == old:
                    again += 1
                    break
            deg[j] = p
        _set(F[0], case['seed'] + r)
        R = getattr(F[0].special, case['op'])(F[1], F[2], quad_degree=[4, 4, 4], output='2-M-1')
        B = []
        for i in range(3):
            b, J = ref.pushed_basis(geo, 0, [ref.nodes1d(x) for x in sps[deg[i]]], ks[i], '', [g] * 3)
            B.append(b)
        W = w * np.abs(ref.det(J))
        if k == 1:
            T = _tensor(W, B)
        else:
            T = _curl_tensor(B, W, ref.inv(J), g)
        exp = np.einsum('ijk,i->kj', T, F[0].cochain.local[0])
        close(R[0].toarray(), exp, 'round %d: matrix of the current forms' % r, rtol=1e-7,
              atol=1e-8 * (1 + np.max(np.abs(exp))))
        R = None
    tag('address reused' if again else 'no address reused')


def _curl_tensor(B, W, iJ, g):
    """int curl(w x B) . b on an affine element"""
    import numpy as np
    import ref
    D1 = ref.dlag(g, g).T      # (point, node)
    N = len(g)

    def pd(a, i):
        """physical derivative on axis i (affine element)"""
        r = 0
        A = a.reshape(a.shape[:-1] + (N, N, N))   # axes: sigma, eta, xi ('F' flattening)
        for q in range(3):
            if np.max(np.abs(iJ[q, i])) < 1e-13:
                continue
            d = np.moveaxis(np.tensordot(A, D1, axes=([A.ndim - 1 - q], [1])), -1, A.ndim - 1 - q)
            r = r + d.reshape(a.shape) * iJ[q, i]
        return r
    C = []
    for a, b in ((1, 2), (2, 0), (0, 1)):
        C.append(B[0][a][:, None, :] * B[1][b][None] - B[0][b][:, None, :] * B[1][a][None])
    K = [pd(C[2], 1) - pd(C[1], 2), pd(C[0], 2) - pd(C[2], 0), pd(C[1], 0) - pd(C[0], 1)]
    return sum(np.einsum('ijl,kl->ijk', K[c] * W, B[2][c], optimize=True) for c in range(3))


@facet(P, 'derived', gv, np={1: 2, 2: 1}, quick={1: 40, 2: 20}, cost=0.2)
def derived(case):
    """projections to 0-forms / a 2-form and the vortex indicators Q and lambda_2 of the projected field"""
    import numpy as np
    import fm
    import ref
    M, S, fc, nodes = fm.setup(case)
    k = case['k']
    p = [len(n) - 1 for n in nodes]
    nontrivial(M.elements.global_num > 1 or max(p) > 1)
    tag('%d-form' % k)
    f = fm.form(fc, 3, k, '', case['hyb'])
    geo = ref.Geo(M)
    els = [int(_) for _ in M.elements]
    rt = fm.tol(case['m'], 1e-8, 5e-5)
    for rnd, seed in enumerate(case['seed']):
        _set(f, seed)
        comps = f.projection.to.vector_of_3_standard_0forms()
        g = case['g']
        xyz, Q, L2 = f.special.vortex_detection.Q_and_lambda2(*g)
        for e in els:
            _, V = ref.reconstruct(geo, e, nodes, k, "", np.asarray(f.cochain.local[e]), nodes)
            sc = 1 + max(np.max(np.abs(v)) for v in V)
            for c in range(3):
                close(comps[c].cochain.local[e], V[c], 'projected 0-form %d of element %d' % (c, e), rtol=0,
                      atol=rt * sc)
            x, J = geo.ev(e, g)
            iJ = ref.inv(J)
            G = np.zeros((3, 3) + J.shape[2:])
            h = [ref.lag(n, y) for n, y in zip(nodes, g)]
            d = [ref.dlag(n, y) for n, y in zip(nodes, g)]
            for c in range(3):
                A = np.asarray(V[c]).reshape([len(n) for n in nodes], order='F')
                dr = []
                for q in range(3):
                    b = [d[a] if a == q else h[a] for a in range(3)]
                    dr.append(np.einsum('ijk,ia,jb,kc->abc', A, *b).ravel('F'))
                for i in range(3):
                    G[c, i] = sum(dr[q] * iJ[q, i] for q in range(3))
            G = np.moveaxis(G, -1, 0)
            Ss, O = (G + np.swapaxes(G, 1, 2)) / 2, (G - np.swapaxes(G, 1, 2)) / 2
            T = Ss @ Ss + O @ O
            s2 = 1 + float(np.max(np.abs(G))) ** 2
            close(np.asarray(xyz[e][1]).ravel('F'), x[1], 'coordinates of the vortex data', rtol=rt, atol=rt)
            close(np.asarray(Q[e]).ravel('F'), -0.5 * np.trace(T, axis1=1, axis2=2), 'Q of element %d' % e, rtol=0,
                  atol=rt * s2 * 10)
            close(np.asarray(L2[e]).ravel('F'), np.linalg.eigvalsh(T)[:, 1], 'lambda_2 of element %d' % e, rtol=0,
                  atol=rt * s2 * 10)
        if k == 1:
            f2 = f.projection.to.standard_2form()
            ensure(f2.whether.hybrid == f.whether.hybrid and f2.orientation == f.orientation and f2.mesh is f.mesh,
                   'projected 2-form changed hybridity, orientation or mesh')
            n2 = [ref.nodes1d(['Lobatto', q + 1]) for q in p]
            ensure(list(f2.space.p) == [q + 1 for q in p], 'degrees of the projected 2-form: %s' % (f2.space.p,))
            aff = case['m']['id'] in ('cuboid', 'cuboid_periodic') or \
                (case['m']['id'].startswith('crazy') and case['m']['kw'].get('c') == 0.)
            nq = max(p) + 3 + (0 if aff else 6)
            for e in els:
                def rhs(nq):
                    gg, _ = ref.gauss(nq)
                    _, w = ref.tgauss(nq, 3)
                    B2, J = ref.pushed_basis(geo, e, n2, 2, '', [gg] * 3)
                    B1, _ = ref.pushed_basis(geo, e, nodes, 1, '', [gg] * 3)
                    c1, c2 = np.asarray(f.cochain.local[e]), np.asarray(f2.cochain.local[e])
                    W = w * np.abs(ref.det(J))
                    u1 = [c1 @ b for b in B1]
                    u2 = [c2 @ b for b in B2]
                    return (sum(b @ (W * a) for b, a in zip(B2, u1)), sum(b @ (W * a) for b, a in zip(B2, u2)),
                            max(float(np.max(np.abs(a - b))) for a, b in zip(u1, u2)),
                            max(float(np.max(np.abs(a))) for a in u1))
                a, b, gap, sc = rhs(nq)
                if aff:
                    ensure(gap <= 1e-7 * (1 + sc), 'projection to a 2-form is not exact on an affine element: %.3g' % gap)
                else:
                    # the library integrates with its own quadrature: compare loosely, adaptively
                    a2, b2, _, _ = rhs(max(p) + 2)
                    tol_ = 20 * float(np.max(np.abs(b2 - b))) + rt * (1 + float(np.max(np.abs(a)))) * 10 \
                        + 20 * float(np.max(np.abs(a2 - a)))
                    close(b, a, 'projected 2-form is not the L2 projection in element %d' % e, rtol=0, atol=tol_)
