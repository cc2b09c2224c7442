# -*- coding: utf-8 -*-
"""P01: quadrature rules and 1-d polynomial bases."""
from kit import facet, ensure, close, gclose, nontrivial, tag
import gens

RULE = ('case = quadrature category/degree tuple, or a 1-d basis with a history of evaluation point sets, '
        'or a tensor-product space; non-trivial: degree >= 2 (rules) / >= 2 evaluations of a basis with p >= 2')
P = 'P01'


def g_rule(draw, st):
    nd = draw(st.integers(1, 3))
    cat = [draw(st.sampled_from(['Gauss', 'Gauss', 'Lobatto', 'Lobatto', 'Chebyshev'])) for _ in range(nd)]
    p = [draw(st.integers(1 if c == 'Lobatto' else 0, 16 if nd == 1 else 6)) for c in cat]
    same = draw(st.booleans())
    if same:
        cat = [cat[0]] * nd
        p = [max(1, x) if cat[0] == 'Lobatto' else x for x in p]
    return {'p': p, 'cat': cat, 'str': bool(same), 'bare': bool(nd == 1 and draw(st.booleans())),
            'deg': [draw(st.integers(0, 40)) for _ in range(nd)], 'as': draw(st.sampled_from(['list', 'tuple']))}


def _moment(cat, k):
    """int x^k dx over [-1,1]; with weight 1/sqrt(1-x^2) for Chebyshev"""
    import math
    if k % 2:
        return 0.
    if cat == 'Chebyshev':
        m = k // 2
        return math.pi * math.comb(k, m) / 2. ** k
    return 2. / (k + 1)


@facet(P, 'rule', g_rule, quick=400, cost=0.01)
def rule(case):
    """exactness on monomials up to the guaranteed degree, ordering, positivity, tensor layout"""
    import numpy as np
    from components.quadrature import Quadrature
    p, cat = case['p'], case['cat']
    arg = p[0] if case['bare'] else (tuple(p) if case['as'] == 'tuple' else list(p))
    Q = Quadrature(arg, category=cat[0] if case['str'] else cat)
    nd = len(p)
    ensure(Q.ndim == nd, 'ndim')
    nodes, weights = Q.quad
    if nd == 1:
        nodes, weights = [nodes], [weights]
    ks = []
    for i in range(nd):
        x, w = np.asarray(nodes[i]), np.asarray(weights[i])
        ensure(x.shape == (p[i] + 1,) and w.shape == (p[i] + 1,), 'p+1 nodes and weights')
        ensure(np.all(np.diff(x) > 0) and x[0] >= -1 and x[-1] <= 1, 'nodes increasing inside [-1,1]')
        ensure(np.all(w > 0), 'weights positive')
        if cat[i] == 'Lobatto':
            ensure(x[0] == -1 and x[-1] == 1, 'Lobatto nodes include the ends')
        maxdeg = 2 * p[i] + 1 if cat[i] != 'Lobatto' else 2 * p[i] - 1
        for k in range(maxdeg + 1):
            close(np.sum(w * x ** k), _moment(cat[i], k), '%s p=%d moment %d' % (cat[i], p[i], k),
                  rtol=1e-11, atol=1e-11)
        close(x, -x[::-1], 'symmetric nodes', atol=1e-12)
        ks.append(case['deg'][i] % (maxdeg + 1))
    nontrivial(max(p) >= 2)
    qn = Q.quad_ndim
    qr = Q.quad_ndim_ravel
    ensure(len(qn) == nd + 1 and len(qr) == nd + 1, 'quad_ndim layout')
    if nd > 1:
        shp = tuple(x + 1 for x in p)
        val = 1.
        for i in range(nd):
            ensure(np.shape(qn[i]) == shp, 'nd node array shape')
            val = val * np.asarray(qn[i]) ** ks[i]
        exact = 1.
        for i in range(nd):
            exact *= _moment(cat[i], ks[i])
        close(np.sum(val * qn[-1]), exact, 'nd monomial %s' % ks, rtol=1e-10, atol=1e-10)
        for i in range(nd + 1):
            close(qr[i], np.asarray(qn[i]).ravel('F'), 'raveled layout', atol=1e-15)
        # weights in the ravel order belong to the nodes in the same order
        v = 1.
        for i in range(nd):
            v = v * np.asarray(qr[i]) ** ks[i]
        close(np.sum(v * qr[-1]), exact, 'raveled nd monomial', rtol=1e-10, atol=1e-10)
        for i in range(nd):
            sl = [0] * nd
            sl[i] = slice(None)
            close(np.asarray(qn[i])[tuple(sl)], nodes[i], 'axis order', atol=1e-15)
    # asking twice gives the same rule
    n2, w2 = Quadrature(arg, category=cat[0] if case['str'] else cat).quad
    close(np.concatenate(n2 if nd > 1 else [n2]), np.concatenate(nodes), 'repeatable', atol=0, rtol=0)


def g_basis(draw, st):
    b = draw(st.sampled_from(['L', 'L', 'free', 'Lstr', 'int']))
    if b == 'free':
        basis = ['free', gens.free_nodes(draw, st, 1, 6)]
    else:
        basis = [b, draw(st.integers(1, 9))]
    n = draw(st.integers(2, 5))
    hist = []
    for _ in range(n):
        op = draw(st.sampled_from(['new', 'new', 'same', 'inplace', 'perm', 'list', 'trash']))
        hist.append([op, [draw(st.integers(-32, 32)) / 32. for _ in range(draw(st.integers(1, 5)))],
                     draw(st.sampled_from(['node', 'edge', 'both']))])
    return {'basis': basis, 'hist': hist, 'c': [gens.coef(draw, st) for _ in range(10)]}


def _ref_lagrange(nodes, x):
    import numpy as np
    from numpy.polynomial import Polynomial
    out, der = [], []
    for i in range(len(nodes)):
        q = Polynomial([1.])
        for j in range(len(nodes)):
            if j != i:
                q = q * Polynomial([-nodes[j], 1.]) / (nodes[i] - nodes[j])
        out.append(q(x))
        der.append(q.deriv()(x) if len(nodes) > 1 else 0 * x)
    return np.array(out), np.array(der)


def mk_basis(b):
    from objects.CSCG.base.spaces._1d_basis.polynomials import _1dPolynomial
    if b[0] in ('L', 'Lobatto'):
        return _1dPolynomial('Lobatto', b[1])
    if b[0] == 'Lstr':
        return _1dPolynomial('Lobatto-%d' % b[1])
    if b[0] == 'int':
        return _1dPolynomial(b[1])
    return _1dPolynomial(list(b[1]))


@facet(P, 'basis', g_basis, quick=400, cost=0.02)
def basis(case):
    """Kronecker, edge integrals, exactness, and purity over a history of evaluations"""
    import numpy as np
    B = mk_basis(case['basis'])
    x_n = np.array(B.nodes, dtype=float)
    p = B.p
    ensure(len(x_n) == p + 1, 'degree')
    if case['basis'][0] == 'free':
        close(x_n, case['basis'][1], 'nodes kept', atol=0)
    else:
        ensure(p == case['basis'][1], 'requested degree')
    nontrivial(p >= 2 and len(case['hist']) >= 2)
    close(B.node_basis(x=x_n.copy()), np.eye(p + 1), 'Kronecker', atol=1e-9)
    g, w = np.polynomial.legendre.leggauss(p + 2)
    I = np.zeros((p, p))
    for j in range(p):
        a, b = x_n[j], x_n[j + 1]
        I[:, j] = B.edge_basis(x=a + (g + 1) / 2 * (b - a)) @ w * (b - a) / 2
    close(I, np.eye(p), 'edge functions integrate to a Kronecker delta', atol=1e-9)
    L, _ = _ref_lagrange(x_n, g)
    gclose(B.node_reference_mass_matrix, (L * w) @ L.T, 'node mass', rtol=1e-9)
    cur = np.array(case['hist'][0][1], dtype=float)
    c = np.array(case['c'][:p + 1] + [1.] * max(0, p + 1 - 10))
    for op, vals, what in case['hist']:
        tag(op)
        if op == 'new':
            cur = np.array(vals, dtype=float)
        elif op == 'perm':
            cur = cur[::-1].copy()
        elif op == 'inplace':
            cur[:len(vals)] = np.array(vals, dtype=float)[:len(cur)]
        arg = list(cur) if op == 'list' else cur
        keep = cur.copy()
        L, D = _ref_lagrange(x_n, cur)
        if what in ('node', 'both'):
            r = B.node_basis(x=arg)
            gclose(r, L, 'lagrange basis after %s' % op, rtol=1e-8)
            close(np.sum(r, 0), np.ones(len(cur)), 'partition of unity', atol=1e-9)
        if what in ('edge', 'both'):
            e = B.edge_basis(x=arg)
            # sum (c_{i+1}-c_i) e_i = derivative of the interpolant
            gclose(np.diff(c) @ e, c @ D, 'edge = derivative of nodal interpolant, after %s' % op, rtol=1e-7,
                   atol=1e-8)
        ensure(np.array_equal(cur, keep), 'evaluation modified its input')
        if op == 'trash':  # a caller scribbles over what it was given; the basis must not care
            B.node_basis(x=arg)[:] = 7.
            B.edge_basis(x=arg)[:] = 7.


def g_space(draw, st):
    nd = draw(st.sampled_from([2, 3]))
    sp = gens.space(draw, st, nd, pmax=4, total=8)
    same = draw(st.integers(0, 3)) == 0
    pts = [gens.points(draw, st, 4) for _ in range(nd)]
    if same:
        sp = [sp[0]] * nd
    return {'sp': sp, 'pts': pts, 'repeat': bool(same),
            'k': draw(st.integers(0, nd)), 'o': draw(st.sampled_from(['inner', 'outer'])),
            'inc': [draw(st.integers(0, 2)) for _ in range(nd)]}


@facet(P, 'space', g_space, quick=250, cost=0.03)
def space(case):
    """tensor-product form bases equal the products of independent 1-d bases, in the documented order"""
    import numpy as np
    from bld import mk_space
    nd, k = len(case['sp']), case['k']
    S = mk_space(case['sp'], repeat=case['repeat'])
    P_ = list(S.p)
    for i, b in enumerate(case['sp']):
        ensure(P_[i] == (b[1] if b[0] == 'Lobatto' else len(b[1]) - 1), 'degree per axis')
    nontrivial(max(P_) >= 2 and len(set(P_)) > 1 or case['repeat'])
    N, E = [], []
    for i in range(nd):
        x = np.array(case['pts'][i])
        nodes = np.asarray(S.nodes[i], dtype=float)
        L, D = _ref_lagrange(nodes, x)
        e = -np.cumsum(D, axis=0)[:-1]
        N.append(L)
        E.append(e)
    pts = [np.array(_) for _ in case['pts']]
    kw = {} if nd == 3 else {'orientation': case['o']}
    grid, bs = S.do.evaluate_form_basis_at_meshgrid(k, *pts, **kw)
    mg = np.meshgrid(*pts, indexing='ij')
    for i in range(nd):
        close(grid[i], mg[i].ravel('F'), 'grid order', atol=0)
    if k == 0:
        pat = ['N' * nd]
    elif k == nd:
        pat = ['E' * nd]
    elif nd == 2:
        pat = ['EN', 'NE'] if case['o'] == 'inner' else ['NE', 'EN']
    elif k == 1:
        pat = ['ENN', 'NEN', 'NNE']
    else:
        pat = ['NEE', 'ENE', 'EEN']
    ensure(len(bs) == len(pat), 'component count')
    for comp, pt in zip(bs, pat):
        M = None
        for i in range(nd):
            T = N[i] if pt[i] == 'N' else E[i]
            M = T if M is None else np.kron(T, M)
        gclose(comp, M, 'basis component %s' % pt, rtol=1e-8)
    nb = sum(int(np.prod([P_[i] + (1 if c == 'N' else 0) for i, c in enumerate(pt)])) for pt in pat)
    ensure(sum(c.shape[0] for c in bs) == nb, 'number of basis functions')
    if all(b[0] == 'Lobatto' for b in case['sp']):
        R = S.do.refine(tuple(case['inc']))
        W = mk_space([['Lobatto', P_[i] + case['inc'][i]] for i in range(nd)])
        ensure(list(R.p) == list(W.p), 'degrees of the refined space: %s expected %s' % (R.p, W.p))
        for a, b in zip(R.nodes, W.nodes):
            close(a, b, 'nodes of the refined space', 0, 0)
        ensure(list(S.p) == P_, 'refinement changed the space')
