# -*- coding: utf-8 -*-
"""P10: mass, inner-product, wedge and identity matrices of standard forms."""
from kit import facet, ensure, close, gclose, nontrivial, tag
import gens

RULE = ('case = structured mesh, one or two spaces, form degree/orientation; non-trivial: some degree above 1 or at '
        'least 2 elements')
P = 'P10'
AFF = ('cuboid', 'cuboid_periodic', 'rectangle', 'rectangle_periodic')


def gm(draw, st):
    nd = draw(st.sampled_from([2, 3]))
    if nd == 3:
        m = gens.min2_periodic(gens.mesh3(draw, st, nmax=2, max_elements=4))
        sp = gens.space(draw, st, 3, 3, 5)
        so = gens.space(draw, st, 3, 3, 5)
    else:
        m = gens.min2_periodic(gens.mesh2(draw, st, nmax=3, max_elements=9, smooth_only=True))
        sp = gens.space(draw, st, 2, 4, 6)
        so = gens.space(draw, st, 2, 4, 6)
    k = draw(st.integers(0, nd))
    return {'m': m, 'sp': sp, 'so': so, 'k': k, 'kind': draw(st.sampled_from(['inner', 'outer'])),
            'hyb': [draw(st.booleans()), draw(st.booleans())], 'seed': draw(st.integers(0, 60)),
            'edm': draw(st.sampled_from([None, None, 'chaotic']))}


def gw(draw, st):
    c = gm(draw, st)
    c['okind'] = draw(st.sampled_from(['inner', 'outer']))
    return c


def affine(m):
    return m['id'] in AFF or (m['id'].startswith('crazy') and m['kw'].get('c') == 0.)


@facet(P, 'inner', gm, np={1: 1, 2: 1}, quick={1: 90, 2: 50}, cost=0.5)
def inner(case):
    """mass and inner-product matrices are the L2 products of the pushed-forward bases"""
    import numpy as np
    import bld
    import fm
    import ref
    M, S, fc, nodes = fm.setup(case)
    nd = M.ndim
    k, kind, m = case['k'], case['kind'], case['m']
    p = [len(n) - 1 for n in nodes]
    nontrivial(max(p) > 1 or M.elements.global_num > 1)
    tag('%dd k=%d %s %s' % (nd, k, kind if nd == 2 else '', 'affine' if affine(m) else 'curved'))
    f = fm.form(fc, nd, k, kind, case['hyb'][0])
    S2 = bld.mk_space(case['so'])
    onodes = [ref.nodes1d(b) for b in case['so']]
    op = [len(n) - 1 for n in onodes]
    f2 = fm.form(bld.mk_fc(M, S2), nd, k, kind, case['hyb'][1])
    geo = ref.Geo(M)
    els = [int(_) for _ in M.elements]
    pm = max(p + op)
    nq = pm + (11 if nd == 3 else 16)
    qd = [nq - 1] * nd
    if affine(m):
        nq = pm + 2
        qd = [pm + 1] * nd
    rt = fm.tol(m, 1e-8, 2e-5)
    f.cochain.local = dict((e, fm.hval(np.arange(f.num.basis), e, case['seed'])) for e in M.elements)
    Mm = f.matrices.mass
    Ms = [Mm[e].toarray() for e in els]
    Mq = f.operators.inner(f, quad_degree=qd)
    Mo = f.operators.inner(f2, quad_degree=qd)
    Mt = f2.operators.inner(f, quad_degree=qd)
    Md = f.operators.inner(f2) if affine(m) else None
    If = f.matrices.identity
    extra = [Mq]
    if nd == 3:
        extra.append(f.operators.inner(f, quad_degree=[q + 1 for q in qd], quad_type='Lobatto'))
    for i, e in enumerate(els):
        R = ref.inner(geo, e, nodes, nodes, k, kind, nq)
        sc = float(np.max(np.abs(R)))
        # how far the oracle's own quadrature can be off
        qe = 0. if affine(m) else 20 * float(np.max(np.abs(R - ref.inner(geo, e, nodes, nodes, k, kind, nq - 2))))
        for X in extra:
            close(X[e], R, 'inner(self, self) of element %d' % e, 0, rt * sc + qe)
        A = Ms[i]
        ensure(A.shape == R.shape, 'shape of the mass matrix')
        close(A, A.T, 'symmetry of the mass matrix', 0, 1e-12 * sc)
        ensure(np.linalg.eigvalsh((A + A.T) / 2)[0] > 0, 'mass matrix of element %d is not positive definite' % e)
        if affine(m):
            close(A, R, 'mass matrix of element %d' % e, 0, 1e-11 * sc)
        else:
            low = ref.inner(geo, e, nodes, nodes, k, kind, [q + 1 for q in p])
            err = float(np.max(np.abs(A - R)))
            bound = 4 * float(np.max(np.abs(low - R))) + rt * sc + qe
            ensure(err <= bound, 'mass matrix of element %d is off by %.3e (a rule of degree p is off by %.3e)' % (
                e, err, bound / 4))
        close(np.asarray(Mm[e].toarray()), A, 'mass matrix asked again', 0, 0)
        R = ref.inner(geo, e, nodes, onodes, k, kind, nq)
        sc = float(np.max(np.abs(R)))
        qe = 0. if affine(m) else 20 * float(np.max(np.abs(R - ref.inner(geo, e, nodes, onodes, k, kind, nq - 2))))
        close(Mo[e], R, 'inner(self, other) of element %d' % e, 0, rt * sc + qe)
        close(Mt[e], R.T, 'inner(other, self) of element %d' % e, 0, rt * sc + qe)
        if Md is not None:
            close(Md[e], R, 'inner(self, other) with the default rule on an affine element', 0, 1e-11 * sc)
        close(If[e], np.eye(f.num.basis), 'identity matrix', 0, 0)


@facet(P, 'wedge', gw, np={1: 1}, quick={1: 60}, cost=0.2)
def wedge(case):
    """wedge matrices are metric-free integrals"""
    import numpy as np
    import bld
    import fm
    import ref
    M, S, fc, nodes = fm.setup(case)
    nd = M.ndim
    k, kind, ok = case['k'], case['kind'], case['okind']
    p = [len(n) - 1 for n in nodes]
    nontrivial(max(p) > 1 or M.elements.global_num > 1)
    if nd == 3:
        k = 1 if k in (1, 2) else 3
    elif k == 1:
        ok = 'outer' if kind == 'inner' else 'inner'
    tag('%dd %d^%d' % (nd, k, nd - k))
    f = fm.form(fc, nd, k, kind, case['hyb'][0])
    S2 = bld.mk_space(case['so'])
    onodes = [ref.nodes1d(b) for b in case['so']]
    op = [len(n) - 1 for n in onodes]
    f2 = fm.form(bld.mk_fc(M, S2), nd, nd - k, ok, case['hyb'][1])
    R = ref.wedge(nd, nodes, k, kind, onodes, nd - k, ok, max(p + op) + 2)
    sc = float(np.max(np.abs(R)))
    for kw in ({}, {'quad_degree': [max(p + op) + 2] * nd}):
        W = f.operators.wedge(f2, **kw)
        for e in M.elements:
            close(W[e], R, 'wedge matrix %d^%d %s' % (k, nd - k, kw), 0, 1e-11 * sc)
    if nd == 2:
        W = f2.operators.wedge(f)
        for e in M.elements:
            close(W[e], R.T, 'wedge matrix %d^%d' % (nd - k, k), 0, 1e-11 * sc)
    # the wedge pairing of reconstructions does not depend on the element: integrate it in physical space
    geo = ref.Geo(M)
    nq = max(p + op) + (8 if nd == 3 else 12)
    g, _ = ref.gauss(nq)
    _, w = ref.tgauss(nq, nd)
    for e in list(M.elements)[:2]:
        A, J = ref.pushed_basis(geo, e, nodes, k, kind, [g] * nd)
        B, _ = ref.pushed_basis(geo, e, onodes, nd - k, ok, [g] * nd)
        X = sum((b * (w * ref.det(J))) @ a.T for a, b in zip(A, B))
        W = f.operators.wedge(f2)
        if np.all(ref.det(J) > 0):
            close(W[e], X, 'wedge matrix and the physical integral in element %d' % e, 0, fm.tol(case['m'], 1e-7, 2e-5) * sc)
