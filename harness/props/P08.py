# -*- coding: utf-8 -*-
"""P08: incidence matrices, coboundary and the commuting diagram."""
from kit import facet, ensure, close, gclose, nontrivial, tag
import gens

RULE = ('case = structured mesh, space, form degree and orientation, hybrid flag, cochain seed or analytic field and time; '
        'non-trivial: some degree above 1 or at least 2 elements')
P = 'P08'


def _spec(draw, st, nd):
    return ['smooth', gens.smooth(draw, st, nd), draw(st.sampled_from([0., 1., -0.5]))]


def gx(draw, st):
    nd = draw(st.sampled_from([2, 3]))
    if nd == 3:
        m = gens.min2_periodic(gens.mesh3(draw, st, nmax=3, max_elements=10))
        sp = gens.space(draw, st, 3, 4, 7)
    else:
        m = gens.min2_periodic(gens.mesh2(draw, st, nmax=3, max_elements=16))
        sp = gens.space(draw, st, 2, 5, 8)
    return {'m': m, 'sp': sp, 'k': draw(st.integers(0, nd - 1)), 'kind': draw(st.sampled_from(['inner', 'outer'])),
            'hyb': draw(st.booleans()), 'seed': draw(st.integers(0, 50)), 'again': draw(st.booleans()),
            'edm': draw(st.sampled_from([None, None, 'debug', 'chaotic']))}


def gc(draw, st):
    nd = draw(st.sampled_from([2, 2, 3]))
    if nd == 3:
        m = gens.mesh3(draw, st, nmax=2, max_elements=4)
        sp = gens.space(draw, st, 3, 3, 6)
    else:
        m = gens.mesh2(draw, st, nmax=3, max_elements=9, smooth_only=True)
        sp = gens.space(draw, st, 2, 4, 6)
    k = draw(st.integers(0, nd - 1))
    nc = 1 if k == 0 else nd
    return {'m': m, 'sp': sp, 'k': k, 'kind': draw(st.sampled_from(['inner', 'outer'])),
            'hyb': draw(st.booleans()), 'u': [_spec(draw, st, nd) for _ in range(nc)],
            't': [gens.dyadic(draw, st, -1, 2, 4) for _ in range(2)]}


def ref_incidence(nd, p, k, kind):
    import numpy as np
    import topo
    A = topo.comp_shapes(nd, p, k, kind)
    B = topo.comp_shapes(nd, p, k + 1, kind)
    if nd == 3:
        S = {0: [[(0, 1)], [(1, 1)], [(2, 1)]],
             1: [[None, (2, -1), (1, 1)], [(2, 1), None, (0, -1)], [(1, -1), (0, 1), None]],
             2: [[(0, 1), (1, 1), (2, 1)]]}[k]
    elif kind == 'inner':
        S = {0: [[(0, 1)], [(1, 1)]], 1: [[(1, -1), (0, 1)]]}[k]
    else:
        S = {0: [[(1, 1)], [(0, -1)]], 1: [[(0, 1), (1, 1)]]}[k]
    rows = []
    for i, (sb, fb) in enumerate(B):
        row = []
        for j, (sa, fa) in enumerate(A):
            if S[i][j] is None:
                row.append(np.zeros((int(np.prod(sb)), int(np.prod(sa)))))
                continue
            ax, sg = S[i][j]
            t = np.ones((1, 1))
            for a in range(nd):
                if a == ax:
                    D = np.zeros((p[a], p[a] + 1))
                    for q in range(p[a]):
                        D[q, q], D[q, q + 1] = -1, 1
                else:
                    D = np.eye(sa[a])
                t = np.kron(D, t)
            row.append(sg * t)
        rows.append(np.hstack(row))
    return np.vstack(rows)


@facet(P, 'complex', gx, np={1: 1, 3: 1}, quick={1: 60, 3: 50}, cost=0.12)
def complex_(case):
    """entries, E E = 0, exactness, coboundary forms, continuity of the coboundary"""
    import numpy as np
    import bld
    import fm
    import topo
    M, S, fc, nodes = fm.setup(case)
    nd = M.ndim
    p = bld.degrees(case['sp'])
    k, kind, hyb = case['k'], case['kind'], case['hyb']
    nontrivial(max(p) > 1 or M.elements.global_num > 1)
    tag('%dd k=%d %s' % (nd, k, 'hybrid' if hyb else 'conforming'))
    f = fm.form(fc, nd, k, kind, hyb)
    R = ref_incidence(nd, p, k, kind)
    E = f.matrices.incidence
    E2 = f.coboundary.incidence_matrix
    for e in M.elements:
        for X, nm in ((E, 'matrices.incidence'), (E2, 'coboundary.incidence_matrix')):
            close(X[e], R, '%s of element %d' % (nm, e), rtol=0, atol=0)
    G = f.numbering.gathering
    if hyb:
        fm.rand_cochain(f, case['seed'])
    else:
        f.cochain.local = dict((e, fm.hval(np.array([int(_) for _ in G[e]]), 3, case['seed'])) for e in M.elements)
    c0 = dict((e, np.array(f.cochain.local[e])) for e in M.elements)
    cl = f.coboundary.cochain_local
    g = f.coboundary()
    ensure(g.k == k + 1 and g.ndim == nd, 'the coboundary of a %d-form is a %s-form' % (k, g.k))
    ensure(g.mesh is f.mesh and g.space is f.space, 'coboundary lives on another mesh or space')
    ensure(bool(g.whether.hybrid) == bool(hyb), 'coboundary of a form with hybrid=%s has hybrid=%s' % (
        hyb, g.whether.hybrid))
    if nd == 2:
        ensure(g.orientation == f.orientation, 'orientation of the coboundary')
    for e in M.elements:
        close(cl[e], R @ c0[e], 'coboundary.cochain_local', rtol=1e-13, atol=1e-13)
        close(g.cochain.local[e], R @ c0[e], 'cochain of the coboundary form', rtol=1e-13, atol=1e-13)
        close(f.cochain.local[e], c0[e], 'cochain of the operand after coboundary', rtol=0, atol=0)
    if k + 1 < nd:
        h = g.coboundary()
        E1 = g.matrices.incidence
        for e in M.elements:
            close(h.cochain.local[e], np.zeros(h.num.basis), 'd(d f)', rtol=0, atol=1e-12)
            close(E1[e] @ E[e], np.zeros((h.num.basis, f.num.basis)), 'E(k+1)E(k)', rtol=0, atol=0)
            close(E1[e], ref_incidence(nd, p, k + 1, kind), 'incidence of the coboundary', rtol=0, atol=0)
        if R.shape[1] < 200:
            ker = E1[list(M.elements)[0]].toarray() if len(list(M.elements)) else None
            if ker is not None:
                rk = np.linalg.matrix_rank
                ensure(rk(E[list(M.elements)[0]].toarray()) + rk(ker) == g.num.basis, 'the local complex is not exact')
    GG = g.numbering.gathering
    loc = []
    for e in M.elements:
        for n, v in zip(GG[e], g.cochain.local[e]):
            loc.append((int(n), float(v)))
    from root.config.main import COMM
    val = {}
    for L in COMM.allgather(loc):
        for n, v in L:
            if n in val:
                ensure(not hyb, 'hybrid coboundary has a shared dof')
                ensure(abs(val[n] - v) < 1e-12, 'coboundary of a continuous form is not continuous: dof %d has %r and %r'
                       % (n, val[n], v))
            else:
                val[n] = v
    if case['again']:
        # the coboundary follows a changed cochain
        f.cochain.local = dict((e, 2. * c0[e] + 1.) for e in M.elements)
        cl = f.coboundary.cochain_local
        g2 = f.coboundary()
        for e in M.elements:
            close(cl[e], R @ (2 * c0[e] + 1.), 'coboundary after the cochain changed', rtol=1e-13, atol=1e-12)
            close(g2.cochain.local[e], cl[e], 'coboundary form after the cochain changed', rtol=0, atol=0)
            close(g.cochain.local[e], R @ c0[e], 'earlier coboundary form', rtol=1e-13, atol=1e-13)


def hq(nd, k, m, sp):
    """a quadrature degree that resolves smooth fields on curved elements, per axis"""
    import bld
    return [max(9, 20 - 2 * q) if nd == 3 else max(12, 22 - 2 * q) for q in bld.degrees(sp)]


@facet(P, 'commute', gc, np={1: 1, 2: 1}, quick={1: 50, 2: 30}, cost=0.3)
def commute(case):
    """d(discretize u) = discretize(du), at every time"""
    import numpy as np
    import fm
    M, S, fc, nodes = fm.setup(case)
    nd = M.ndim
    k, kind = case['k'], case['kind']
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('%dd k=%d %s' % (nd, k, kind if nd == 2 else ''))
    u = [fm.func(s) for s in case['u']]
    du = fm.deriv(nd, k, kind, u)
    f = fm.form(fc, nd, k, kind, case['hyb'])
    g = fm.form(fc, nd, k + 1, kind, case['hyb'])
    f.CF = fm.field(fc, nd, u)
    g.CF = fm.field(fc, nd, du)
    q = hq(nd, k, case['m'], case['sp'])
    for t in case['t']:
        f.CF.current_time = t
        g.CF.current_time = t
        if k == 0:
            f.discretize()
        else:
            f.discretize(quad_degree=q)
        g.discretize(quad_degree=q)
        d = f.coboundary()
        sc = fm.allmax(max([float(np.max(np.abs(f.cochain.local[e]))) for e in M.elements] + [1.]))
        for e in M.elements:
            close(d.cochain.local[e], g.cochain.local[e], 'd(R u) and R(du), element %d, t=%s' % (e, t),
                  rtol=0, atol=fm.tol(case['m'], 1e-7, 2e-5) * sc)
