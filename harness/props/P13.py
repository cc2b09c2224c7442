# -*- coding: utf-8 -*-
"""P13: edge forms and local trace forms."""
from kit import facet, ensure, close, gclose, nontrivial, tag
import gens

RULE = ('case = structured 3-d mesh, space, degree, local hybridity, field/cochain and evaluation grid; '
        'non-trivial: at least 2 elements or some degree above 1')
P = 'P13'
SN = 'NSWEBF'
EDGES = ['WB', 'EB', 'WF', 'EF', 'NB', 'SB', 'NF', 'SF', 'NW', 'SW', 'NE', 'SE']
CORNERS = ['NWB', 'SWB', 'NEB', 'SEB', 'NWF', 'SWF', 'NEF', 'SEF']


def _base(draw, st, nmax=2, me=6, total=6):
    m = gens.min2_periodic(gens.mesh3(draw, st, nmax=nmax, max_elements=me))
    return {'m': m, 'sp': gens.space(draw, st, 3, 3, total), 'k': draw(st.integers(0, 2)), 'hyb': draw(st.booleans()),
            'edm': draw(st.sampled_from([None, None, 'chaotic']))}


def gl(draw, st):
    c = _base(draw, st, total=5)
    c['k'] = draw(st.sampled_from([0, 2]))
    c['u'] = [['smooth', gens.smooth(draw, st, 3), draw(st.sampled_from([0., 1., -0.5]))] for _ in range(2)]
    c['t'] = [gens.dyadic(draw, st, -1, 2, 4) for _ in range(2)]
    c['bw'] = draw(st.integers(0, 1000))
    c['ref'] = [draw(st.integers(0, 1)) for _ in range(3)]
    return c


def gr(draw, st):
    c = _base(draw, st)
    c['k'] = draw(st.sampled_from([0, 2]))
    c['g'] = [gens.points(draw, st) for _ in range(3)]
    c['seed'] = draw(st.integers(0, 60))
    c['pick'] = draw(st.integers(0, 1000))
    return c


def ge(draw, st):
    c = _base(draw, st)
    c['k'] = draw(st.integers(0, 1))
    c['u'] = ['smooth', gens.smooth(draw, st, 3), draw(st.sampled_from([0., 1., -0.5]))]
    c['t'] = [gens.dyadic(draw, st, -1, 2, 4) for _ in range(2)]
    c['g'] = [gens.points(draw, st) for _ in range(3)]
    c['pick'] = [draw(st.integers(0, 1000)) for _ in range(3)]
    c['seed'] = draw(st.integers(0, 60))
    return c


def local_gather(p, k, hyb):
    """reference local numbering: {side: local dofs}, number of local dofs

    Conforming 0-local-trace dofs: the boundary nodes of the element, shared by the sides meeting there."""
    import numpy as np
    import topo
    q = [x + 1 for x in p] if k == 0 else list(p)
    out = {}
    n = 0
    for i, s in enumerate(SN):
        m = int(np.prod([q[j] for j in range(3) if j != i // 2]))
        out[s] = np.arange(n, n + m)
        n += m
    if hyb or k == 2:
        return out, n, None
    # node classes of each side in 'F' order
    ids = np.arange(int(np.prod(q))).reshape(q, order='F')
    cls = {}
    for i, s in enumerate(SN):
        cls[s] = np.take(ids, (0, -1)[i % 2], axis=i // 2).ravel('F')
    return out, len(set(int(x) for s in SN for x in cls[s])), cls


def ltf(fc, c):
    return fc('%d-lt' % c['k'], hybrid=c['hyb'])


@facet(P, 'lt_reduce', gl, np={1: 1, 2: 1}, quick={1: 30, 2: 15}, cost=0.4)
def lt_reduce(case):
    """local trace forms: discretization of standard and boundary-wise scalars; numbering; p-refinement"""
    import numpy as np
    import fm
    import ref
    from props import P12
    M, S, fc, nodes = fm.setup(case)
    k, m = case['k'], case['m']
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('k=%d %s %s' % (k, 'hybrid' if case['hyb'] else 'conforming', m['id']))
    geo = ref.Geo(M)
    p = [len(n) - 1 for n in nodes]
    u = [fm.func(s) for s in case['u']]
    T = ltf(fc, case)
    ndx = [len(n) + 1 for n in nodes]          # exactness of the library's own quadrature is of this order

    def expect(e, s, f, t):
        if k == 0:
            gg, a = P12.side_grids(s, nodes)
            x, J = geo.ev(e, gg)
            return f(t, *x), 0.
        one = P12.surf_int(geo, e, s, nodes, lambda x, n: f(t, *x), 24)
        low = P12.surf_int(geo, e, s, nodes, lambda x, n: f(t, *x), min(ndx))
        return one, 20 * float(np.max(np.abs(one - low)))
    loc, nloc, cls = local_gather(p, k, case['hyb'])
    ensure(T.num.basis == nloc, 'number of local dofs: %d expected %d' % (T.num.basis, nloc))
    T.CF = fm.field(fc, 3, [u[0]])
    for t in case['t']:
        T.CF.current_time = t
        r0 = T.discretize(update_cochain=False)
        r = T.discretize()
        ensure(r[0] == r0[0] == ('locally full local cochain' if case['hyb'] else 'mesh-element-side-wise local cochain'),
               'kind of cochain %r' % (r[0],))
        ensure(set(int(_) for _ in T.cochain.local) == set(int(_) for _ in M.elements), 'elements with a cochain')
        for e in M.elements:
            for s in SN:
                x, qe = expect(e, s, u[0], t)
                at = fm.tol(m, 1e-7, 2e-5) * max(1., float(np.max(np.abs(x)))) + qe
                close(T.cochain.local_ESW[e][s], x, 'local_ESW[%d][%s] at t=%s' % (e, s, t), 0, at)
                L = loc[s] if (case['hyb']) else np.asarray(T.numbering.local_gathering[s])
                close(T.cochain.local[e][L], x, 'local cochain of side %s of element %d' % (s, e), 0, 2 * at)
                if case['hyb']:
                    close(r0[1][e][L], x, 'returned cochain', 0, at)
                else:
                    close(r0[1][e][s], x, 'returned cochain', 0, at)
    # numbering is element-wise hybrid; boundary dofs by geometry
    GM = T.numbering.gathering
    for e in M.elements:
        ensure(sorted(int(_) for _ in GM[e]) == list(range(e * nloc, e * nloc + nloc)), 'numbering of element %d' % e)
    res = M.boundaries.range_of_element_sides
    bd = T.numbering.boundary_dofs
    ensure(set(bd) == set(M.boundaries.names), 'boundary names in boundary_dofs')
    for bn in bd:
        w = set()
        for es in (res[bn] if bn in res else ()):
            e, s = int(es[:-1]), es[-1]
            L = loc[s] if case['hyb'] else np.asarray(T.numbering.local_gathering[s])
            w |= set(int(GM[e][int(i)]) for i in L)
        ensure(set(int(_) for _ in bd[bn]) == w, 'boundary dofs on %s' % bn)
    # boundary-wise scalar on a subset of the boundaries
    names = list(M.boundaries.names)
    sub = [b for i, b in enumerate(names) if (case['bw'] >> i) & 1]
    if sub:
        B = ltf(fc, case)
        fs = dict((b, fm.wrap(u[(i + case['bw']) % 2], 3)) for i, b in enumerate(sub))
        us = dict((b, u[(i + case['bw']) % 2]) for i, b in enumerate(sub))
        sc = fc('scalar', dict(fs))
        sc.current_time = case['t'][0]
        B.CF = sc
        r = B.discretize(update_cochain=False)
        ensure(r[0] == 'mesh-element-side-wise local cochain', 'kind of boundary-wise cochain %r' % (r[0],))
        w = {}
        for b in sub:
            for es in (res[b] if b in res else ()):
                w.setdefault(int(es[:-1]), {})[es[-1]] = us[b]
        ensure(set(int(_) for _ in r[1]) == set(w), 'elements with a boundary-wise cochain')
        B.BC.CF = sc
        rb = B.discretize(update_cochain=False, target='BC')
        for e in w:
            ensure(set(r[1][e]) == set(w[e]), 'sides with a boundary-wise cochain in element %d' % e)
            for s in w[e]:
                x, qe = expect(e, s, w[e][s], case['t'][0])
                at = fm.tol(m, 1e-7, 2e-5) * max(1., float(np.max(np.abs(x)))) + qe
                close(r[1][e][s], x, 'boundary-wise cochain of side %s of element %d' % (s, e), 0, at)
                close(rb[1][e][s], x, 'boundary-wise cochain (target BC) of side %s of element %d' % (s, e), 0, at)
        B.discretize()
        ensure(set(int(_) for _ in B.cochain.local) == set(e for e in w if len(w[e]) == 6), 'elements with a full cochain')
    # p-refinement (of Lobatto spaces) keeps the kind of the form
    if any(b[0] != 'Lobatto' for b in case['sp']):
        return
    q = T.do.p_refine(tuple(case['ref']))
    ensure(q.whether.hybrid == T.whether.hybrid, 'p_refine changes the local hybridity')
    ensure(q.k == T.k and q.orientation == T.orientation and q.mesh is T.mesh, 'p_refine changes the form')
    ensure([int(_) for _ in q.p] == [a + b for a, b in zip(p, case['ref'])], 'degrees after p_refine: %s' % (q.p,))
    ensure(q.num.basis == local_gather([a + b for a, b in zip(p, case['ref'])], k, case['hyb'])[1], 'number of dofs after p_refine')


@facet(P, 'lt_recon', gr, np={1: 1, 3: 1}, quick={1: 30, 3: 30}, cost=0.3)
def lt_recon(case):
    """local trace forms: cochain views, reconstruction (direct and by matrices) and mass matrices"""
    import numpy as np
    import fm
    import ref
    from root.config.main import COMM
    from props import P12
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    M, S, fc, nodes = fm.setup(case)
    k, m = case['k'], case['m']
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('k=%d %s %s' % (k, 'hybrid' if case['hyb'] else 'conforming', m['id']))
    geo = ref.Geo(M)
    p = [len(n) - 1 for n in nodes]
    T = ltf(fc, case)
    loc, nloc, cls = local_gather(p, k, case['hyb'])
    if case['hyb']:
        LG = loc
    else:
        LG = dict((s, np.asarray(T.numbering.local_gathering[s])) for s in SN)
    # the local numbering covers every local dof and identifies exactly coinciding nodes
    ensure(sorted(set(int(i) for s in SN for i in LG[s])) == list(range(nloc)), 'local numbering does not cover 0..n-1')
    if cls is not None:
        fw = {}
        for s in SN:
            ensure(len(LG[s]) == len(cls[s]), 'size of local gathering of side %s' % s)
            for a, b in zip(cls[s], LG[s]):
                ensure(fw.setdefault(int(a), int(b)) == int(b), 'node %d of the element has two local dofs' % a)
        ensure(len(set(fw.values())) == len(fw), 'two nodes share a local dof')
    else:
        ensure(sum(len(LG[s]) for s in SN) == nloc, 'sides share dofs')
    ck = dict((s, [int(_) for _ in T.numbering.do.find.local_dofs_on_element_side(s)]) for s in SN)
    for s in SN:
        ensure(ck[s] == [int(_) for _ in LG[s]], 'local_dofs_on_element_side(%s)' % s)
    GM = T.numbering.gathering
    for e in M.elements:
        for s in SN:
            ensure([int(_) for _ in T.numbering.do.find.dofs_on_element_side(e, s)] == [int(GM[e][int(i)]) for i in LG[s]],
                   'dofs_on_element_side(%d, %s)' % (e, s))
    N = T.num.global_dofs
    ewc = None
    for step, way in enumerate(('local', 'ESW', 'globe', 'local', 'globe2')):
        v = fm.hval(np.arange(N), 7, case['seed'] + step)
        L = dict((e, v[np.array([int(_) for _ in GM[e]], dtype=int)]) for e in M.elements)
        if way == 'local':
            T.cochain.local = dict((e, L[e].copy()) for e in L)
            ewc = T.cochain.EWC
        elif way == 'ESW':
            T.cochain.local_ESW = dict((e, dict((s, L[e][LG[s]]) for s in SN)) for e in L)
        elif way == 'globe':
            T.cochain.globe = LocallyFullVector(np.array(v))
        else:
            g0 = T.cochain.globe
            T.cochain.local = dict((e, 0 * L[e]) for e in L)
            T.cochain.globe = g0
            v = fm.hval(np.arange(N), 7, case['seed'] + step - 1)
            L = dict((e, v[np.array([int(_) for _ in GM[e]], dtype=int)]) for e in M.elements)
        ensure(bool(T.cochain.whether.full), 'a full cochain is reported as not full (%s)' % way)
        for e in M.elements:
            close(T.cochain.local[e], L[e], 'local after setting %s' % way, 1e-13, 1e-13)
            for s in SN:
                close(T.cochain.local_ESW[e][s], L[e][LG[s]], 'local_ESW after setting %s' % way, 1e-13, 1e-13)
                close(T.cochain.___components_of_cochain_on_element_side___(e, s), L[e][LG[s]], 'components after setting %s' % way, 1e-13, 1e-13)
            close(ewc[e].toarray().ravel(), L[e], 'EWC made before setting %s' % way, 1e-13, 1e-13)
        V = sum(COMM.allgather(T.cochain.globe.V.toarray().ravel()))
        close(V, v, 'globe after setting %s' % way, 1e-12, 1e-12)
    if P12.kinky(m):
        return
    g = [np.array(x) for x in case['g']]
    es = [int(_) for _ in M.elements]
    xyz, val = T.reconstruct(*g)
    _, rav = T.reconstruct(*g, ravel=True)
    ensure(set(int(_) for _ in val) == set(es), 'elements reconstructed')
    RM = T.do.make_reconstruction_matrix_on_grid(*g)
    ensure(set(int(_) for _ in RM) == set(es), 'elements with reconstruction matrices')
    mass = T.matrices.mass
    one = None
    if es:
        one = es[case['pick'] % len(es)]
        a, b = T.reconstruct(*g, ravel=True, element_range=one)
        a2, b2 = T.reconstruct(*g, ravel=True, element_range=[one])
        ensure(set(b) == set(b2) == {one}, 'reconstruct(element_range)')
        R1 = T.do.make_reconstruction_matrix_on_grid(*g, element_range=one)
        ensure(set(R1) == {one}, 'make_reconstruction_matrix_on_grid(element_range)')
    for e in es:
        Me = mass[e].toarray()
        full = np.zeros((nloc, nloc))
        qe = 0.
        for s in SN:
            gg, a = P12.side_grids(s, g)
            x, J = geo.ev(e, gg)
            B, ds = P12.trace_phys(nodes, k, a, g, J)
            w = L[e][LG[s]] @ B[0]
            at = fm.tol(m, 1e-8, 2e-5) * max(1., float(np.max(np.abs(w))))
            shape = [len(gg[j]) for j in range(3) if j != a]
            for c in range(3):
                ensure(list(np.shape(xyz[e][s][c])) == shape, 'shape of coordinates')
                close(np.asarray(xyz[e][s][c]).ravel('F'), x[c], 'coordinates on side %s of element %d' % (s, e), 1e-9, 1e-9)
            ensure(list(np.shape(val[e][s][0])) == shape, 'shape of values')
            close(np.asarray(val[e][s][0]).ravel('F'), w, 'value on side %s of element %d' % (s, e), 0, at)
            close(rav[e][s][0], w, 'ravelled value on side %s of element %d' % (s, e), 0, at)
            close(np.asarray(RM[e][s]), B[0].T, 'reconstruction matrix of side %s of element %d' % (s, e), 0,
                  fm.tol(m, 1e-8, 2e-5) * max(1., float(np.max(np.abs(B[0])))))
            if e == one:
                close(b[e][s][0], w, 'selected element', 0, at)
                close(np.asarray(R1[e][s]), np.asarray(RM[e][s]), 'selected reconstruction matrix', 1e-12, 1e-12)

            def ref_mass(nq):
                G = [ref.gauss(q) for q in nq]
                qg = [G[j][0] for j in range(3)]
                ww = ref.tensor([G[j][1] for j in range(3) if j != a])
                qq, _ = P12.side_grids(s, qg)
                _, JJ = geo.ev(e, qq)
                Bq, dsq = P12.trace_phys(nodes, k, a, qg, JJ)
                return (Bq[0] * (ww[0] * ww[1] * dsq)) @ Bq[0].T
            R = ref_mass([16] * 3)
            qe = max(qe, 5 * float(np.max(np.abs(R - ref_mass([len(n) + 1 for n in nodes])))))
            full[np.ix_(LG[s], LG[s])] += R
        close(Me, full, 'mass matrix of element %d' % e, 0, fm.tol(m, 1e-9, 2e-5) * max(1., float(np.max(np.abs(full)))) + 3 * qe)


@facet(P, 'edge', ge, np={1: 1, 3: 1}, quick={1: 40, 3: 30}, cost=0.3)
def edge(case):
    """edge forms: reduction, reconstruction, error, selective and complement matrices, finders"""
    import numpy as np
    import fm
    import ref
    import topo
    from root.config.main import COMM
    M, S, fc, nodes = fm.setup(case)
    k, m = case['k'], case['m']
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('k=%d %s %s' % (k, 'hybrid' if case['hyb'] else 'conforming', m['id']))
    geo = ref.Geo(M)
    p = [len(n) - 1 for n in nodes]
    E = fc('%d-e' % k, hybrid=case['hyb'])
    EE = M.edge.elements
    GM = E.numbering.gathering
    GE = E.numbering.edge_element_wise
    q = [x + 1 - k for x in p]
    axis = [i // 4 for i in range(12)]
    off = np.concatenate([[0], np.cumsum([q[a] for a in axis])])
    ensure(E.num.basis == off[-1], 'number of local dofs %s expected %s' % (E.num.basis, off[-1]))
    # ---- selective matrix: the dofs of the standard k-form on each corner edge
    shapes = topo.comp_shapes(3, p, k, '')
    ids, nl = topo.local_ids(shapes)
    Sm = E.matrices.selective
    # the selective matrix is documented as mesh-element -> edge element
    for e in M.elements:
        A = Sm[e].toarray()
        ensure(A.shape == (off[-1], nl), 'shape of selective matrix %s' % (A.shape,))
        W = np.zeros_like(A)
        for j, nm in enumerate(EDGES):
            comp = ids[0] if k == 0 else ids[axis[j]]
            ix = [slice(None)] * 3
            for ch in nm:
                s = SN.index(ch)
                ix[s // 2] = (0, -1)[s % 2]
            for r, c in enumerate(np.asarray(comp)[tuple(ix)]):
                W[off[j] + r, c] = 1
        close(A, W, 'selective matrix', 0, 0)
    C = E.matrices.complement
    if k < 3:
        T = fc('%d-t' % k, hybrid=case['hyb'])
        for e in M.elements:
            ensure(C[e].shape == (T.num.basis, E.num.basis), 'shape of complement matrix %s' % (C[e].shape,))
            ensure(C[e].nnz == 0, 'complement matrix is not zero')
    # ---- finders
    D = E.dofs
    if k == 0:
        nE = M.elements.global_num
        for z in case['pick']:
            i = z % nE
            cn = CORNERS[(z // 7) % 8]
            r = D.do.find.dof_at_corner_of_mesh_element(i, cn)
            if i in M.elements:
                w = []
                for nm, oth in ((cn[:2], cn[2]), (cn[0] + cn[2], cn[1]), (cn[1:], cn[0])):
                    j = EDGES.index(nm)
                    w.append(int(GM[i][int(off[j] if oth in 'NWB' else off[j + 1] - 1)]))
                ensure([int(_) for _ in r] == w, 'dofs at corner %s of element %d: %s expected %s' % (cn, i, r, w))
            else:
                ensure(r is None, 'dofs of a corner of a non-local element')
    for z in (case['pick'] if k == 0 else ()):
        d = z % GM.global_num_dofs
        ee, ii = D.___PRIVATE_FIND_local_mesh_elements_and_local_indices_of_dof___(d)
        w = sorted((int(e), [int(_) for _ in GM[e]].index(d)) for e in M.elements if d in [int(_) for _ in GM[e]])
        ensure(sorted((int(a), int(b)) for a, b in zip(ee, ii)) == w, 'local positions of dof %d' % d)
    if k == 1:
        for z in case['pick']:
            d = z % GM.global_num_dofs
            r = D.do.find.edge_element_and_local_index_of_dof(d)
            w = [(int(i), [int(_) for _ in GE[i]].index(d)) for i in EE if d in [int(_) for _ in GE[i]]]
            if w:
                ensure((int(r[0]), int(r[1])) == w[0], 'edge element and local index of dof %d: %s expected %s' % (d, r, w))
        return
    # ---- reduction / reconstruction / error of the 0-edge-form
    f = fm.func(case['u'])
    E.CF = fm.field(fc, 3, [f])
    for t in case['t']:
        E.CF.current_time = t
        r = E.discretize(update_cochain=False)
        E.discretize()
        for i in EE:
            x = EE[i]
            e, ce = x.CHARACTERISTIC_element, x.CHARACTERISTIC_corner_edge
            j = EDGES.index(ce)
            gg = [None] * 3
            gg[axis[j]] = nodes[axis[j]]
            for ch in ce:
                s = SN.index(ch)
                gg[s // 2] = np.array([(-1., 1.)[s % 2]])
            X = geo.ev(e, gg)[0]
            w = f(t, *X)
            close(E.cochain.local_EEW[i], w, 'cochain of edge element %d at t=%s' % (i, t), 1e-8, 1e-8)
            close(r[1][i], w, 'returned cochain of edge element %d' % i, 1e-8, 1e-8)
        for e in M.elements:
            w = np.concatenate([E.cochain.local_EEW[i] for i in EE.map[e]])
            close(E.cochain.local[e], w, 'cochain.local[%d]' % e, 0, 0)
    # arbitrary cochain
    loc = dict((int(i), fm.hval(np.arange(q[axis[EDGES.index(EE[i].CHARACTERISTIC_corner_edge)]]), int(i), case['seed'])) for i in EE)
    g = [np.array(x) for x in case['g']]
    err = E.error.L()
    lg = [np.linspace(-1, 1, d + 2 + 10) for d in E.dqp]
    mx = 0.
    for i in EE:
        a = axis[EDGES.index(EE[i].CHARACTERISTIC_corner_edge)]
        gg = [None] * 3
        gg[a] = lg[a]
        for ch in EE[i].CHARACTERISTIC_corner_edge:
            s = SN.index(ch)
            gg[s // 2] = np.array([(-1., 1.)[s % 2]])
        X = geo.ev(EE[i].CHARACTERISTIC_element, gg)[0]
        mx = max(mx, float(np.max(np.abs(E.cochain.local_EEW[i] @ ref.lag(nodes[a], lg[a]) - f(case['t'][-1], *X)))))
    mx = max(COMM.allgather(mx))
    close(err, mx, 'L^infinity error', 1e-6, 1e-9)
    E.cochain.local_EEW = dict(loc)
    xyz, v = E.reconstruct(*g)
    ensure(set(int(_) for _ in v) == set(loc), 'edge elements reconstructed')
    if loc:
        one = sorted(loc)[case['pick'][0] % len(loc)]
        _, v1 = E.reconstruct(*g, i=one)
        ensure(set(v1) == {one}, 'reconstruct(i=)')
        close(v1[one][0], v[one][0], 'reconstruct(i=)', 0, 0)
    for i in EE:
        x = EE[i]
        a = axis[EDGES.index(x.CHARACTERISTIC_corner_edge)]
        gg = [None] * 3
        gg[a] = g[a]
        for ch in x.CHARACTERISTIC_corner_edge:
            s = SN.index(ch)
            gg[s // 2] = np.array([(-1., 1.)[s % 2]])
        X = geo.ev(x.CHARACTERISTIC_element, gg)[0]
        close(v[i][0], loc[i] @ ref.lag(nodes[a], g[a]), 'reconstruction on edge element %d' % i, 1e-9, 1e-9)
        for c in range(3):
            close(np.asarray(xyz[i][c]).ravel(), X[c], 'coordinates on edge element %d' % i, 1e-9, 1e-9)
