# -*- coding: utf-8 -*-
"""P05: coordinate transformations of regions, elements, sides, edges and nodes."""
from kit import facet, ensure, close, gclose, nontrivial, tag, fail, reject
import gens

RULE = ('case = mesh, evaluation grids, elements/sides; the Jacobian oracle differentiates a spectral interpolant of '
        'the mapping alone; non-trivial: curved or more than one metric type')
P = 'P05'


def g_el(draw, st):
    nd = draw(st.sampled_from([2, 3, 3]))
    if nd == 3:
        m = gens.mesh3(draw, st, nmax=3, max_elements=8)
    else:
        m = gens.mesh2(draw, st, nmax=3, max_elements=12, smooth_only=True)
    if draw(st.integers(0, 7)) == 0:
        # elements that differ only slightly, or very small ones
        m['lay'] = [draw(st.sampled_from([[1000, 1001], [4000, 4001, 4003], 2]))] + [1] * (nd - 1)
        if 'bounds' in m['kw'] or m['id'] == 'crazy':
            m['kw']['bounds'] = [[0., draw(st.sampled_from([0.0009, 0.25, 1.]))]] * nd
            m['kw']['c'] = 0.
    return {'m': m, 'pts': [gens.points(draw, st, 3) for _ in range(nd)], 'edm': None,
            'qd': [draw(st.integers(1, 4)) for _ in range(nd)], 'qt': draw(st.sampled_from(['Gauss', 'Lobatto']))}


def arr(v, shape):
    import numpy as np
    return np.array(v, dtype=float) + np.zeros(shape)


def spec_mapping(m, rn, region, rst):
    """the documented mapping of a region at reference points; None if it has no closed form here"""
    import numpy as np
    nd = len(rst)
    i = m['id']
    if i.startswith('crazy'):
        b = m['kw'].get('bounds', [(0, 1)] * nd)
        p = 0.5 * m['kw']['c']
        for r in rst:
            p = p * np.sin(2 * np.pi * r)
        return [b[a][0] + (b[a][1] - b[a][0]) * (rst[a] + p) for a in range(nd)]
    if i == 'ct':
        c = m['kw']['c']
        r, s, t = rst
        q = lambda x, y: c * np.sin(2 * np.pi * x) * np.sin(2 * np.pi * y)
        return [r + q(s, t), s + q(r, t), t - q(r, s)]
    cc = np.array(region.corner_coordinates, dtype=float)
    if i in ('cuboid', 'cuboid_periodic', 'psc', 'pwc', 'LDC', 'rectangle', 'rectangle_periodic', 'quadrangle'):
        out = np.zeros((nd,) + rst[0].shape)
        for k in range(2 ** nd):
            w = 1.
            for a in range(nd):
                w = w * (rst[a] if (k >> a) & 1 else 1 - rst[a])
            for a in range(nd):
                out[a] += w * cc[k, a]
        return list(out)
    return None


@facet(P, 'element', g_el, np={1: 1, 2: 1}, quick={1: 220, 2: 40}, cost=0.15)
def element(case):
    """mapping formula, Jacobian = derivative of the mapping, derived metrics, cached/vectorized/quadrature versions"""
    import numpy as np
    import bld
    import ref
    from root.config.main import COMM
    m = case['m']
    nd = len(m['lay'])
    M = bld.mk_mesh(m)
    E = M.elements
    geo = ref.Geo(M)
    grids = [np.array(p) for p in case['pts']]
    X = ref.tensor(grids)
    X = [x.copy() for x in X]
    tag('%dd %s' % (nd, m['id']))
    rt = 2e-6 if m['id'] in ('ct', 'psc', 'pwc', 'LDC', 'bridge_arch_cracked') else 1e-8
    scale = 1.
    ect = E.coordinate_transformation
    names = ['mapping'] + list('XYZ'[:nd]) + ['Jacobian_matrix'] + ['J%d%d' % (i, j) for i in range(nd) for j in range(nd)] + \
        ['Jacobian', 'metric', 'metric_matrix', 'inverse_Jacobian_matrix', 'inverse_Jacobian', 'inverse_metric_matrix']
    bulk = dict((n, getattr(ect, n)(*X)) for n in names if hasattr(ect, n))
    ensure('Jacobian_matrix' in bulk and 'Jacobian' in bulk, 'elements-level API')
    marks = set()
    iD = ect.Jacobian_matrix(*X)
    withI = {'Jacobian': ect.Jacobian(*X, J=iD), 'metric_matrix': ect.metric_matrix(*X, J=iD),
             'inverse_Jacobian_matrix': ect.inverse_Jacobian_matrix(*X, J=iD)}
    withI['metric'] = ect.metric(*X, detJ=withI['Jacobian'])
    withI['inverse_Jacobian'] = ect.inverse_Jacobian(*X, iJ=withI['inverse_Jacobian_matrix'])
    withI['inverse_metric_matrix'] = ect.inverse_metric_matrix(*X, iJ=withI['inverse_Jacobian_matrix'])
    qx, _ = (np.polynomial.legendre.leggauss(3))
    Q1 = ect.QUAD_1d
    Q3 = ect.QUAD_3d if nd == 3 else ect.QUAD_2d
    from components.quadrature import Quadrature
    qn = Quadrature(case['qd'], category=case['qt']).quad[0]
    qX = ref.tensor(qn)
    mats = {}
    for e in E:
        el = E[e]
        ct = el.coordinate_transformation
        marks.add(str(el.type_wrt_metric.mark))
        sh = X[0].shape
        x, J = geo.ev(e, grids)
        sc = np.abs(J).max()
        mp = np.array(ct.mapping(*X))
        close(mp, x, 'mapping vs its interpolant', rtol=1e-10, atol=1e-10)
        rst = [(X[a] + 1) * 0.5 * ct.delta[a] + ct.origin[a] for a in range(nd)]
        rn = el.in_region
        sm = spec_mapping(m, rn, M.domain.regions[rn], rst)
        if sm is not None:
            close(mp, np.array(sm), 'mapping formula of ' + m['id'], rtol=1e-9, atol=1e-10)
        for a in range(nd):
            close(arr(getattr(ct, 'XYZ'[a])(*X), sh), mp[a], 'ct.' + 'XYZ'[a], rtol=1e-11, atol=1e-12)
        D = ref.det(J)
        ensure(np.all(D > 0) or m['id'] == 'bcr', 'Jacobian not positive')
        iJ = ref.inv(J)
        G = np.einsum('kim,kjm->ijm', J, J)
        iG = np.einsum('ikm,jkm->ijm', iJ, iJ)
        exp = {'mapping': mp, 'Jacobian_matrix': J, 'Jacobian': D, 'metric': D ** 2, 'metric_matrix': G,
               'inverse_Jacobian_matrix': iJ, 'inverse_Jacobian': 1 / D, 'inverse_metric_matrix': iG}
        for a in range(nd):
            exp['XYZ'[a]] = mp[a]
            for b in range(nd):
                exp['J%d%d' % (a, b)] = J[a, b]

        def conv(v, n):
            if n in ('mapping',):
                return np.array([arr(c, sh) for c in v])
            if n.endswith('matrix'):
                return np.array([[arr(c, sh) for c in r] for r in v])
            return arr(v, sh)
        for n in names:
            v = conv(getattr(ct, n)(*X), n)
            t = rt if n not in ('mapping', 'X', 'Y', 'Z') else 1e-10
            gclose(v, exp[n], 'element %d ct.%s' % (e, n), rtol=t, atol=t * (sc if n[0] == 'J' and n != 'Jacobian' else 0.) +
                   (1e-10 if n in ('mapping', 'X', 'Y', 'Z') else 0.))
            if n in bulk:
                gclose(conv(bulk[n][e], n), v, 'elements ct.%s[%d]' % (n, e), rtol=max(1e-11, t * 1e-2), atol=t * 1e-2 * sc)
        for n in withI:
            gclose(conv(withI[n][e], n), conv(getattr(ct, n)(*X), n), 'ct.%s with intermediate data' % n, rtol=1e-11, atol=0)
        for i in range(nd):
            row = getattr(ct, 'J%d_' % i)(*X)
            for j in range(nd):
                gclose(arr(row[j], sh), J[i, j], 'J%d_' % i, rtol=rt, atol=rt * sc)
        # quadrature versions
        for n in ('mapping', 'Jacobian', 'metric', 'inverse_Jacobian_matrix', 'inverse_metric_matrix', 'Jacobian_matrix', 'J01',
                  'X'):
            a = getattr(Q1, n)(case['qd'], case['qt'])[e]
            w = getattr(ct, n)(*qX)
            sh2 = qX[0].shape
            flat = (lambda v: np.array([flat(c) for c in v]) if isinstance(v, (list, tuple)) or np.ndim(v) > 1 else arr(v, sh2))
            gclose(flat(a), flat(w), 'QUAD_1d.%s' % n, rtol=1e-11, atol=1e-13)
            b = getattr(Q3, n)(case['qd'], case['qt'])[e]
            fl3 = (lambda v: np.array([fl3(c) for c in v]) if isinstance(v, (list, tuple)) or np.ndim(v) > nd else
                   arr(v, [len(q) for q in qn]).ravel('F'))
            gclose(fl3(b), flat(w), 'QUAD_nd.%s' % n, rtol=1e-11, atol=1e-13)
        mats[e] = (arr(ct.Jacobian(*X), sh), arr(ct.inverse_Jacobian(*X), sh))
    nontrivial(E.num > 0 and (len(marks) > 1 or not str(next(iter(marks))).startswith('Orth')))
    V = ect.vectorized
    vj, vi = V.Jacobian(*X), V.inverse_Jacobian(*X)
    if E.num == 0:
        ensure(vj is None and vi is None, 'vectorized without elements')
    else:
        n = X[0].size
        J_ = np.array([mats[e][0] for e in E])
        I_ = np.array([mats[e][1] for e in E])
        gclose(np.broadcast_to(vj, (E.num, n)), J_, 'vectorized.Jacobian', rtol=1e-10, atol=0)
        gclose(np.broadcast_to(vi, (E.num, n)), I_, 'vectorized.inverse_Jacobian', rtol=1e-10, atol=0)
        if nd == 2:
            vm = V.mapping(*X)
            close(np.array(vm), np.array([np.array(E[e].coordinate_transformation.mapping(*X)) for e in E]), 'vectorized.mapping')
            for n_ in ('Jacobian_matrix', 'inverse_Jacobian_matrix'):
                v = getattr(V, n_)(*X)
                for i in range(2):
                    for j in range(2):
                        w = np.array([arr(getattr(E[e].coordinate_transformation, n_)(*X)[i][j], X[0].shape) for e in E])
                        y = np.array(v[i][j], dtype=float)
                        ensure(y.shape == ((n,) if E.whether.homogeneous_according_to_types_wrt_metric else (E.num, n)), "vectorized." + n_ + " shape")
                        if not E.whether.homogeneous_according_to_types_wrt_metric:
                            y = y.reshape(E.num, -1)
                        gclose(np.broadcast_to(y, (E.num, n)), w, 'vectorized.' + n_, rtol=1e-10, atol=1e-12)


def g_tr(draw, st):
    nd = draw(st.sampled_from([2, 3, 3]))
    if nd == 3:
        m = gens.mesh3(draw, st, nmax=3, max_elements=8)
    else:
        m = gens.mesh2(draw, st, nmax=3, max_elements=12, smooth_only=True)
    if nd == 3:
        gens.min2_periodic(m)
    return {'m': m, 'pts': [gens.points(draw, st, 3) for _ in range(nd)]}


@facet(P, 'trace', g_tr, np={1: 1, 2: 1, 3: 1}, quick={1: 160, 2: 40, 3: 16}, cost=0.2)
def trace(case):
    """trace/side/edge/node transformations are restrictions of the element ones; unit normals; constants"""
    import numpy as np
    import bld
    import ref
    import topo
    m = case['m']
    nd = len(m['lay'])
    M = bld.mk_mesh(m)
    E = M.elements
    T = M.trace.elements
    sn = topo.SN[nd]
    geo = ref.Geo(M)
    tag('%dd %s' % (nd, m['id']))
    pts = [np.array(p) for p in case['pts']]
    rt = 5e-6 if m['id'] in ('ct', 'psc', 'pwc', 'LDC', 'bridge_arch_cracked') else 1e-8
    has_type = m['id'] in ('crazy', 'crazy_periodic', 'cuboid', 'cuboid_periodic', 'ct', 'bridge_arch_cracked')
    nontrivial(len(T) > 1)
    bulk = None
    if nd == 3 and has_type:
        bc = T.coordinate_transformation
        np_ = min(len(p) for p in pts)
        pts_ = [p[:np_] for p in pts]
        bulk = dict((n, getattr(bc, n)(*pts_)) for n in ('Jacobian_matrix', 'inverse_Jacobian_matrix', 'metric_matrix', 'metric',
                                                        'unit_normal_vector'))

    def side(e, k, grids1):
        """points and tangents (cyclic order) of side k of element e on the tensor grid of the free axes"""
        a, en = k // 2, k % 2
        g = list(grids1)
        g.insert(a, np.array([1. if en else -1.]))
        x, J = geo.ev(e, g)
        if nd == 3:
            t = {0: (1, 2), 1: (2, 0), 2: (0, 1)}[a]
            return x, J[:, t[0]], J[:, t[1]], J
        return x, J[:, 1 - a], None, J
    for t in T:
        te = T[t]
        cp = te.CHARACTERISTIC_position
        e, k = int(cp[:-1]), sn.index(cp[-1])
        a = k // 2
        ensure(e in E and int(T.map[e][k]) == t, 'characteristic position of trace element %d' % t)
        fr = [pts[b] for b in range(nd) if b != a]
        x, ta, tb, J = side(e, k, fr)
        C = te.coordinate_transformation
        if nd == 2:
            close(np.array(C.mapping(fr[0])), x, 'trace mapping', rtol=1e-10, atol=1e-10)
            close(np.array([c + 0 * fr[0] for c in C.Jacobian_matrix(fr[0])]), ta, 'trace Jacobian_matrix', rtol=rt, atol=rt)
            close(np.array(C.metric(fr[0])) + 0 * fr[0], ta[0] ** 2 + ta[1] ** 2, 'trace metric', rtol=4 * rt, atol=rt)
            close(np.array(C.metric_matrix(fr[0])) + 0 * fr[0], ta[0] ** 2 + ta[1] ** 2, 'trace metric_matrix', rtol=4 * rt, atol=rt)
            cj = C.constant.Jacobian
            if cj is not None:
                close(np.full(len(fr[0]), cj), np.sqrt(ta[0] ** 2 + ta[1] ** 2), 'constant Jacobian', rtol=1e-8, atol=0)
                tag('constant')
            continue
        u, v = ref.tensor(fr)
        per = te.whether.on_periodic_boundary
        kw = {'from_element': e, 'side': sn[k]} if per else {}
        close(np.array(C.mapping(u, v, **kw)), x, 'trace mapping', rtol=1e-10, atol=1e-10)
        g = np.meshgrid(*fr, indexing='ij')
        y = np.array(C.mapping(*pts, parse_3_1d_eps=True, **kw))
        close(np.array([c.ravel('F') for c in y]), x, 'trace mapping from three 1d arrays', rtol=1e-10, atol=1e-10)
        f = (lambda w: np.array([[c + 0 * u for c in r] for r in w]))
        JM = f(C.Jacobian_matrix(u, v))
        EX = np.stack([ta, tb], axis=1)
        gclose(JM, EX, 'trace Jacobian_matrix', rtol=rt, atol=rt * 1e-2)
        iJM = f(C.inverse_Jacobian_matrix(u, v))
        gclose(np.einsum('ikm,kjm->ijm', iJM, EX), np.eye(2)[:, :, None] + 0 * u, 'inverse Jacobian times Jacobian', rtol=10 * rt,
               atol=rt)
        G = np.einsum('kim,kjm->ijm', EX, EX)
        gclose(f(C.metric_matrix(u, v)), G, 'trace metric_matrix', rtol=4 * rt, atol=rt * 1e-2)
        iGx = np.moveaxis(np.linalg.inv(np.moveaxis(G, -1, 0)), 0, -1)
        gclose(f(C.inverse_metric_matrix(u, v)), iGx, 'trace inverse_metric_matrix', rtol=20 * rt, atol=rt)
        gclose(np.array(C.metric(u, v)) + 0 * u, G[0, 0] * G[1, 1] - G[0, 1] ** 2, 'trace metric', rtol=8 * rt, atol=rt * 1e-2)
        n = np.cross(ta.T, tb.T).T
        area = np.sqrt((n ** 2).sum(axis=0))
        n = n / area
        nv = np.array([c + 0 * u for c in C.unit_normal_vector(u, v)])
        close(nv, n, 'unit_normal_vector', rtol=0, atol=20 * rt)
        if bulk is not None:
            # three arrays of equal shape, of which the two of the free axes are used
            fr_ = [pts_[b] for b in range(3) if b != a]
            un = (lambda w: np.array([un(c) for c in w]) if isinstance(w, (list, tuple)) or np.ndim(w) > 1 else arr(w, fr_[0].shape))
            for n_ in bulk:
                w = un(getattr(C, n_)(*fr_))
                gclose(un(bulk[n_][t]), w, 'trace elements ct.' + n_, rtol=1e-9, atol=1e-12)
        if has_type:
            cn = C.constant.unit_normal_vector
            cj = C.constant.Jacobian
            if cn is not None:
                tag('constant')
                close(np.array(cn)[:, None] + 0 * n, n, 'constant unit normal', atol=20 * rt)
            if cj is not None:
                close(np.full(area.shape, cj), area, 'constant Jacobian of a trace element', rtol=1e-8, atol=0)
    if nd == 2:
        return
    for e in E:
        for k in range(6):
            a = k // 2
            fr = [pts[b] for b in range(3) if b != a]
            x, ta, tb, J = side(e, k, fr)
            u, v = ref.tensor(fr)
            sct = E[e].sides[sn[k]].coordinate_transformation
            close(np.array(sct.mapping(u, v)), x, 'side mapping', rtol=1e-10, atol=1e-10)
            n = np.cross(ta.T, tb.T).T * (1 if k % 2 else -1)
            n = n / np.sqrt((n ** 2).sum(axis=0))
            close(np.array([c + 0 * u for c in sct.outward_unit_normal_vector(u, v)]), n, 'outward normal of %d%s' % (e, sn[k]), rtol=0,
                  atol=20 * rt)
            ensure(E[e].sides[sn[k]].trace_element == T.map[e][k], 'side.trace_element')
    # edges and nodes
    EE, NE = M.edge.elements, M.node.elements
    corners = ['WB', 'EB', 'WF', 'EF', 'NB', 'SB', 'NF', 'SF', 'NW', 'SW', 'NE', 'SE']
    cn3 = ['NWB', 'SWB', 'NEB', 'SEB', 'NWF', 'SWF', 'NEF', 'SEF']
    val = {'N': (0, -1.), 'S': (0, 1.), 'W': (1, -1.), 'E': (1, 1.), 'B': (2, -1.), 'F': (2, 1.)}
    for e in E:
        for q, c in enumerate(corners):
            ee = EE[EE.map[e][q]]
            g = list(pts)
            for ch in c:
                g[val[ch][0]] = np.array([val[ch][1]])
            x, _ = geo.ev(e, g)
            y = np.array(ee.coordinate_transformation.mapping(*pts, from_element=e, corner_edge=c))
            close(y, x, 'edge element mapping', rtol=1e-10, atol=1e-10)
            if not ee.whether.on_periodic_boundary:
                ce, cc = ee.CHARACTERISTIC_element, ee.CHARACTERISTIC_corner_edge
                g = list(pts)
                for ch in cc:
                    g[val[ch][0]] = np.array([val[ch][1]])
                close(np.array(ee.coordinate_transformation.mapping(*pts)), geo.ev(ce, g)[0], 'edge mapping (default)', atol=1e-10)
                close(y, geo.ev(ce, g)[0], 'edge mapping differs between its elements', rtol=1e-9, atol=1e-9)
            ensure(ee.CHARACTERISTIC_region == M.do.find.region_name_of_element(ee.CHARACTERISTIC_element), 'edge region')
        for q, c in enumerate(cn3):
            ne = NE[NE.map[e][q]]
            g = [None] * 3
            for ch in c:
                g[val[ch][0]] = np.array([val[ch][1]])
            y = np.array(ne.coordinate_transformation.mapping(from_element=e, corner=c), dtype=float).ravel()
            close(y, geo.ev(e, g)[0].ravel(), 'node element mapping', rtol=1e-10, atol=1e-10)
            ensure(ne.CHARACTERISTIC_region == M.do.find.region_name_of_element(ne.CHARACTERISTIC_element), 'node region')
    if has_type:
        # constant outward normal of a boundary
        from root.config.main import COMM
        for bn in M.boundaries.names:
            c = M.boundaries[bn].coordinate_transformation.constant.outward_unit_normal_vector
            if c is None:
                ensure(not (m['id'] in ('cuboid', 'cuboid_periodic') or (m['id'][:5] == 'crazy' and m['kw'].get('c', 1.) == 0.)), 'no constant normal on a plane')
                continue
            for s_ in M.boundaries.range_of_element_sides[bn]:
                e, k = int(s_[:-1]), sn.index(s_[-1])
                fr = [pts[b] for b in range(3) if b != k // 2]
                _, ta, tb, _ = side(e, k, fr)
                n = np.cross(ta.T, tb.T).T * (1 if k % 2 else -1)
                n = n / np.sqrt((n ** 2).sum(axis=0))
                close(np.array(c)[:, None] + 0 * n, n, 'constant outward normal of boundary ' + bn, atol=20 * rt)


def g_rg(draw, st):
    nd = draw(st.sampled_from([2, 2, 3]))
    if nd == 3:
        m = gens.mesh3(draw, st, nmax=1, max_elements=1)
    else:
        m = gens.mesh2(draw, st, nmax=1, max_elements=1)
    m['lay'] = [1] * nd
    return {'m': m, 'o': [x / 16. for x in sorted(draw(st.lists(st.integers(0, 16), min_size=2, max_size=4, unique=True)))]}


@facet(P, 'region', g_rg, quick=200, cost=0.05)
def region(case):
    """region mappings interpolate the declared corners and edge/side geometries; derivatives; volume"""
    import numpy as np
    import bld
    import ref
    m = case['m']
    nd = len(m['lay'])
    M = bld.mk_mesh(m)
    o = np.array(case['o'])
    tag('%dd %s' % (nd, m['id']))
    nontrivial()
    smooth = not (m['id'] == 'bcr' and 'wave' not in m['kw'])
    geo = ref.Geo(M) if smooth else None
    for rn in M.domain.regions.names:
        R = M.domain.regions[rn]
        I = R.interpolation
        cc = np.array(R.corner_coordinates, dtype=float)
        for k in range(2 ** nd):
            p = [np.array([float((k >> a) & 1)]) for a in range(nd)]
            if m['id'] not in ('bridge_arch_cracked',):
                close(np.array(I(*p)).ravel(), cc[k], 'corner %d of region %s' % (k, rn), atol=1e-9)
        if nd == 2:
            for q, en in enumerate('UDLR'):
                gm = R.edges.geometries[en]
                a = q // 2
                p = [o, o]
                p[a] = np.full(len(o), float(q % 2))
                x = np.array(I(*p))
                if gm.__class__.__name__ != 'Free':
                    close(x, np.array(gm.XY(o)) + 0 * x, 'edge %s geometry of region %s' % (en, rn), atol=1e-9)
                ct = R.edges[en].coordinate_transformation
                close(np.array(ct.mapping(o)), x, 'edge mapping')
                if gm.__class__.__name__ == 'ACW' or gm.__class__.__name__ == 'AACW':
                    c = gm.edge_type[1]
                    r = np.hypot(x[0] - c[0], x[1] - c[1])
                    close(r, np.full(len(o), np.hypot(cc[0, 0] * 0 + x[0][0] - c[0], x[1][0] - c[1])), 'arc is not circular')
                    tag('arc')
                if smooth:
                    _, J = geo.ev(list(M.elements)[list(M.domain.regions.names).index(rn)], [2 * z - 1 for z in (
                        [p[0][:1], o] if a == 0 else [o, p[1][:1]])])
                    t = J[:, 1 - a] * 2
                    close(np.array(ct.tangent_vector(o)) + 0 * t, t, 'tangent vector of region edge', rtol=1e-7, atol=1e-7)
                    tn = t / np.hypot(t[0], t[1])
                    close(np.array(ct.unit_tangent_vector(o)), tn, 'unit tangent', atol=1e-7)
                    close(np.array(ct.normal_vector(o)), np.array([-t[1], t[0]]), 'normal vector', rtol=1e-7, atol=1e-7)
                    close(np.array(ct.unit_normal_vector(o)), np.array([-tn[1], tn[0]]), 'unit normal', atol=1e-7)
        else:
            u, v = ref.tensor([o, o])
            for q, sd in enumerate('NSWEBF'):
                a = q // 2
                p = [u, v]
                p.insert(a, np.full(len(u), float(q % 2)))
                close(np.array(R.sides[sd].coordinate_transformation.mapping(u, v)), np.array(I(*p)), 'region side mapping')
        # derivatives
        if smooth:
            e = list(M.elements)[list(M.domain.regions.names).index(rn)]
            ensure(M.elements[e].in_region == rn, 'element of region')
            _, J = geo.ev(e, [2 * o - 1] * nd)
            J = J * 2
            X = ref.tensor([o] * nd)
            rt = 2e-6 if m['id'] in ('ct', 'psc', 'pwc', 'LDC', 'bridge_arch_cracked') else 1e-8
            JM = I.Jacobian_matrix(*X)
            for i in range(nd):
                for j in range(nd):
                    gclose(arr(JM[i][j], X[0].shape), J[i, j], 'region Jacobian_matrix', rtol=rt, atol=rt * np.abs(J).max())
                    g = getattr(I, 'Jacobian_' + 'XYZ'[i] + 'rst'[j])(*X)
                    gclose(arr(g, X[0].shape), J[i, j], 'region Jacobian_%s%s' % ('XYZ'[i], 'rst'[j]), rtol=rt,
                           atol=rt * np.abs(J).max())
            x = np.array(I.mapping(*X))
            for i in range(nd):
                close(arr(getattr(I, 'mapping_' + 'XYZ'[i])(*X), X[0].shape), x[i], 'mapping_' + 'XYZ'[i])
            if nd == 3:
                g, w = ref.gauss(30)
                _, JJ = geo.ev(e, [g] * 3)
                _, W = ref.tgauss(30, 3)
                vol = float((ref.det(JJ) * W).sum())
                gclose(np.array([R.volume * 1.]), np.array([vol]), 'region volume', rtol=2e-6)
