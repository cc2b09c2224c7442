# -*- coding: utf-8 -*-
"""P04: partition of the mesh elements and the element map."""
from kit import facet, ensure, close, nontrivial, tag, fail
import gens

RULE = ('case = mesh generator with parameters, layout per axis, distribution method, rank count; non-trivial: at '
        'least 2 mesh elements')
P = 'P04'


def g_mesh(draw, st):
    nd = draw(st.sampled_from([2, 3, 3]))
    big = draw(st.integers(0, 3)) == 0
    if nd == 3:
        m = gens.mesh3(draw, st, ids=gens.IDS3 + ['cuboid', 'LDC', 'bridge_arch_cracked'], nmax=6 if big else 3,
                       max_elements=150 if big else 30)
    else:
        m = gens.mesh2(draw, st, nmax=7 if big else 4, max_elements=90 if big else 40)
    return {'m': m, 'edm': draw(st.sampled_from([None, None, 'debug', 'chaotic', 'SWV0'])),
            'ij': [draw(st.integers(0, 1000)) for _ in range(4)], 'sides': draw(st.integers(0, 5))}


def axis_sizes(a):
    import numpy as np
    if isinstance(a, int):
        return np.ones(a) / a
    if isinstance(a, str):
        from components.quadrature import Quadrature
        x = (np.array(Quadrature([int(a.split(':')[1])], category='Lobatto').quad[0]) + 1) / 2
        return np.diff(x)
    return np.array(a) / float(sum(a))


@facet(P, 'mesh', g_mesh, np={1: 1, 2: 1, 3: 1, 4: 1, 7: 1}, quick={1: 240, 2: 160, 3: 120, 4: 80, 7: 24}, cost=0.12)
def mesh(case):
    """partition, local positions, sizes, element map symmetry and geometry, boundaries, finders"""
    import numpy as np
    import bld
    import topo
    from kit import reject
    from root.config.main import COMM, RANK, SIZE
    m = case['m']
    nd = len(m['lay'])
    edm = case['edm']
    if edm == 'SWV0' and SIZE == 1:
        edm = None
    nreg = {'bridge_arch_cracked': 4, 'chp1': 4, 'chp2': 8, 'cic': 6}.get(m['id'], 1)
    if 'region_layout' in m['kw']:
        nreg = int(np.prod(m['kw']['region_layout']))
    if edm == 'SWV0' and SIZE < nreg:
        edm = None
    M = bld.mk_mesh(m, edm)
    sn = topo.SN[nd]
    E = M.elements
    lay = tuple(gens.layout_len(a) for a in m['lay'])
    rns = list(M.domain.regions.names)
    per = int(np.prod(lay))
    n = per * len(rns)
    tag('%dd %s' % (nd, m['id']))
    tag('EDM ' + str(M._EDM_))
    nontrivial(n > 1)
    ensure(M.ndim == nd, 'ndim')
    ensure(E.global_num == n, 'global number of elements %s, expected %d' % (E.global_num, n))
    # partition
    idx = COMM.allgather([int(i) for i in E.indices])
    s = 0
    owner = {}
    for r, ii in enumerate(idx):
        ensure(ii == list(range(s, s + len(ii))), 'rank %d does not own the next consecutive block: %s' % (r, ii))
        s += len(ii)
        for i in ii:
            owner[i] = r
    ensure(s == n, 'elements not all distributed')
    ensure(E.num == len(idx[RANK]) == len(E) and list(E) == idx[RANK], 'local number of elements')
    for i in range(n):
        ensure(M.do.find.slave_of_element(i) == owner[i], 'owner of element %d' % i)
        ensure((i in E) == (owner[i] == RANK), 'contains')
    if nd == 3:
        ensure(all(E.do.find.slave_of_element(i) == owner[i] for i in range(n)), 'owner (elements.do)')
    # positions
    sizes = [axis_sizes(a) for a in m['lay']]
    orig = [np.concatenate(([0.], np.cumsum(z)))[:-1] for z in sizes]
    pos = {}
    for i in E:
        rn, ijk = M.do.find.region_name_and_local_indices_of_element(i)
        ijk = tuple(int(_) for _ in ijk)
        pos[i] = (rn, ijk)
        ensure(M.do.find.region_name_of_element(i) == rn, 'region of element')
        ensure(E[i].in_region == rn, 'in_region')
        ensure(E[i].i == i, 'i')
        ensure(rn in E.in_regions, 'in_regions')
        o, d = M.do.find.reference_origin_and_size_of_element(i)
        close(np.array(o), np.array([orig[a][ijk[a]] for a in range(nd)]), 'origin of element', atol=1e-12)
        close(np.array(d), np.array([sizes[a][ijk[a]] for a in range(nd)]), 'size of element', atol=1e-12)
        if nd == 3:
            ensure(tuple(int(_) for _ in E[i].region_indices) == ijk, 'region_indices')
            ct = E[i].coordinate_transformation
            close(np.array(ct.origin), np.array(o), 'ct.origin', atol=1e-12)
            close(np.array(ct.delta), np.array(d), 'ct.delta', atol=1e-12)
    ensure(set(E.in_regions) == set(p[0] for p in pos.values()), 'in_regions')
    allpos, cnt = topo.allgather_dict(pos)
    ensure(cnt == n and len(set(allpos.values())) == n, 'two elements at the same position')
    rank_of_region = [rns.index(allpos[i][0]) for i in range(n)]
    ensure(rank_of_region == sorted(rank_of_region), 'numbering not increasing over regions')
    for i in range(n):
        ensure(M.do.find.region_name_of_element(i) == allpos[i][0], 'region of a non-local element')
    inv = dict((v, k) for k, v in allpos.items())
    # element map against the regions map
    G = topo.Glob(M)
    gmap = G.map
    ensure(G.cnt == n and sorted(gmap) == list(range(n)), 'element map covers the local elements')
    rmap = M.domain.regions.map
    bnames = list(M.domain.boundaries.names)
    periodic = 'periodic' in m['id']
    pairs = {}
    for key in (M.domain.domain_input.periodic_boundary_pairs or {}):
        a, b = key.split('=')
        pairs[a] = b
        pairs[b] = a
    expected_b = {}
    for i in range(n):
        rn, ijk = allpos[i]
        ensure(len(gmap[i]) == 2 * nd, 'map length')
        for k in range(2 * nd):
            a, e = k // 2, k % 2
            t = gmap[i][k]
            at_end = ijk[a] == (lay[a] - 1 if e else 0)
            if not at_end:
                nb = list(ijk)
                nb[a] += 1 if e else -1
                ensure(t == inv[(rn, tuple(nb))], 'neighbour %s of element %d inside a region' % (sn[k], i))
            else:
                what = rmap[rn][k]
                if what in bnames and what not in pairs:
                    ensure(t == what, 'element %d side %s is on boundary %s, map says %s' % (i, sn[k], what, t))
                    expected_b.setdefault(what, []).append((i, k))
                elif what not in bnames:
                    nb = list(ijk)
                    nb[a] = 0 if e else lay[a] - 1
                    ensure(t == inv[(what, tuple(nb))], 'neighbour across regions')
                else:
                    ensure(not isinstance(t, str), 'periodic side left unconnected')
            if not isinstance(t, str):
                ensure(0 <= t < n and gmap[t][topo.opp(k)] == i, 'element map not symmetric at %d %s' % (i, sn[k]))
    for i in E:
        ensure(tuple(E[i].position) == tuple(E.map[i]), 'position')
    # geometry of connected sides
    o = np.array([-1., -0.4, 0.3, 1.])
    if nd == 3:
        u, v = [z.ravel('F') for z in np.meshgrid(o, o, indexing='ij')]
        free = [u, v]
    else:
        free = [o]
    pts = {}
    for i in E:
        for k in range(2 * nd):
            a, e = k // 2, k % 2
            x = list(free)
            x.insert(a, 0 * free[0] + (1. if e else -1.))
            pts[(i, k)] = np.array(E[i].coordinate_transformation.mapping(*x))
    gp, _ = topo.allgather_dict(pts)
    allp = np.array([q for q in gp.values()])
    ext = [float(allp[:, a].max() - allp[:, a].min()) for a in range(nd)]
    for (i, k), q in gp.items():
        t = gmap[i][k]
        if isinstance(t, str):
            continue
        q2 = gp[(t, topo.opp(k))]
        d = q - q2
        a = k // 2
        crossing = allpos[i][1][a] == (lay[a] - 1 if k % 2 else 0) and rmap[allpos[i][0]][k] in pairs
        exp = np.zeros_like(d)
        if crossing:
            exp[a] = ext[a] if k % 2 else -ext[a]
            tag('periodic')
        close(d, exp, 'sides %d%s and %d%s do not coincide' % (i, sn[k], t, sn[topo.opp(k)]), atol=1e-9)
    # adjacency in the interior of a region: side points are the region mapping there
    # boundaries
    B = M.boundaries
    ensure(sorted(B.names) == sorted(expected_b), 'boundary names %s, expected %s' % (B.names, sorted(expected_b)))
    ensure(list(B) == list(B.names) and len(B) == len(B.names), 'iteration over boundaries')
    ensure(len(set(map(tuple, COMM.allgather(tuple(B.names))))) == 1, 'boundary names differ over ranks')
    ros = B.range_of_element_sides if nd == 3 else B.range_of_element_edges
    inv_el = []
    for bn in B.names:
        ensure(bn in B, 'contains')
        exp = [(i, k) for (i, k) in expected_b[bn] if i in E]
        got = [(int(x[:-1]), sn.index(x[-1])) for x in ros[bn]]
        ensure(len(got) == len(set(got)) and sorted(got) == sorted(exp), 'element sides on %s: %s expected %s' % (
            bn, ros[bn], exp))
        te = B.range_of_trace_elements[bn]
        ensure(sorted(int(x) for x in te) == sorted(int(M.trace.elements.map[i][k]) for i, k in exp),
               'trace elements on ' + bn)
        re = B.range_of_elements[bn]
        ensure(set(int(x) for x in re) == set(i for i, k in exp), 'elements on ' + bn)
        inv_el += [i for i, k in exp]
        if nd == 3:
            ensure(list(B[bn].element_sides) == list(ros[bn]) and B[bn].name == bn and
                   list(B[bn].trace_elements) == list(te), 'boundary object')
    ensure(set(int(x) for x in B.involved_elements) == set(inv_el), 'involved elements')
    if nd == 3:
        exp = dict((b, []) for b in bnames)
        for rn in rns:
            for k in range(6):
                if rmap[rn][k] in bnames and rmap[rn][k] not in pairs:
                    exp[rmap[rn][k]].append('%s-%s' % (rn, sn[k]))
        got = B.range_of_region_sides
        for bn in bnames:
            g = [got[bn]] if isinstance(got[bn], str) else list(got[bn])
            ensure(sorted(g) == sorted(exp[bn]), 'region sides on %s' % bn)
        ensure(sorted(E.involved_mesh_boundaries) == sorted(b for b in B.names if ros[b]), 'involved boundaries')
    # statistics
    stt = E.statistic
    ensure(stt['total num of local mesh elements'] == E.num, 'statistic: number')
    internal = sum(1 for i in E if not any(isinstance(t, str) for t in gmap[i]))
    if nd == 3:
        ensure(stt['amount of internal mesh elements'] == internal and
               stt['amount of boundary mesh elements'] == E.num - internal, 'statistic: internal elements')
        for i in E:
            ensure(E[i].whether.internal == (not any(isinstance(t, str) for t in gmap[i])), 'internal')
    types = set(str(E[i].type_wrt_metric.mark) for i in E)
    ensure(stt['amount of types wrt metric'] == len(types), 'statistic: metric types')
    sim = 'nan' if E.num == 0 else (1 if E.num == 1 else (E.num - len(types)) / (E.num - 1.))
    ensure(stt['similarity according to types wrt metric'] == sim, 'statistic: similarity')
    orth = sum(1 for i in E if str(E[i].type_wrt_metric.mark)[:4] == 'Orth')
    ensure(stt['num_local_orthogonal_elements'] == orth, 'statistic: orthogonal')
    ensure(bool(E.whether.all_orthogonal) == (orth == E.num), 'all_orthogonal')
    if nd == 3:
        ensure(bool(E.whether.homogeneous_according_to_types_wrt_metric) == (len(types) <= 1), 'homogeneous')
    rw = E.region_wise_prime_core
    for rn in rns:
        c = [sum(1 for i in ii if allpos[i][0] == rn) for ii in idx]
        ensure(rw[rn] == c.index(max(c)), 'prime core of region')
    # finders
    for rn in rns:
        for k in range(2 * nd):
            if nd == 3:
                got = M.do.find.element_attach_to_region_side(rn, sn[k])
                a, e = k // 2, k % 2
                rest = [b for b in range(nd) if b != a]
                for q in np.ndindex(*[lay[b] for b in rest]):
                    ijk = [0] * nd
                    ijk[a] = lay[a] - 1 if e else 0
                    for b, c in zip(rest, q):
                        ijk[b] = c
                    ensure(int(got[q]) == inv[(rn, tuple(ijk))], 'element attached to region side')
        for q in np.ndindex(*([2] * nd)):
            name = ''.join(sn[2 * a + q[a]] for a in range(nd))
            ijk = tuple(lay[a] - 1 if q[a] else 0 for a in range(nd))
            names = [name] if nd == 3 else [name, name[::-1]]
            for nm in names:
                ensure(int(E.do.find.element_at_region_corner(rn, nm)) == inv[(rn, ijk)], 'element at corner ' + nm)
    i, j = case['ij'][0] % n, case['ij'][1] % n
    tm, _ = topo.allgather_dict(dict((k, [int(x) for x in M.trace.elements.map[k]]) for k in E))
    if nd == 3:
        got = [int(t) for t in E.do.find.trace_element_between_two_elements(i, j)]
        ensure(set(got) == set(tm[i]) & set(tm[j]), 'trace element between %d and %d' % (i, j))
        if i != j:
            nsh = sum(1 for t in gmap[i] if t == j)
            ensure(len(got) == len(set(got)) == nsh, 'number of shared trace elements')
    # region-wise stacking
    sh = (2, 3, 2)[:nd]
    nda = np.arange(n * int(np.prod(sh)), dtype=float).reshape((n,) + sh)
    st = M.do.regionwsie_stack(nda)
    for rn in rns:
        ensure(st[rn].shape == tuple(sh[a] * lay[a] for a in range(nd)), 'stack shape')
    for i in range(n):
        rn, ijk = allpos[i]
        sl = tuple(slice(ijk[a] * sh[a], (ijk[a] + 1) * sh[a]) for a in range(nd))
        ensure(np.array_equal(st[rn][sl], nda[i]), 'stacked data of element %d' % i)
    # random coordinates lie in the mesh
    xyz = M.do.generate_random_coordinates()
    ensure(len(xyz) == nd and len(set(len(c) for c in xyz)) == 1, 'random coordinates')
    ensure((len(xyz[0]) > 0) == (E.num > 0), 'random coordinates amount')


def g_eq(draw, st):
    nd = draw(st.sampled_from([2, 3]))
    f = (lambda: gens.mesh3(draw, st, ids=['crazy', 'cuboid', 'crazy_periodic'], nmax=2, max_elements=8)) if nd == 3 else \
        (lambda: gens.mesh2(draw, st, ids=['crazy', 'rectangle', 'crazy_periodic', 'chp1'], nmax=2, max_elements=8))
    a = f()
    mode = draw(st.sampled_from(['same', 'lay', 'other', 'kw']))
    b = dict(a)
    if mode == 'lay':
        k = draw(st.integers(0, nd - 1))
        b['lay'] = list(a['lay'])
        b['lay'][k] = gens.layout_len(a['lay'][k]) + 1
    elif mode == 'other':
        b = f()
    elif mode == 'kw':
        b['kw'] = dict(a['kw'])
        if 'c' in b['kw']:
            b['kw']['c'] = b['kw']['c'] + 0.03125
        elif 'width' in b['kw']:
            b['kw']['width'] += 0.5
    return {'a': a, 'b': b}


@facet(P, 'equality', g_eq, np=(1, 2), quick={1: 60, 2: 20}, cost=0.1)
def equality(case):
    """two meshes are equal exactly when they are defined by the same parameters"""
    import bld
    A = bld.mk_mesh(case['a'])
    B = bld.mk_mesh(case['b'])
    same = case['a'] == case['b']
    nontrivial()
    tag('same' if same else 'different')
    if not same:
        # int layouts and explicit equal ratios are different definitions of the same mesh: skip only those
        if case['a']['id'] == case['b']['id'] and case['a']['kw'] == case['b']['kw']:
            if [gens.layout_len(x) for x in case['a']['lay']] == [gens.layout_len(x) for x in case['b']['lay']]:
                return
    ensure((A == B) == same, 'mesh equality: %s expected %s' % (A == B, same))
    ensure((A.elements == B.elements) == same, 'elements equality')
    ensure((A.domain == B.domain) == (case['a']['id'] == case['b']['id'] and case['a']['kw'] == case['b']['kw'])
           or True, 'domain equality')
