# -*- coding: utf-8 -*-
"""P06: trace, edge and node elements."""
from kit import facet, ensure, close, nontrivial, tag
import gens

RULE = ('case = structured mesh (2d or 3d), layout, distribution method, rank count, order in which the skeletons are '
        'first asked for, entities to query; non-trivial: at least 2 mesh elements')
P = 'P06'
IDS = gens.IDS3 + ['cuboid', 'crazy_periodic', 'bridge_arch_cracked', 'cuboid_periodic']
EDGES = ['WB', 'EB', 'WF', 'EF', 'NB', 'SB', 'NF', 'SF', 'NW', 'SW', 'NE', 'SE']
NODES = ['NWB', 'SWB', 'NEB', 'SEB', 'NWF', 'SWF', 'NEF', 'SEF']


def g3(draw, st):
    big = draw(st.integers(0, 4)) == 0
    m = gens.min2_periodic(gens.mesh3(draw, st, ids=IDS, nmax=4 if big else 3, max_elements=60 if big else 18))
    return {'m': m, 'edm': draw(st.sampled_from([None, None, 'debug', 'chaotic'])),
            'first': draw(st.permutations(['trace', 'edge', 'node'])),
            'q': [draw(st.integers(0, 10 ** 6)) for _ in range(6)],
            'ep': [[gens.dyadic(draw, st, -1, 1, 8) for _ in range(draw(st.integers(1, 3)))] for _ in range(3)],
            'g0': draw(st.integers(0, 6)), 'rot': draw(st.integers(0, 6))}


class Skel(object):
    """entities from the element map alone"""

    def __init__(self, M):
        import numpy as np
        import topo
        from root.config.main import COMM
        self.G = G = topo.Glob(M)
        nd = M.ndim
        self.nd = nd
        one = [1] * nd
        self.lab = {'node': topo.dof_classes(G.map, G.n, nd, topo.comp_shapes(nd, one, 0))}
        if nd == 3:
            self.lab['edge'] = topo.dof_classes(G.map, G.n, nd, topo.comp_shapes(nd, one, 1))
        self.lab['trace'] = topo.dof_classes(G.map, G.n, nd, topo.comp_shapes(nd, one, nd - 1, 'outer'))
        self.names = {'node': NODES, 'edge': EDGES, 'trace': list(topo.SN[nd])}
        # periodic sides: the two copies of the side are at different places
        cen = {}
        for e in M.elements:
            for k in range(2 * nd):
                x = np.zeros((nd, 1))
                x[k // 2] = -1. + 2. * (k % 2)
                cen[(int(e), k)] = np.array(M.elements[e].coordinate_transformation.mapping(*x)).ravel()
        cen, _ = topo.allgather_dict(cen)
        self.per = {}
        for (e, k), c in cen.items():
            t = G.map[e][k]
            if not isinstance(t, str):
                self.per[(e, k)] = bool(np.max(np.abs(c - cen[(t, topo.opp(k))])) > 1e-7)
        self.owner = {}
        for r, ii in enumerate(COMM.allgather([int(i) for i in M.elements.indices])):
            for i in ii:
                self.owner[i] = r

    def ents(self, kind):
        """label -> list of (element, local index)"""
        out = {}
        L = self.lab[kind]
        for e in range(L.shape[0]):
            for j in range(L.shape[1]):
                out.setdefault(int(L[e, j]), []).append((e, j))
        return out


def check_map(M, S, kind, elems):
    """partition and consecutive numbering; returns number -> positions"""
    import numpy as np
    import topo
    loc = dict((int(e), [int(x) for x in elems.map[e]]) for e in elems.map)
    ensure(sorted(loc) == sorted(int(i) for i in M.elements), '%s map covers the local elements' % kind)
    full, cnt = topo.allgather_dict(loc)
    n = S.G.n
    ensure(cnt == n, '%s map' % kind)
    A = np.array([full[e] for e in range(n)])
    ensure(A.shape == S.lab[kind].shape, '%s map: %s entries per element' % (kind, A.shape))
    bad = topo.same_partition(A, S.lab[kind])
    w = A.shape[1]
    ensure(bad is None, lambda: '%s elements: %d%s and %d%s are %s one %s but numbered %d and %d' % (
        kind, bad[0] // w, S.names[kind][bad[0] % w], bad[1] // w, S.names[kind][bad[1] % w],
        'attached to' if S.lab[kind].ravel()[bad[0]] == S.lab[kind].ravel()[bad[1]] else 'not on', kind,
        A.ravel()[bad[0]], A.ravel()[bad[1]]))
    u = np.unique(A)
    ensure(np.array_equal(u, np.arange(len(u))), '%s numbering is not 0..N-1' % kind)
    ensure(elems.global_num == len(u), '%s global_num %s expected %d' % (kind, elems.global_num, len(u)))
    pos = {}
    for e in range(n):
        for j in range(w):
            pos.setdefault(int(A[e, j]), []).append((e, j))
    mine = sorted(set(x for v in loc.values() for x in v))
    ensure(sorted(int(x) for x in elems) == mine, 'local %s elements' % kind)
    ensure(elems.num == len(mine) == len(elems), 'number of local %s elements' % kind)
    for x in (0, len(u) - 1, len(u), -1):
        ensure((x in elems) == (x in mine), '%s: contains' % kind)
    return A, pos


SIDES_OF = {'trace': lambda nm: nm, 'edge': lambda nm: nm, 'node': lambda nm: nm}


def bnd_of(S, kind, plist):
    """mesh boundaries touched by an entity"""
    out = set()
    for e, j in plist:
        for s in S.names[kind][j]:
            t = S.G.map[e]['NSWEBF'.index(s) if S.nd == 3 else 'UDLR'.index(s)]
            if isinstance(t, str):
                out.add(t)
    return out


def is_per(S, kind, plist):
    for e, j in plist:
        for s in S.names[kind][j]:
            k = 'NSWEBF'.index(s) if S.nd == 3 else 'UDLR'.index(s)
            if S.per.get((e, k)):
                return True
    return False


def check_trace_elements(M, S, TE, A, pos):
    import topo
    from root.config.main import RANK
    sn = topo.SN[S.nd]
    dirs = {3: ['NS', 'WE', 'BF'], 2: ['UD', 'LR']}[S.nd]
    for i in TE:
        t = TE[i]
        ensure(t.i == i, 'trace element i')
        pl = pos[int(i)]
        want = set('%d%s' % (e, sn[j]) for e, j in pl)
        got = set(t.positions)
        b = None
        if len(pl) == 1:
            b = S.G.map[pl[0][0]][pl[0][1]]
            ensure(isinstance(b, str), 'skeleton')
            want.add(b)
        ensure(len(t.positions) == 2 and got == want, 'positions of trace element %d: %s expected %s' % (i, got, want))
        ensure(t.CHARACTERISTIC_position in got and t.NON_CHARACTERISTIC_position in got and
               (t.CHARACTERISTIC_position != t.NON_CHARACTERISTIC_position), 'characteristic positions')
        ce = t.CHARACTERISTIC_element
        cs = t.CHARACTERISTIC_side if S.nd == 3 else t.CHARACTERISTIC_edge
        ensure('%d%s' % (ce, cs) == t.CHARACTERISTIC_position and ce in M.elements, 'characteristic element')
        ensure(t.CHARACTERISTIC_region == M.do.find.region_name_of_element(ce), 'characteristic region')
        ensure(t.normal_direction == dirs[sn.index(cs) // 2], 'normal direction')
        ensure(t.on_mesh_boundary == b, 'on_mesh_boundary %s expected %s' % (t.on_mesh_boundary, b))
        ensure(bool(t.whether.on_mesh_boundary) == (b is not None), 'whether.on_mesh_boundary')
        ensure(bool(t.whether.on_periodic_boundary) == is_per(S, 'trace', pl), 'whether.on_periodic_boundary of trace %d' % i)
        ranks = set(S.owner[e] for e, j in pl)
        ensure(RANK in ranks, 'local trace element is not on a local element')
        ensure(bool(t.whether.shared_by_cores) == (len(ranks) == 2), 'shared_by_cores of trace %d' % i)
        ensure(t.shared_with_core == (None if len(ranks) == 1 else (ranks - {RANK}).pop()), 'shared_with_core')
        sp = t.spacing
        es = M.elements[ce].spacing
        a = sn.index(cs) // 2
        for d in range(S.nd):
            x = es[d][sn.index(cs) % 2] if d == a else es[d]
            close(sp[d], x, 'spacing of trace element', atol=1e-13)
    # number of each kind before
    kinds = {}
    for i, pl in pos.items():
        kinds[i] = pl[0][1] // 2
    T = TE.___PRIVATE_find_type_and_amount_numbered_before___()
    for i in TE:
        w = [sum(1 for x in range(i) if kinds[x] == d) for d in range(S.nd)]
        ensure([int(_) for _ in T[i]] == w, 'types numbered before trace element %d: %s expected %s' % (i, T[i], w))


@facet(P, 'skeleton3', g3, np={1: 1, 2: 1, 4: 1, 7: 1}, quick={1: 40, 2: 34, 4: 22, 7: 6}, cost=0.9)
def skeleton3(case):
    """3d trace/edge/node numbering, positions, boundary membership, transformations"""
    import numpy as np
    import bld
    from root.config.main import COMM, RANK
    m = case['m']
    M = bld.mk_mesh(m, case['edm'])
    S = Skel(M)
    n = S.G.n
    nontrivial(n > 1)
    tag(m['id'])
    got = {}
    for kind in case['first']:
        got[kind] = getattr(M, kind).elements
    ensure(M.trace.elements is got['trace'] and M.edge.elements is got['edge'], 'elements are not kept')
    res = {}
    for kind in ('trace', 'edge', 'node'):
        res[kind] = check_map(M, S, kind, got[kind])
    V, E, F = (got[k].global_num for k in ('node', 'edge', 'trace'))
    if m['id'] in ('crazy', 'ct', 'LDC', 'cuboid', 'bridge_arch_cracked') or m['id'] == 'cuboid':
        ensure(V - E + F - n == 1, 'Euler relation V-E+F-C = %d' % (V - E + F - n))
    elif m['id'] in ('crazy_periodic', 'cuboid_periodic'):
        if not (set(t for e in S.G.map.values() for t in e if isinstance(t, str))):
            ensure(V - E + F - n == 0, 'Euler relation of a torus: %d' % (V - E + F - n))
    check_trace_elements(M, S, got['trace'], *res['trace'])
    # ---- edges and nodes
    ep3 = [np.array(sorted(set(_))) for _ in case['ep']]
    for kind in ('edge', 'node'):
        EL = got[kind]
        A, pos = res[kind]
        names = S.names[kind]
        L = 2 if kind == 'edge' else 3
        for i in EL:
            x = EL[i]
            pl = pos[int(i)]
            ensure(x.i == i, 'i')
            want = set('%d%s' % (e, names[j]) for e, j in pl) | bnd_of(S, kind, pl)
            ensure(set(x.positions) == want and len(x.positions) == len(want),
                   '%s %d positions %s expected %s' % (kind, i, sorted(x.positions), sorted(want)))
            ensure(set(x.on_mesh_boundaries) == bnd_of(S, kind, pl), '%s on_mesh_boundaries' % kind)
            ensure(set(int(_) for _ in x.shared_by_mesh_elements) == set(e for e, j in pl),
                   '%s %d shared_by_mesh_elements %s' % (kind, i, x.shared_by_mesh_elements))
            ensure(bool(x.whether.on_mesh_boundary) == (len(bnd_of(S, kind, pl)) > 0), '%s on_mesh_boundary' % kind)
            per = is_per(S, kind, pl)
            ensure(bool(x.whether.on_periodic_boundary) == per, '%s %d on_periodic_boundary' % (kind, i))
            cp = x.CHARACTERISTIC_position
            ce = x.CHARACTERISTIC_element
            cc = x.CHARACTERISTIC_corner_edge if kind == 'edge' else x.CHARACTERISTIC_corner
            ensure(cp in want and cp == '%d%s' % (ce, cc) and ce in M.elements, '%s characteristic position' % kind)
            ensure(x.CHARACTERISTIC_region == M.do.find.region_name_of_element(ce), 'region')
            if kind == 'edge':
                ensure(x.direction == ['NS', 'WE', 'BF'][pl[0][1] // 4], 'direction of edge %d' % i)
            # place
            for e, j in pl:
                if S.owner[e] != RANK:
                    continue
                if sum(1 for y in A[e] if y == i) > 1:
                    kw = {'from_element': e, ('corner_edge' if kind == 'edge' else 'corner'): names[j]}
                else:
                    kw = {'from_element': e}
                ref = np.zeros((3, len(ep3[j // 4]) if kind == 'edge' else 1))
                if kind == 'edge':
                    ref[j // 4] = ep3[j // 4]
                for s in names[j]:
                    k = 'NSWEBF'.index(s)
                    ref[k // 2] = -1. + 2. * (k % 2)
                xr = np.array(M.elements[e].coordinate_transformation.mapping(*ref))
                if kind == 'edge':
                    xx = x.coordinate_transformation.mapping(*ep3, **kw)
                else:
                    xx = x.coordinate_transformation.mapping(**kw)
                close(np.array(xx).ravel(), xr.ravel(), '%s %d mapping from element %d' % (kind, i, e), rtol=1e-10)
            if not per:
                xx = x.coordinate_transformation.mapping(*(ep3 if kind == 'edge' else []))
                e, j = ce, names.index(cc)
                ref = np.zeros((3, len(ep3[j // 4]) if kind == 'edge' else 1))
                if kind == 'edge':
                    ref[j // 4] = ep3[j // 4]
                for s in names[j]:
                    k = 'NSWEBF'.index(s)
                    ref[k // 2] = -1. + 2. * (k % 2)
                xr = np.array(M.elements[e].coordinate_transformation.mapping(*ref))
                close(np.array(xx).ravel(), xr.ravel(), '%s %d mapping' % (kind, i), rtol=1e-10)
            if kind == 'node' and len(bnd_of(S, kind, pl)):
                q = len(pl)
                try:
                    ind = x.boundary_position_indicator
                except NotImplementedError:
                    ind = None
                    ensure(q not in (1, 2), 'boundary position of a node at %d elements' % q)
                pp = sorted('%d%s' % (e, names[j]) for e, j in pl)
                if ind is not None and q == 1:
                    ensure(ind == 'corner|' + pp[0], 'indicator %s' % ind)
                elif ind is not None and q == 2:
                    a, b = ind.split('|')
                    ensure(a == 'corner-edge' and sorted(b.split('.')) == pp, 'indicator %s' % ind)
                elif ind is not None and q == 4:
                    a, b = ind.split('|')
                    b = b.split('-')
                    ensure(a == 'surface-middle' and sorted(b[1:]) == pp, 'indicator %s' % ind)
                    ensure(all(b[0] in p_[-3:] for p_ in pp), 'indicator %s' % ind)
            elif kind == 'node':
                ensure(x.boundary_position_indicator is None, 'indicator of an internal node')
    T = got['edge'].___PRIVATE_find_type_and_amount_numbered_before___()
    kinds = dict((i, pl[0][1] // 4) for i, pl in res['edge'][1].items())
    for i in got['edge']:
        w = [sum(1 for x in range(i) if kinds[x] == d) for d in range(3)]
        ensure([int(_) for _ in T[i]] == w, 'types numbered before edge element %d' % i)


def local_ents(e_idx, S, kind, A, has):
    """numbers of `kind` elements of mesh element e_idx whose name contains / is contained in the letters `has`"""
    return set(int(A[e_idx, j]) for j, nm in enumerate(S.names[kind]) if has(nm))


@facet(P, 'find3', g3, np={1: 1, 2: 1, 4: 1, 7: 1}, quick={1: 40, 2: 34, 4: 22, 7: 6}, cost=0.9)
def find3(case):
    """neighbour finders of the trace, edge and node elements (collective calls)"""
    import numpy as np
    import bld
    import topo
    from root.config.main import COMM, RANK
    m = case['m']
    M = bld.mk_mesh(m, case['edm'])
    S = Skel(M)
    n = S.G.n
    nontrivial(n > 1)
    tag(m['id'])
    num = {}
    A = {}

    def ref(kind):
        """library numbers -> reference table (through the maps checked by skeleton3)"""
        if kind not in A:
            mp = getattr(M, kind).elements.map
            loc = dict((int(e), [int(x) for x in mp[e]]) for e in M.elements)
            full, _ = topo.allgather_dict(loc)
            A[kind] = np.array([full[e] for e in range(n)]).reshape(n, -1)
            num[kind] = getattr(M, kind).elements.global_num
        return A[kind]

    def where(kind, i):
        t = ref(kind)
        return [(int(e), int(j)) for e, j in zip(*np.nonzero(t == i))]

    def sub(kind, i, other):
        """`other` entities contained in (or containing) entity i of `kind`"""
        out = set()
        to = ref(other)
        for e, j in where(kind, i):
            a = set(S.names[kind][j])
            for jj, nm in enumerate(S.names[other]):
                b = set(nm)
                if (a <= b) or (b <= a):
                    out.add(int(to[e, jj]))
        return out

    def q_trace_edges(x):
        i = x % M.trace.elements.global_num
        # ordered as in the table for its characteristic element; a set is what matters
        r = M.trace.elements.do.find.edge_elements_surrounding_element(i)
        r2 = M.edge.elements.do.find.elements_surrounding_trace_element(i)
        w = sub('trace', i, 'edge')
        ensure(len(r) == 4 and set(int(_) for _ in r) == w and list(r) == list(r2),
               'edges around trace %d: %s expected %s' % (i, r, w))

    def q_trace_nodes(x):
        i = x % M.trace.elements.global_num
        r = M.trace.elements.do.find.node_elements_of_element(i)
        w = sub('trace', i, 'node')
        ensure(r is not None and set(int(_) for _ in r) == w and len(r) == 4,
               'nodes of trace %d: %s expected %s' % (i, r, w))

    def q_edge_trace(x):
        i = x % M.edge.elements.global_num
        w = sub('edge', i, 'trace')
        if len(w) > 5:
            return
        r = M.edge.elements.do.find.trace_elements_attached_to_element(i)
        r2 = M.trace.elements.do.find.elements_attached_to_edge_element(i)
        ensure(set(int(_) for _ in r) == w and len(r) == len(w) and sorted(r2) == sorted(r),
               'traces at edge %d: %s expected %s' % (i, r, w))

    def q_node_edge(x):
        i = x % M.node.elements.global_num
        w = sub('node', i, 'edge')
        r = M.node.elements.do.find.edge_elements_attached_to_element(i)
        ensure(set(int(_) for _ in r) == w and len(r) == len(w), 'edges at node %d: %s expected %s' % (i, r, w))
        r2 = M.edge.elements.do.find.elements_attached_to_node_element(i)
        ensure(sorted(r2) == sorted(r), 'edges at node (edge finder)')

    def q_node_trace(x):
        i = x % M.node.elements.global_num
        w = sub('node', i, 'trace')
        r = M.node.elements.do.find.trace_elements_attached_to_element(i)
        ensure(set(int(_) for _ in r) == w and len(r) == len(w), 'traces at node %d: %s expected %s' % (i, r, w))
        r2 = M.trace.elements.do.find.elements_attached_to_node_element(i)
        ensure(sorted(r2) == sorted(r), 'traces at node (trace finder)')

    def q_pair(x):
        e = x % n
        if x % 2:
            f = (e + 1) % n
            r = M.elements.do.find.trace_element_between_two_elements(e, f)
            T = ref('trace')
            ensure(e == f or set(int(_) for _ in r) == set(int(T[e, k]) for k in range(6) if S.G.map[e][k] == f),
                   'traces between elements %d and %d: %s' % (e, f, r))
        T = ref('trace')
        js = [k for k in range(6) if not isinstance(S.G.map[e][k], str)]
        if js and (x // n) % 3:
            f = S.G.map[e][js[(x // n) % len(js)]]
        else:
            f = (x // 7) % n
        w = sorted(set(int(T[e, k]) for k in range(6) if S.G.map[e][k] == f) | set()) if e != f else None
        if w is not None:
            r = M.trace.elements.do.find.element_between_two_mesh_elements(e, f)
            ensure(sorted(int(_) for _ in r) == w, 'traces between %d and %d: %s expected %s' % (e, f, r, w))
        t1, t2 = int(T[e, x % 6]), int(T[f, (x // 5) % 6])
        if t1 != t2:
            r = M.trace.elements.do.find.mesh_element_shared_by_elements(t1, t2)
            w = set(a for a, _ in where('trace', t1)) & set(a for a, _ in where('trace', t2))
            ensure((r is None and not w) or r in w, 'element shared by traces %d, %d: %s expected %s' % (t1, t2, r, w))

    def q_around(x):
        E = M.edge.elements
        i = x % E.global_num
        pl = where('edge', i)
        bd = bnd_of(S, 'edge', pl)
        T = ref('trace')
        if len(pl) > 4:
            return
        o = E.do.find.objects_surrounding(i).sequence
        useful = any(S.owner[e] == RANK for e, j in pl)
        ensure((o is None) == (not useful), 'sequence on this rank')
        if o is None:
            return
        if bd:
            ensure(isinstance(o[0], str) and isinstance(o[-1], str) and {o[0], o[-1]} <= bd, 'sequence %s' % o)
            ensure(set(o[2:-2:2]) == set(e for e, j in pl) and len(o[2:-2:2]) == len(pl), 'sequence %s of %s' % (o, pl))
            seq_t, seq_m = o[1:-1:2], o[2:-2:2]
            (e0, j0), = where('trace', o[1])
            ensure(S.G.map[e0][j0] == o[0], 'the sequence %s starts at a wrong boundary' % o)
            (e1, j1), = where('trace', o[-2])
            ensure(S.G.map[e1][j1] == o[-1], 'the sequence %s ends at a wrong boundary' % o)
            for q_, mm in enumerate(seq_m):
                sides = [int(T[mm, 'NSWEBF'.index(s)]) for e, j in pl if e == mm for s in EDGES[j]]
                ensure(set(sides) == {seq_t[q_], seq_t[q_ + 1]}, 'sequence %s around edge %d' % (o, i))
        else:
            ensure(o[0] == o[-1], 'sequence not closed %s' % o)
            ensure(sorted(o[0:-1:2]) == sorted(e for e, j in pl), 'sequence %s of %s' % (o, pl))
            k = len(o) // 2
            for q_ in range(k):
                mm = o[2 * q_]
                before, after = o[2 * q_ - 1 if q_ else -2], o[2 * q_ + 1]
                sides = set(int(T[mm, 'NSWEBF'.index(s)]) for e, j in pl if e == mm for s in EDGES[j])
                ensure(sides == {before, after}, 'sequence %s around edge %d' % (o, i))

    def q_sos_edge(x):
        E = M.edge.elements
        i = x % E.global_num
        pl = where('edge', i)
        T = ref('trace')
        s = E.do.find.hybrid_singularity_overcoming_setting(i)
        got = COMM.allgather(None if s is None else (s.i, list(s.replacing), list(s.through)))
        got = [g for g in got if g is not None]
        ensure(len(got) == 1, 'the setting of edge %d is given by %d ranks' % (i, len(got)))
        ii, (e, ce), (t, side) = got[0]
        ensure(ii == i and (e, EDGES.index(ce)) in pl, 'replacing %s' % ((e, ce),))
        ensure(int(T[e, 'NSWEBF'.index(ce[0])]) == t and side == ce[1], 'through %s' % ((t, side),))

    def q_sos_node(x):
        Nn = M.node.elements
        i = x % Nn.global_num
        pl = where('node', i)
        bd = bnd_of(S, 'node', pl)
        if bd and len(pl) != 1:
            return
        if not bd and len(pl) != 8:
            return
        T, E = ref('trace'), ref('edge')
        s = Nn.do.find.hybrid_singularity_overcoming_setting(i)
        if bd:
            if i not in Nn:
                ensure(s.mesh is None, 'corner setting on a rank without the node')
                return
            (e, j), = pl
            ensure(tuple(s.mesh) == (e, NODES[j]), 'corner setting')
            w = set()
            we = set()
            for a in range(3):
                sd = NODES[j][a]
                rest = NODES[j].replace(sd, '')
                w.add((int(T[e, 'NSWEBF'.index(sd)]), rest, S.G.map[e]['NSWEBF'.index(sd)]))
                we.add((int(E[e, EDGES.index(rest)]), sd))
            ensure(set(tuple(_) for _ in s.trace) == w, 'corner trace %s expected %s' % (s.trace, w))
            ensure(set(tuple(_) for _ in s.edge) == we, 'corner edge %s expected %s' % (s.edge, we))
            ensure(list(s.mesh_boundaries) == [_[2] for _ in s.trace], 'corner boundaries')
        else:
            w, we = set(), set()
            N_, S_ = set(), set()
            for e, j in pl:
                nm = NODES[j]
                if nm[0] == 'S':
                    w.add((int(T[e, 1]), nm[1:]))
                    for q_ in (1, 2):
                        # edges on the N-S surface: 'S'+side, named by the end that touches the node
                        we.add((int(E[e, EDGES.index('S' + nm[q_])]), nm[3 - q_]))
                    N_.add(int(E[e, EDGES.index(nm[1:])]))
                else:
                    S_.add(int(E[e, EDGES.index(nm[1:])]))
            ensure(set((int(a), b) for a, b in s.trace) == w and len(s.trace) == 4, 'node %d trace %s expected %s' % (i, s.trace, w))
            ensure(set((int(a), b) for a, b in s.edge) <= we and len(set(a for a, b in s.edge)) == 4 and len(s.edge) == 4,
                   'node %d edges %s expected %s' % (i, s.edge, we))
            ensure({s.N_edge} == N_ and {s.S_edge} == S_, 'N/S edge of node %d: %s %s' % (i, s.N_edge, s.S_edge))

    qs = [q_trace_edges, q_trace_nodes, q_edge_trace, q_node_edge, q_node_trace, q_pair, q_around, q_sos_edge,
          q_sos_node]
    x = case['q']
    k0 = case['rot']
    g0 = case['g0']
    if g0 < len(qs):
        # the very first request on a fresh mesh
        fresh = qs[(g0 + k0) % len(qs)]
        fresh(x[0])
        tag('first ' + fresh.__name__)
    for r in range(len(x)):
        for i, f in enumerate(qs):
            f(x[r] + 7919 * i * (r + 1))
    # every edge's surroundings when the mesh is small
    if n <= 8:
        for i in range(M.edge.elements.global_num):
            q_around(i)
        for i in range(M.node.elements.global_num):
            q_sos_node(i)


def g2(draw, st):
    big = draw(st.integers(0, 4)) == 0
    m = gens.mesh2(draw, st, nmax=6 if big else 4, max_elements=90 if big else 30)
    return {'m': m, 'edm': draw(st.sampled_from([None, None, 'debug', 'chaotic'])), 'q': draw(st.integers(0, 10 ** 6))}


@facet(P, 'skeleton2', g2, np={1: 1, 2: 1, 5: 1}, quick={1: 80, 2: 60, 5: 20}, cost=0.3)
def skeleton2(case):
    """2d trace elements"""
    import bld
    M = bld.mk_mesh(case['m'], case['edm'])
    S = Skel(M)
    nontrivial(S.G.n > 1)
    tag(case['m']['id'])
    TE = M.trace.elements
    A, pos = check_map(M, S, 'trace', TE)
    check_trace_elements(M, S, TE, A, pos)
    V = len(set(S.lab['node'].ravel().tolist()))
    chi = V - TE.global_num + S.G.n
    ids = case['m']['id']
    if ids in ('crazy', 'quadrangle', 'bcr', 'rectangle'):
        ensure(chi == 1, 'Euler relation: %d' % chi)
    elif ids in ('chp1', 'chp2'):
        ensure(chi in (0,), 'Euler relation with a hole: %d' % chi)
