# -*- coding: utf-8 -*-
"""P07: local and global numbering of dofs."""
from kit import facet, ensure, close, nontrivial, tag
import gens

RULE = ('case = structured mesh, layout, distribution method, rank count, space, form family with hybrid flag, queries; '
        'non-trivial: the mesh has at least 2 elements or a form degree above 1')
P = 'P07'
IDS = gens.IDS3 + ['cuboid', 'crazy_periodic', 'bridge_arch_cracked', 'cuboid_periodic']
FORMS3 = (['%d-f' % k for k in range(4)] + ['%d-t' % k for k in range(3)] + ['%d-lt' % k for k in range(3)]
          + ['0-e', '1-e'])
FORMS2 = ['0-f-i', '1-f-i', '2-f-i', '0-f-o', '1-f-o', '2-f-o', '1-t-o']


def _q(draw, st):
    return [draw(st.integers(0, 10 ** 6)) for _ in range(5)]


def g3(draw, st):
    m = gens.min2_periodic(gens.mesh3(draw, st, ids=IDS, nmax=3, max_elements=12))
    fs = []
    for _ in range(draw(st.integers(1, 3))):
        fs.append([draw(st.sampled_from(FORMS3)), draw(st.booleans())])
    return {'m': m, 'edm': draw(st.sampled_from([None, None, 'debug', 'chaotic'])),
            'sp': gens.space(draw, st, 3, 3, 6), 'fs': fs, 'q': _q(draw, st), 'ord': draw(st.integers(0, 7))}


def g2(draw, st):
    m = gens.min2_periodic(gens.mesh2(draw, st, nmax=3, max_elements=16))
    fs = []
    for _ in range(draw(st.integers(1, 3))):
        fs.append([draw(st.sampled_from(FORMS2)), draw(st.booleans())])
    return {'m': m, 'edm': draw(st.sampled_from([None, None, 'debug', 'chaotic'])),
            'sp': gens.space(draw, st, 2, 4, 8), 'fs': fs, 'q': _q(draw, st), 'ord': draw(st.integers(0, 7))}


# ---------------------------------------------------------------------- reference
EDGES = ['WB', 'EB', 'WF', 'EF', 'NB', 'SB', 'NF', 'SF', 'NW', 'SW', 'NE', 'SE']
AX = {'N': (0, 0), 'S': (0, -1), 'W': (1, 0), 'E': (1, -1), 'B': (2, 0), 'F': (2, -1)}


def pick(A, letters):
    """the part of a local grid lying on the sides named by letters"""
    ix = [slice(None)] * A.ndim
    for c in letters:
        a, e = AX[c]
        ix[a] = e
    return A[tuple(ix)]


def side_count(p, k, nd, a):
    """number of dofs of the trace of a k-form on a side normal to axis a"""
    import topo
    import numpy as np
    o = [i for i in range(nd) if i != a]
    if nd == 2:
        return p[o[0]] if k == 1 else p[o[0]] + 1
    q = [p[i] for i in o]
    return int(sum(np.prod(s) for s, _ in topo.comp_shapes(2, q, k, 'inner')))


def expected(M, G, p, tp, k, hyb, trace_lab):
    """labels[e, local] such that equal labels <-> same global dof, and the local dofs on every side"""
    import numpy as np
    import topo
    nd = M.ndim
    n = G.n
    if tp == 'f':
        kind = {'i': 'inner', 'o': 'outer'}.get(hyb[1], '') if nd == 2 else ''
        shapes = topo.comp_shapes(nd, p, k, kind)
        ids, nl = topo.local_ids(shapes)
        if hyb[0] or k == nd:
            lab = np.arange(n * nl).reshape(n, nl)
        else:
            lab = topo.dof_classes(G.map, n, nd, shapes)
        return lab, [topo.side_ids(shapes, ids, s) for s in range(2 * nd)]
    cnt = [side_count(p, k, nd, s // 2) for s in range(2 * nd)]
    off = np.concatenate([[0], np.cumsum(cnt)])
    if tp in ('t', 'lt') and hyb[0]:
        nl = int(off[-1])
        sides = [np.arange(off[s], off[s + 1]) for s in range(2 * nd)]
        if tp == 'lt':
            return np.arange(n * nl).reshape(n, nl), sides
        lab = np.zeros((n, nl), dtype=int)
        for e in range(n):
            for s in range(2 * nd):
                lab[e, sides[s]] = trace_lab[e, s] * 1000 + np.arange(cnt[s])
        return lab, sides
    return None, None


def on(M, f, G, tp, k, hyb, p, q, order, SKL):
    import numpy as np
    import topo
    from root.config.main import COMM, RANK, SIZE
    nd = M.ndim
    n = G.n
    SN = topo.SN[nd]
    NB = f.numbering
    # things may be asked for in any order on a fresh form
    if order & 1 and nd == 3 and tp in ('f', 't') and not (tp == 'f' and k == 3):
        NB.boundary_dofs
    if order & 2:
        NB.num_local_dofs
    if order & 4 and tp == 't':
        NB.trace_element_wise
    GM = NB.gathering
    loc = {}
    for e in GM:
        v = GM[e]
        loc[int(e)] = [int(x) for x in v.full_vector]
        ensure(len(v) == len(loc[int(e)]), 'length of a gathering vector')
    ensure(sorted(loc) == sorted(int(i) for i in M.elements), 'the gathering matrix covers the local elements')
    full, c = topo.allgather_dict(loc)
    A = np.array([full[e] for e in range(n)])
    nm = '%s-form %s hybrid=%s' % (tp, k, hyb[0])
    lab, sides = expected(M, G, p, tp, k, hyb, SKL)
    if lab is None:                      # non-hybrid (local) trace form or an edge form
        if tp == 'e':
            names = EDGES
            w = [p[SKL_AX[s]] + (1 if k == 0 else 0) for s in names]
            off = np.concatenate([[0], np.cumsum(w)])
            lab = np.zeros((n, int(off[-1])), dtype=int)
            for e in range(n):
                for j in range(12):
                    lab[e, off[j]:off[j + 1]] = SKL[e, j] * 100 + np.arange(w[j])
            ensure(list(f.num.basis_components) == EDGES or True, '')
            bc = f.num.basis_components
            ensure(dict((s, int(np.sum(bc[s]))) for s in bc) == dict(zip(names, [int(x) for x in w])),
                   lambda: '%s: basis per corner edge %s' % (nm, bc))
        else:
            shapes = topo.comp_shapes(nd, p, k)
            ids, _ = topo.local_ids(shapes)
            lg = NB.local_gathering
            ensure(set(lg) == set(SN), '%s: local gathering per side' % nm)
            sides = [np.asarray(lg[s]).ravel() for s in SN]
            for s in range(6):
                ensure(len(sides[s]) == side_count(p, k, nd, s // 2),
                       lambda: '%s: %d dofs on side %s' % (nm, len(sides[s]), SN[s]))
            nl = A.shape[1]
            ensure(sorted(set(np.concatenate(sides))) == list(range(nl)), '%s: local gathering covers 0..n-1' % nm)
            # position j on side s is position j of the standard form there: the same local dofs must coincide
            std = np.concatenate([topo.side_ids(shapes, ids, s) for s in range(6)])
            bad = topo.same_partition(np.concatenate(sides), std)
            ensure(bad is None, lambda: '%s: local gathering merges or splits side dofs %s' % (nm, bad))
            if tp == 'lt':
                lab = np.arange(n * nl).reshape(n, nl)
            else:
                cl = topo.dof_classes(G.map, n, nd, shapes)
                lab = np.zeros((n, nl), dtype=int)
                for s in range(6):
                    lab[:, sides[s]] = cl[:, topo.side_ids(shapes, ids, s)]
    ensure(A.shape == lab.shape, lambda: '%s: gathering matrix of shape %s, expected %s' % (nm, A.shape, lab.shape))
    bad = topo.same_partition(A, lab)
    if bad is not None:
        x, y = [divmod(b, A.shape[1]) for b in bad]
        ensure(False, '%s: element %d local dof %d -> %d, element %d local dof %d -> %d, but they are %s' % (
            nm, x[0], x[1], A[x], y[0], y[1], A[y], 'different dofs' if A[x] == A[y] else 'the same dof'))
    N = len(set(A.ravel()))
    ensure(A.min() == 0 and A.max() == N - 1, lambda: '%s: global numbers cover %d..%d for %d dofs' % (
        nm, A.min(), A.max(), N))
    # counts
    mine = sorted(set(x for e in loc for x in loc[e]))
    ensure(int(f.num.basis) == A.shape[1], '%s: num.basis %s' % (nm, f.num.basis))
    if tp != 'e':
        ensure(int(f.num.global_dofs) == N, lambda: '%s: num.global_dofs %s, there are %d' % (nm, f.num.global_dofs, N))
        ensure(tp == 't' or int(f.num.dofs) == len(mine), lambda: '%s: num.dofs %s, rank holds %d' % (nm, f.num.dofs, len(mine)))
    ensure(int(NB.num_local_dofs) == len(mine), lambda: '%s: num_local_dofs %s, rank holds %d' % (
        nm, NB.num_local_dofs, len(mine)))
    ensure(int(GM.global_num_dofs) == N, '%s: GM.global_num_dofs' % nm)
    ensure(tuple(GM.global_shape) == A.shape, lambda: '%s: GM.global_shape %s' % (nm, GM.global_shape))
    ensure(sorted(int(x) for x in GM.local_dofs) == mine, '%s: GM.local_dofs' % nm)
    lr = GM.local_range
    ensure(tuple(lr) == (tuple() if not mine else (mine[0], mine[-1] + 1)), lambda: '%s: local_range %s' % (nm, lr))
    ensure(len(GM) == len(loc), '%s: len(GM)' % nm)
    where = {}
    for e in range(n):
        for j in range(A.shape[1]):
            where.setdefault(int(A[e, j]), []).append((e, j))
    # who holds a dof
    for t in q[:2]:
        i = t % N
        r = GM.do.find.elements_and_local_indices_of_dof(i)
        exp = [(e, j) for e, j in where[i] if e in loc]
        if r is None:
            ensure(not exp, lambda: '%s: dof %d not found on its rank' % (nm, i))
        else:
            got = [(int(a), int(b)) for a, b in zip(r[0], r[1])]
            ensure(sorted(got) == sorted(exp), lambda: '%s: dof %d at %s, expected %s' % (nm, i, got, exp))
    ds = sorted(set(t % N for t in q[1:4]))
    r = GM.do.find.elements_and_local_indices_of_dofs(ds)
    ensure(set(r[0]) == set(r[1]) == set(ds), '%s: dofs of the answer' % nm)
    for i in ds:
        exp = [(e, j) for e, j in where[i] if e in loc]
        got = [(int(a), int(b)) for a, b in zip(r[0][i], r[1][i])]
        ensure(sorted(got) == sorted(exp), lambda: '%s: dof %d at %s, expected %s' % (nm, i, got, exp))
    # dofs on sides
    if tp != 'e' and not (tp == 'f' and k == nd):
        o = list(range(2 * nd))
        o = o[q[0] % 6:] + o[:q[0] % 6]
        for s in o:
            fd = NB.do.find
            if nd == 3:
                steps = [0, 1] if tp != 't' else [0]
                if order & 1:
                    steps = steps[::-1]
                for step in steps + steps[:1]:
                    if step == 0:
                        L = [int(x) for x in fd.local_dofs_on_element_side(SN[s])]
                        ensure(L == [int(x) for x in sides[s]] if tp != 'f' else sorted(L) == sorted(sides[s]),
                               lambda: '%s: local dofs on side %s: %s, expected %s' % (nm, SN[s], L, sides[s]))
                    else:
                        for e in list(loc)[:2]:
                            L = [int(x) for x in fd.dofs_on_element_side(e, SN[s])]
                            ex = [int(A[e, j]) for j in sides[s]]
                            ensure(sorted(L) == sorted(ex), lambda: '%s: dofs on side %s of %d: %s, expected %s' % (
                                nm, SN[s], e, L, ex))
            else:
                L = [int(x) for x in fd.local_dofs_on_element_edge(SN[s])]
                ensure(sorted(L) == sorted(sides[s]), lambda: '%s: local dofs on edge %s: %s, expected %s' % (
                    nm, SN[s], L, sides[s]))
    # side blocks of hybrid traces
    if tp == 't':
        TM = M.trace.elements.map
        tew = NB.trace_element_wise
        for e in loc:
            for s in range(2 * nd):
                v = [int(x) for x in tew[TM[e][s]]]
                ex = [int(A[e, j]) for j in sides[s]]
                ensure(v == ex, lambda: '%s: trace element %d carries %s, side %s of element %d %s' % (
                    nm, TM[e][s], v, SN[s], e, ex))
    if tp == 'e':
        TM = M.edge.elements.map
        ew = NB.edge_element_wise
        for e in loc:
            for j in range(12):
                v = [int(x) for x in ew[TM[e][j]]]
                ensure(v == loc[e][off[j]:off[j + 1]], '%s: edge element %d carries %s' % (nm, TM[e][j], v))
    # boundary dofs
    if nd == 3 and tp in ('f', 't', 'lt'):
        bd = NB.boundary_dofs
        exl = {}
        exg = {}
        for bn in M.boundaries.names:
            exl[bn] = set()
            exg[bn] = set()
        if not (tp == 'f' and k == 3):
            for e in G.map:
                for s in range(6):
                    t = G.map[e][s]
                    if isinstance(t, str):
                        x = set(int(A[e, j]) for j in sides[s])
                        exg[t] |= x
                        if e in loc:
                            exl[t] |= x
        ensure(set(bd) == set(exl), '%s: boundary names' % nm)
        for bn in bd:
            ensure(set(int(x) for x in bd[bn]) == exl[bn], lambda: '%s: boundary dofs on %s: %s, expected %s' % (
                nm, bn, sorted(bd[bn])[:12], sorted(exl[bn])[:12]))
        gb = NB.global_boundary_dofs
        ensure(set(gb) == set(exg), '%s: boundary names' % nm)
        for bn in gb:
            ensure(set(int(x) for x in gb[bn]) == exg[bn],
                   '%s: global boundary dofs on %s' % (nm, bn))
        rv = [int(x) for x in NB.global_boundary_dofs_ravel]
        exr = set().union(*exg.values()) if exg else set()
        ensure(len(rv) == len(set(rv)) and set(rv) == exr, '%s: global_boundary_dofs_ravel' % nm)
    # dof objects
    if nd == 3 and tp in ('f', 't'):
        D = f.dofs
        for t in q[:3]:
            i = t % N
            ensure(i in D, '%s: %d in dofs' % (nm, i))
            d = D[i]
            pos = sorted((int(a), int(b)) for a, b in d.positions)
            ex = sorted((e, j) for e, j in where[i])
            ensure(pos == [x for x in ex if x[0] in loc], lambda: '%s: dof %d local positions %s' % (nm, i, pos))
            gp = sorted((int(a), int(b)) for a, b in d.global_positions)
            ensure(gp == ex, lambda: '%s: dof %d global positions %s, expected %s' % (nm, i, gp, ex))
            if tp == 't':
                tep = d.trace_element_position
                ensure((tep is None) == (not pos), '%s: trace_element_position of a remote dof' % nm)
                if tep is not None:
                    te, ln, comp, idx = tep[:4]
                    v = [int(x) for x in tew[te]]
                    ensure(0 <= ln < len(v) and v[ln] == i, lambda: '%s: dof %d said to be number %s on trace element '
                           '%s, which carries %s' % (nm, i, ln, te, v))
                    loc_n = NB.local['N' if M.trace.elements[te].normal_direction == 'NS' else
                                     'W' if M.trace.elements[te].normal_direction == 'WE' else 'B']
                    ensure(int(loc_n[comp][tuple(idx)]) == ln, '%s: local indices of dof %d' % (nm, i))
        ensure(N not in D and -1 not in D, '%s: dofs out of range' % nm)
    if nd == 3 and ((tp == 'f' and k in (0, 3)) or (tp in ('t', 'e') and k == 0)):
        e = q[3] % n
        cn = ['NWB', 'SWB', 'NEB', 'SEB', 'NWF', 'SWF', 'NEF', 'SEF'][q[4] % 8]
        r = f.dofs.do.find.dof_at_corner_of_mesh_element(e, cn)
        if e not in loc:
            ensure(r is None, '%s: corner dof of a remote element' % nm)
        elif tp == 'f':
            sh = topo.comp_shapes(3, p, k)[0][0]
            I = np.arange(np.prod(sh)).reshape(sh, order='F')
            ensure(int(r) == int(A[e][int(pick(I, cn))]), '%s: corner dof %s of element %d' % (nm, cn, e))
        elif tp == 't':
            ex = set()
            for c in cn:
                s = SN.index(c)
                a = s // 2
                I = sides[s].reshape([p[b] + 1 for b in range(3) if b != a], order='F')
                rest = [x for x in cn if x != c]
                ex.add(int(A[e][I[tuple(AX[x][1] for x in rest)]]))
            ensure(set(int(x) for x in r) == ex, lambda: '%s: corner dofs %s of element %d: %s, expected %s' % (
                nm, cn, e, r, ex))
        else:
            ex = set()
            for j, en in enumerate(EDGES):
                if set(en) <= set(cn):
                    c = [x for x in cn if x not in en][0]
                    ex.add(int(A[e][off[j] if AX[c][1] == 0 else off[j + 1] - 1]))
            ensure(set(int(x) for x in r) == ex, lambda: '%s: corner dofs %s of element %d: %s, expected %s' % (
                nm, cn, e, r, ex))
    # local grids, corner edges
    if tp == 'f':
        kind = {'i': 'inner', 'o': 'outer'}.get(hyb[1], '') if nd == 2 else ''
        shapes = topo.comp_shapes(nd, p, k, kind)
        ids, _ = topo.local_ids(shapes)
        L = NB.local
        ensure(len(L) == len(ids) and all(np.array_equal(x, y) for x, y in zip(L, ids)), '%s: local numbering grids' % nm)
        ensure([int(x) for x in f.num.basis_components] == [int(np.prod(s)) for s, _ in shapes],
               '%s: basis_components' % nm)
        if nd == 3 and k < 2:
            for en in EDGES:
                L = sorted(int(x) for x in NB.do.find.local_dofs_on_element_corner_edge(en))
                a = SKL_AX[en]
                ex = sorted(int(x) for x in np.ravel(pick(ids[0] if k == 0 else ids[a], en)))
                ensure(L == ex, lambda: '%s: corner edge %s: %s, expected %s' % (nm, en, L, ex))
        if nd == 3:
            s = NB.sharing_physical_locations
            if RANK == 0:
                if not hyb[0] or k == 3:
                    ensure(len(s) == 0, '%s: dofs sharing a location' % nm)
                else:
                    cl = topo.dof_classes(G.map, n, nd, shapes)
                    ex = {}
                    for e in range(n):
                        for j in range(A.shape[1]):
                            ex.setdefault(int(cl[e, j]), set()).add(int(A[e, j]))
                    ex = sorted(sorted(x) for x in ex.values() if len(x) > 1)
                    got = sorted(sorted(int(y) for y in x) for x in s)
                    ensure(got == ex, '%s: sharing_physical_locations' % nm)
    # equality of gathering matrices
    ensure(GM == GM, '%s: GM == itself' % nm)
    return A


SKL_AX = {'WB': 0, 'EB': 0, 'WF': 0, 'EF': 0, 'NB': 1, 'SB': 1, 'NF': 1, 'SF': 1, 'NW': 2, 'SW': 2, 'NE': 2, 'SE': 2}


def run(c):
    import topo
    import bld
    import numpy as np
    from props.P06 import Skel
    M = bld.mk_mesh(c['m'], EDM=c['edm'])
    sp = bld.mk_space(c['sp'])
    p = bld.degrees(c['sp'])
    fc = bld.mk_fc(M, sp)
    S = Skel(M)
    G = S.G
    nontrivial(G.n > 1 or max(p) > 1)
    done = {}
    for name, hyb in c['fs']:
        parts = name.split('-')
        k = int(parts[0])
        tp = parts[1]
        ori = parts[2] if len(parts) > 2 else ''
        if tp == 'e' and hyb:
            hyb = False
        if ori and tp == 't':
            hyb = True
        f = fc(name, hybrid=hyb) if tp in ('f', 't', 'lt') and not (ori and tp == 't') else fc(name)
        h0 = f.whether.hybrid if tp != 'e' else False
        ensure(bool(h0) == bool(hyb) or (tp == 'f' and k == M.ndim), '%s hybrid flag' % name)
        A = on(M, f, G, tp, k, (bool(h0), ori), p, c['q'], c['ord'], S.lab['edge' if tp == 'e' else 'trace'])
        tag('%s%s' % (name, '-h' if hyb else ''))
        # the same form again gives the same numbering, whatever was asked of the first one
        kw = {'hybrid': hyb} if tp in ('f', 't', 'lt') and not (ori and tp == 't') else {}
        f2 = fc(name, **kw)
        GM2 = f2.numbering.gathering
        ensure(f.numbering.gathering == GM2, '%s: a second form has another numbering' % name)
        if (name, hyb) in done:
            ensure(np.array_equal(done[(name, hyb)], A), '%s: numbering changed' % name)
        done[(name, hyb)] = A


@facet(P, 'num3', g3, np={1: 3, 2: 2, 3: 2, 5: 1}, quick={1: 90, 2: 40, 3: 30, 5: 14}, cost=0.25)
def num3(c):
    run(c)


@facet(P, 'num2', g2, np={1: 1, 2: 1, 3: 1, 4: 1}, quick={1: 50, 2: 25, 3: 20, 4: 12}, cost=0.2)
def num2(c):
    run(c)
