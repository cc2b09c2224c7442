# -*- coding: utf-8 -*-
"""P29: unstructured triangular meshes have consistent topology and geometry."""
from kit import facet, ensure, close, nontrivial, tag
import gens
import tri

RULE = ('case = a generated conforming triangulation (shape, size, vertex order, numbering, boundary names) written to a file and read '
        'by the library; non-trivial: at least two cells')
P = 'P29'
EDGES = ((0, 1), (0, 2), (2, 1))


def g(draw, st):
    return {'t': tri.gen(draw, st, nmax=draw(st.sampled_from([2, 4]))), 'tiny': draw(st.sampled_from([0, 0, 0, 1, 2])),
            'x': [[gens.dyadic(draw, st, -1, 1, 8) for _ in range(3)] for _ in range(2)], 'hist': [draw(st.integers(0, 7)) for _ in range(4)],
            'p': draw(st.integers(1, 4)), 'seed': draw(st.integers(0, 99))}


def setup(case):
    t = dict(case['t'])
    t['scale'] = t['scale'] * (1., 2. ** -8, 2. ** -14)[case['tiny']]
    if case['tiny']:
        t['shift'] = 0.
    pts, cells = tri.data(t)
    ccw = []
    for c in cells:
        (x0, y0), (x1, y1), (x2, y2) = [pts[v] for v in c]
        d = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
        ccw.append(tuple(c) if d > 0 else (c[0], c[2], c[1]))
    return t, pts, ccw


def boundaries(t, pts, cells):
    """functions with a tolerance relative to the size of the mesh"""
    nm = tri.names(t, pts, cells)
    eps = 1e-6 * t['scale']
    out = {}
    for b in sorted(set(nm.values())):
        V = set(tuple(pts[v]) for e in nm if nm[e] == b for v in e)

        def f(x, y, V=V):
            return any(abs(x - a) + abs(y - c) < eps for a, c in V)
        out[b] = f
    return out, nm


def mesh(case):
    from objects.miUsGrid.triangular.master import Call
    t, pts, cells = setup(case)
    bs, nm = boundaries(t, pts, cells)
    fc = Call(tri.write(t), 1, boundaries=bs)
    nontrivial(len(cells) > 1)
    tag('%s/%s' % (t['shape'], t['diag']))
    return fc.mesh, t, pts, cells, nm


def by_point(pts, M, cells):
    """the library's numbers of the points are those of the file"""
    for c in M.elements:
        for v in M.elements.cells[c]:
            close(M.elements.points[v], pts[v], 'coordinates of point %d' % v, rtol=1e-12, atol=1e-14)


@facet(P, 'topology', g, np={1: 2, 2: 2, 3: 1, 7: 1}, quick={1: 40, 2: 40, 3: 20, 7: 10}, cost=0.05)
def ev_topology(case):
    import math
    from root.config.main import COMM, SIZE, RANK
    M, t, pts, cells, nm = mesh(case)
    E = M.elements
    n = len(cells)
    ensure(M.ndim == 2, 'ndim')
    ensure((E.num.global_cells, E.num.global_elements, E.num.global_points) == (n, n, len(pts)), 'global numbers of cells and points')
    ensure(E.num.cells == E.num.elements == len(E) == len(list(E)) == len(E.range) == len(E.indices), 'local numbers of cells')
    D = E.distributions
    ensure(len(D) == SIZE and list(D[RANK]) == list(E.range) == list(E), 'distributions')
    ensure([i for r in D for i in r] == list(range(n)), 'cells are not distributed in disjoint consecutive blocks: %s' % D)
    ensure(max(len(r) for r in D) - min(len(r) for r in D) <= 1, 'cells are not evenly distributed')
    for i in range(n):
        r = E.do.find.rank_of_element(i)
        ensure(i in D[r], 'rank of cell %d: %s' % (i, r))
        ensure((i in E) == (r == RANK), 'cell %d in the local ones' % i)
    by_point(pts, M, cells)
    ensure(sorted(E.cells) == sorted(E.map) == list(E), 'local cells')
    ensure(set(E.points) == set(v for c in E for v in cells[c]), 'local points')
    # element map
    own = {}
    for c, vs in enumerate(cells):
        for k, (a, b) in enumerate(EDGES):
            own.setdefault(frozenset((vs[a], vs[b])), []).append((c, k, (vs[a], vs[b])))
    bd = dict((b, []) for b in sorted(set(nm.values())))
    for c in E:
        ensure(tuple(E.cells[c]) == cells[c] == tuple(E[c].vertexes), 'vertexes of cell %d: %s, not %s' % (c, E.cells[c], cells[c]))
        for k, (a, b) in enumerate(EDGES):
            e = (cells[c][a], cells[c][b])
            o = [q for q in own[frozenset(e)] if q[0] != c]
            if o:
                ref = '%d%s%d' % (o[0][0], '+' if o[0][2] == e else '-', o[0][1])
            else:
                ref = nm[frozenset(e)]
                bd[ref].append((c, k))
            ensure(E.map[c][k] == ref, 'map of edge %d of cell %d is %r, not %r' % (k, c, E.map[c][k], ref))
    ensure(sorted(M.boundaries.names) == sorted(bd), 'names of the boundaries')
    R = M.boundaries.range_of_element_edge
    for b in bd:
        ensure(sorted(tuple(_) for _ in R[b]) == sorted(bd[b]), 'edges on boundary %s: %s, not %s' % (b, R[b], bd[b]))
    # shapes
    total = 0.
    for c in range(n):
        P3 = [pts[v] for v in cells[c]]
        area = abs((P3[1][0] - P3[0][0]) * (P3[2][1] - P3[0][1]) - (P3[2][0] - P3[0][0]) * (P3[1][1] - P3[0][1])) / 2
        total += area
        if c in E:
            L = [math.dist(P3[a], P3[b]) for a, b in EDGES]
            h = max(L)
            close(E[c].coordinates, P3, 'coordinates of cell %d' % c, atol=1e-12 * h)
            close(E[c].coordinates_2d, P3, 'coordinates_2d of cell %d' % c, atol=1e-12 * h)
            close(E[c].edge_lengths, L, 'edge lengths', rtol=1e-10, atol=0)
            close(E[c].area, area, 'area', rtol=1e-7, atol=0)
            ang = []
            for k in range(3):
                (ax, ay), (bx, by), (qx, qy) = P3[k], P3[(k + 1) % 3], P3[(k + 2) % 3]
                ang.append(math.degrees(abs(math.atan2((bx - ax) * (qy - ay) - (qx - ax) * (by - ay), (bx - ax) * (qx - ax) + (by - ay) * (qy - ay)))))
            close(E[c].angles, ang, 'angles', rtol=0, atol=1e-4)
            q = E[c].quality
            close(q, 1 - sum(abs(a - 60) for a in ang) / 240, 'quality', rtol=0, atol=1e-5)
            ensure(E[c].i == c, 'number of the cell')
    close(M.domain.area, total, 'area of the domain', rtol=1e-7, atol=0)
    # random coordinates are inside
    x, y = M.do.generate_random_coordinates()
    ensure(len(x) == len(y) and (len(x) > 0) == (len(E) > 0), 'random coordinates')
    for a, b in list(zip(x, y))[:20]:
        ok = False
        for c in E:
            (x0, y0), (x1, y1), (x2, y2) = [pts[v] for v in cells[c]]
            d = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
            s = ((a - x0) * (y2 - y0) - (x2 - x0) * (b - y0)) / d
            r = ((x1 - x0) * (b - y0) - (a - x0) * (y1 - y0)) / d
            ok = ok or (s > -1e-6 and r > -1e-6 and s + r < 1 + 1e-6)
        ensure(ok, 'random coordinates outside the cells')


QU = ['Jacobian', 'metric', 'inverse_Jacobian_matrix', 'inverse_Jacobian', 'metric_matrix', 'inverse_metric_matrix', 'Jacobian_matrix', 'mapping']
INT = {'Jacobian': 'Jacobian_matrix', 'metric': 'Jacobian', 'inverse_Jacobian_matrix': 'Jacobian_matrix', 'metric_matrix': 'Jacobian_matrix',
       'inverse_Jacobian': 'inverse_Jacobian_matrix', 'inverse_metric_matrix': 'inverse_Jacobian_matrix'}


def ref_ct(P3, xi, et):
    """collapsed bilinear map: the left side (eta = -1) is vertex 0, the right one goes from vertex 2 (xi = -1) to vertex 1"""
    import numpy as np
    v0, v1, v2 = [np.array(p) for p in P3]
    r, s = (xi + 1) / 2, (et + 1) / 2
    a, b = v1 - v0, v2 - v0
    m = [v0[k] + s * (r * a[k] + (1 - r) * b[k]) for k in range(2)]
    J = [[0.5 * s * (a[k] - b[k]), 0.5 * (r * a[k] + (1 - r) * b[k])] for k in range(2)]
    d = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    iJ = [[J[1][1] / d, -J[0][1] / d], [-J[1][0] / d, J[0][0] / d]]
    return {'mapping': m, 'Jacobian_matrix': J, 'Jacobian': d, 'metric': d * d, 'inverse_Jacobian_matrix': iJ, 'inverse_Jacobian': 1 / d,
            'metric_matrix': [[sum(J[l][i] * J[l][j] for l in range(2)) for j in range(2)] for i in range(2)],
            'inverse_metric_matrix': [[sum(iJ[i][l] * iJ[j][l] for l in range(2)) for j in range(2)] for i in range(2)]}


@facet(P, 'geometry', g, np={1: 2, 2: 1}, quick={1: 60, 2: 20}, cost=0.05)
def ev_geometry(case):
    import numpy as np
    M, t, pts, cells, nm = mesh(case)
    ct = M.elements.coordinate_transformation
    xi, et = np.array(case['x'][0]), np.array(case['x'][1])
    et = np.where(et <= -0.75, -0.5, et)          # the inverse is singular at the collapsed side

    def cmp(got, ref, what, tol=1e-9):
        got, ref = np.array(got), np.array(ref)
        close(got, ref, what, rtol=tol, atol=tol / 10 * float(np.max(np.abs(ref))))
    ref = dict((c, ref_ct([pts[v] for v in cells[c]], xi, et)) for c in M.elements)
    for c in M.elements:
        e = M.elements[c].coordinate_transformation
        for q in QU:
            cmp(getattr(e, q)(xi, et), ref[c][q], '%s of cell %d' % (q, c))
        cmp(e.mapping(np.array([-1., 1., 1., -1.]), np.array([-1., -1., 1., 1.])),
            np.array([pts[cells[c][k]] for k in (0, 0, 1, 2)]).T, 'corners of cell %d' % c)
    made = {}
    for k in case['hist'] + list(range(8)):
        q = QU[k]
        if q in INT and INT[q] in made and (case['seed'] + k) % 2:
            o = getattr(ct, q)(xi, et, itmD=made[INT[q]])
            tag('itmD')
        else:
            o = getattr(ct, q)(xi, et)
        made[q] = o
        for _ in range(2):
            for c in M.elements:
                cmp(o[c], ref[c][q], '%s of cell %d by the mesh' % (q, c))
    for c in M.elements:
        for d in M.elements:
            if M.elements[c].shape_indicator == M.elements[d].shape_indicator:
                cmp(ref[c]['Jacobian_matrix'], ref[d]['Jacobian_matrix'], 'cells %d and %d are said to be of one shape' % (c, d), 1e-6)
    GD = M.elements.do.generate_grid_data()
    ensure(sorted(GD) == list(M.elements), 'grid data')
    for c in GD:
        cmp(GD[c][0][0], [pts[cells[c][k]][0] for k in (0, 2, 1, 0)], 'grid data')
        cmp([float(np.ravel(a)[0]) for a in GD[c][2]], pts[cells[c][0]], 'singular vertex')


def area2(xs, ys):
    import numpy as np
    return float(np.sum(xs * np.roll(ys, -1) - np.roll(xs, -1) * ys))


@facet(P, 'vtk_cells', g, np={1: 2, 2: 1, 3: 1}, quick={1: 40, 2: 20, 3: 10}, cost=0.05)
def ev_vtk(case):
    """the cells used to export: subdivisions of the triangles, glued exactly where the triangles are"""
    import numpy as np
    from root.config.main import COMM, RANK, MASTER_RANK
    M, t, pts, cells, nm = mesh(case)
    h = t['scale']
    total = sum(abs((pts[b][0] - pts[a][0]) * (pts[c][1] - pts[a][1]) - (pts[c][0] - pts[a][0]) * (pts[b][1] - pts[a][1])) for a, b, c in cells)
    for p in ([0] + [case['p']] if case['seed'] % 2 else [case['p'], 0, 1 + case['p'] % 3]):
        if p == 0:
            con, off, typ, gi, ga = M.miscellaneous.quadratic_triangle_data
            q = 2
        else:
            con, off, typ, gi, ga = M.miscellaneous.triangle_and_quad_data(p)
            q = p
        ensure(len(gi) == (6 if p == 0 else (q + 1) * q + 1), 'local indices')
        if RANK != MASTER_RANK:
            continue
        ensure(ga.shape == (len(cells), len(gi)), 'shape of the gathering')
        x1 = np.linspace(-1, 1, q + 1)
        X = [a.ravel('F') for a in np.meshgrid(x1, x1, indexing='ij')]
        where = {}
        for c in range(len(cells)):
            m = np.array(ref_ct([pts[v] for v in cells[c]], X[0], X[1])['mapping'])
            for k, n in enumerate(ga[c]):
                xy = m[:, gi[k]]
                if n in where:
                    close(xy, where[n], 'point %d is at two places' % n, rtol=0, atol=1e-9 * h)
                else:
                    where[n] = xy
        N = len(where)
        ensure(sorted(where) == list(range(N)), 'points are not numbered consecutively')
        A = np.array([where[i] for i in range(N)])
        for i in range(N):
            d = np.max(np.abs(A - A[i]), axis=1)
            d[i] = 1e99
            ensure(N == 1 or np.min(d) > 1e-7 * h / 16, 'two numbers for one point')
        off = np.asarray(off)
        ensure(off[-1] == len(con), 'offsets do not end at the number of connections')
        start = 0
        s = 0.
        for k, o in enumerate(off):
            ty = typ if np.ndim(typ) == 0 else np.asarray(typ)[k]
            nn = np.asarray(con)[start:int(o)]
            start = int(o)
            ensure(len(nn) == {22: 6, 5: 3, 9: 4}[int(ty)], 'cell %d of type %s has %d points' % (k, ty, len(nn)))
            if ty == 22:
                for a, b, c in ((0, 1, 3), (1, 2, 4), (2, 0, 5)):
                    close(A[nn[c]], (A[nn[a]] + A[nn[b]]) / 2, 'middle of an edge', rtol=0, atol=1e-9 * h)
                nn = nn[:3]
            a = area2(A[nn, 0], A[nn, 1])
            ensure(abs(a) > 0, 'degenerate cell')
            s += abs(a)
        close(s, total, 'area of the cells', rtol=1e-7, atol=0)
