# -*- coding: utf-8 -*-
"""Generated triangular meshes. `gen` makes the case (JSON), `data` the points and cells, `mesh`/`call` the library's objects."""
import random


def gen(draw, st, nmax=3, shapes=('quad', 'quad', 'hole', 'L', 'annulus', 'one')):
    return {'shape': draw(st.sampled_from(list(shapes))), 'n': [draw(st.integers(1, nmax)), draw(st.integers(1, nmax))],
            'jit': draw(st.sampled_from([0., 0., 0.1, 0.2])), 'seed': draw(st.integers(0, 9999)),
            'scale': draw(st.sampled_from([1., 1., 1., 2., 0.03125])), 'shift': draw(st.sampled_from([0., -1., 3.])),
            'diag': draw(st.sampled_from(['same', 'rand', 'cross'])), 'bn': draw(st.integers(1, 4)),
            'perm': draw(st.booleans())}


def data(t):
    """-> points (list of (x, y)), cells (list of (a, b, c))"""
    rnd = random.Random(t['seed'])
    sh = t['shape']
    nx, ny = t['n']
    if sh == 'one':
        pts = [(0., 0.), (1., 0.25), (0.25, 1.)]
        cells = [(0, 1, 2)]
        if nx > 1:
            pts.append((1.25, 1.25))
            cells.append((1, 3, 2))
    else:
        if sh in ('hole', 'L'):
            nx, ny = max(nx, 3 if sh == 'hole' else 2), max(ny, 3 if sh == 'hole' else 2)
        if sh == 'annulus':
            nx = max(nx, 3) + 1

        def pt(i, j):
            inner = 0 < i < nx and 0 < j < ny
            dx, dy = rnd.uniform(-1, 1) * t['jit'], rnd.uniform(-1, 1) * t['jit']
            if sh == 'hole' and i in (1, 2) and j in (1, 2):
                inner = False
            if sh == 'L' and (i in (nx - 1, nx) or j in (ny - 1, ny)):
                inner = False
            if not inner:
                dx = dy = 0.
            if sh == 'annulus':
                import math
                r = 1 + j / ny
                return r * math.cos(2 * math.pi * i / nx), r * math.sin(2 * math.pi * i / nx)
            return (i + dx) / nx, (j + dy) / ny * 1.25
        ids, pts = {}, []

        def vid(i, j):
            if sh == 'annulus':
                i %= nx
            if (i, j) not in ids:
                ids[i, j] = len(pts)
                pts.append(pt(i, j))
            return ids[i, j]
        cells = []
        for i in range(nx):
            for j in range(ny):
                if sh == 'hole' and (i, j) == (1, 1) or sh == 'L' and (i, j) == (nx - 1, ny - 1):
                    continue
                a, b, c, d = vid(i, j), vid(i + 1, j), vid(i + 1, j + 1), vid(i, j + 1)
                if t['diag'] == 'cross':
                    m = len(pts)
                    P = [pts[_] for _ in (a, b, c, d)]
                    pts.append((sum(p[0] for p in P) / 4, sum(p[1] for p in P) / 4))
                    cells += [(a, b, m), (b, c, m), (c, d, m), (d, a, m)]
                elif t['diag'] == 'same' or rnd.random() < 0.5:
                    cells += [(a, b, c), (a, c, d)]
                else:
                    cells += [(a, b, d), (b, c, d)]
    if t['perm']:
        p = list(range(len(pts)))
        rnd.shuffle(p)
        new = [None] * len(pts)
        for i, q in enumerate(p):
            new[q] = pts[i]
        pts = new
        cells = [tuple(p[v] for v in c) for c in cells]
        rnd.shuffle(cells)
        out = []
        for c in cells:
            k = rnd.randrange(3)
            c = c[k:] + c[:k]
            if rnd.random() < 0.4:          # clockwise: the library turns it
                c = (c[0], c[2], c[1])
            out.append(c)
        cells = out
    s, h = t['scale'], t['shift']
    return [(x * s + h, y * s - h) for x, y in pts], cells


def bedges(cells):
    """boundary edges: list of frozenset vertex pairs"""
    cnt = {}
    for c in cells:
        for e in ((c[0], c[1]), (c[1], c[2]), (c[2], c[0])):
            cnt[frozenset(e)] = cnt.get(frozenset(e), 0) + 1
    return [e for e in cnt if cnt[e] == 1]


def names(t, pts=None, cells=None):
    """boundary edge -> name; every maximal straight piece / loop may be cut at vertices: a name owns a set of vertices only if
    no edge of another name has both its ends in it (the library decides by the two end points)"""
    if pts is None:
        pts, cells = data(t)
    be = sorted(bedges(cells), key=lambda e: sorted(e))
    rnd = random.Random(t['seed'] + 1)
    nm = dict((e, 'b%d' % rnd.randrange(t['bn'])) for e in be)
    while True:         # repair: give up names until the decision by end points is unique
        V = {}
        for e, b in nm.items():
            V.setdefault(b, set()).update(e)
        bad = [(e, b, c) for e, b in nm.items() for c in V if c != b and e <= V[c]]
        if not bad:
            return nm
        e, b, c = bad[0]
        for f in nm:
            if nm[f] == max(b, c):
                nm[f] = min(b, c)


def boundaries(t):
    """dict of functions for the library"""
    pts, cells = data(t)
    nm = names(t, pts, cells)
    out = {}
    for b in sorted(set(nm.values())):
        V = set(tuple(pts[v]) for e in nm if nm[e] == b for v in e)

        def f(x, y, V=V):
            return any(abs(x - a) + abs(y - c) < 1e-9 for a, c in V)
        out[b] = f
    return out


def write(t):
    """write the .vtu file in the current (scratch) directory of rank 0; -> its path"""
    import os
    import numpy as np
    from root.config.main import RANK, COMM
    path = os.path.join(os.getcwd(), 'tri_mesh')
    if RANK == 0:
        from pyevtk.hl import unstructuredGridToVTK
        pts, cells = data(t)
        x = np.array([p[0] for p in pts])
        y = np.array([p[1] for p in pts])
        con = np.array(cells, dtype=int).ravel()
        if os.path.exists(path + '.vtu'):
            os.remove(path + '.vtu')
        unstructuredGridToVTK(path, x, y, np.zeros(len(pts)), con, np.arange(3, 3 * len(cells) + 3, 3), np.ones(len(cells)) * 5)
    path = COMM.bcast(path, root=0)
    return path + '.vtu'


def call(t, p):
    """-> the form caller of the library"""
    from objects.miUsGrid.triangular.master import Call
    return Call(write(t), p, boundaries=boundaries(t))
