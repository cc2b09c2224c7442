# -*- coding: utf-8 -*-
"""Topology of structured meshes recomputed from the element map alone (worker side)."""
import numpy as np

SN = {2: 'UDLR', 3: 'NSWEBF'}


def allgather_dict(d):
    from root.config.main import COMM
    out = {}
    n = 0
    for x in COMM.allgather(d):
        n += len(x)
        out.update(x)
    return out, n


def opp(k):
    return k + 1 - 2 * (k % 2)


class Glob(object):
    """what all ranks together know of a mesh"""

    def __init__(self, mesh):
        self.nd = mesh.ndim
        loc = dict((int(i), tuple(x if isinstance(x, str) else int(x) for x in mesh.elements.map[i]))
                   for i in mesh.elements.map)
        self.map, self.cnt = allgather_dict(loc)
        self.n = mesh.elements.global_num
        self.loc = loc


def comp_shapes(nd, p, k, kind=''):
    """local dof grids of a k-form: list of (shape, nodal flags per axis); kind 'inner'/'outer' matters in 2d, k=1"""
    p = list(p)

    def sh(fl):
        return tuple(p[i] + 1 if fl[i] else p[i] for i in range(nd)), tuple(fl)
    if k == 0:
        return [sh((1,) * nd)]
    if k == nd:
        return [sh((0,) * nd)]
    if nd == 3:
        if k == 1:
            return [sh((0, 1, 1)), sh((1, 0, 1)), sh((1, 1, 0))]
        return [sh((1, 0, 0)), sh((0, 1, 0)), sh((0, 0, 1))]
    if kind == 'inner':
        return [sh((0, 1)), sh((1, 0))]
    return [sh((1, 0)), sh((0, 1))]


def local_ids(shapes):
    out = []
    s = 0
    for shp, fl in shapes:
        n = int(np.prod(shp))
        out.append(np.arange(s, s + n).reshape(shp, order='F'))
        s += n
    return out, s


def side_ids(shapes, ids, k):
    """local dofs lying on side k, in matching order for opposite sides"""
    a, e = k // 2, k % 2
    o = []
    for (shp, fl), I in zip(shapes, ids):
        if fl[a]:
            o.append(np.take(I, -1 if e else 0, axis=a).ravel('F'))
    return np.concatenate(o) if o else np.zeros(0, dtype=int)


def dof_classes(gmap, n, nd, shapes):
    """labels[e, local dof]: equal exactly for dofs identified through shared sides"""
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import connected_components
    ids, nl = local_ids(shapes)
    S = [side_ids(shapes, ids, k) for k in range(2 * nd)]
    A, B = [], []
    for e in gmap:
        for k in range(2 * nd):
            t = gmap[e][k]
            if not isinstance(t, str):
                A.append(e * nl + S[k])
                B.append(t * nl + S[opp(k)])
    N = n * nl
    if A:
        A = np.concatenate(A)
        B = np.concatenate(B)
    else:
        A = B = np.zeros(0, dtype=int)
    g = coo_matrix((np.ones(len(A)), (A, B)), shape=(N, N))
    _, lab = connected_components(g, directed=False)
    return lab.reshape(n, nl)


def same_partition(a, b):
    """two labelings (flat int arrays) define the same partition -> None, or a pair of indices that disagree"""
    a = np.asarray(a).ravel()
    b = np.asarray(b).ravel()
    for x, y in ((a, b), (b, a)):
        o = np.lexsort((y, x))
        xs, ys = x[o], y[o]
        bad = np.nonzero((xs[1:] == xs[:-1]) & (ys[1:] != ys[:-1]))[0]
        if len(bad):
            return int(o[bad[0]]), int(o[bad[0] + 1])
    return None
