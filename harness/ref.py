# -*- coding: utf-8 -*-
"""Independent reference model (worker side): 1-d bases from their definition, geometry by spectral
interpolation of the mapping alone, quadrature with numpy's Gauss rule, pull-backs written out.

Only `element.coordinate_transformation.mapping` is taken from the library (P05 checks it on its own).
"""
import numpy as np
import topo

_G = {}


def gauss(n):
    if n not in _G:
        _G[n] = np.polynomial.legendre.leggauss(n)
    return _G[n]


def nodes1d(b):
    """nodes of ['Lobatto', p] or ['free', nodes]"""
    if b[0] != 'Lobatto':
        return np.array(b[1], dtype=float)
    p = b[1]
    if p == 1:
        return np.array([-1., 1.])
    c = np.zeros(p + 1)
    c[p] = 1.
    r = np.polynomial.legendre.legroots(np.polynomial.legendre.legder(c))
    return np.concatenate(([-1.], np.sort(r.real), [1.]))


def lag(nodes, x):
    """Lagrange polynomials (n, len(x))"""
    nodes = np.asarray(nodes)
    x = np.asarray(x, dtype=float)
    out = np.ones((len(nodes), len(x)))
    for i in range(len(nodes)):
        for j in range(len(nodes)):
            if j != i:
                out[i] *= (x - nodes[j]) / (nodes[i] - nodes[j])
    return out


def dlag(nodes, x):
    nodes = np.asarray(nodes)
    x = np.asarray(x, dtype=float)
    n = len(nodes)
    out = np.zeros((n, len(x)))
    for i in range(n):
        for m in range(n):
            if m == i:
                continue
            t = np.ones(len(x)) / (nodes[i] - nodes[m])
            for j in range(n):
                if j != i and j != m:
                    t = t * (x - nodes[j]) / (nodes[i] - nodes[j])
            out[i] += t
    return out


def edge(nodes, x):
    """edge polynomials: e_i = - sum_{k<=i} h_k'"""
    d = dlag(nodes, x)
    return -np.cumsum(d, axis=0)[:-1]


def tensor(arrs):
    """flat 'F'-ordered tensor grid coordinates"""
    g = np.meshgrid(*arrs, indexing='ij')
    return [x.ravel('F') for x in g]


def tgauss(n, nd):
    x, w = gauss(n)
    X = tensor([x] * nd)
    W = np.ones(n ** nd)
    for g in tensor([w] * nd):
        W = W * g
    return X, W


class Geo(object):
    """the mapping of each local element resolved by spectral interpolation on a Gauss grid"""

    def __init__(self, mesh, n=None):
        self.mesh = mesh
        self.nd = mesh.ndim
        self.n = n or (20 if self.nd == 3 else 24)
        self.x, _ = gauss(self.n)
        w = np.ones(self.n)
        for i in range(self.n):
            w[i] = 1. / np.prod(self.x[i] - np.delete(self.x, i))
        self.bw = w
        self.c = {}
        self._m = {}

    def coefs(self, e):
        if e not in self.c:
            X = np.meshgrid(*[self.x] * self.nd, indexing='ij')
            m = self.mesh.elements[e].coordinate_transformation.mapping(*X)
            self.c[e] = np.array([np.array(c, dtype=float) + 0 * X[0] for c in m])
        return self.c[e]

    def _mats(self, x):
        key = (len(x), np.asarray(x, dtype=float).tobytes())
        if key not in self._m:
            if len(self._m) > 300:
                self._m.clear()
            L = self._l(np.asarray(x, dtype=float))
            self._m[key] = L
        return self._m[key]

    def _l(self, x):
        """values and derivatives of the Gauss-grid Lagrange basis at x: (n, m) each"""
        n = self.n
        d = x[None, :] - self.x[:, None]
        hit = np.abs(d) < 1e-14
        dd = np.where(hit, 1., d)
        q = self.bw[:, None] / dd
        s = q.sum(axis=0)
        L = q / s
        any_ = hit.any(axis=0)
        L[:, any_] = hit[:, any_].astype(float)
        if not hasattr(self, '_D'):
            D = (self.bw[None, :] / self.bw[:, None]) / np.where(np.eye(n) > 0, 1., self.x[:, None] - self.x[None, :])
            D = D * (1 - np.eye(n))
            D -= np.diag(D.sum(axis=1))
            self._D = D   # D[i,j] = l_j'(x_i)
        return L, self._D.T @ L

    def ev(self, e, grids):
        """mapping and Jacobian matrix on the tensor grid of 1-d arrays; flat 'F' order:
        x (nd, m), J (nd, nd, m) with J[i][j] = d x_i / d xi_j"""
        C = self.coefs(e)
        M = [self._mats(g) for g in grids]
        out = np.zeros((self.nd, int(np.prod([len(g) for g in grids]))))
        J = np.zeros((self.nd,) + out.shape)
        for i in range(self.nd):
            for j in range(-1, self.nd):
                t = C[i]
                for a in range(self.nd):
                    t = np.tensordot(t, M[a][1 if a == j else 0], axes=(0, 0))
                v = t.ravel('F')
                if j < 0:
                    out[i] = v
                else:
                    J[i, j] = v
        return out, J

    def at(self, e, pts):
        """same on scattered points (list of nd flat arrays)"""
        C = self.coefs(e)
        M = [self._l(np.asarray(p, dtype=float)) for p in pts]
        m = len(pts[0])
        out = np.zeros((self.nd, m))
        J = np.zeros((self.nd, self.nd, m))
        sub = 'ijk'[:self.nd]
        for i in range(self.nd):
            for j in range(-1, self.nd):
                ops = [M[a][1 if a == j else 0] for a in range(self.nd)]
                v = np.einsum(sub + ',' + ','.join(s + 'z' for s in sub) + '->z', C[i], *ops, optimize=True)
                if j < 0:
                    out[i] = v
                else:
                    J[i, j] = v
        return out, J


def det(J):
    if J.shape[0] == 2:
        return J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
    return np.linalg.det(np.moveaxis(J, -1, 0))


def inv(J):
    return np.moveaxis(np.linalg.inv(np.moveaxis(J, -1, 0)), 0, -1)


def basis(nd, nodes, k, kind, grids):
    """reference basis on the tensor grid: list over components of (ndofs_c, m), dofs and points 'F'-ordered"""
    p = [len(n) - 1 for n in nodes]
    out = []
    for shp, fl in topo.comp_shapes(nd, p, k, kind):
        t = np.ones((1, 1))
        for a in range(nd):
            b = lag(nodes[a], grids[a]) if fl[a] else edge(nodes[a], grids[a])
            # kron with the first axis fastest
            t = np.kron(b, t)
        out.append(t)
    return out


def push(nd, k, kind, comps, J):
    """physical components from reference components (list of arrays (..., m)); J (nd, nd, m)"""
    if k == 0:
        return [comps[0]]
    d = det(J)
    if k == nd:
        return [comps[0] / d]
    if k == 1 and (nd == 3 or kind == 'inner'):
        iJ = inv(J)
        return [sum(iJ[j, i] * comps[j] for j in range(nd)) for i in range(nd)]
    return [sum(J[i, j] * comps[j] for j in range(nd)) / d for i in range(nd)]


def pull(nd, k, kind, u, J):
    """reference components (densities over dof carriers) of physical components"""
    if k == 0:
        return [u[0]]
    d = det(J)
    if k == nd:
        return [u[0] * d]
    if k == 1 and (nd == 3 or kind == 'inner'):
        return [sum(J[i, j] * u[i] for i in range(nd)) for j in range(nd)]
    iJ = inv(J)
    return [sum(iJ[j, i] * u[i] for i in range(nd)) * d for j in range(nd)]


def reconstruct(geo, e, nodes, k, kind, cochain, grids):
    """physical values (ncomp, m) of the local cochain on a tensor grid, and the physical points"""
    nd = geo.nd
    B = basis(nd, nodes, k, kind, grids)
    x, J = geo.ev(e, grids)
    s = 0
    comps = []
    for b in B:
        comps.append(np.asarray(cochain[s:s + b.shape[0]]) @ b)
        s += b.shape[0]
    return x, push(nd, k, kind, comps, J)


def reduce(geo, e, nodes, k, kind, func, nq=14):
    """local cochain of func(x) -> list of physical components; integrates over every dof carrier"""
    nd = geo.nd
    p = [len(n) - 1 for n in nodes]
    gx, gw = gauss(nq)
    out = []
    for c, (shp, fl) in enumerate(topo.comp_shapes(nd, p, k, kind)):
        grids, ws = [], []
        for a in range(nd):
            if fl[a]:
                grids.append(np.asarray(nodes[a]))
                ws.append(None)
            else:
                lo, hi = nodes[a][:-1], nodes[a][1:]
                h = (hi - lo) / 2
                grids.append((lo[:, None] + (gx[None, :] + 1) * h[:, None]).ravel())
                ws.append((gw[None, :] * h[:, None]))
        x, J = geo.ev(e, grids)
        u = func(*x)
        v = pull(nd, k, kind, u, J)[c if 0 < k < nd else 0]
        v = v.reshape([len(g) for g in grids], order='F')
        for a in range(nd):
            if ws[a] is not None:
                v = np.moveaxis(v, a, -1)
                v = v.reshape(v.shape[:-1] + (p[a], nq))
                v = (v * ws[a]).sum(axis=-1)
                v = np.moveaxis(v, -1, a)
        assert v.shape == tuple(shp)
        out.append(v.ravel('F'))
    return np.concatenate(out)


def mass(geo, e, nodes, k, kind, nq=None):
    """L2 mass matrix of element e"""
    nd = geo.nd
    nq = nq or (max(len(n) for n in nodes) + (8 if nd == 3 else 14))
    g, _ = gauss(nq)
    _, W = tgauss(nq, nd)
    _, J = geo.ev(e, [g] * nd)
    B = basis(nd, nodes, k, kind, [g] * nd)
    n = sum(b.shape[0] for b in B)
    full = []
    s = 0
    for b in B:
        z = np.zeros((n, b.shape[1]))
        z[s:s + b.shape[0]] = b
        full.append(z)
        s += b.shape[0]
    P = push(nd, k, kind, full, J)
    wd = W * np.abs(det(J))
    return sum((q * wd) @ q.T for q in P)


def pushed_basis(geo, e, nodes, k, kind, grids):
    """list over physical components of (ndofs, m) and J"""
    nd = geo.nd
    _, J = geo.ev(e, grids)
    B = basis(nd, nodes, k, kind, grids)
    n = sum(b.shape[0] for b in B)
    full = []
    s = 0
    for b in B:
        z = np.zeros((n, b.shape[1]))
        z[s:s + b.shape[0]] = b
        full.append(z)
        s += b.shape[0]
    return push(nd, k, kind, full, J), J


def inner(geo, e, nodes, other, k, kind, nq):
    """L2 inner products: rows = basis over `other` nodes, columns = basis over `nodes`; nq per axis or int"""
    nd = geo.nd
    if isinstance(nq, int):
        nq = [nq] * nd
    G = [gauss(q) for q in nq]
    grids = [g[0] for g in G]
    W = np.ones(int(np.prod(nq)))
    for w in tensor([g[1] for g in G]):
        W = W * w
    A, J = pushed_basis(geo, e, nodes, k, kind, grids)
    B = A if other is nodes else pushed_basis(geo, e, other, k, kind, grids)[0]
    wd = W * np.abs(det(J))
    return sum((b * wd) @ a.T for a, b in zip(A, B))


def wedge(nd, nodes, k, kind, onodes, ok, okind, nq):
    """metric-free integral of (reference) component products; rows other, columns self"""
    g, _ = gauss(nq)
    _, W = tgauss(nq, nd)
    A = basis(nd, nodes, k, kind, [g] * nd)
    B = basis(nd, onodes, ok, okind, [g] * nd)
    na, nb = sum(a.shape[0] for a in A), sum(b.shape[0] for b in B)
    R = np.zeros((nb, na))
    i = j = 0
    for a, b in zip(A, B):
        R[j:j + b.shape[0], i:i + a.shape[0]] = (b * W) @ a.T
        i += a.shape[0]
        j += b.shape[0]
    return R
