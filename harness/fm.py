# -*- coding: utf-8 -*-
"""Forms kit (worker side): real forms from JSON cases, deterministic cochains, analytic fields and their derivatives."""
import numpy as np
import bld
import ref
import topo

LOOSE = ('ct', 'psc', 'pwc', 'LDC', 'bridge_arch_cracked')


def loose(m):
    return m['id'] in LOOSE


def tol(m, tight=1e-9, wide=5e-6):
    return wide if loose(m) else tight


def setup(case):
    """mesh, space, form caller, nodes"""
    M = bld.mk_mesh(case['m'], case.get('edm'))
    S = bld.mk_space(case['sp'])
    return M, S, bld.mk_fc(M, S), [ref.nodes1d(b) for b in case['sp']]


def fid(nd, k, kind):
    return '%d-f' % k if nd == 3 else '%d-f-%s' % (k, kind[0])


def form(fc, nd, k, kind='', hyb=True, **kw):
    return fc(fid(nd, k, kind), hybrid=hyb, **kw)


def ncomp(nd, k):
    return 1 if k in (0, nd) else nd


def wrap(F, nd):
    """library-acceptable plain function"""
    if nd == 3:
        def f(t, x, y, z): return F(t, x, y, z)
    else:
        def f(t, x, y): return F(t, x, y)
    return f


def wrap0(F, nd, t):
    if nd == 3:
        def f(x, y, z): return F(t, x, y, z)
    else:
        def f(x, y): return F(t, x, y)
    return f


class Lin(object):
    """linear combination of callables f(t, *x) with .d()"""

    def __init__(self, terms):
        self.terms = terms

    def __call__(self, t, *x):
        r = 0 * x[0]
        for c, f in self.terms:
            r = r + c * f(t, *x)
        return r

    def d(self, i):
        return Lin([(c, f.d(i)) for c, f in self.terms])

    def dt(self):
        D = [(c, f.dt()) for c, f in self.terms]
        return lambda t, *x: sum(c * f(t, *x) for c, f in D)


def func(spec):
    """['poly', terms] | ['smooth', terms, tt]"""
    if spec[0] == 'poly':
        return bld.Poly(spec[1])
    return bld.Smooth(spec[1], spec[2])


def deriv(nd, k, kind, u):
    """exterior derivative of the field proxies u (list of components)"""
    if nd == 3:
        if k == 0:
            return [u[0].d(i) for i in range(3)]
        if k == 1:
            return [Lin([(1., u[2].d(1)), (-1., u[1].d(2))]), Lin([(1., u[0].d(2)), (-1., u[2].d(0))]),
                    Lin([(1., u[1].d(0)), (-1., u[0].d(1))])]
        return [Lin([(1., u[i].d(i)) for i in range(3)])]
    if k == 0:
        if kind == 'inner':
            return [u[0].d(0), u[0].d(1)]
        return [Lin([(1., u[0].d(1))]), Lin([(-1., u[0].d(0))])]
    if kind == 'inner':
        return [Lin([(1., u[1].d(0)), (-1., u[0].d(1))])]
    return [Lin([(1., u[0].d(0)), (1., u[1].d(1))])]


def field(fc, nd, comps):
    """continuous field object of the library"""
    fs = [wrap(c, nd) for c in comps]
    if len(fs) == 1:
        return fc('scalar', fs[0])
    return fc('vector', fs)


def at(comps, t):
    return lambda *x: [c(t, *x) for c in comps]


def hval(a, b, seed):
    """deterministic pseudo-random values of integer arrays, in [-1, 1]"""
    a = np.asarray(a, dtype=np.int64)
    x = np.sin(12.9898 * (a + 1) + 78.233 * (np.asarray(b) + 1) + 0.7 * (seed % 97)) * 43758.5453
    return 2. * (x - np.floor(x)) - 1.


def rand_cochain(f, seed):
    """element-wise (hybrid) cochain, independent of the distribution"""
    n = f.num.basis
    loc = {}
    for e in f.mesh.elements:
        loc[e] = hval(np.arange(n), int(e), seed)
    f.cochain.local = loc
    return loc


def conf_cochain(f, lab, seed):
    """continuous cochain: value by dof class"""
    loc = {}
    for e in f.mesh.elements:
        loc[e] = hval(lab[int(e)], 3, seed)
    f.cochain.local = loc
    return loc


def split(shapes, c):
    ids, n = topo.local_ids(shapes)
    return [np.asarray(c)[I] for I in ids]


def allsum(x):
    from root.config.main import COMM
    return sum(COMM.allgather(x))


def allmax(x):
    from root.config.main import COMM
    return max(COMM.allgather(x))
