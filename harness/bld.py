# -*- coding: utf-8 -*-
"""Builders (worker side): real mifem objects from JSON cases, plus reference functions."""
import numpy as np


def mk_space(sp, repeat=False):
    nd = len(sp)
    if nd == 3:
        from objects.CSCG._3d.master import SpaceInvoker
    else:
        from objects.CSCG._2d.master import SpaceInvoker

    def one(b):
        return ('Lobatto', b[1]) if b[0] == 'Lobatto' else (list(b[1]),)
    if repeat:
        return SpaceInvoker('polynomials')(one(sp[0]), ndim=nd)
    return SpaceInvoker('polynomials')([one(b) for b in sp])


def degrees(sp):
    return [b[1] if b[0] == 'Lobatto' else len(b[1]) - 1 for b in sp]


def _kw(kw):
    out = {}
    for k, v in kw.items():
        if k == 'bounds':
            v = [tuple(b) for b in v]
        elif k in ('p_NWB', 'p_UL', 'p_UR', 'p_DL', 'p_DR'):
            v = tuple(v)
        elif k == 'wave':
            a = v
            out['mapping'] = (lambda t: 2. * t, lambda t: a * np.sin(np.pi * t) + 0. * t)
            out['Jacobian'] = (lambda t: 2. + 0. * t, lambda t: a * np.pi * np.cos(np.pi * t))
            continue
        out[k] = v
    return out


def mk_mesh(m, EDM=None):
    nd = len(m['lay'])
    if nd == 3:
        from objects.CSCG._3d.master import MeshGenerator
    else:
        from objects.CSCG._2d.master import MeshGenerator
    kw = {} if EDM is None else {'EDM': EDM}
    return MeshGenerator(m['id'], **_kw(m['kw']))(list(m['lay']), **kw)


def mk_fc(mesh, space):
    if mesh.ndim == 3:
        from objects.CSCG._3d.master import FormCaller
    else:
        from objects.CSCG._2d.master import FormCaller
    return FormCaller(mesh, space)


class Poly(object):
    """sparse polynomial in x.. with exact derivatives; callable as f(t, *x)"""

    def __init__(self, terms):
        self.t = [(float(c), tuple(int(_) for _ in p)) for c, p in terms]

    def __call__(self, t, *x):
        r = 0 * x[0]
        for c, p in self.t:
            v = c
            for xi, pi in zip(x, p):
                if pi:
                    v = v * xi ** pi
            r = r + v
        return r

    def d(self, i):
        o = []
        for c, p in self.t:
            if p[i]:
                q = list(p)
                q[i] -= 1
                o.append((c * p[i], q))
        if not o:
            o = [(0., [0] * len(self.t[0][1]))]
        return Poly(o)


class Smooth(object):
    """sum of sin/cos/exp/prod terms with exact derivatives; f(t, *x) = (1 + tt*t) * g(x)"""

    def __init__(self, terms, tt=0., der=None):
        self.t = terms
        self.tt = tt
        self.der = tuple(der or ())

    def d(self, i):
        return Smooth(self.t, self.tt, self.der + (i,))

    def dt(self):
        s = Smooth(self.t, self.tt, self.der)
        f0 = Smooth(self.t, 0., self.der)
        return lambda t, *x: self.tt * f0(0., *x) + 0 * s(0., *x)

    def __call__(self, t, *x):
        r = 0 * x[0]
        for a, kind, f, ph in self.t:
            if kind == 'prod':
                v = a
                for i, xi in enumerate(x):
                    m = self.der.count(i)
                    v = v * (f[i] + 0.5) ** m * np.sin((f[i] + 0.5) * xi + ph + 0.3 * i + m * np.pi / 2)
                r = r + v
                continue
            z = ph
            for fi, xi in zip(f, x):
                z = z + fi * xi
            m = len(self.der)
            s = a
            for i in self.der:
                s = s * f[i]
            if kind == 'sin':
                r = r + s * np.sin(z + m * np.pi / 2)
            elif kind == 'cos':
                r = r + s * np.cos(z + m * np.pi / 2)
            else:
                r = r + s * np.exp(0.5 * z) * 0.5 ** m
        return (1. + self.tt * t) * r
