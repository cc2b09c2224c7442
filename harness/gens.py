# -*- coding: utf-8 -*-
"""Shared generators (driver side). All return JSON-able values; all choices go through `draw`."""


def dyadic(draw, st, lo, hi, den=8):
    """a multiple of 1/den in [lo, hi]"""
    import math
    return draw(st.integers(math.ceil(lo * den), math.floor(hi * den))) / den


def coef(draw, st):
    return draw(st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.75, 2.0, 1.25, -1.5, 3.0]))


def free_nodes(draw, st, pmin=1, pmax=4):
    """increasing nodes from -1 to 1 with bounded gaps"""
    p = draw(st.integers(pmin, pmax))
    w = [draw(st.integers(1, 4)) for _ in range(p)]
    tot = float(sum(w))
    nodes = [-1.0]
    s = 0
    for k in w[:-1]:
        s += k
        nodes.append(-1.0 + 2.0 * s / tot)
    nodes.append(1.0)
    return nodes


def axis_basis(draw, st, pmax=4):
    """one 1-d basis: ['Lobatto', p] | ['free', nodes]"""
    if draw(st.booleans()) or draw(st.booleans()):
        return ['Lobatto', draw(st.integers(1, pmax))]
    return ['free', free_nodes(draw, st, 1, pmax)]


def space(draw, st, ndim=3, pmax=3, total=9):
    """degrees, kept so that sum(p) <= total"""
    out = []
    left = total
    for i in range(ndim):
        m = max(1, min(pmax, left - (ndim - 1 - i)))
        b = axis_basis(draw, st, m)
        left -= b[1] if b[0] == 'Lobatto' else len(b[1]) - 1
        out.append(b)
    return out


def axis_layout(draw, st, nmax=3):
    kind = draw(st.sampled_from(['int', 'int', 'ratio', 'lob']))
    if kind == 'int' or nmax == 1:
        return draw(st.integers(1, nmax))
    if kind == 'ratio':
        n = draw(st.integers(1, nmax))
        return [draw(st.integers(1, 4)) for _ in range(n)]
    return 'Lobatto:%d' % draw(st.integers(1, nmax))


def layout_len(a):
    if isinstance(a, int):
        return a
    if isinstance(a, str):
        return int(a.split(':')[1])
    return len(a)


IDS3 = ['crazy', 'crazy', 'crazy_periodic', 'bridge_arch_cracked', 'cuboid', 'cuboid', 'cuboid_periodic', 'ct',
        'psc', 'LDC']
IDS2 = ['crazy', 'crazy', 'crazy_periodic', 'chp1', 'chp2', 'quadrangle', 'quadrangle', 'bcr', 'cic', 'rectangle',
        'rectangle', 'rectangle_periodic']


def min2_periodic(m):
    """the edge and node elements need at least two elements per axis in a region that is periodic to itself"""
    if m['id'] in ('psc', 'pwc') or m['id'].endswith('_periodic'):
        m['lay'] = [2 if layout_len(a) == 1 else a for a in m['lay']]
    return m


def bounds(draw, st, ndim):
    out = []
    for _ in range(ndim):
        lo = dyadic(draw, st, -1, 1, 4)
        out.append([lo, lo + draw(st.sampled_from([1., 1.5, 2.0, 0.75]))])
    return out


def mesh3(draw, st, ids=None, nmax=3, max_elements=24, edm=True, min_elements=1, cmax=0.25):
    """{'id','kw','lay'} of a 3-d structured mesh"""
    mid = draw(st.sampled_from(ids or IDS3))
    kw = {}
    nreg = 1
    if mid in ('crazy', 'crazy_periodic'):
        kw['c'] = draw(st.sampled_from([0.0, 0.0, 0.1, 0.2, 0.05, 0.25, 0.15]))
        kw['c'] = min(kw['c'], cmax)
        if draw(st.booleans()):
            kw['bounds'] = bounds(draw, st, 3)
    elif mid == 'ct':
        kw['c'] = draw(st.sampled_from([0.0, 0.05, 0.1]))
    elif mid in ('cuboid', 'cuboid_periodic'):
        kw['region_layout'] = draw(st.sampled_from([[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 1],
                                                    [1, 2, 2], [2, 1, 2], [2, 2, 2], [3, 1, 1]]))
        if draw(st.booleans()):
            kw['width'] = draw(st.sampled_from([1.0, 2.0, 1.5]))
            kw['length'] = draw(st.sampled_from([1.0, 0.5, 3.0]))
            kw['height'] = draw(st.sampled_from([1.0, 2.5, 0.75]))
            kw['p_NWB'] = [dyadic(draw, st, -1, 1, 4) for _ in range(3)]
        nreg = kw['region_layout'][0] * kw['region_layout'][1] * kw['region_layout'][2]
    elif mid in ('psc', 'pwc', 'LDC'):
        if draw(st.booleans()):
            kw['L'] = draw(st.sampled_from([1.0, 2.0, 0.5]))
            kw['w'] = draw(st.sampled_from([1.0, 1.5]))
            kw['h'] = draw(st.sampled_from([1.0, 0.75, 3.0]))
    elif mid == 'bridge_arch_cracked':
        nreg = 4
    lay = []
    left = max(1, max_elements // nreg)
    for i in range(3):
        a = axis_layout(draw, st, max(1, min(nmax, left)))
        left = max(1, left // layout_len(a))
        lay.append(a)
    return {'id': mid, 'kw': kw, 'lay': lay}


def quad(draw, st):
    """corner points of a convex quadrangle (parallelogram, rotated rectangle, general)"""
    a = draw(st.sampled_from([[1., 0.], [1., 0.5], [0., -1.5], [-1., 0.25], [2., 0.], [1., 1.], [-0.5, -1.]]))
    if draw(st.booleans()):
        b = [-a[1], a[0]]
    else:
        k = draw(st.sampled_from([0.5, -0.25, 0.]))
        f = draw(st.sampled_from([1., 0.5, 1.5]))
        b = [k * a[0] - f * a[1], k * a[1] + f * a[0]]
    o = [dyadic(draw, st, -1, 1, 4) for _ in range(2)]
    e = draw(st.sampled_from([[0., 0.], [0., 0.], [0.25, 0.125]]))
    return {'p_UL': o, 'p_DL': [o[0] + a[0], o[1] + a[1]], 'p_UR': [o[0] + b[0], o[1] + b[1]],
            'p_DR': [o[0] + a[0] + b[0] + e[0], o[1] + a[1] + b[1] + e[1]]}


def mesh2(draw, st, ids=None, nmax=4, max_elements=40, smooth_only=False):
    mid = draw(st.sampled_from(ids or IDS2))
    kw = {}
    nreg = 1
    if mid in ('crazy', 'crazy_periodic'):
        kw['c'] = draw(st.sampled_from([0.0, 0.0, 0.1, 0.2, 0.05, 0.25, 0.15]))
        if draw(st.booleans()):
            kw['bounds'] = bounds(draw, st, 2)
    elif mid in ('rectangle', 'rectangle_periodic'):
        kw['region_layout'] = draw(st.sampled_from([[1, 1], [2, 1], [1, 2], [2, 2], [3, 1], [2, 3]]))
        if draw(st.booleans()):
            kw['width'] = draw(st.sampled_from([1.0, 2.0, 1.5]))
            kw['length'] = draw(st.sampled_from([1.0, 0.5, 3.0]))
            kw['p_UL'] = [dyadic(draw, st, -1, 1, 4) for _ in range(2)]
        nreg = kw['region_layout'][0] * kw['region_layout'][1]
    elif mid == 'quadrangle' and draw(st.booleans()):
        kw.update(quad(draw, st))
    elif mid == 'bcr' and (smooth_only or draw(st.booleans())):
        kw['wave'] = draw(st.sampled_from([0.1, 0.2, -0.25]))
        kw['h'] = draw(st.sampled_from([1.0, 2.0, 1.5]))
    elif mid == 'chp1':
        nreg = 4
        if draw(st.booleans()):
            kw = {'hx': draw(st.sampled_from([1.5, 2.0, 3.0])), 'hy': draw(st.sampled_from([1.5, 2.5])),
                  'r': draw(st.sampled_from([0.5, 0.25]))}
    elif mid == 'chp2':
        nreg = 8
        if draw(st.booleans()):
            kw = {'hx': draw(st.sampled_from([1.5, 2.0, 3.0])), 'hy': draw(st.sampled_from([1.5, 2.5])),
                  'r': draw(st.sampled_from([0.5, 0.25]))}
    elif mid == 'cic':
        nreg = 6
        if draw(st.booleans()):
            kw = {'h': draw(st.sampled_from([1.5, 2.0])), 'r': draw(st.sampled_from([0.5, 0.375])),
                  'li': draw(st.sampled_from([0.75, 1.5])), 'lo': draw(st.sampled_from([2.25, 1.0]))}
    lay = []
    left = max(1, max_elements // nreg)
    for i in range(2):
        a = axis_layout(draw, st, max(1, min(nmax, left)))
        left = max(1, left // layout_len(a))
        lay.append(a)
    return {'id': mid, 'kw': kw, 'lay': lay}


def poly(draw, st, ndim, degs, nterms=4):
    """sparse polynomial: list of [coef, [powers]] with power_i <= degs[i]"""
    n = draw(st.integers(1, nterms))
    out = []
    for _ in range(n):
        c = draw(st.sampled_from([1.0, -1.0, 0.5, 2.0, -0.75, 1.5]))
        out.append([c, [draw(st.integers(0, d)) for d in degs]])
    return out


def smooth(draw, st, ndim):
    """a smooth non-polynomial function: [[amp, kind, [freqs], phase], ...]"""
    n = draw(st.integers(1, 2))
    out = []
    for _ in range(n):
        out.append([draw(st.sampled_from([1.0, -1.0, 0.5, 2.0])),
                    draw(st.sampled_from(['sin', 'cos', 'exp', 'prod'])),
                    [draw(st.sampled_from([0.5, 1.0, -0.75, 1.25, 0.0])) for _ in range(ndim)],
                    draw(st.sampled_from([0.0, 0.25, 1.0]))])
    return out


def points(draw, st, nmax=4):
    """increasing reference points in [-1, 1]"""
    n = draw(st.integers(1, nmax))
    s = draw(st.lists(st.integers(-16, 16), min_size=n, max_size=n, unique=True))
    return [x / 16. for x in sorted(s)]
