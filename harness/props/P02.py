# -*- coding: utf-8 -*-
"""P02: the function calculus (scalar/vector/tensor wrappers), numerical differentiation, planar geometry."""
from kit import facet, ensure, close, gclose, nontrivial, tag
import gens

RULE = ('case = random polynomials of (t, x..) combined by a random chain of calculus operations and evaluated on a '
        'random point array; or a boundary-curve quadrangle; or a coordinate point set. non-trivial: a derivative or '
        'product is involved / a curved side / more than one point')
P = 'P02'
ALG = ['add', 'sub', 'neg']


def gpoly(draw, st, nd):
    return gens.poly(draw, st, nd + 1, [2] + [3] * nd, nterms=3)


def gpts(draw, st, nd):
    shp = draw(st.sampled_from([[1], [4], [2, 3], [2, 2, 2]]))
    n = 1
    for s in shp:
        n *= s
    return {'shape': shp, 'v': [[draw(st.integers(-16, 16)) / 8. for _ in range(n)] for _ in range(nd)]}


def g_calc(draw, st):
    nd = draw(st.sampled_from([2, 3]))
    der = draw(st.sampled_from(['none', 'dt_s', 'grad', 'conv_s', 'div', 'curl', 'conv_v', 'dt_v', 'tensor']))
    n = draw(st.integers(1, 3))
    chain = [draw(st.sampled_from(['add', 'sub', 'neg', 'mul', 'dot', 'cross', 'rev_sub'])) for _ in range(n)]
    return {'nd': nd, 'der': der, 'chain': chain,
            'f': [gpoly(draw, st, nd) for _ in range(2 * nd + 2)],
            't': draw(st.sampled_from([0, 1, 0.5, -0.75, 2.0])),
            'pts': gpts(draw, st, nd)}


def mk(nd, terms):
    """python function with the exact argument count the wrappers demand, and the exact polynomial"""
    from bld import Poly
    p = Poly(terms)

    if nd == 2:
        def f(t, x, y):
            return p(0, t + 0 * x, x, y)
    else:
        def f(t, x, y, z):
            return p(0, t + 0 * x, x, y, z)
    return f, p


@facet(P, 'calc', g_calc, quick=500, cost=0.02)
def calc(case):
    """grad/curl/rot/div/dt/convection and the algebra equal exact polynomial calculus"""
    import numpy as np
    nd, t = case['nd'], case['t']
    if nd == 2:
        from components.functions.timePlus2dSpace.wrappers.scalar import t2dScalar as S
        from components.functions.timePlus2dSpace.wrappers.vector import t2dVector as V
        from components.functions.timePlus2dSpace.wrappers.tensor import t2dTensor as T
    else:
        from components.functions.timePlus3dSpace.wrappers.scalar import t3dScalar as S
        from components.functions.timePlus3dSpace.wrappers.vector import t3dVector as V
        from components.functions.timePlus3dSpace.wrappers.tensor import t3dTensor as T
    X = [np.array(v).reshape(case['pts']['shape']) for v in case['pts']['v']]
    FP = [mk(nd, c) for c in case['f']]
    f = [a for a, _ in FP]
    P_ = [b for _, b in FP]

    def ev(p):
        return p(0, t + 0 * X[0], *X)

    der = case['der']
    tag(der)
    ensure(S(f[0]).ndim == nd and V(*f[:nd]).ndim == nd, 'ndim')
    u = list(range(nd))                      # the vector u = f[0..nd)
    v = list(range(nd, 2 * nd))              # and v
    s = 2 * nd
    U, W = V(*[f[i] for i in u]), V(*[f[i] for i in v])
    for i in range(nd):
        ensure(U[i] is f[i], 'component access')
    dx = lambda p, i: p.d(i + 1)             # noqa
    tolk = dict(rtol=1e-6, atol=2e-6)
    kind = None
    if der == 'none':
        obj, val = S(f[s]), ev(P_[s])
        kind = 's'
    elif der == 'dt_s':
        obj, val = S(f[s]).time_derivative, ev(P_[s].d(0))
        kind = 's'
    elif der == 'grad':
        obj, val = S(f[s]).gradient, [ev(dx(P_[s], i)) for i in range(nd)]
        kind = 'v'
    elif der == 'conv_s':
        obj, val = S(f[s]).convection_by(U), sum(ev(P_[i]) * ev(dx(P_[s], i)) for i in range(nd))
        kind = 's'
    elif der == 'div':
        obj, val = U.divergence, sum(ev(dx(P_[i], i)) for i in range(nd))
        kind = 's'
    elif der == 'curl':
        if nd == 3:
            obj = U.curl
            val = [ev(dx(P_[2], 1)) - ev(dx(P_[1], 2)), ev(dx(P_[0], 2)) - ev(dx(P_[2], 0)),
                   ev(dx(P_[1], 0)) - ev(dx(P_[0], 1))]
            kind = 'v'
        elif case['chain'][0] in ('add', 'neg', 'dot'):
            obj, val = S(f[s]).curl, [ev(dx(P_[s], 1)), -ev(dx(P_[s], 0))]
            kind = 'v'
        else:
            obj, val = U.rot, ev(dx(P_[1], 0)) - ev(dx(P_[0], 1))
            kind = 's'
    elif der == 'conv_v':
        obj = W.convection_by(U)
        val = [sum(ev(P_[u[j]]) * ev(dx(P_[v[i]], j)) for j in range(nd)) for i in range(nd)]
        kind = 'v'
    elif der == 'dt_v':
        obj, val = W.time_derivative, [ev(P_[i].d(0)) for i in v]
        kind = 'v'
    else:
        idx = [(3 * k + 1) % len(f) for k in range(nd * nd)]
        T_ = T(*[f[i] for i in idx])
        r = T_(t, *X)
        d = T_.time_derivative(t, *X)
        ensure(len(r) == nd * nd and len(d) == nd * nd, 'tensor size')
        for k, i in enumerate(idx):
            gclose(r[k], ev(P_[i]), 'tensor component', rtol=1e-12)
            gclose(d[k], ev(P_[i].d(0)), 'tensor time derivative', **tolk)
        nontrivial()
        return
    nontrivial(der != 'none' or any(c in ('mul', 'dot', 'cross') for c in case['chain']))

    def check(o, vl, what):
        r = o(t, *X)
        if isinstance(vl, list):
            ensure(len(r) == nd, what + ': components')
            for a, b in zip(r, vl):
                gclose(a, b, what, **tolk)
        else:
            gclose(r, vl, what, **tolk)
    check(obj, val, der)
    big = 1.
    for op in case['chain']:
        if kind == 's':
            other, oval = S(f[s + 1]), ev(P_[s + 1])
            if op == 'add':
                obj, val = obj + other, val + oval
            elif op == 'sub':
                obj, val = obj - other, val - oval
            elif op == 'rev_sub':
                obj, val = other - obj, oval - val
            elif op == 'neg':
                obj, val = -obj, -val
            elif op == 'mul':
                obj, val = obj * other, val * oval
            else:
                continue
        else:
            other, oval = W, [ev(P_[i]) for i in v]
            if op == 'add':
                obj, val = obj + other, [a + b for a, b in zip(val, oval)]
            elif op == 'sub':
                obj, val = obj - other, [a - b for a, b in zip(val, oval)]
            elif op == 'rev_sub':
                obj, val = other - obj, [b - a for a, b in zip(val, oval)]
            elif op == 'neg':
                obj, val = -obj, [-a for a in val]
            elif op == 'dot':
                obj, val = obj.dot(other), sum(a * b for a, b in zip(val, oval))
                kind = 's'
            elif op == 'cross' and nd == 3:
                a, b, c = val
                p, q, r = oval
                obj = obj.cross_product(other)
                val = [b * r - c * q, c * p - a * r, a * q - b * p]
            else:
                continue
        tag(kind + ':' + op)
        m = max([1.] + [float(np.max(np.abs(x))) for x in (val if isinstance(val, list) else [val])])
        mo = max([1.] + [float(np.max(np.abs(x))) for x in (oval if isinstance(oval, list) else [oval])])
        big = max(big * (mo if op in ('mul', 'dot', 'cross') else 1.), m)
        tolk = dict(rtol=1e-6, atol=4e-6 * big)
        check(obj, val, '%s then %s' % (der, op))


def g_num(draw, st):
    nd = draw(st.sampled_from([1, 2, 3, 12, 13]))     # 12/13: time plus 2/3 d
    k = nd % 10
    return {'nd': nd, 'f': [gens.smooth(draw, st, k) for _ in range(3)], 'tt': draw(st.sampled_from([0., 0.5, -1.0])),
            't': draw(st.sampled_from([0, 0.5, 1, -0.25])), 'pts': gpts(draw, st, k), 'meth': draw(st.booleans()),
            'bad': draw(st.integers(0, k - 1)), 'off': draw(st.sampled_from([0.25, -0.5, 1.0]))}


@facet(P, 'numdiff', g_num, quick=400, cost=0.02)
def numdiff(case):
    """numerical (partial) derivatives and Jacobians equal the exact ones; the checkers tell right from wrong"""
    import numpy as np
    from bld import Smooth
    nd = case['nd']
    k = nd % 10
    X = [np.array(v).reshape(case['pts']['shape']) for v in case['pts']['v']]
    t = case['t']
    nontrivial(X[0].size > 1)
    tag('nd%d' % nd)
    F = [Smooth(c, case['tt']) for c in case['f']]
    tol = dict(rtol=1e-6, atol=1e-6)

    def wrap(g, timed=False):
        if timed:
            if k == 2:
                def f(t, x, y): return g(t, x, y)
            else:
                def f(t, x, y, z): return g(t, x, y, z)
        elif k == 1:
            def f(x): return g(0, x)
        elif k == 2:
            def f(x, y): return g(0, x, y)
        else:
            def f(x, y, z): return g(0, x, y, z)
        if case['meth']:
            import types
            n = k + (1 if timed else 0)
            if n == 1:
                def m(self, x): return f(x)
            elif n == 2:
                def m(self, x, y): return f(x, y)
            elif n == 3:
                def m(self, x, y, z): return f(x, y, z)
            else:
                def m(self, a, b, c, d): return f(a, b, c, d)
            return types.MethodType(m, case_holder)
        return f

    class Holder(object):
        pass
    case_holder = Holder()
    D = [F[0].d(i) for i in range(k)]
    off = case['off']
    if nd == 1:
        from components.numerical._1dSpace.derivative import NumericalDerivative_fx
        x = X[0].ravel()
        N = NumericalDerivative_fx(wrap(F[0]), x)
        close(N.scipy_derivative(), D[0](0, x), 'd/dx', **tol)
        ensure(N.check_derivative(lambda x: D[0](0, x)) is True, 'exact derivative not recognised')
        ensure(N.check_derivative(lambda x: D[0](0, x) + off) is False, 'wrong derivative accepted')
        from components.numerical._2dSpace.Jacobian_21 import NumericalJacobian_xy_t_21
        from components.numerical._3dSpace.Jacobian_31 import NumericalJacobian_xyz_t_31
        J2 = NumericalJacobian_xy_t_21(lambda s: (F[0](0, s), F[1](0, s)))
        J3 = NumericalJacobian_xyz_t_31(lambda s: (F[0](0, s), F[1](0, s), F[2](0, s)))
        for i, r in enumerate(J2.scipy_derivative(x)):
            close(r, F[i].d(0)(0, x), 'Jacobian_21', **tol)
        for i, r in enumerate(J3.scipy_derivative(x)):
            close(r, F[i].d(0)(0, x), 'Jacobian_31', **tol)
        for n, J in ((2, J2), (3, J3)):
            b = case['pts']['shape'][0] % n
            good = J.check_Jacobian(lambda s: tuple(F[i].d(0)(0, s) for i in range(n)), x, tolerance=1e-4)
            ensure(tuple(good) == (True,) * n, 'exact Jacobian not recognised: %s' % (good,))
            wrong = J.check_Jacobian(lambda s: tuple(F[i].d(0)(0, s) + (off if i == b else 0) for i in range(n)), x,
                                     tolerance=1e-4)
            ensure([bool(w) for w in wrong] == [i != b for i in range(n)], 'wrong Jacobian accepted: %s' % (wrong,))
        return
    if nd in (2, 3):
        if nd == 2:
            from components.numerical._2dSpace.partial_derivative import NumericalPartialDerivative_xy as NP
            from components.numerical._2dSpace.Jacobian_22 import NumericalJacobian_xy_22 as NJ
        else:
            from components.numerical._3dSpace.partial_derivative import NumericalPartialDerivative_xyz as NP
            from components.numerical._3dSpace.Jacobian_33 import NumericalJacobian_xyz_33 as NJ
        N = NP(wrap(F[0]), *X)
        tot = N.scipy_total
        for i in range(nd):
            close(N.scipy_partial('xyz'[i]), D[i](0, *X), 'd/d' + 'xyz'[i], **tol)
            close(tot[i], D[i](0, *X), 'total', **tol)
        J = NJ(lambda *a: tuple(F[i](0, *a) for i in range(nd))).scipy_derivative(*X)
        for i in range(nd):
            for j in range(nd):
                close(J[i][j], F[i].d(j)(0, *X), 'Jacobian %d%d' % (i, j), rtol=1e-5, atol=1e-5)
        funcs = [wrap(d) for d in D]
        T0 = ()
    else:
        if k == 2:
            from components.numerical.timePlus2dSpace.partial_derivative import NumericalPartialDerivative_txy as NP
            from components.numerical.timePlus2dSpace.partial_derivative_as_functions import \
                NumericalPartialDerivative_txy_Functions as NF
        else:
            from components.numerical.timePlus3dSpace.partial_derivative import NumericalPartialDerivative_txyz as NP
            from components.numerical.timePlus3dSpace.partial_derivative_as_functions import \
                NumericalPartialDerivative_txyz_Functions as NF
        w = wrap(F[0], True)
        N = NP(w, t, *X)
        tot = N.scipy_total
        D = [F[0].dt()] + D
        fs = NF(w)
        for i in range(k + 1):
            c = 'txyz'[i]
            close(N.scipy_partial(c), D[i](t, *X), 'd/d' + c, **tol)
            close(tot[i], D[i](t, *X), 'total', **tol)
            close(fs(c)(t, *X), D[i](t, *X), 'derivative function d/d' + c, **tol)
        funcs = [wrap(d, True) for d in D]
        T0 = ('t',)
    names = list(T0) + list('xyz'[:k])
    ensure(all(N.check_total(*funcs)), 'exact derivatives not recognised')
    b = case['bad']
    wrongf = list(funcs)
    g = wrongf[b]
    wrongf[b] = (lambda *a: g(*a) + off)
    res = [bool(r) for r in N.check_total(*wrongf)]
    ensure(res == [i != b for i in range(len(names))], 'check_total on a wrong d/d%s: %s' % (names[b], res))


def g_trans(draw, st):
    # a star-shaped quadrangle with straight or arc sides
    q = [[gens.dyadic(draw, st, -1.5, -0.5), gens.dyadic(draw, st, -1.5, -0.5)],
         [gens.dyadic(draw, st, 0.5, 1.5), gens.dyadic(draw, st, -1.5, -0.5)],
         [gens.dyadic(draw, st, 0.5, 1.5), gens.dyadic(draw, st, 0.5, 1.5)],
         [gens.dyadic(draw, st, -1.5, -0.5), gens.dyadic(draw, st, 0.5, 1.5)]]
    return {'q': q, 'side': [draw(st.sampled_from(['line', 'cw', 'acw'])) for _ in range(4)],
            'h': [draw(st.sampled_from([1., 2., 4.])) for _ in range(4)],
            'pts': {'v': [[draw(st.integers(0, 16)) / 16. for _ in range(5)] for _ in range(2)]}}


@facet(P, 'transfinite', g_trans, quick=200, cost=0.02)
def transfinite(case):
    """transfinite mapping reproduces its four boundary curves and its analytic Jacobian is the real one"""
    import numpy as np
    from components.functions._2dSpace.transfinite import TransfiniteMapping
    from components.functions._2dSpace.geometrical_functions.straight_line import StraightLine
    from components.functions._2dSpace.geometrical_functions.clockwise_arc import ArcClockWise
    from components.functions._2dSpace.geometrical_functions.anticlockwise_arc import ArcAntiClockWise
    A, B, C, D = [tuple(p) for p in case['q']]
    ends = [(A, B), (B, C), (D, C), (A, D)]
    gam, dgam = [], []
    o = np.linspace(0, 1, 7)
    for (a, b), kind, h in zip(ends, case['side'], case['h']):
        if kind == 'line':
            g, dg = StraightLine(a, b)()
        else:
            m = [(a[i] + b[i]) / 2 for i in range(2)]
            n = [-(b[1] - a[1]), b[0] - a[0]]
            sgn = h if kind == 'acw' else -h
            c = (m[0] + n[0] * sgn, m[1] + n[1] * sgn)
            cls = ArcClockWise if kind == 'cw' else ArcAntiClockWise
            g, dg = cls(c, a, b)()
            r = np.hypot(a[0] - c[0], a[1] - c[1])
            x, y = g(o)
            close(np.hypot(x - c[0], y - c[1]), r + 0 * o, 'arc radius', atol=1e-10)
            th = np.unwrap(np.arctan2(y - c[1], x - c[0]))
            ensure(np.all(np.diff(th) < 0) if kind == 'cw' else np.all(np.diff(th) > 0), 'arc direction ' + kind)
            nontrivial()
        for s, p in ((0., a), (1., b)):
            x, y = g(np.array([s]))
            close([x[0], y[0]], p, 'curve end', atol=1e-9)
        e = 1e-6
        x1, y1 = g(o + e)
        x0, y0 = g(o - e)
        dx, dy = dg(o)
        close(dx, (x1 - x0) / (2 * e), 'dgamma', rtol=1e-5, atol=1e-6)
        close(dy, (y1 - y0) / (2 * e), 'dgamma', rtol=1e-5, atol=1e-6)
        gam.append(g)
        dgam.append(dg)
    T = TransfiniteMapping(tuple(gam), tuple(dgam))
    for i, (r, s) in enumerate([(o, 0 * o), (0 * o + 1, o), (o, 0 * o + 1), (0 * o, o)]):
        x, y = T.mapping(r, s)
        gx, gy = gam[i](o)
        close(x, gx, 'side %d' % i, atol=1e-9)
        close(y, gy, 'side %d' % i, atol=1e-9)
    r, s = [np.array(v) for v in case['pts']['v']]
    x, y = T.mapping(r, s)
    close(T.x(r, s), x, 'x', atol=1e-13)
    close(T.y(r, s), y, 'y', atol=1e-13)
    e = 1e-6
    for nm, f, a, b in (('dx_dr', T.x, e, 0), ('dx_ds', T.x, 0, e), ('dy_dr', T.y, e, 0), ('dy_ds', T.y, 0, e)):
        num = (f(r + a, s + b) - f(r - a, s - b)) / (2 * e)
        close(getattr(T, nm)(r, s), num, nm, rtol=1e-5, atol=1e-6)


def g_geo(draw, st):
    def pt():
        return [draw(st.integers(-20, 20)) / 4., draw(st.integers(-20, 20)) / 4., draw(st.integers(-20, 20)) / 4.]
    return {'p': [pt() for _ in range(5)], 'thr': sorted([draw(st.integers(-8, 8)) / 2. for _ in range(2)]),
            'C': draw(st.sampled_from([0., 1., -2.5, 3.])), 'extra': draw(st.booleans()),
            'fl': draw(st.integers(-5, 5)) / 2.}


@facet(P, 'geometry', g_geo, quick=500, cost=0.005)
def geometry(case):
    """coordinate switchers are inverse pairs, angles/intersections/piecewise evaluation satisfy their definitions"""
    import numpy as np
    from components.functions._2dSpace.Cartesian_polar_coordinates_switcher import CartPolSwitcher
    from components.functions._3dSpace.Cartesian_cylinder_coordinate_switcher import CartCylSwitcher
    from components.functions._3dSpace.Cartesian_spherical_coordinate_switcher import CartSphSwitcher
    from components.functions._2dSpace.angle import angle
    from components.functions._2dSpace.distance import distance
    from components.functions._2dSpace.angles_of_triangle import angles_of_triangle
    from components.functions._2dSpace.line_intersection import find_line_intersection
    from components.functions._3dSpace.angle import angle_between_two_vectors
    from components.miscellaneous.generalized_piecewise_function import genpiecewise
    p = np.array(case['p'])
    x, y, z = p.T
    nontrivial()
    r, ph = CartPolSwitcher.cart2pol(x, y)
    close(r ** 2, x ** 2 + y ** 2, 'polar radius', atol=1e-10)
    a, b = CartPolSwitcher.pol2cart(r, ph)
    close(np.array([a, b]), np.array([x, y]), 'polar round trip', atol=1e-10)
    a, b, c = CartCylSwitcher.cyl2cart(*CartCylSwitcher.cart2cyl(x, y, z))
    close(np.array([a, b, c]), np.array([x, y, z]), 'cylinder round trip', atol=1e-10)
    az, el, R = CartSphSwitcher.cart2sph(x, y, z)
    close(R ** 2, x ** 2 + y ** 2 + z ** 2, 'spherical radius', atol=1e-10)
    ensure(np.all(np.abs(el) <= np.pi / 2 + 1e-12), 'elevation range')
    a, b, c = CartSphSwitcher.sph2cart(az, el, R)
    close(np.array([a, b, c]), np.array([x, y, z]), 'spherical round trip', atol=1e-10)
    A, B, C, D = [tuple(q[:2]) for q in p[:4]]
    close(distance(A, B), ((A[0] - B[0]) ** 2 + (A[1] - B[1]) ** 2) ** 0.5, 'distance')
    if A != B:
        th = angle(A, B)
        d = distance(A, B)
        ensure(0 <= th <= 2 * np.pi, 'angle range')
        close([A[0] + d * np.cos(th), A[1] + d * np.sin(th)], B, 'angle', atol=1e-6)
        den = (A[0] - B[0]) * (C[1] - D[1]) - (A[1] - B[1]) * (C[0] - D[0])
        I = find_line_intersection(A, B, C, D)
        if den == 0:
            ensure(I is None, 'parallel lines do not intersect')
        else:
            for (s, e) in ((A, B), (C, D)):
                cr = (e[0] - s[0]) * (I[1] - s[1]) - (e[1] - s[1]) * (I[0] - s[0])
                close(cr, 0., 'intersection on both lines', atol=1e-6 * (1 + abs(I[0]) + abs(I[1])))
        area = (B[0] - A[0]) * (C[1] - A[1]) - (B[1] - A[1]) * (C[0] - A[0])
        if abs(area) > 0.3:
            g = angles_of_triangle(A, B, C)
            close(sum(g), 180., 'angles of a triangle', atol=1e-6)
            for k, (o, u, v) in enumerate(((A, B, C), (B, A, C), (C, A, B))):
                uu = np.array(u) - o
                vv = np.array(v) - o
                close(g[k], np.degrees(np.arctan2(abs(uu[0] * vv[1] - uu[1] * vv[0]), uu @ vv)), 'angle %d' % k,
                      atol=1e-5)
    v1, v2 = p[0], p[1]
    if np.linalg.norm(v1) > 0 and np.linalg.norm(v2) > 0:
        close(angle_between_two_vectors(v1, v2),
              np.arctan2(np.linalg.norm(np.cross(v1, v2)), v1 @ v2), '3d angle', atol=1e-6)
    lo, hi = case['thr']
    conds = [x < lo, np.logical_and(x >= lo, x < hi)]
    fl = [lambda a, b: a * b, lambda a, b: a - b + 0.5]
    exp = np.where(conds[0], x * y, np.where(conds[1], x - y + 0.5, case['fl']))
    if case['extra']:
        got = genpiecewise([x, y], conds, fl + [lambda a, b: a ** 2 + b])
        exp = np.where(conds[0], x * y, np.where(conds[1], x - y + 0.5, x ** 2 + y))
    else:
        got = genpiecewise((x, y), conds, fl, fillvalue=case['fl'])
    close(got, exp, 'piecewise', atol=1e-12)
    import importlib
    c = case['C']
    for d, arg in (('_2dSpace', (x, y)), ('_3dSpace', (x, y, z))):
        m = 'components.functions.%s.' % d
        CFG = importlib.import_module(m + 'constant').CFG
        close(CFG(c)()(*arg), c + 0 * x, 'constant', atol=0)
        g2 = (lambda x, y: x * y - 1) if d == '_2dSpace' else (lambda x, y, z: x * y * z - 1)
        close(importlib.import_module(m + 'scaling').ScalingFunc(c)(g2)(*arg), c * g2(*arg), 'scaling', atol=1e-12)
        close(importlib.import_module(m + 'opposite').Opposite(g2)()(*arg), -g2(*arg), 'opposite', atol=0)
        close(importlib.import_module(m + '_0_')._0_(*arg), 0 * x, 'zero', atol=0)
    from components.functions.timePlus2dSpace.constant import CFGt as C2
    from components.functions.timePlus3dSpace.constant import CFG as C3
    close(C2(c)()(0.5, x, y), c + 0 * x, 'constant t2d', atol=0)
    close(C3(c)()(0.5, x, y, z), c + 0 * x, 'constant t3d', atol=0)
