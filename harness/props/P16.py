# -*- coding: utf-8 -*-
"""P16: continuous fields on a mesh obey vector calculus."""
from kit import facet, ensure, close, gclose, nontrivial, tag
import gens

RULE = ('case = mesh, leaf fields (functions, methods, numbers), a program of field operations and a history of '
        'evaluations (time, elements, grid); non-trivial: the program has at least one operation, or the mesh at '
        'least 2 elements')
P = 'P16'
SN = 'NSWEBF'
FLAT = ('crazy', 'crazy_periodic', 'cuboid', 'cuboid_periodic', 'ct', 'bridge_arch_cracked')


# ------------------------------------------------------------------------------------------------ expressions
class Leaf(object):
    """sum c t^a0 x^a1 .. + sum c cos(w0 t + w1 x + .. + ph)"""

    def __init__(self, poly, trig):
        self.poly, self.trig = poly, trig

    def __call__(self, t, *x):
        import numpy as np
        v = (t,) + x
        r = 0. * x[0]
        for c, a in self.poly:
            s = c
            for ai, vi in zip(a, v):
                if ai:
                    s = s * vi ** ai
            r = r + s
        for c, w, ph in self.trig:
            s = ph
            for wi, vi in zip(w, v):
                s = s + wi * vi
            r = r + c * np.cos(s)
        return r

    def d(self, i):
        p = []
        for c, a in self.poly:
            if a[i]:
                b = list(a)
                b[i] -= 1
                p.append((c * a[i], b))
        return Leaf(p, [(c * w[i], w, ph + 1.5707963267948966) for c, w, ph in self.trig if w[i]])


class Add(object):
    def __init__(self, terms):
        self.terms = terms

    def __call__(self, t, *x):
        r = 0. * x[0]
        for c, f in self.terms:
            r = r + c * f(t, *x)
        return r

    def d(self, i):
        return Add([(c, f.d(i)) for c, f in self.terms])


class Mul(object):
    def __init__(self, f, g):
        self.f, self.g = f, g

    def __call__(self, t, *x):
        return self.f(t, *x) * self.g(t, *x)

    def d(self, i):
        return Add([(1., Mul(self.f.d(i), self.g)), (1., Mul(self.f, self.g.d(i)))])


def _leaf(draw, st, nd):
    poly = [[gens.coef(draw, st), [draw(st.integers(0, 2)) for _ in range(nd + 1)]]
            for _ in range(draw(st.integers(0, 2)))]
    trig = [[gens.coef(draw, st), [draw(st.sampled_from([0., 1., -1., 0.5, 1.5])) for _ in range(nd + 1)],
             draw(st.sampled_from([0., 0.3, -1.2]))] for _ in range(draw(st.integers(0, 1)))]
    how = draw(st.sampled_from(['fun', 'fun', 'met', 'num']))
    return {'poly': poly, 'trig': trig, 'how': how, 'num': draw(st.sampled_from([0, 1, -2, 0.5, 3.25]))}


def _mk(lf, nd):
    """(exact expression, thing given to the library, differentiable)"""
    if lf['how'] == 'num':
        v = lf['num'] if nd == 3 else 0
        return Leaf([(v, [0] * (nd + 1))], []), v
    E = Leaf([tuple(p) for p in lf['poly']], [tuple(p) for p in lf['trig']])
    if lf['how'] == 'met':
        class H(object):
            if nd == 3:
                def m(self, t, x, y, z): return E(t, x, y, z)
            else:
                def m(self, t, x, y): return E(t, x, y)
        return E, H().m
    if nd == 3:
        def f(t, x, y, z): return E(t, x, y, z)
    else:
        def f(t, x, y): return E(t, x, y)
    return E, f


OPS3 = ['neg', 'add', 'sub', 'nmul', 'rmul', 'smul', 'vmul', 'cross', 'dot', 'grad', 'curl', 'div', 'dt', 'tdiv']
OPS2 = ['neg', 'add', 'sub', 'nmul', 'rmul', 'smul', 'vmul', 'cross', 'dot', 'sdot', 'grad', 'curl', 'rot', 'div', 'dt']


def _prog(draw, st, nd):
    kinds = ['s', 'v', 'v', 's'] + (['t'] if nd == 3 else [])
    leaves = []
    for k in ['s', 'v'] + [draw(st.sampled_from(kinds)) for _ in range(draw(st.integers(0, 2)))]:
        n = {'s': 1, 'v': nd, 't': 9}[k]
        leaves.append([k, [_leaf(draw, st, nd) for _ in range(n)]])
    ops = OPS3 if nd == 3 else OPS2
    prog = [[draw(st.sampled_from(ops)), draw(st.integers(0, 50)), draw(st.integers(0, 50)),
             draw(st.sampled_from([2, -1, 0.5, -1.75, 0, 3]))] for _ in range(draw(st.integers(1, 6)))]
    hist = [[draw(st.integers(0, 50)), gens.dyadic(draw, st, -1, 2, 4), draw(st.sampled_from(['all', 'one', 'cur'])),
             draw(st.booleans())] for _ in range(draw(st.integers(4, 8)))]
    return {'leaves': leaves, 'prog': prog, 'hist': hist}


def g3(draw, st):
    m = gens.mesh3(draw, st, nmax=2, max_elements=4)
    c = {'d': 3, 'm': m, 'flat': draw(st.booleans()), 'g': [gens.points(draw, st) for _ in range(3)]}
    c.update(_prog(draw, st, 3))
    return c


def g2(draw, st):
    m = gens.mesh2(draw, st, nmax=2, max_elements=6, smooth_only=True)
    c = {'d': 2, 'm': m, 'flat': draw(st.booleans()), 'g': [gens.points(draw, st) for _ in range(2)]}
    c.update(_prog(draw, st, 2))
    return c


def _sp(nd):
    return [['Lobatto', 1]] * nd


def calc(case):
    import numpy as np
    import bld
    import ref
    nd = case['d']
    M = bld.mk_mesh(case['m'])
    fc = bld.mk_fc(M, bld.mk_space(_sp(nd)))
    F = []    # (kind, exact comps, field, raw, kinds of derivative used)
    for k, ls in case['leaves']:
        es, fs = zip(*[_mk(x, nd) for x in ls])
        if k == 's':
            f = fc('scalar', fs[0])
        elif k == 'v':
            f = fc('vector', list(fs))
        else:
            f = fc('tensor', [list(fs[3 * i:3 * i + 3]) for i in range(3)])
        F.append([k, list(es), f, True, 0])
    used = []
    X = lambda i: i + 1

    for op, a, b, num in case['prog']:
        def pick(kind, i, raw=False):
            c = [j for j, f in enumerate(F) if (f[0] in kind) and (f[3] or not raw)]
            return F[c[i % len(c)]] if c else None
        if op in ('neg', 'nmul', 'rmul'):
            A = pick('sv' if nd == 2 or op != 'neg' else 'svt', a)
            k, es, f, _, w = A
            if op == 'neg':
                r = [k, [Add([(-1., e)]) for e in es], -f, False, w]
            else:
                r = [k, [Add([(num, e)]) for e in es], f * num if op == 'nmul' else num * f, False, w]
        elif op in ('add', 'sub'):
            A = pick('sv' if nd == 2 else 'svt', a)
            B = pick(A[0], b)
            s = 1. if op == 'add' else -1.
            r = [A[0], [Add([(1., e), (s, g)]) for e, g in zip(A[1], B[1])], A[2] + B[2] if s > 0 else A[2] - B[2],
                 False, max(A[4], B[4])]
        elif op in ('smul', 'vmul'):
            A, B = pick('s', a), pick('v', b)
            r = ['v', [Mul(A[1][0], e) for e in B[1]], A[2] * B[2] if op == 'smul' else B[2] * A[2], False,
                 max(A[4], B[4])]
        elif op == 'cross':
            A, B = pick('v' if nd == 3 else 's', a), pick('v', b)
            u, v = A[1], B[1]
            if nd == 3:
                es = [Add([(1., Mul(u[1], v[2])), (-1., Mul(u[2], v[1]))]),
                      Add([(1., Mul(u[2], v[0])), (-1., Mul(u[0], v[2]))]),
                      Add([(1., Mul(u[0], v[1])), (-1., Mul(u[1], v[0]))])]
            else:
                es = [Add([(-1., Mul(u[0], v[1]))]), Mul(u[0], v[0])]
            r = ['v', es, A[2].do.cross_product(B[2]), False, max(A[4], B[4])]
        elif op in ('dot', 'sdot'):
            k = 'v' if op == 'dot' else 's'
            A, B = pick(k, a), pick(k, b)
            r = ['s', [Add([(1., Mul(e, g)) for e, g in zip(A[1], B[1])])], A[2].do.inner_product(B[2]), False,
                 max(A[4], B[4])]
        elif op == 'grad':
            A = pick('s' if nd == 2 else 'sv', a, raw=True)
            u = A[1]
            if A[0] == 's':
                r = ['v', [u[0].d(X(i)) for i in range(nd)], getattr(A[2].numerical, 'gradient' if nd == 3 else 'grad'), False, 1]
            else:
                r = ['t', [u[i].d(X(j)) for i in range(3) for j in range(3)], getattr(A[2].numerical, 'gradient' if nd == 3 else 'grad'), False, 1]
        elif op == 'curl':
            A = pick('v' if nd == 3 else 's', a, raw=True)
            u = A[1]
            if nd == 3:
                es = [Add([(1., u[2].d(2)), (-1., u[1].d(3))]), Add([(1., u[0].d(3)), (-1., u[2].d(1))]),
                      Add([(1., u[1].d(1)), (-1., u[0].d(2))])]
            else:
                es = [u[0].d(2), Add([(-1., u[0].d(1))])]
            r = ['v', es, A[2].numerical.curl, False, 1]
        elif op == 'rot':
            A = pick('v', a, raw=True)
            u = A[1]
            r = ['s', [Add([(1., u[1].d(1)), (-1., u[0].d(2))])], A[2].numerical.rot, False, 1]
        elif op == 'div':
            A = pick('v', a, raw=True)
            N = A[2].numerical
            r = ['s', [Add([(1., e.d(X(i))) for i, e in enumerate(A[1])])], N.divergence if nd == 3 else N.div,
                 False, 1]
        elif op == 'tdiv':
            A = pick('t', a, raw=True)
            if A is None:
                continue
            r = ['v', [Add([(1., A[1][3 * i + j].d(X(j))) for j in range(3)]) for i in range(3)],
                 A[2].numerical.divergence, False, 1]
        else:
            A = pick('sv' if nd == 2 else 'svt', a, raw=True)
            r = [A[0], [e.d(0) for e in A[1]], A[2].numerical.time_derivative, False, 1]
        used.append(op)
        F.append(r)
    for o in used:
        tag(o)
    geo = ref.Geo(M)
    g = [np.asarray(x, dtype=float) for x in case['g']]
    G = np.meshgrid(*g, indexing='ij')
    if case.get('flat'):
        G = [a.ravel('F') for a in G]
    loc = [int(e) for e in M.elements]
    cur = {}
    acts = [(len(F) - 1 - (i % len(F)), t, how, rv) for i, t, how, rv in case['hist']]
    # every field is seen at least once
    acts += [(i, case['hist'][i % len(case['hist'])][1], 'all', False) for i in range(len(F))]
    for i, t, how, rv in acts:
        k, es, f, _, w = F[i]
        if how == 'cur' and i in cur:
            t = cur[i]
            x, v = f.reconstruct(*G, ravel=rv)
            want = loc
        elif how == 'one':
            want = loc[:1]
            if not want:
                f.current_time = t
                cur[i] = t
                continue
            x, v = f.reconstruct(*G, time=t, i=want[0], ravel=rv)
            cur[i] = t
        else:
            f.current_time = t
            x, v = f.do.reconstruct(*G, ravel=rv)
            want = loc
            cur[i] = t
        ensure(sorted(int(e) for e in x) == sorted(want), 'elements of a field reconstruction: %s, expected %s'
               % (sorted(x), want))
        for e in want:
            xx, J = geo.ev(e, g)
            X_ = [np.array(a) for a in x[e]]
            V_ = [np.array(a) for a in (v[e] if k != 't' else [c for row in v[e] for c in row])]
            if rv:
                for a in X_ + V_:
                    ensure(a.ndim == 1, 'ravel=True gives %d-d arrays' % a.ndim)
            else:
                for a in X_ + V_:
                    ensure(a.shape == G[0].shape, 'shape of the reconstruction %s, grid %s' % (a.shape, G[0].shape))
                X_ = [a.ravel('F') for a in X_]
                V_ = [a.ravel('F') for a in V_]
            for a in range(nd):
                close(X_[a], xx[a], 'points of the reconstruction, axis %d' % a, rtol=1e-9, atol=1e-9)
            ensure(len(V_) == len(es), 'number of components: %d, expected %d' % (len(V_), len(es)))
            for j, ex in enumerate(es):
                r = ex(t, *X_)
                s = max(1., float(np.max(np.abs(r))))
                close(V_[j], r, '%s field built by %s, component %d at t=%s' % (k, used, j, t),
                      rtol=3e-6 if w else 1e-10, atol=(3e-5 * s if w else 1e-10 * s))
    nontrivial(len(used) >= 1)


facet(P, 'calc3', g3, np={1: 6, 2: 2}, quick={1: 60, 2: 12}, cost=0.08)(calc)
facet(P, 'calc2', g2, np={1: 6, 2: 2, 3: 1}, quick={1: 60, 2: 12}, cost=0.06)(calc)


# ------------------------------------------------------------------------------------------------ valid time
def gt(draw, st):
    d = draw(st.sampled_from([2, 3]))
    return {'d': d, 'kind': draw(st.sampled_from(['s', 'v'])), 'vt': draw(st.sampled_from([None, 0.5, 1, 'first'])),
            'op': draw(st.sampled_from(['none', 'neg', 'mul', 'dt', 'add'])), 'leaf': [_leaf(draw, st, d) for _ in range(3)],
            'ts': [draw(st.sampled_from([0., 0.5, 1, 1.0, 2.])) for _ in range(draw(st.integers(1, 5)))],
            'how': [draw(st.integers(0, 2)) for _ in range(5)]}


@facet(P, 'time', gt, quick={1: 80}, cost=0.03)
def time_(case):
    import numpy as np
    import bld
    import ref
    nd = case['d']
    M = bld.mk_mesh({'d': nd, 'id': 'crazy', 'kw': {'c': 0.}, 'lay': [1] * nd})
    fc = bld.mk_fc(M, bld.mk_space(_sp(nd)))
    vt = case['vt']
    VT = 'valid_only_at_its_first_instant' if vt == 'first' else vt
    n = 1 if case['kind'] == 's' else nd
    es, fs = zip(*[_mk(x, nd) for x in case['leaf'][:n]])
    f = fc('scalar', fs[0], valid_time=VT) if n == 1 else fc('vector', list(fs), valid_time=VT)
    es = list(es)
    op = case['op']
    if op == 'neg':
        f, es = -f, [Add([(-1., e)]) for e in es]
    elif op == 'mul':
        f, es = 2.5 * f, [Add([(2.5, e)]) for e in es]
    elif op == 'dt':
        f, es = f.numerical.time_derivative, [e.d(0) for e in es]
    elif op == 'add':
        f, es = f + f, [Add([(2., e)]) for e in es]
    ensure(f.valid_time == VT, 'valid time of a derived field (%s): %s, expected %s' % (op, f.valid_time, VT))
    first = None
    for t, h in zip(case['ts'], case['how']):
        ok = VT is None or (vt != 'first' and t == VT) or (vt == 'first' and first in (None, t))
        g = [np.array([-0.5, 0.25])] * nd
        try:
            if h == 0:
                f.current_time = t
            elif h == 1:
                f.do.evaluate_func_at_time(t)
            else:
                f.reconstruct(*g, time=t)
            done = True
        except Exception as ex:
            done = False
            if ok:
                raise
        ensure(done == ok, 'valid_time=%s, times %s: setting time %s %s' % (VT, case['ts'], t,
               'was accepted' if done else 'was refused'))
        if ok:
            if first is None:
                first = t
            ensure(f.current_time == t, 'current time %s after setting %s' % (f.current_time, t))
            fu = f.do.evaluate_func_at_time()
            x = [np.array([0.125, -0.5, 0.75])] * nd
            for a, e in zip(fu, es):
                close(np.asarray(a(*x)) + 0 * x[0], e(t, *x), 'function at time %s' % t, rtol=1e-5 if op == 'dt' else 1e-10,
                      atol=1e-4 if op == 'dt' else 1e-9)
    nontrivial(len(case['ts']) > 1 or op != 'none')


# ------------------------------------------------------------------------------------------------ trace components
def gtc(draw, st):
    m = gens.mesh3(draw, st, ids=['crazy', 'crazy', 'bridge_arch_cracked', 'cuboid', 'ct', 'LDC'], nmax=2, max_elements=6)
    return {'m': m, 'w': [_leaf(draw, st, 3) for _ in range(3)], 'g': [gens.points(draw, st) for _ in range(3)],
            'what': draw(st.lists(st.sampled_from(['norm', 'T_para', 'T_perp', 'flux']), min_size=1, max_size=3)),
            't': [gens.dyadic(draw, st, -1, 2, 4) for _ in range(3)], 'where': draw(st.sampled_from(['all', 'bd'])),
            'rv': draw(st.booleans()), 'fr': draw(st.sampled_from(['mesh-boundary', 'all']))}


def _trace_geo(M, geo, i, g):
    """points (like the library: 3-d arrays), unit normal"""
    from props import P12
    te = M.trace.elements[i]
    e, s = int(te.CHARACTERISTIC_element), te.CHARACTERISTIC_side
    gg, a = P12.side_grids(s, g)
    x, J = geo.ev(e, gg)
    return x, P12.surf(J, a)[1], te


@facet(P, 'comp', gtc, np={1: 5, 2: 2, 3: 1}, quick={1: 25, 2: 6}, cost=0.12)
def comp(case):
    import numpy as np
    import bld
    import ref
    M = bld.mk_mesh(case['m'])
    fc = bld.mk_fc(M, bld.mk_space(_sp(3)))
    es, fs = zip(*[_mk(x, 3) for x in case['w']])
    V = fc('vector', list(fs))
    V.current_time = case['t'][2]
    g = [np.asarray(x, dtype=float) for x in case['g']]
    geo = ref.Geo(M)
    objs = []
    RTE = M.boundaries.range_of_trace_elements
    onb = sorted(set(int(i) for bn in M.boundaries.names for i in RTE[bn]))
    allte = sorted(int(i) for i in M.trace.elements)
    for w in case['what']:
        if w == 'flux':
            V.___flux_range___ = case['fr']
            objs.append((w, V.flux))
        else:
            objs.append((w, getattr(V.components, w)))
    for t in case['t'][:2]:
        for w, f in objs:
            f.current_time = t
            ensure(f.ftype == 'trace-element-wise', 'type of the %s: %s' % (w, f.ftype))
            base = onb if (w == 'flux' and case['fr'] == 'mesh-boundary') else allte
            want = base if case['where'] == 'all' else [i for i in base if i in onb]
            cmb = f.covered_mesh_boundaries
            ensure(sorted(cmb) == sorted(M.boundaries.names), 'covered boundaries of the %s: %s, all: %s'
                   % (w, cmb, M.boundaries.names))
            x, v = f.reconstruct(*g, i=None if case['where'] == 'all' else 'on_mesh_boundaries', ravel=case['rv'])
            ensure(sorted(int(i) for i in x) == want and sorted(int(i) for i in v) == want,
                   'trace elements of the %s: %s, expected %s' % (w, sorted(x), want))
            for i in want:
                xx, n, te = _trace_geo(M, geo, i, g)
                W = np.array([e(t, *xx) for e in es])
                wn = (W * n).sum(axis=0)
                if w == 'norm':
                    R = wn * n
                elif w == 'flux':
                    R = [wn]
                elif w == 'T_perp':
                    R = np.cross(W, n, axis=0)
                else:
                    R = W - wn * n
                got = list(v[i])
                ensure(len(got) == len(R), 'components of the %s: %d' % (w, len(got)))
                s = max(1., float(np.abs(W).max()))
                tol = 1e-5 if case['m']['id'] in ('ct', 'psc', 'LDC', 'bridge_arch_cracked', 'pwc') else 1e-8
                for a in range(3):
                    close(np.asarray(x[i][a]).ravel('F'), np.asarray(xx[a]).ravel('F'), 'points of the %s' % w,
                          rtol=1e-9, atol=1e-9)
                for a, r in enumerate(R):
                    close(np.asarray(got[a]).ravel('F'), np.asarray(r).ravel('F'),
                          '%s, component %d, on a trace element at t=%s' % (w, a, t), rtol=tol, atol=tol * s)
        ensure(V.current_time == case['t'][2], 'evaluating a component changed the time of the vector')
    nontrivial(M.elements.global_num >= 2 or len(objs) > 1)


# ------------------------------------------------------------------------------------------------ boundary-wise
def gb(draw, st):
    d = draw(st.sampled_from([2, 3, 3]))
    m = gens.mesh3(draw, st, nmax=2, max_elements=6) if d == 3 else gens.mesh2(draw, st, nmax=3, max_elements=9, smooth_only=True)
    return {'d': d, 'm': m, 'sel': [draw(st.booleans()) for _ in range(12)], 'kind': draw(st.sampled_from('sv')),
            'f': [[_leaf(draw, st, d) for _ in range(d)] for _ in range(4)],
            'g': [gens.points(draw, st) for _ in range(d)], 't': [gens.dyadic(draw, st, -1, 2, 4) for _ in range(2)],
            'rv': draw(st.booleans()), 'cmp': draw(st.sampled_from(['none', 'T_para', 'T_perp'])),
            'bd': draw(st.booleans())}


@facet(P, 'bw', gb, np={1: 5, 2: 2, 3: 1}, quick={1: 50, 2: 12}, cost=0.06)
def bw(case):
    import numpy as np
    import bld
    import ref
    from kit import reject
    nd = case['d']
    M = bld.mk_mesh(case['m'])
    fc = bld.mk_fc(M, bld.mk_space(_sp(nd)))
    names = sorted(M.boundaries.names)
    sel = [bn for i, bn in enumerate(names) if case['sel'][i % 12]]
    if not sel:
        reject()
    n = 1 if case['kind'] == 's' else nd
    if nd == 2 and n == 1:
        n = 2         # boundary-wise scalars are not reconstructed in 2-d
    ex, fu = {}, {}
    for i, bn in enumerate(sel):
        E, Fs = [], []
        for lf in case['f'][i % 4][:n]:
            if lf['how'] == 'num':
                v = lf['num']
                e, f = Leaf([(v, [0] * (nd + 1))], []), v
            else:
                e, f = _mk(lf, nd)
            E.append(e)
            Fs.append(f)
        ex[bn] = E
        fu[bn] = Fs[0] if n == 1 else Fs
    keep = dict((bn, list(v) if isinstance(v, list) else v) for bn, v in fu.items())
    f = fc('scalar' if n == 1 else 'vector', fu)
    ensure(f.ftype == 'boundary-wise', 'type of a field given by boundaries: %s' % f.ftype)
    ensure(all((fu[bn] == keep[bn]) for bn in keep) and set(fu) == set(keep), 'the dictionary of functions given to a '
           'boundary-wise field was changed')
    ensure(sorted(f.covered_mesh_boundaries) == sorted(sel), 'covered boundaries %s, given %s'
           % (f.covered_mesh_boundaries, sel))
    cmp_ = 'none'
    if nd == 3 and n == 3 and case['cmp'] != 'none' and case['m']['id'] in FLAT:
        flat = [M.boundaries[bn].coordinate_transformation.constant.outward_unit_normal_vector is not None for bn in sel]
        if all(flat):
            cmp_ = case['cmp']
            f = getattr(f.components, cmp_)
    tag(cmp_)
    geo = ref.Geo(M)
    g = [np.asarray(x, dtype=float) for x in case['g']]
    RTE = M.boundaries.range_of_trace_elements
    want = sorted(int(i) for bn in sel for i in RTE[bn])
    for t in case['t']:
        f.current_time = t
        x, v = f.reconstruct(*g, i='on_mesh_boundaries' if case['bd'] else None, ravel=case['rv'])
        ensure(sorted(int(i) for i in x) == want, 'trace elements of a boundary-wise field: %s, expected %s'
               % (sorted(x), want))
        for bn in sel:
            for i in RTE[bn]:
                if nd == 3:
                    xx, nv, te = _trace_geo(M, geo, i, g)
                else:
                    te = M.trace.elements[i]
                    e, s = int(te.CHARACTERISTIC_element), 'UDLR'.index(te.CHARACTERISTIC_edge)
                    gg = list(g)
                    gg[s // 2] = np.array([1. if s % 2 else -1.])
                    xx, J = geo.ev(e, gg)
                    xx = [q.ravel('F') for q in xx]
                W = np.array([e(t, *xx) for e in ex[bn]])
                if cmp_ != 'none':
                    if te.CHARACTERISTIC_side in 'NWB':
                        nv = -nv
                    W = np.cross(W, nv, axis=0)
                    if cmp_ == 'T_para':
                        W = np.cross(nv, W, axis=0)
                for a in range(nd):
                    close(np.asarray(x[i][a]).ravel('F'), np.asarray(xx[a]).ravel('F'),
                          'points of a boundary-wise field on %s' % bn, rtol=1e-9, atol=1e-9)
                for a in range(n):
                    close(np.asarray(v[i][a]).ravel('F'), np.asarray(W[a]).ravel('F'),
                          'boundary-wise field (%s) on %s, component %d' % (cmp_, bn, a), rtol=1e-8, atol=1e-8)
    nontrivial(len(sel) >= 2 or M.elements.global_num >= 2)


# ------------------------------------------------------------------------------------------------ integrals
def gi(draw, st):
    d = draw(st.sampled_from([2, 3]))
    m = gens.mesh3(draw, st, nmax=2, max_elements=4, cmax=0.0625) if d == 3 else \
        gens.mesh2(draw, st, nmax=2, max_elements=6, smooth_only=True)
    return {'d': d, 'm': m, 'w': [_leaf(draw, st, d) for _ in range(d)], 'kind': draw(st.sampled_from('sv')),
            'n': draw(st.sampled_from([1, 2, 4])), 'q': draw(st.sampled_from([None, 9, 11])), 't': [gens.dyadic(draw, st, -1, 2, 4) for _ in range(2)],
            'sp': gens.space(draw, st, d, 3, 5), 'k': draw(st.integers(1, 2)), 'hyb': draw(st.booleans())}


@facet(P, 'norm', gi, np={1: 4, 2: 2}, quick={1: 50, 2: 12}, cost=0.08)
def norm(case):
    import numpy as np
    import bld
    import ref
    import fm
    nd = case['d']
    M = bld.mk_mesh(case['m'])
    fc = bld.mk_fc(M, bld.mk_space(case['sp']))
    sc = case['kind'] == 's'
    n = case['n'] if sc else {1: 2}.get(case['n'], case['n'])
    es, fs = zip(*[_mk(x, nd) for x in case['w'][:1 if sc else nd]])
    f = fc('scalar', fs[0]) if sc else fc('vector', list(fs))
    geo = ref.Geo(M)
    q = case['q']

    def integ(t, nq):
        gx, gw = ref.gauss(nq)
        tot = 0.
        for e in M.elements:
            x, J = geo.ev(int(e), [gx] * nd)
            w = ref.tgauss(nq, nd)[1]
            tot += float((sum(e_(t, *x) ** n for e_ in es) * w * np.abs(ref.det(J))).sum())
        return fm.allsum(tot)
    for t in case['t']:
        f.current_time = t
        r = f.do.compute_Ln_norm(n=n) if q is None else f.do.compute_Ln_norm(n=n, quad_degree=(q,) * nd)
        nq = (6 if nd == 3 else 8) if q is None else q + 1
        a, b = integ(t, nq), integ(t, nq - 2)
        qe = 20 * abs(a - b)
        ensure(isinstance(r, (float, np.floating)), 'norm is a %s' % type(r))
        gclose(float(r) ** n, a, 'L%d norm (to the power) of a %s' % (n, 'scalar' if sc else 'vector'), rtol=1e-6,
               atol=1e-6 * max(1., abs(a)) + qe)
    nontrivial(M.elements.global_num >= 2 or n > 1)


def gip(draw, st):
    c = gi(draw, st)
    c['d'] = 3
    c['m'] = gens.mesh3(draw, st, nmax=2, max_elements=4, cmax=0.0625)
    c['sp'] = gens.space(draw, st, 3, 3, 5)
    c['w'] = [_leaf(draw, st, 3) for _ in range(3)]
    return c


@facet(P, 'inner', gip, np={1: 4, 2: 2}, quick={1: 24, 2: 8}, cost=0.12)
def inner(case):
    import numpy as np
    import bld
    import ref
    import fm
    M, S, fc, nodes = fm.setup(dict(case, edm=None))
    k = case['k']
    form = fm.form(fc, 3, k, '', case['hyb'])
    es, fs = zip(*[_mk(x, 3) for x in case['w']])
    V = fc('vector', list(fs))
    geo = ref.Geo(M)
    nq = max(len(x) for x in nodes) + 9
    V.current_time = case['t'][0]
    col = V.do.inner_product_with_space_of(form, quad_degree=(nq - 1,) * 3)
    for t in case['t']:
        V.current_time = t
        for e in M.elements:
            got = col[e].toarray().ravel()

            def val(nq):
                gx, gw = ref.gauss(nq)
                bas, J = ref.pushed_basis(geo, int(e), nodes, k, '', [gx] * 3)
                x = geo.ev(int(e), [gx] * 3)[0]
                w = ref.tgauss(nq, 3)[1] * np.abs(ref.det(J))
                return sum(bas[a] @ (es[a](t, *x) * w) for a in range(3))
            a, b = val(nq), val(nq - 3)
            close(got, a, 'inner product of a vector with the basis of a %d-form' % k,
                  rtol=1e-6, atol=fm.tol(case['m'], 1e-8, 2e-5) * max(1., float(np.abs(a).max())) +
                  20 * float(np.abs(a - b).max()))
    nontrivial(M.elements.global_num >= 2)
