# -*- coding: utf-8 -*-
"""P09: reduction (discretize) and reconstruction of standard forms."""
from kit import facet, ensure, close, gclose, nontrivial, tag
import gens

RULE = ('case = structured mesh, space, form degree/orientation, hybrid flag, field or cochain, evaluation grid; '
        'non-trivial: some degree above 1 or at least 2 elements')
P = 'P09'


def _base(draw, st, small, smooth):
    nd = draw(st.sampled_from([2, 3]))
    if nd == 3:
        m = gens.mesh3(draw, st, nmax=2 if small else 3, max_elements=4 if small else 8)
        sp = gens.space(draw, st, 3, 3, 6)
    else:
        m = gens.mesh2(draw, st, nmax=3, max_elements=9, smooth_only=smooth)
        sp = gens.space(draw, st, 2, 4, 6)
    return nd, {'m': m, 'sp': sp, 'k': draw(st.integers(0, nd)), 'kind': draw(st.sampled_from(['inner', 'outer'])),
                'hyb': draw(st.booleans()), 'edm': draw(st.sampled_from([None, None, 'chaotic']))}


def _field(draw, st, nd):
    return ['smooth', gens.smooth(draw, st, nd), draw(st.sampled_from([0., 1., -0.5]))]


def gr(draw, st):
    nd, c = _base(draw, st, True, True)
    nc = 1 if c['k'] in (0, nd) else nd
    c['u'] = [_field(draw, st, nd) for _ in range(nc)]
    c['v'] = [_field(draw, st, nd) for _ in range(nc)]
    c['t'] = [gens.dyadic(draw, st, -1, 2, 4) for _ in range(2)]
    return c


AFF3 = ['crazy', 'cuboid', 'cuboid_periodic', 'crazy_periodic']
AFF2 = ['crazy', 'rectangle', 'rectangle_periodic']


def gp(draw, st):
    nd = draw(st.sampled_from([2, 3]))
    if nd == 3:
        m = gens.mesh3(draw, st, ids=AFF3, nmax=2, max_elements=8, cmax=0.)
        sp = gens.space(draw, st, 3, 4, 8)
    else:
        m = gens.mesh2(draw, st, ids=AFF2, nmax=3, max_elements=12)
        if m['id'].startswith('crazy'):
            m['kw']['c'] = 0.
        sp = gens.space(draw, st, 2, 5, 8)
    k = draw(st.integers(0, nd))
    kind = draw(st.sampled_from(['inner', 'outer']))
    p = [b[1] if b[0] == 'Lobatto' else len(b[1]) - 1 for b in sp]
    import topo_lite
    u = []
    for fl in topo_lite.flags(nd, k, kind):
        u.append(['poly', gens.poly(draw, st, nd, [p[i] if fl[i] else p[i] - 1 for i in range(nd)])])
    return {'m': m, 'sp': sp, 'k': k, 'kind': kind, 'hyb': draw(st.booleans()), 'u': u,
            'g': [gens.points(draw, st) for _ in range(nd)], 'edm': None}


def gc(draw, st):
    nd, c = _base(draw, st, False, False)
    c['g'] = [gens.points(draw, st) for _ in range(nd)]
    c['seed'] = draw(st.integers(0, 60))
    c['pick'] = draw(st.integers(0, 1000))
    c['rev'] = draw(st.booleans())
    return c


@facet(P, 'reduce', gr, np={1: 1, 2: 1}, quick={1: 40, 2: 20}, cost=0.45)
def reduce_(case):
    """discretize = integrals over the dof carriers, at the current time and for the current field"""
    import numpy as np
    import fm
    import ref
    M, S, fc, nodes = fm.setup(case)
    nd = M.ndim
    k, kind = case['k'], case['kind']
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('%dd k=%d %s %s' % (nd, k, kind if nd == 2 else '', case['m']['id']))
    geo = ref.Geo(M)
    f = fm.form(fc, nd, k, kind, case['hyb'])
    q = [max(9, 20 - 2 * (len(n) - 1)) if nd == 3 else max(12, 22 - 2 * (len(n) - 1)) for n in nodes]
    kw = {} if k == 0 else {'quad_degree': q}
    steps = [('u', case['t'][0]), ('u', case['t'][1]), ('v', case['t'][1])]
    prev = None
    cur = None
    for w, t in steps:
        u = [fm.func(s) for s in case[w]]
        if cur != w:
            f.CF = fm.field(fc, nd, u)
            cur = w
        f.CF.current_time = t
        old = None if f.cochain.local is None else dict((e, np.array(f.cochain.local[e])) for e in M.elements)
        r = f.discretize(update_cochain=False, **kw)
        ensure(r[0] == 'locally full local cochain', 'kind of cochain returned: %r' % (r[0],))
        if old is None:
            ensure(f.cochain.local is None, 'discretize(update_cochain=False) set the cochain')
        else:
            for e in M.elements:
                close(f.cochain.local[e], old[e], 'cochain after discretize(update_cochain=False)', 0, 0)
        f.discretize(**kw)
        ensure(set(int(_) for _ in f.cochain.local) == set(int(_) for _ in M.elements), 'elements with a cochain')
        for e in M.elements:
            R = ref.reduce(geo, e, nodes, k, kind, fm.at(u, t), 17 if nd == 3 else 20)
            close(f.cochain.local[e], R, 'cochain of element %d at t=%s' % (e, t), rtol=0,
                  atol=fm.tol(case['m'], 1e-7, 2e-5) * max(1., float(np.max(np.abs(R)))))
            close(r[1][e], f.cochain.local[e], 'returned cochain', rtol=1e-13, atol=1e-13)


@facet(P, 'exact', gp, np={1: 1}, quick={1: 60}, cost=0.25)
def exact(case):
    """default quadrature: reconstructing a reduced member of the discrete space returns the field"""
    import numpy as np
    import fm
    import ref
    M, S, fc, nodes = fm.setup(case)
    nd = M.ndim
    k, kind = case['k'], case['kind']
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('%dd k=%d %s' % (nd, k, kind if nd == 2 else ''))
    u = [fm.func(s) for s in case['u']]
    f = fm.form(fc, nd, k, kind, case['hyb'])
    f.CF = fm.field(fc, nd, u)
    f.CF.current_time = 0.5
    f.discretize()
    xyz, v = f.reconstruct(*[np.array(g) for g in case['g']], ravel=True)
    for e in M.elements:
        X = [np.asarray(x) for x in xyz[e]]
        for c in range(len(u)):
            w = u[c](0.5, *X) + 0 * X[0]
            close(v[e][c], w, 'component %d of the reconstructed reduction in element %d' % (c, e), rtol=0,
                  atol=1e-10 * max(1., float(np.max(np.abs(w))), float(np.max(np.abs(f.cochain.local[e])))) *
                  10 ** (1 + max(len(n) for n in nodes) // 3))


@facet(P, 'recon', gc, np={1: 1, 3: 1}, quick={1: 50, 3: 40}, cost=0.3)
def recon(case):
    """reconstruction of an arbitrary cochain, in all its interfaces"""
    import numpy as np
    import fm
    import ref
    M, S, fc, nodes = fm.setup(case)
    nd = M.ndim
    k, kind = case['k'], case['kind']
    m = case['m']
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('%dd k=%d %s %s' % (nd, k, kind if nd == 2 else '', m['id']))
    f = fm.form(fc, nd, k, kind, case['hyb'])
    co = fm.rand_cochain(f, case['seed'])
    if case['rev']:
        f.cochain.local = dict((e, co[e]) for e in reversed(list(co)))
    g = [np.array(x) for x in case['g']]
    shape = [len(x) for x in g]
    geo = ref.Geo(M)
    kinky = m['id'] == 'bcr' and 'wave' not in m['kw']
    exp = {}
    for e in M.elements:
        if kinky:
            # not smooth enough for the spectral oracle: use the library's own Jacobian (decided in P05)
            ct = M.elements[e].coordinate_transformation
            X = ref.tensor(g)
            J = np.array([[np.asarray(a) + 0 * X[0] for a in row] for row in ct.Jacobian_matrix(*X)])
            x = np.array([np.asarray(a) for a in ct.mapping(*X)])
            B = ref.basis(nd, nodes, k, kind, g)
            s, comps = 0, []
            for b in B:
                comps.append(co[e][s:s + b.shape[0]] @ b)
                s += b.shape[0]
            exp[e] = x, ref.push(nd, k, kind, comps, J)
        else:
            exp[e] = ref.reconstruct(geo, e, nodes, k, kind, co[e], g)
    sc = max([1.] + [float(np.max(np.abs(np.array(exp[e][1])))) for e in exp])
    at = fm.tol(m, 1e-8, 2e-5) * sc

    def cmp(xyz, v, els, ravel, what):
        ensure(set(int(_) for _ in v) == set(int(_) for _ in els), '%s: elements %s, expected %s' % (
            what, sorted(v), sorted(els)))
        for e in els:
            x, w = exp[e]
            for c in range(nd):
                y = np.asarray(xyz[e][c])
                ensure(list(y.shape) == ([y.size] if ravel else shape), '%s: shape of the coordinates' % what)
                close(y.ravel('F'), x[c], '%s: coordinates of element %d' % (what, e), 1e-9, 1e-9)
            ensure(len(v[e]) == len(w), '%s: number of components' % what)
            for c in range(len(w)):
                y = np.asarray(v[e][c])
                ensure(list(y.shape) == ([y.size] if ravel else shape), '%s: shape of the values' % what)
                close(y.ravel('F'), w[c], '%s: component %d in element %d' % (what, c, e), 0, at)

    all_ = [int(_) for _ in M.elements]
    cmp(*f.reconstruct(*g), els=all_, ravel=False, what='reconstruct')
    cmp(*f.reconstruct(*g, ravel=True), els=all_, ravel=True, what='reconstruct(ravel)')
    # the dict may be evaluated for one element only; all ranks call it with an element they own
    if all_:
        e0 = all_[case['pick'] % len(all_)]
        er = dict(element_range=e0)
    else:
        er = dict()
        e0 = None
    out = f.reconstruct(*g, ravel=True, **er)
    cmp(*out, els=[e0] if all_ else [], ravel=True, what='reconstruct(element_range)')
    if nd == 3:
        rn = M.domain.regions.names
        r0 = rn[case['pick'] % len(rn)]
        mine = [e for e in all_ if M.elements[e].in_region == r0]
        for arg, els in ((r0, mine), ([r0], mine), ('all', all_)):
            cmp(*f.reconstruct(*g, regions=arg), els=els, ravel=False, what='reconstruct(regions=%s)' % (arg,))
    if nd == 2 or k in (0, 3):
        V = f.reconstruct(*g, ravel=True, vectorized=True, value_only=True)
        if not all_:
            ensure(V[0] is None, 'vectorized reconstruction on a rank without elements')
        else:
            for i, e in enumerate(all_):
                for c in range(len(exp[e][1])):
                    close(V[c][i], exp[e][1][c], 'vectorized reconstruction, component %d of element %d' % (c, e), 0, at)
    for rng in (None, 'mesh boundary'):
        RM = f.do.make_reconstruction_matrix_on_grid(*g, element_range=rng)
        els = all_ if rng is None else [e for e in all_ if any(isinstance(t, str) for t in M.elements.map[e])]
        ensure(set(int(_) for _ in RM) == set(els), 'elements of the reconstruction matrices (%s)' % rng)
        for e in els:
            R = RM[e] if isinstance(RM[e], (tuple, list)) else [RM[e]]
            ensure(len(R) == len(exp[e][1]), 'number of reconstruction matrices')
            for c, A in enumerate(R):
                close(np.asarray(A @ co[e]).ravel(), exp[e][1][c], 'reconstruction matrix, component %d of element %d'
                      % (c, e), 0, at)
    for e in all_:
        close(f.cochain.local[e], co[e], 'cochain after reconstruction', 0, 0)
