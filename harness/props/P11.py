# -*- coding: utf-8 -*-
"""P11: algebra, cochain views, energies, norms and errors of standard forms."""
from kit import facet, ensure, close, gclose, nontrivial, tag
import gens

RULE = ('case = structured mesh, space(s), form degree/orientation, cochains, algebra program or norm queries; '
        'non-trivial: at least 2 elements or some degree above 1')
P = 'P11'


def _base(draw, st, big=False):
    nd = draw(st.sampled_from([2, 3]))
    if nd == 3:
        m = gens.min2_periodic(gens.mesh3(draw, st, nmax=3 if big else 2, max_elements=12 if big else 4))
        sp = gens.space(draw, st, 3, 3, 6)
    else:
        m = gens.min2_periodic(gens.mesh2(draw, st, nmax=3, max_elements=12 if big else 9, smooth_only=not big))
        sp = gens.space(draw, st, 2, 4, 6)
    return nd, {'m': m, 'sp': sp, 'k': draw(st.integers(0, nd)), 'kind': draw(st.sampled_from(['inner', 'outer'])),
                'hyb': draw(st.booleans()), 'edm': draw(st.sampled_from([None, None, 'chaotic']))}


def ga(draw, st):
    nd, c = _base(draw, st, True)
    c['zero'] = draw(st.integers(0, 5))
    c['seed'] = draw(st.integers(0, 60))
    prog = []
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(['add', 'mul', 'add', 'sub', 'shadow', 'globe', 'set']))
        prog.append([op, draw(st.integers(0, 9)), draw(st.integers(0, 9)),
                     draw(st.sampled_from([2, -1, 0.5, -0.25, 0, 3.0, 1]))])
    c['prog'] = prog
    c['dof'] = [draw(st.integers(0, 10 ** 6)) for _ in range(3)]
    c['rev'] = draw(st.booleans())
    return c


def gn(draw, st):
    nd, c = _base(draw, st)
    nc = 1 if c['k'] in (0, nd) else nd
    c['so'] = gens.space(draw, st, nd, 3, 5)
    c['u'] = [['smooth', gens.smooth(draw, st, nd), draw(st.sampled_from([0., 1., -0.5]))] for _ in range(nc)]
    c['t'] = gens.dyadic(draw, st, -1, 2, 4)
    c['n'] = draw(st.integers(1, 4))
    c['q'] = [draw(st.integers(2, 5)) for _ in range(nd)]
    c['seed'] = draw(st.integers(0, 60))
    c['rev'] = draw(st.booleans())
    c['shift'] = draw(st.sampled_from([1.0, -2.5, 0.125]))
    return c


@facet(P, 'algebra', ga, np={1: 1, 3: 1}, quick={1: 60, 3: 60}, cost=0.25)
def algebra(case):
    """programs over forms against dicts of arrays; global views of the cochain"""
    import numpy as np
    import fm
    from root.config.main import COMM
    from tools.miLinearAlgebra.dataStructures.vectors.distributed.main import DistributedVector
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    M, S, fc, nodes = fm.setup(case)
    nd = M.ndim
    k, kind, hyb = case['k'], case['kind'], case['hyb']
    els = [int(_) for _ in M.elements]
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('%dd k=%d %s' % (nd, k, 'hybrid' if hyb else 'conforming'))
    f0 = fm.form(fc, nd, k, kind, hyb)
    G = f0.numbering.gathering
    N = f0.num.global_dofs
    gm = dict((e, np.array([int(_) for _ in G[e]])) for e in M.elements)

    def vals(seed):
        v = fm.hval(np.arange(N), 5, seed)
        if case['zero']:
            v[::case['zero'] + 1] = 0.
        return v
    forms, model = [], []
    for s in (0, 1):
        f = fm.form(fc, nd, k, kind, hyb) if s else f0
        v = vals(case['seed'] + s)
        L = dict((e, v[gm[e]]) for e in (reversed(els) if case['rev'] and s else els))
        f.cochain.local = L
        forms.append(f)
        model.append(v)

    def check(what):
        for i, (f, v) in enumerate(zip(forms, model)):
            if v is None:
                ensure(f.cochain.local is None, '%s: a shadow has a cochain' % what)
                continue
            ensure(set(int(_) for _ in f.cochain.local) == set(els), '%s: elements of the cochain' % what)
            for e in els:
                close(f.cochain.local[e], v[gm[e]], '%s: cochain of form %d' % (what, i), 1e-12, 1e-12)
    for op, a, b, c in case['prog']:
        ok = [i for i in range(len(forms)) if model[i] is not None]
        i, j = ok[a % len(ok)], ok[b % len(ok)]
        if op == 'sub' and nd == 2:
            op = 'add'
        if op in ('add', 'sub'):
            r = forms[i] + forms[j] if op == 'add' else forms[i] - forms[j]
            v = model[i] + model[j] if op == 'add' else model[i] - model[j]
        elif op == 'mul':
            r = c * forms[i]
            v = c * model[i]
        elif op == 'shadow':
            r = forms[i].shadow
            v = None
        elif op == 'globe':
            r = fm.form(fc, nd, k, kind, hyb)
            gl = forms[i].cochain.globe
            w = gl.do.gather_V_to_core(core=0)
            if w is not None and COMM.Get_rank() == 0:
                close(np.asarray(w).ravel(), model[i], 'globe cochain gathered', 1e-12, 1e-12)
            r.cochain.globe = gl
            v = np.array(model[i])
        else:
            # set the global cochain from a hand-made distributed or locally full vector
            r = fm.form(fc, nd, k, kind, hyb)
            v = vals(case['seed'] + 7 + a)
            if b % 2:
                r.cochain.globe = LocallyFullVector(np.array(v))
            else:
                w = np.array(v)
                rk, sz = COMM.Get_rank(), COMM.Get_size()
                w[np.arange(N) % sz != rk] = 0.
                r.cochain.globe = DistributedVector(w)
        ensure(r.__class__ is f0.__class__ and r.mesh is M and r.space is f0.space, '%s: class, mesh or space' % op)
        ensure(bool(r.whether.hybrid) == hyb, '%s: hybrid flag' % op)
        if nd == 2:
            ensure(r.orientation == f0.orientation, '%s: orientation' % op)
        forms.append(r)
        model.append(v)
        check(op)
    f, v = forms[1], model[1]
    for d in case['dof']:
        d = d % N
        close(np.array([f.cochain.dofwise[d], f.cochain.dofwise[d - N]]), np.array([v[d], v[d]]), 'cochain.dofwise[%d]' % d,
              1e-13, 1e-13)
    E = f.cochain.EWC
    for e in els:
        close(E[e].toarray().ravel(), v[gm[e]], 'cochain.EWC', 1e-13, 1e-13)
        close(f.cochain[e], v[gm[e]], 'cochain[e]', 1e-13, 1e-13)
        ensure(e in f.cochain, 'element in cochain')
    if els:
        close(f.cochain.array, np.array([v[gm[e]] for e in els]), 'cochain.array', 1e-13, 1e-13)
    if k not in (0, nd):
        nc = f.num.basis_components
        s = 0
        for ax, n in zip('xyz', nc):
            A = f.cochain.local_(ax)
            for e in els:
                close(A[e], v[gm[e]][s:s + n], 'cochain.local_(%s)' % ax, 1e-13, 1e-13)
            s += n
    # the element-wise vector follows the cochain
    f.cochain.local = dict((e, 2 * v[gm[e]]) for e in els)
    E = f.cochain.EWC
    for e in els:
        close(E[e].toarray().ravel(), 2 * v[gm[e]], 'cochain.EWC after a change', 1e-13, 1e-13)


@facet(P, 'norms', gn, np={1: 1, 3: 1}, quick={1: 32, 3: 24}, cost=0.5)
def norms(case):
    """energies, norms and errors against Gauss integrals of the reference reconstruction"""
    import numpy as np
    import bld
    import fm
    import ref
    M, S, fc, nodes = fm.setup(case)
    nd = M.ndim
    k, kind, hyb, m = case['k'], case['kind'], case['hyb'], case['m']
    els = [int(_) for _ in M.elements]
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('%dd k=%d %s n=%d' % (nd, k, m['id'], case['n']))
    f = fm.form(fc, nd, k, kind, hyb)
    S2 = bld.mk_space(case['so'])
    fo = fm.form(bld.mk_fc(M, S2), nd, k, kind, hyb)
    onodes = [ref.nodes1d(b) for b in case['so']]
    f3 = fm.form(fc, nd, k, kind, not hyb)
    co = fm.rand_cochain(f, case['seed'])
    oo = fm.rand_cochain(fo, case['seed'] + 1)
    c3 = fm.rand_cochain(f3, case['seed'] + 2)
    if case['rev']:
        f.cochain.local = dict((e, co[e]) for e in reversed(list(co)))
    geo = ref.Geo(M)
    rt = fm.tol(m, 1e-8, 2e-5)
    n = case['n']
    u = [fm.func(s) for s in case['u']]
    t = case['t']

    def rec(nn, kk, c, grids, e):
        x, v = ref.reconstruct(geo, e, nn, kk, kind, c[e], grids)
        return x, np.array(v)

    def integ(q, fun):
        """sum over all elements and ranks of the Gauss integral of fun(e, grids)"""
        G = [ref.gauss(a + 1) for a in q]
        grids = [g[0] for g in G]
        W = np.ones(1)
        for g in G:
            W = np.kron(g[1], W)
        s = 0.
        for e in els:
            _, J = geo.ev(e, grids)
            s += float(np.sum(fun(e, grids) * W * np.abs(ref.det(J))))
        return fm.allsum(s)
    q = case['q']
    p = [len(a) - 1 for a in nodes]

    def cmp(a, b, what, sc=None):
        ensure(np.isfinite(a), '%s is %r' % (what, a))
        sc = abs(b) if sc is None else sc
        ensure(abs(a - b) <= 10 * rt * max(sc, 1e-3), '%s = %r, expected %r' % (what, a, b))
    sc2 = integ(q, lambda e, g: np.sum(rec(nodes, k, co, g, e)[1] ** 2, axis=0))
    # ---- energies
    E = integ(q, lambda e, g: np.sum(rec(nodes, k, co, g, e)[1] ** n, axis=0))
    Ea = integ(q, lambda e, g: np.sum(np.abs(rec(nodes, k, co, g, e)[1]) ** n, axis=0))
    for vec in ((False, True) if nd == 2 or k in (0, 3) else (False,)):
        cmp(f.do.compute_Ln_energy(n=n, quad_degree=q, vectorized=vec), E, 'Ln energy n=%d vectorized=%s' % (n, vec), Ea)
    if n % 2 == 0:
        cmp(f.do.compute_Ln_norm(n=n, quad_degree=q), E ** (1. / n), 'Ln norm n=%d' % n)
    if k < nd:
        from props import P08
        R = P08.ref_incidence(nd, p, k, kind)
        dc = dict((e, R @ co[e]) for e in els)
        D = integ(q, lambda e, g: np.sum(rec(nodes, k + 1, dc, g, e)[1] ** 2, axis=0))
        cmp(f.do.compute_Ln_norm_of_coboundary(n=2, quad_degree=q), D ** 0.5, 'L2 norm of the coboundary')
    # ---- inner products: matrices with a high degree passed in
    hq = [max(p + [len(a) - 1 for a in onodes]) + (8 if nd == 3 else 12)] * nd
    for g_, nn, cc, nm in ((f, nodes, co, 'itself'), (fo, onodes, oo, 'a form of another space'), (f3, nodes, c3, 'another form')):
        I = integ(hq, lambda e, g: np.sum(rec(nodes, k, co, g, e)[1] * rec(nn, k, cc, g, e)[1], axis=0))
        I2 = integ([a - 2 for a in hq], lambda e, g: np.sum(rec(nodes, k, co, g, e)[1] * rec(nn, k, cc, g, e)[1], axis=0))
        Ia = integ(hq, lambda e, g: np.sum(np.abs(rec(nodes, k, co, g, e)[1] * rec(nn, k, cc, g, e)[1]), axis=0))
        sc = Ia + 20 * abs(I - I2) / rt
        Mx = f.operators.inner(g_, quad_degree=hq)
        cmp(f.do.compute_L2_energy_with(other=g_, M=Mx), I, 'L2 energy with %s' % nm, sc)
        if m['id'] in ('cuboid', 'rectangle') or m['kw'].get('c') == 0.:
            cmp(f.do.compute_L2_energy_with(other=g_), I, 'L2 energy with %s (default rule, affine mesh)' % nm, sc)
            if g_ is f:
                cmp(f.do.compute_L2_energy_with(), I, 'L2 energy', sc)
                cmp(f.do.compute_Ln_energy(), I, 'Ln energy (defaults)', sc)
    if nd == 3:
        for g_, nn, cc in ((fo, onodes, oo), (f3, nodes, c3)):
            Dn = integ(q, lambda e, g: np.sum(np.abs(rec(nodes, k, co, g, e)[1] - rec(nn, k, cc, g, e)[1]) ** n, axis=0))
            cmp(f.do.compute_Ln_diff_from(g_, n=n, quad_degree=q), Dn ** (1. / n), 'Ln difference n=%d' % n)
    # ---- errors
    f.CF = fm.field(fc, nd, u)
    f.CF.current_time = t

    def err(e, g, nn=n):
        x, v = rec(nodes, k, co, g, e)
        return np.sum([np.abs(v[c] - u[c](t, *x)) ** nn for c in range(len(u))], axis=0)
    cmp(f.error.L(n=n, quad_degree=q), integ(q, err) ** (1. / n), 'error.L(n=%d)' % n)
    cmp(f.error.L(), integ([a + 2 for a in p], lambda e, g: err(e, g, 2)) ** 0.5, 'error.L()')
    if k < nd:
        du = fm.deriv(nd, k, kind, u)

        def derr(e, g):
            x, v = rec(nodes, k + 1, dc, g, e)
            return np.sum([np.abs(v[c] - du[c](t, *x)) ** 2 for c in range(len(du))], axis=0)
        H = (integ(q, lambda e, g: err(e, g, 2)) + integ(q, derr)) ** 0.5
        cmp(f.error.H(fm.field(fc, nd, du), quad_degree=q), H, 'error.H')
    if nd == 3:
        lin = [np.linspace(-1, 1, 25)] * 3
        best = 0.
        for e in els:
            x, v = rec(nodes, k, co, lin, e)
            best = max(best, max(float(np.max(np.abs(v[c] - u[c](t, *x)))) for c in range(len(u))))
        best = fm.allmax(best)
        inf = f.error.L(n='infinity')
        ensure(0.75 * best <= inf <= 1.1 * best + 1e-9, 'error.L(infinity) = %r, the supremum is about %r' % (inf, best))
    if k == 0:
        a = f.error.L(n=2, quad_degree=q, upon=True)
        s = case['shift']
        f.cochain.local = dict((e, co[e] + s) for e in els)
        b = f.error.L(n=2, quad_degree=q, upon=True)
        cmp(a, b, 'error.L(upon=True) after shifting the form by a constant')
        cmp(f.error.L(n=2, quad_degree=q), integ(q, lambda e, g: (rec(nodes, k, co, g, e)[1][0] + s - u[0](
            t, *rec(nodes, k, co, g, e)[0])) ** 2) ** 0.5, 'error.L after the cochain changed')
        f.discretize()
        c = f.error.L(n=2, quad_degree=q)
        f.cochain.local = dict((e, f.cochain.local[e] + s) for e in els)
        d = f.error.L(n=2, quad_degree=q, upon=True)
        vol = integ(q, lambda e, g: 1.)
        sup = max([0.] + [float(np.max(np.abs(f.cochain.local[e]))) for e in els])
        ensure(d <= c + 2 * np.sqrt(vol) * (fm.allmax(sup) + abs(s)), 'error.L(upon=True) of a shifted interpolant is %r' % d)
    else:
        ensure(f.error.L(n=2, quad_degree=q, upon=True) >= 0, 'error.L(upon=True)')
