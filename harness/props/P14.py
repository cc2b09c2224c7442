# -*- coding: utf-8 -*-
"""P14: algebraic dual forms: cochains, mass matrices, dual derivatives, boundary conditions."""
from kit import facet, ensure, close, nontrivial, tag
import gens

RULE = ('case = 3d structured mesh, space, degree, cochains/fields and a history of updates; '
        'non-trivial: at least 2 elements or some degree above 1')
P = 'P14'
SN = 'NSWEBF'
# trace mass matrices exist for these region types only
IDS = ['crazy', 'crazy', 'crazy_periodic', 'cuboid', 'cuboid', 'cuboid_periodic', 'ct', 'bridge_arch_cracked']


def _base(draw, st, ids=IDS, cmax=0.25, me=6, total=6):
    m = gens.min2_periodic(gens.mesh3(draw, st, ids=ids, nmax=2, max_elements=me, cmax=cmax))
    return {'m': m, 'sp': gens.space(draw, st, 3, 3, total), 'edm': draw(st.sampled_from([None, None, 'chaotic'])),
            'ori': draw(st.sampled_from(['inner', 'outer'])), 'seed': draw(st.integers(0, 60))}


def gc(draw, st):
    c = _base(draw, st)
    c['f'] = draw(st.sampled_from(['adf', 'adt']))
    c['k'] = draw(st.integers(0, 3 if c['f'] == 'adf' else 2))
    c['via'] = draw(st.sampled_from(['id', 'prime']))
    c['ops'] = [draw(st.sampled_from(['local', 'prime', 'lfv', 'dv', 'dvm', 'tew'])) for _ in range(draw(st.integers(2, 5)))]
    c['early'] = draw(st.booleans())
    return c


def gd(draw, st):
    c = _base(draw, st)
    c['k'] = draw(st.integers(1, 3))
    c['rep'] = draw(st.integers(1, 2))
    return c


def ge(draw, st):
    c = _base(draw, st, ids=['crazy', 'cuboid'], cmax=0.)
    c['k'] = draw(st.integers(1, 3))
    p = [b[1] if b[0] == 'Lobatto' else len(b[1]) - 1 for b in c['sp']]
    # both the polynomial and its derivative lie in the spaces
    if c['k'] == 3:
        d = [[q - 1 for q in p]]
    elif c['k'] == 2:
        d = [[p[i] if i == a else p[i] - 1 for i in range(3)] for a in range(3)]
    else:
        d = [[p[i] - 1 if i == a else p[i] for i in range(3)] for a in range(3)]
    c['u'] = [['poly', gens.poly(draw, st, 3, q)] for q in d]
    c['t'] = 0.5
    return c


def gb(draw, st):
    c = _base(draw, st, me=8, total=5)
    c['k'] = draw(st.sampled_from([0, 1, 2, 2]))
    c['pick'] = [draw(st.integers(0, 63)) for _ in range(2)]
    c['u'] = [['smooth', gens.smooth(draw, st, 3), draw(st.sampled_from([0., 1., -0.5]))] for _ in range(3)]
    c['vec'] = draw(st.booleans())
    c['bw'] = draw(st.booleans())
    c['t'] = [gens.dyadic(draw, st, -1, 2, 4) for _ in range(2)]
    c['str'] = draw(st.booleans())
    return c


def arr(A):
    import numpy as np
    return A.toarray() if hasattr(A, 'toarray') else np.asarray(A)


def std_mass(fc, M, k, ori):
    """mass matrices of an independent primal form"""
    f = fc('%d-f' % k, hybrid=True, orientation=ori)
    mm = f.matrices.mass
    return dict((e, arr(mm[e])) for e in M.elements)


def tr_mass(fc, M, k):
    """block diagonal over the six sides, from independent trace-element mass matrices"""
    from scipy.linalg import block_diag
    T = fc('%d-t' % k, hybrid=True)
    mm = T.matrices.mass_TEW
    return dict((e, block_diag(*[arr(mm[i]) for i in M.trace.elements.map[e]])) for e in M.elements)


@facet(P, 'cochain', gc, np={1: 1, 3: 1}, quick={1: 40, 3: 25}, cost=0.15)
def cochain(case):
    """dual cochain = mass matrix x primal cochain through every way of setting either"""
    import numpy as np
    import fm
    from root.config.main import COMM, RANK
    from scipy.sparse import csc_matrix
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    from tools.miLinearAlgebra.dataStructures.vectors.distributed.main import DistributedVector
    M, S, fc, nodes = fm.setup(case)
    k = case['k']
    std = case['f'] == 'adf'
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('%d-%s via %s' % (k, case['f'], case['via']))
    tag(' '.join(case['ops']))
    ori = case['ori'] if std else 'outer'
    if case['via'] == 'id':
        d = fc('%d-%s' % (k, case['f']), **({'orientation': ori} if std else {}))
        pr = d.prime
        ensure(pr.whether.hybrid, 'the primal form of a dual form is hybrid')
    else:
        pr = fc('%d-f' % k, hybrid=True, orientation=ori) if std else fc('%d-t' % k, hybrid=True)
        d = fc('%d-%s' % (k, case['f']), pr)
        ensure(d.prime is pr, 'dual form made from a primal form uses that form')
    ensure(d.k == k and d.orientation == pr.orientation and (not std or d.orientation == ori), 'degree, orientation')
    ensure(d.mesh is pr.mesh and d.space is pr.space and d.ndim == 3, 'mesh and space')
    A = std_mass(fc, M, k, ori) if std else tr_mass(fc, M, k)
    mm, im = d.mass_matrix, d.inverse_mass_matrix
    sc = max([1.] + [float(np.max(np.abs(A[e]))) for e in A])
    for e in M.elements:
        close(arr(mm[e]), A[e], 'mass_matrix of element %d' % e, 0, 1e-11 * sc)
        cond = float(np.linalg.cond(A[e]))
        close(arr(im[e]) @ A[e], np.eye(A[e].shape[0]), 'inverse_mass_matrix x mass_matrix', 0, 1e-12 * max(cond, 10))
    cnd = fm.allmax(max([1.] + [float(np.linalg.cond(A[e])) for e in A]))
    GM = pr.numbering.gathering
    N = pr.num.global_dofs
    ensure(d.num.global_dofs == N and d.num.basis == pr.num.basis, 'number of dofs')
    early = None
    if case['early'] and std:
        pr.cochain.local = dict((e, np.zeros(pr.num.basis)) for e in M.elements)
        early = d.cochain.local, d.cochain.EWC
    for s, op in enumerate(case['ops']):
        v = fm.hval(np.arange(N), 4, case['seed'] + s)
        loc = dict((e, v[np.array([int(_) for _ in GM[e]], dtype=int)]) for e in M.elements)
        at = 1e-13 * cnd * 10
        if op == 'prime' or (op == 'tew' and std):
            pr.cochain.local = dict(loc)
            dual = dict((e, A[e] @ loc[e]) for e in loc)
        elif op == 'tew':
            GT = pr.numbering.trace_element_wise
            pr.cochain.local_TEW = dict((i, v[np.array([int(_) for _ in GT[i]], dtype=int)]) for i in M.trace.elements)
            dual = dict((e, A[e] @ loc[e]) for e in loc)
        else:
            dual = loc
            if op == 'local':
                d.cochain.local = dict(loc)
            elif op == 'lfv':
                d.cochain.globe = LocallyFullVector(np.array(v))
            elif op == 'dvm':
                d.cochain.globe = DistributedVector(csc_matrix((v if RANK == 0 else 0 * v)[:, None]))
            else:
                I = np.arange(N) % COMM.Get_size() == RANK
                d.cochain.globe = DistributedVector(csc_matrix(np.where(I, v, 0.)[:, None]))
        ensure(set(int(_) for _ in d.cochain.local) == set(int(_) for _ in M.elements) and
               len(d.cochain.local) == len(M.elements), 'elements of cochain.local')
        views = [(d.cochain.local, 'cochain.local')]
        if early:
            views.append((early[0], 'cochain.local fetched before'))
        for e in M.elements:
            sc = max(1., float(np.max(np.abs(dual[e]))))
            for w, t in views:
                close(np.asarray(w[e]).ravel(), dual[e], 'dual %s after %s' % (t, op), 0, at * sc)
            close(np.asarray(pr.cochain.local[e]).ravel(), np.linalg.solve(A[e], dual[e]), 'primal cochain after %s' % op,
                  0, at * max(1., float(np.max(np.abs(pr.cochain.local[e])))))
            if std:
                close(d.cochain.EWC[e].toarray().ravel(), dual[e], 'cochain.EWC after %s' % op, 0, at * sc)
                if early:
                    close(early[1][e].toarray().ravel(), dual[e], 'cochain.EWC fetched before %s' % op, 0, at * sc)
        # pairing of a dual and a primal form = inner product of the primal forms
        w = fm.hval(np.arange(N), 9, case['seed'] + s)
        tot = 0.
        inn = 0.
        for e in M.elements:
            we = w[np.array([int(_) for _ in GM[e]], dtype=int)]
            tot += float(we @ np.asarray(d.cochain.local[e]).ravel())
            inn += float(we @ A[e] @ np.asarray(pr.cochain.local[e]).ravel())
        close(fm.allsum(tot), fm.allsum(inn), 'duality pairing', 1e-10, 1e-10)


def dual_map(fc, M, nodes, k):
    """(-1)^.. (E^T, T^T) with independent incidence and trace matrices; returns E, T, signs"""
    import numpy as np
    import topo
    from props import P08
    p = [len(n) - 1 for n in nodes]
    E = P08.ref_incidence(3, p, k - 1, '')
    E = arr(E)
    shapes = topo.comp_shapes(3, p, k - 1)
    ids, n = topo.local_ids(shapes)
    rows = []
    for s in range(6):
        I = topo.side_ids(shapes, ids, s)
        B = np.zeros((len(I), n))
        B[np.arange(len(I)), I] = -1. if s % 2 == 0 else 1.
        rows.append(B)
    T = np.vstack(rows)
    sg = (1., -1.) if k == 2 else (-1., 1.)
    return E, T, sg


@facet(P, 'derivative', gd, np={1: 1, 2: 1}, quick={1: 40, 2: 15}, cost=0.2)
def derivative(case):
    """coboundary of a dual form with a dual trace form is the transposed incidence and trace map"""
    import numpy as np
    import fm
    M, S, fc, nodes = fm.setup(case)
    k = case['k']
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('k=%d %s' % (k, case['m']['id']))
    d = fc('%d-adf' % k, orientation=case['ori'])
    t = fc('%d-adt' % (k - 1))
    E, T, sg = dual_map(fc, M, nodes, k)
    Mk = std_mass(fc, M, k, case['ori'])
    Ml = std_mass(fc, M, k - 1, case['ori'])
    MT = tr_mass(fc, M, k - 1)
    GT = t.prime.numbering.gathering
    for r in range(case['rep']):
        c = fm.rand_cochain(d.prime, case['seed'] + r)
        v = fm.hval(np.arange(t.prime.num.global_dofs), 2, case['seed'] + r)
        tl = dict((e, v[np.array([int(_) for _ in GT[e]], dtype=int)]) for e in M.elements)
        t.prime.cochain.local = dict(tl)
        o = d.coboundary(t)
        ensure(o.k == k - 1 and o.orientation == d.orientation and o.mesh is M and o.space is S, 'kind of the result')
        ensure(o.__class__.__name__ == '_3dCSCG_S%d_ADF' % (k - 1), 'class of the result')
        for e in M.elements:
            close(arr(d.coboundary.incidence_matrix[e]), E, 'coboundary.incidence_matrix', 0, 0)
            close(arr(t.coboundary.trace_matrix[e]), T, 'coboundary.trace_matrix of the dual trace', 0, 0)
            w = sg[0] * E.T @ (Mk[e] @ c[e]) + sg[1] * T.T @ (MT[e] @ tl[e])
            cond = float(np.linalg.cond(Ml[e]))
            at = 1e-13 * (cond + 10) * max(1., float(np.max(np.abs(w))))
            close(np.asarray(o.cochain.local[e]).ravel(), w, 'dual cochain of the derivative', 0, at)
            z = np.linalg.solve(Ml[e], w)
            close(o.prime.cochain.local[e], z, 'primal cochain of the derivative', 0, 1e-12 * (cond + 10) * max(1., float(np.max(np.abs(z)))))
            close(d.prime.cochain.local[e], c[e], 'operand unchanged', 0, 0)
            close(t.prime.cochain.local[e], tl[e], 'trace operand unchanged', 0, 0)


@facet(P, 'exact', ge, np={1: 1, 2: 1}, quick={1: 40, 2: 15}, cost=0.25)
def exact(case):
    """dual derivative with the exact boundary trace reproduces the derivative of polynomials in the spaces (affine elements)"""
    import numpy as np
    import fm
    import ref
    import topo
    M, S, fc, nodes = fm.setup(case)
    k = case['k']
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('k=%d %s' % (k, case['m']['id']))
    geo = ref.Geo(M)
    p = [len(n) - 1 for n in nodes]
    u = [fm.func(s) for s in case['u']]
    t0 = case['t']
    if k == 3:
        du = [u[0].d(i) for i in range(3)]                       # grad
    elif k == 2:
        du = fm.deriv(3, 1, '', u)                               # curl
    else:
        du = fm.deriv(3, 2, '', u)                               # div
    d = fc('%d-adf' % k, orientation=case['ori'])
    t = fc('%d-adt' % (k - 1))
    d.prime.cochain.local = dict((e, ref.reduce(geo, e, nodes, k, '', fm.at(u, t0), 8)) for e in M.elements)
    TE = M.trace.elements
    tew = {}
    shapes = topo.comp_shapes(3, p, k - 1)
    ids = topo.local_ids(shapes)[0]
    from props import P12
    cache = {}
    for i in TE:
        te = TE[i]
        e, s = te.CHARACTERISTIC_element, te.CHARACTERISTIC_side
        a = SN.index(s) // 2
        val = fm.at(u, t0)
        if k == 3:      # trace of the scalar
            tew[i] = P12.surf_int(geo, e, s, nodes, lambda x, n: val(*x)[0], 8)
        elif k == 1:    # normal component in the positive axis direction
            gg, _ = P12.side_grids(s, nodes)
            x, J = geo.ev(e, gg)
            tew[i] = val(*x)[a]
        else:           # tangential trace u x e_a
            if (e, a) not in cache:
                def cr(*x):
                    w = val(*x)
                    n = [0. * x[0], 0. * x[0], 0. * x[0]]
                    n[a] = n[a] + 1.
                    return [w[1] * n[2] - w[2] * n[1], w[2] * n[0] - w[0] * n[2], w[0] * n[1] - w[1] * n[0]]
                cache[(e, a)] = ref.reduce(geo, e, nodes, 1, '', cr, 8)
            tew[i] = cache[(e, a)][topo.side_ids(shapes, ids, SN.index(s))]
    t.prime.cochain.local_TEW = tew
    o = d.coboundary(t)
    for e in M.elements:
        w = ref.reduce(geo, e, nodes, k - 1, '', fm.at(du, t0), 8)
        sc = max([1.] + [float(np.max(np.abs(d.prime.cochain.local[e])))]) * 1e3
        close(o.prime.cochain.local[e], w, 'derivative of a polynomial, element %d' % e, 0, 1e-10 * sc * max(1., float(np.max(np.abs(w)))))
    # error in the graph norm
    d.prime.CF = fm.field(fc, 3, u)
    d.prime.CF.current_time = t0
    D = fm.field(fc, 3, du)
    e1 = d.error.L()
    e2 = d.prime.error.L()
    close(e1, e2, 'error.L of the dual = of the primal form', 0, 1e-13)
    close(d.error.dH(t, D), 0., 'graph norm error of an exactly represented pair', 0, 1e-7)
    u2 = [fm.Lin([(1., f), (1., bld_const())]) for f in u]
    d.prime.CF = fm.field(fc, 3, u2)
    d.prime.CF.current_time = t0
    D2 = fm.field(fc, 3, [fm.Lin([(1., f), (2., bld_const())]) for f in du])
    vol = fm.allsum(sum(float(volume(geo, e)) for e in M.elements))
    close(d.error.dH(t, D2, time=t0), (vol * len(u) + 4. * vol * len(du)) ** 0.5, 'graph norm of a known error', 1e-8, 1e-8)


def bld_const():
    import bld
    return bld.Poly([[1., [0, 0, 0]]])


def volume(geo, e):
    import ref
    g = ref.gauss(4)[0]
    w = ref.tgauss(4, 3)[1]
    J = geo.ev(e, [g] * 3)[1]
    return (ref.det(J) * w).sum()


@facet(P, 'bc', gb, np={1: 1, 3: 1}, quick={1: 30, 3: 15}, cost=0.25)
def bc(case):
    """boundary condition of a dual trace: side dofs and mass matrix x reduction of the condition"""
    import numpy as np
    import fm
    import ref
    import topo
    from props import P12
    M, S, fc, nodes = fm.setup(case)
    m = case['m']
    k = case['k']
    names = M.boundaries.names
    nontrivial(len(names) > 0)
    tag('k=%d %s %s' % (k, 'vector' if case['vec'] else 'scalar', m['id']))
    if not names:
        return
    geo = ref.Geo(M)
    p = [len(n) - 1 for n in nodes]
    u = [fm.func(s) for s in case['u']]
    t = fc('%d-adt' % k)
    vec = case['vec'] and k == 2 or k == 1
    fld = fm.field(fc, 3, u if vec else u[:1])
    bw = case['bw'] and k == 2
    if bw:
        fs = [fm.wrap(c, 3) for c in (u if vec else u[:1])]
        fld = fc('vector' if vec else 'scalar', dict((b, list(fs) if vec else fs[0]) for b in names), ftype='boundary-wise')
    fld.current_time = case['t'][0]
    t.prime.BC.CF = fld.components.T_para if k == 1 else fld
    ensure(t.BC.CF is t.prime.BC.CF, 'BC.CF is the condition of the primal form')
    shapes = topo.comp_shapes(3, p, k)
    ids = topo.local_ids(shapes)[0]
    num = [len(topo.side_ids(shapes, ids, s)) for s in range(6)]
    off = np.concatenate([[0], np.cumsum(num)])
    mass = fc('%d-t' % k, hybrid=True).matrices.mass_TEW
    for step, pick in enumerate(case['pick']):
        sel = [b for i, b in enumerate(names) if (pick >> i) & 1] or [names[pick % len(names)]]
        t.BC.boundaries = sel[0] if (len(sel) == 1 and case['str']) else list(sel)
        fld.current_time = case['t'][step]
        if k == 1:
            t.prime.BC.CF.current_time = case['t'][step]
        w = fm.at(u, case['t'][step])
        L = t.BC.interpret.local
        dofs, coc = L.dofs, L.cochains
        exp = {}
        for e in M.elements:
            for s in range(6):
                b = M.elements.map[e][s]
                if isinstance(b, str) and b in sel:
                    exp.setdefault(int(e), []).append(s)
        ensure(set(int(_) for _ in dofs) == set(exp), 'elements with boundary dofs')
        ensure(set(int(_) for _ in coc) == set(exp), 'elements with boundary cochains')
        for e in exp:
            D = [int(_) for _ in dofs[e]]
            W = sorted(sum([list(range(off[s], off[s + 1])) for s in exp[e]], []))
            ensure(sorted(D) == W, 'local dofs on boundaries %s of element %d: %s, expected %s' % (sel, e, D, W))
            ensure(len(coc[e]) == len(D), 'number of boundary values')
            val = dict(zip(D, coc[e]))
            for s in exp[e]:
                i = M.trace.elements.map[e][s]
                te = M.trace.elements[i]
                ce, cs = te.CHARACTERISTIC_element, te.CHARACTERISTIC_side
                qe = 0.
                if k == 0 and not vec or k == 1:
                    r = ref.reduce(geo, ce, nodes, k, '', w if k else (lambda *x: w(*x)[:1]), 14)[topo.side_ids(shapes, ids, SN.index(cs))]
                elif k == 0:
                    gg, a = P12.side_grids(cs, nodes)
                    x, J = geo.ev(ce, gg)
                    n = P12.surf(J, a)[1]
                    r = sum(c * q for c, q in zip(w(*x), n))
                else:
                    def f(x, n):
                        return sum(c * q for c, q in zip(w(*x), n)) if vec else w(*x)[0]
                    r = P12.surf_int(geo, ce, cs, nodes, f, 20)
                    qe = 20 * float(np.max(np.abs(r - P12.surf_int(geo, ce, cs, nodes, f, min(p) + 2))))
                A = arr(mass[i])
                z = A @ r
                got = [val[q] for q in range(off[s], off[s + 1])]
                na = float(np.max(np.abs(A).sum(axis=1)))
                base = fm.tol(m, 1e-7, 2e-5)
                if k == 1:
                    base = max(base, 1e-6)   # line integrals with the default quadrature degree
                    lo = ref.reduce(geo, ce, nodes, k, '', w, min(p) + 2)[topo.side_ids(shapes, ids, SN.index(cs))]
                    qe = 20 * float(np.max(np.abs(r - lo)))
                close(got, z, 'dual boundary values on side %s of element %d' % (SN[s], e), 0,
                      na * (base * max(1., float(np.max(np.abs(r)))) + qe))
