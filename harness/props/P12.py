# -*- coding: utf-8 -*-
"""P12: trace matrices, reduction, reconstruction, mass and cochain views of trace forms."""
from kit import facet, ensure, close, gclose, nontrivial, tag
import gens

RULE = ('case = structured mesh, space, trace degree, hybrid flag, field/cochain and evaluation grid; '
        'non-trivial: at least 2 elements or some degree above 1')
P = 'P12'
SN = 'NSWEBF'


def _base(draw, st, nmax=2, me=6, total=6):
    m = gens.min2_periodic(gens.mesh3(draw, st, nmax=nmax, max_elements=me))
    return {'m': m, 'sp': gens.space(draw, st, 3, 3, total), 'k': draw(st.integers(0, 2)), 'hyb': draw(st.booleans()),
            'edm': draw(st.sampled_from([None, None, 'chaotic']))}


def _f(draw, st, nd):
    return ['smooth', gens.smooth(draw, st, nd), draw(st.sampled_from([0., 1., -0.5]))]


def gr(draw, st):
    c = _base(draw, st, total=5)
    c['vec'] = draw(st.booleans())
    c['u'] = [_f(draw, st, 3) for _ in range(3)]
    c['t'] = [gens.dyadic(draw, st, -1, 2, 4) for _ in range(2)]
    return c


def gc(draw, st):
    c = _base(draw, st)
    c['g'] = [gens.points(draw, st) for _ in range(3)]
    c['seed'] = draw(st.integers(0, 60))
    c['pick'] = draw(st.integers(0, 1000))
    return c


def gm(draw, st):
    c = _base(draw, st)
    c['d'] = draw(st.sampled_from([2, 3, 3]))
    if c['d'] == 2:
        c['m'] = gens.min2_periodic(gens.mesh2(draw, st, nmax=2, max_elements=6))
        c['sp'] = gens.space(draw, st, 2, 4, 6)
    c['seed'] = draw(st.integers(0, 60))
    return c


def side_grids(te_side, g):
    """1-d grids of the tensor grid with the normal axis fixed"""
    import numpy as np
    s = SN.index(te_side)
    a = s // 2
    out = [np.asarray(x, dtype=float) for x in g]
    out[a] = np.array([1. if s % 2 else -1.])
    return out, a


def surf(J, a):
    """surface element and oriented unit normal (towards +axis) from J on the side"""
    import numpy as np
    b, c = (a + 1) % 3, (a + 2) % 3
    n = np.cross(J[:, b], J[:, c], axis=0)
    s = np.sqrt((n ** 2).sum(axis=0))
    return s, n / s


def surf_int(geo, e, side, nodes, fun, nq=14):
    """integral of fun(x, n) dS over every face cell of the side, 'F' order"""
    import numpy as np
    import ref
    s = SN.index(side)
    a = s // 2
    gx, gw = ref.gauss(nq)
    grids, ws = [None] * 3, []
    for i in range(3):
        if i == a:
            grids[i] = np.array([1. if s % 2 else -1.])
            continue
        lo, hi = nodes[i][:-1], nodes[i][1:]
        h = (hi - lo) / 2
        grids[i] = (lo[:, None] + (gx[None, :] + 1) * h[:, None]).ravel()
        ws.append(gw[None, :] * h[:, None])
    x, J = geo.ev(e, grids)
    ds, n = surf(J, a)
    v = (fun(x, n) * ds).reshape([w.shape[0] * nq for w in ws], order='F')
    p0, p1 = ws[0].shape[0], ws[1].shape[0]
    v = v.reshape(p0, nq, p1, nq)
    return np.einsum('aibj,ai,bj->ab', v, ws[0], ws[1]).ravel('F')


def trace_basis(nodes, k, a, g):
    """reference side basis: list of components (flagged axis tangential), dofs in the side order of the standard form"""
    import numpy as np
    import ref
    import topo
    p = [len(n) - 1 for n in nodes]
    out = []
    for shp, fl in topo.comp_shapes(3, p, k):
        if not fl[a]:
            continue
        t = np.ones((1, 1))
        for i in range(3):
            if i != a:
                b = ref.lag(nodes[i], g[i]) if fl[i] else ref.edge(nodes[i], g[i])
                t = np.kron(b, t)
        ax = None
        if k == 1:
            ax = [i for i in range(3) if not fl[i]][0]
        out.append((ax, t))
    return out


def trace_phys(nodes, k, a, g, J):
    """basis of the trace form in physical components: list of arrays (ndofs, m)"""
    import numpy as np
    import ref
    B = trace_basis(nodes, k, a, g)
    ds, n = surf(J, a)
    if k == 0:
        return [B[0][1]], ds
    if k == 2:
        return [B[0][1] / ds], ds
    iJ = ref.inv(J)
    N = sum(b.shape[0] for _, b in B)
    V = np.zeros((3, N, J.shape[-1]))
    s = 0
    for ax, b in B:
        w = iJ[ax] - (iJ[ax] * n).sum(axis=0) * n      # tangential part of grad xi_ax
        for i in range(3):
            V[i, s:s + b.shape[0]] = b * w[i]
        s += b.shape[0]
    return list(V), ds


def kinky(m):
    return m['id'] == 'bcr' and 'wave' not in m['kw']


@facet(P, 'reduce', gr, np={1: 1, 2: 1}, quick={1: 30, 2: 15}, cost=0.5)
def reduce_(case):
    """discretization of scalar and vector fields = values, line and surface integrals on each trace element"""
    import numpy as np
    import fm
    import ref
    import topo
    M, S, fc, nodes = fm.setup(case)
    k = case['k']
    m = case['m']
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    vec = case['vec'] or k == 1
    tag('k=%d %s %s %s' % (k, 'vector' if vec else 'scalar', 'hybrid' if case['hyb'] else 'conforming', m['id']))
    geo = ref.Geo(M)
    p = [len(n) - 1 for n in nodes]
    u = [fm.func(s) for s in case['u']]
    if not vec:
        u = u[:1]
    T = fc('%d-t' % k, hybrid=case['hyb'])
    T.CF = fm.field(fc, 3, u)
    kw = {} if k == 0 else {'quad_degree': [max(8, 16 - 2 * q) for q in p]}
    TE = M.trace.elements
    S_ids = topo.local_ids(topo.comp_shapes(3, p, k))[0]
    for t in case['t']:
        T.CF.current_time = t
        w = fm.at(u, t)
        r = T.discretize(update_cochain=False, **kw)
        T.discretize(**kw)
        ensure(r[0] == 'locally full local TEW cochain', 'kind of cochain returned: %r' % (r[0],))
        ensure(set(int(_) for _ in r[1]) == set(int(_) for _ in TE), 'trace elements with a cochain')
        std = {}
        exp = {}
        qe = {}
        for i in TE:
            te = TE[i]
            e, s = te.CHARACTERISTIC_element, te.CHARACTERISTIC_side
            if k == 1 or (k == 2 and vec) or (k == 0 and not vec):
                if e not in std:
                    std[e] = ref.reduce(geo, e, nodes, k, '', w, 14)
                exp[i] = std[e][topo.side_ids(topo.comp_shapes(3, p, k), S_ids, SN.index(s))]
            elif k == 0:
                g, a = side_grids(s, nodes)
                x, J = geo.ev(e, g)
                n = surf(J, a)[1]
                exp[i] = sum(c * d for c, d in zip(w(*x), n))
            else:
                exp[i] = surf_int(geo, e, s, nodes, lambda x, n: w(*x)[0], 26)
                qe[i] = 20 * float(np.max(np.abs(exp[i] - surf_int(geo, e, s, nodes, lambda x, n: w(*x)[0], min(kw['quad_degree'])))))
            at = fm.tol(m, 1e-7, 2e-5) * max(1., float(np.max(np.abs(exp[i])))) + qe.get(i, 0.)
            close(r[1][i], exp[i], 'cochain of trace element %d (%s of element %d) at t=%s' % (i, s, e, t), 0, at)
            close(T.cochain.local_TEW[i], exp[i], 'cochain.local_TEW', 0, at)
        # element-wise view: the values on each side of each element
        GT = T.numbering.trace_element_wise
        GM = T.numbering.gathering
        single = case['hyb'] or k == 2 or ('periodic' not in m['id'] and m['id'] not in ('psc', 'pwc') and (k == 1 or not vec))
        for e in (M.elements if single else ()):   # else multi-valued at shared edges
            v = {}
            for s, i in zip(SN, TE.map[e]):
                for d, x in zip(GT[i], exp[i]):
                    v.setdefault(int(d), x)
            c = T.cochain.local[e]
            ref_ = np.array([v[int(d)] for d in GM[e]])
            close(c, ref_, 'cochain.local[%d]' % e, 0, fm.tol(m, 1e-7, 4e-5) * max(1., float(np.max(np.abs(ref_)))) + 2 * max([0.] + list(qe.values())))
    # error of the reduction, where the library supports it
    if k == 0 and not vec:
        from root.config.main import COMM
        err = T.error.L()
        g = [np.linspace(-1, 1, q + 2 + 10) for q in T.dqp]
        loc = 0.
        for i in TE:
            te = TE[i]
            gg, a = side_grids(te.CHARACTERISTIC_side, g)
            x, J = geo.ev(te.CHARACTERISTIC_element, gg)
            B = trace_basis(nodes, 0, a, g)[0][1]
            loc = max(loc, float(np.max(np.abs(exp[i] @ B - w(*x)[0]))))
        loc = fm.allmax(loc)
        close(err, loc, 'L^infinity error of the 0-trace-form', 1e-5, fm.tol(m, 1e-7, 2e-5))


@facet(P, 'recon', gc, np={1: 1, 3: 1}, quick={1: 40, 3: 40}, cost=0.3)
def recon(case):
    """reconstruction and mass matrices from arbitrary cochains; views of the cochain"""
    import numpy as np
    import fm
    import ref
    from root.config.main import COMM
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    M, S, fc, nodes = fm.setup(case)
    k = case['k']
    m = case['m']
    nontrivial(max(len(n) for n in nodes) > 2 or M.elements.global_num > 1)
    tag('k=%d %s %s' % (k, 'hybrid' if case['hyb'] else 'conforming', m['id']))
    geo = ref.Geo(M)
    T = fc('%d-t' % k, hybrid=case['hyb'])
    TE = M.trace.elements
    GM = T.numbering.gathering
    GT = T.numbering.trace_element_wise
    N = T.num.global_dofs

    def tew(seed):
        v = fm.hval(np.arange(N), 5, seed)
        return v, dict((i, v[np.array([int(_) for _ in GT[i]], dtype=int)]) for i in TE)
    g = [np.array(x) for x in case['g']]
    for step, way in enumerate(('local', 'TEW', 'globe')):
        v, co = tew(case['seed'] + step)
        loc = dict((e, v[np.array([int(_) for _ in GM[e]], dtype=int)]) for e in M.elements)
        if way == 'local':
            T.cochain.local = dict(loc)
            ewc = T.cochain.EWC
        elif way == 'TEW':
            T.cochain.local_TEW = dict((i, np.array(co[i])) for i in co)
        else:
            T.cochain.globe = LocallyFullVector(np.array(v))
        ensure(set(int(_) for _ in T.cochain.local_TEW) == set(int(_) for _ in TE), 'keys of local_TEW (%s set)' % way)
        for i in TE:
            close(T.cochain.local_TEW[i], co[i], 'local_TEW after setting %s' % way, 1e-13, 1e-13)
        for e in M.elements:
            close(T.cochain.local[e], loc[e], 'local after setting %s' % way, 1e-13, 1e-13)
            close(T.cochain.EWC[e].toarray().ravel(), loc[e], 'EWC after setting %s' % way, 1e-13, 1e-13)
            close(ewc[e].toarray().ravel(), loc[e], 'EWC created before setting %s ("in real time")' % way, 1e-13, 1e-13)
        gl = T.cochain.globe
        V = np.asarray(sum(COMM.allgather(gl.V.toarray().ravel())))
        close(V, v, 'globe after setting %s' % way, 1e-12, 1e-12)
    xyz, val = T.reconstruct(*g)
    _, rav = T.reconstruct(*g, ravel=True)
    ids = [int(_) for _ in TE]
    if ids:
        one = ids[case['pick'] % len(ids)]
        _, sel = T.reconstruct(*g, ravel=True, trace_element_range=one)
        _, sel2 = T.reconstruct(*g, ravel=True, trace_element_range=[one])
        ensure(set(sel) == {one} and set(sel2) == {one}, 'reconstruct(trace_element_range)')
    ensure(set(int(_) for _ in val) == set(ids), 'trace elements reconstructed')
    # trace-element types are implemented for these region types only
    has_type = m['id'] in ('crazy', 'crazy_periodic', 'cuboid', 'cuboid_periodic', 'ct', 'bridge_arch_cracked')
    mass = T.matrices.mass_TEW if has_type else dict((i, None) for i in ids)
    ensure(set(int(_) for _ in mass) == set(ids), 'trace elements with a mass matrix')
    if kinky(m):
        return
    for i in ids:
        te = TE[i]
        e, s = te.CHARACTERISTIC_element, te.CHARACTERISTIC_side
        gg, a = side_grids(s, g)
        x, J = geo.ev(e, gg)
        B, ds = trace_phys(nodes, k, a, g, J)
        w = [co[i] @ b for b in B]
        at = fm.tol(m, 1e-8, 2e-5) * max([1.] + [float(np.max(np.abs(y))) for y in w])
        shape = [len(gg[j]) for j in range(3) if j != a]
        ensure(len(val[i]) == len(w) == len(rav[i]), 'number of components')
        for c in range(3):
            ensure(list(np.shape(xyz[i][c])) == shape, 'shape of coordinates')
            close(np.asarray(xyz[i][c]).ravel('F'), x[c], 'coordinates on trace element %d' % i, 1e-9, 1e-9)
        for c in range(len(w)):
            ensure(list(np.shape(val[i][c])) == shape, 'shape of values')
            close(np.asarray(val[i][c]).ravel('F'), w[c], 'component %d on trace element %d (%s)' % (c, i, s), 0, at)
            close(np.asarray(rav[i][c]), w[c], 'ravelled component %d on trace element %d (%s)' % (c, i, s), 0, at)
            if i == one:
                close(np.asarray(sel[i][c]), w[c], 'selected trace element', 0, at)

        def ref_mass(nq):
            G = [ref.gauss(q) for q in nq]
            qg = [G[j][0] for j in range(3)]
            ww = ref.tensor([G[j][1] for j in range(3) if j != a])
            qq, _ = side_grids(s, qg)
            _, JJ = geo.ev(e, qq)
            Bq, dsq = trace_phys(nodes, k, a, qg, JJ)
            W = ww[0] * ww[1] * dsq
            return sum((b * W) @ b.T for b in Bq)
        if not has_type:
            continue
        R = ref_mass([16] * 3)
        low = ref_mass([len(n) + 1 + (k > 0) for n in nodes])
        A = mass[i]
        A = A.toarray() if hasattr(A, 'toarray') else np.asarray(A)
        sc = max(1., float(np.max(np.abs(R))))
        close(A, R, 'mass matrix of trace element %d (%s)' % (i, s), 0,
              fm.tol(m, 1e-9, 2e-5) * sc + 5 * float(np.max(np.abs(R - low))))


@facet(P, 'matrices', gm, np={1: 1, 2: 1}, quick={1: 40, 2: 10}, cost=0.12)
def matrices(case):
    """trace and selective matrices pick the side dofs with the documented signs"""
    import numpy as np
    import fm
    import topo
    M, S, fc, nodes = fm.setup(case)
    nd = M.ndim
    p = [len(n) - 1 for n in nodes]
    k = case['k'] if nd == 3 else 1
    nontrivial(max(p) > 1 or M.elements.global_num > 1)
    tag('%dd k=%d' % (nd, k))
    kind = '' if nd == 3 else 'outer'
    shapes = topo.comp_shapes(nd, p, k, kind)
    ids, nl = topo.local_ids(shapes)
    # outward orientation of the side with respect to the positive axis; in 2d x points down: U/D are axis 0
    f = fm.form(fc, nd, k, kind, True)
    co = fm.rand_cochain(f, case['seed'])
    if nd == 3:
        T = fc('%d-t' % k, hybrid=True)
        sgn = [-1, 1] * 3
        mats = [(T.matrices.trace, sgn, 'matrices.trace'), (T.coboundary.trace_matrix, sgn, 'coboundary.trace_matrix'),
                (T.matrices.selective, [1] * 6, 'matrices.selective'), (f.matrices.trace, sgn, 'standard matrices.trace')]
        if k == 2:
            Tn = fc('2-t', hybrid=False)
            mats += [(Tn.matrices.trace, sgn, 'matrices.trace (conforming)')]
    else:
        T = fc('1-t-o')
        # flux through U is along -x when leaving; the library defines U:+, D:-, L:-, R:+ (see its docstring/table)
        mats = [(T.matrices.trace, None, 'matrices.trace'), (T.coboundary.trace_matrix, None, 'coboundary')]
    off = 0
    for mat, sgn, what in mats:
        for e in M.elements:
            R = np.asarray(mat[e] @ co[e]).ravel()
            off = 0
            for s in range(2 * nd):
                I = topo.side_ids(shapes, ids, s)
                part = R[off:off + len(I)]
                if sgn is None:
                    w = co[e][I]
                    ok = np.allclose(part, w, 0, 1e-13) or np.allclose(part, -w, 0, 1e-13)
                    ensure(ok, '%s: side %s does not pick the dofs of the side' % (what, topo.SN[nd][s]))
                else:
                    close(part, sgn[s] * co[e][I], '%s: side %s of element %d' % (what, topo.SN[nd][s], e), 0, 1e-13)
                off += len(I)
            ensure(off == len(R), '%s: number of rows' % what)
    if nd == 3:
        # jump of a continuous form vanishes: traces of both sides of a trace element agree after selection
        lab = topo.dof_classes(topo.Glob(M).map, M.elements.global_num, nd, shapes)
        fm.conf_cochain(f, lab, case['seed'])
        n = T.num.global_dofs
        GM = T.numbering.gathering
        from root.config.main import COMM
        tot = np.zeros(n)
        sel = T.matrices.selective
        tr = T.matrices.trace
        cnt = np.zeros(n)
        for e in M.elements:
            idx = np.array([int(_) for _ in GM[e]])
            np.add.at(tot, idx, np.asarray(tr[e] @ f.cochain.local[e]).ravel())
            np.add.at(cnt, idx, 1)
        tot = sum(COMM.allgather(tot))
        cnt = sum(COMM.allgather(cnt))
        close(tot[cnt == 2], 0 * tot[cnt == 2], 'assembled trace of a continuous form on interior sides', 0, 1e-12)
