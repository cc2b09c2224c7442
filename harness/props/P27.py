# -*- coding: utf-8 -*-
"""P27: results do not depend on the number of ranks."""
from kit import S as KS, facet, ensure, close, nontrivial, tag
import gens
import tri

RULE = ('case = a program (mesh, forms, discretization, norms, matrices, numbering, boundary conditions, solution of a system) run on two '
        'numbers of ranks; non-trivial: at least two elements')
P = 'P27'
F3 = ['0-f', '1-f', '2-f', '3-f', '0-t', '2-t']
F2 = ['0-f-i', '0-f-o', '1-f-i', '1-f-o', '2-f-i', '2-f-o']


def g(draw, st):
    w = draw(st.sampled_from(['3', '3', '2', 't']))
    c = {'w': w, 'seed': draw(st.integers(0, 99)), 't': gens.dyadic(draw, st, -1, 2, 4)}
    if w == 't':
        c['tri'] = tri.gen(draw, st, nmax=3)
        c['p'] = draw(st.integers(1, 2))
        ids = F2
    else:
        nd = int(w)
        c['m'] = gens.min2_periodic(gens.mesh3(draw, st, nmax=3, max_elements=12) if nd == 3 else gens.mesh2(draw, st, nmax=4, max_elements=24))
        c['sp'] = gens.space(draw, st, nd, 2, nd + 1)
        c['edm'] = draw(st.sampled_from([None, None, None, 'chaotic']))
        ids = F3 if nd == 3 else F2
    d = 3 if w == '3' else 2
    c['f'] = [[draw(st.sampled_from(ids)), draw(st.booleans())] for _ in range(2)]
    c['u'] = [['smooth', gens.smooth(draw, st, d), draw(st.sampled_from([0., 1., -0.5]))] for _ in range(d)]
    c['sel'] = draw(st.integers(0, 63))
    c['solve'] = draw(st.sampled_from(['direct', 'GMRES']))
    return c


def world(case):
    import fm
    if case['w'] == 't':
        fc = tri.call(case['tri'], case['p'])
        M = fc.mesh

        def key(e):
            return str(int(e))
    else:
        M, S, fc, nodes = fm.setup(case)

        def key(e):
            rn, loc = M.do.find.region_name_and_local_indices_of_element(e)
            return '%s|%s' % (rn, ','.join(str(int(_)) for _ in loc))
    return M, fc, key


def union(d):
    from root.config.main import COMM
    o = {}
    for a in COMM.allgather(d):
        for k in a:
            o[k] = a[k]
    return o


def classes(M, key, G):
    """which local dofs are one: smallest member of every class, per element"""
    import numpy as np
    own = union(dict((key(e), [int(_) for _ in G[e]]) for e in M.elements))
    first = {}
    for k in sorted(own):
        for i, q in enumerate(own[k]):
            first.setdefault(q, '%s:%d' % (k, i))
    n = max([-1] + [max(v) for v in own.values() if v]) + 1
    ensure(len(first) == n, 'numbers of the dofs have gaps')
    return dict((k, [first[q] for q in own[k]]) for k in own)


def program(case):
    import warnings
    import numpy as np
    import fm
    from root.config.main import COMM
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    from tools.miLinearAlgebra.linearSystem.main import LinearSystem
    from scipy import sparse as sp
    warnings.simplefilter('ignore')
    M, fc, key = world(case)
    w = case['w']
    d = 3 if w == '3' else 2
    # a field that is not periodic has two values on a periodic trace: which one is taken is not specified
    ambiguous = w != 't' and (case['m']['id'] in ('psc', 'pwc') or case['m']['id'].endswith('_periodic'))
    out = {}
    me = list(M.elements)
    names = sorted(M.boundaries.names)
    out['names'] = names
    tot = int(COMM.allreduce(len(me)))
    out['elements'] = tot
    nontrivial(tot > 1)
    if w != 't':
        geo = {}
        import ref
        for e in me:
            x = np.array(M.elements[e].coordinate_transformation.mapping(*[np.array([-0.5, 0.25, 1.])] * d))
            geo[key(e)] = [float(_) for _ in x.ravel()]
        out['~mapping'] = union(geo)
        kk = union(dict((int(e), key(e)) for e in me))
        out['map'] = union(dict((key(e), [kk[int(i)] if not isinstance(i, str) else i for i in M.elements.map[e]]) for e in me))
    F = [fm.wrap(fm.func(x), d) for x in case['u']]
    sel = [b for i, b in enumerate(names) if (case['sel'] >> i) & 1]
    for n, (ID, hyb) in enumerate(case['f']):
        tr = ID[1:3] == '-t'
        f = fc(ID) if w == 't' else fc(ID, hybrid=True) if tr else fc(ID, hybrid=hyb)
        k = int(ID[0])
        o = out['form %d' % n] = {'id': ID}
        o['dofs'] = int(f.numbering.gathering.global_num_dofs)
        o['classes'] = classes(M, key, f.numbering.gathering)
        if tr and ambiguous:
            continue
        scalar = k in (0, d) or tr
        cf = fc('scalar', F[0]) if scalar else fc('vector', F)
        cf.current_time = case['t']
        f.CF = cf
        f.discretize()
        o['~cochain'] = union(dict((key(e), [float(_) for _ in f.cochain.local[e]]) for e in me))
        if tr:
            continue
        o['~error'] = float(f.error.L())
        mass = f.matrices.mass
        o['~mass'] = float(COMM.allreduce(sum(float(abs(mass[e]).sum()) for e in me)))
        strong = None
        if sel and not ambiguous and (ID in ('0-f', '1-f', '2-f', '1-f-o') or w == 't' and ID in ('0-f-i', '0-f-o', '1-f-i')):
            f.BC.CF = cf
            f.BC.boundaries = sel
            strong = f
            L = f.BC.interpret.local
            dd, cc = L.dofs, L.cochains
            o['bc dofs'] = union(dict((key(e), sorted(int(_) for _ in dd[e])) for e in dd))
            o['~bc'] = union(dict((key(e), [float(v) for _, v in sorted(zip(dd[e], cc[e]))]) for e in cc))
        A = mass
        if k < d:
            ID2 = '%d%s' % (k + 1, ID[1:])
            up = fc(ID2) if w == 't' else fc(ID2, hybrid=True)
            E = f.matrices.incidence
            A = mass + E.T @ up.matrices.mass @ E

        def vec(e):
            return sp.csc_matrix((mass[e] @ f.cochain.local[e] + 0.25)[:, None])
        b = EWC_ColumnVector(M.elements, vec)
        A, b = bmat([[A]]), concatenate([b])
        A.gathering_matrices = (f, f)
        b.gathering_matrix = f
        LS = LinearSystem(A, b)
        if strong is not None:
            LS.customize.apply_strong_BC(0, 0, f)
        nd = o['dofs']
        if case['solve'] == 'direct' or nd > 60:
            x = LS.solve('direct')()[0]
        else:
            x = LS.solve('GMRES', routine='0', name='a')(0, restart=nd + 3, maxiter=20, tol=1e-13, atol=1e-11)[0]
        o['~norm of x'] = float(np.linalg.norm(x.V))
        h = fc(ID) if w == 't' else fc(ID, hybrid=hyb)
        x.do.distributed_to(h)
        o['~solution'] = union(dict((key(e), [float(_) for _ in h.cochain.local[e]]) for e in me))
        h.CF = cf
        o['~error of x'] = float(h.error.L())
        q = [np.array([-0.75, 0., 0.5])] * d
        x = h.reconstruct(*q, ravel=True)
        if isinstance(x, (list, tuple)) and len(x) == 2:
            o['~values'] = union(dict((key(e), [float(_) for v in x[1][e] for _ in np.ravel(v)]) for e in x[1]))
    return out


def compare(a, b, what, tol):
    import numpy as np
    if isinstance(a, dict):
        ensure(set(a) == set(b), '%s: different entries' % what)
        for k in a:
            compare(a[k], b[k], '%s, %s' % (what, k), tol)
    elif '~' in what:
        s = float(np.max(np.abs(np.array(a, dtype=float)))) if np.size(a) else 0.
        close(b, a, what, 0, tol * max(1., s))
    else:
        ensure(a == b, '%s: %r and %r' % (what, str(a)[:300], str(b)[:300]))


@facet(P, 'program', g, np={12: 1, 13: 1, 41: 1, 52: 1}, quick={12: 12, 13: 20, 41: 12, 52: 8}, cost=0.7, timeout=200)
def prog(case):
    """one program on two numbers of ranks"""
    import json
    import fm
    out = json.loads(json.dumps(program(case)))
    tag(case['w'] + ' ' + ' '.join(i for i, _ in case['f']))
    if KS.stage == 0:
        KS.out = out
        return
    loose = max(1e-8, fm.tol(case['m'], 1e-8, 1e-8)) if case['w'] != 't' else 1e-8
    compare(KS.prev[0], out, 'result', loose)
