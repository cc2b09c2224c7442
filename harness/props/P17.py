# -*- coding: utf-8 -*-
"""P17: boundary conditions prescribed through forms (dofs, cochains, boundary vectors)."""
from kit import facet, ensure, close, gclose, nontrivial, tag
import gens

RULE = ('case = structured mesh, space, two forms of generated kinds, two sets of prescribed functions and a history of '
        'boundary selections, function and time changes, re-creations and readings; non-trivial: at least one reading '
        'of a non-empty selection with prescribed values')
P = 'P17'
KINDS3 = ['s0', 's1', 's2', 's2b', 't0', 't0w', 't1', 't2', 't2v', 't2b', 'l0', 'l2', 'l0b', 'l2b', 'l0w']
KINDS2 = ['o1', 'o1', 'i0', 'o0', 'i1']
ADT = ['t0', 't0w', 't1', 't2', 't2v', 't2b']
FLAT = ('crazy', 'crazy_periodic', 'cuboid', 'cuboid_periodic', 'ct', 'bridge_arch_cracked')


def _u(draw, st, nd):
    return [['smooth', gens.smooth(draw, st, nd), draw(st.sampled_from([0., 1., -0.5]))] for _ in range(3)]


def _hist(draw, st):
    ops = []
    for i in (0, 1):
        for o in ('bnd', 'cf'):
            ops.append([o, draw(st.integers(0, 62)), 6 * draw(st.integers(0, 1)) + i, draw(st.booleans()) and o == 'cf'])
    for _ in range(draw(st.integers(3, 8))):
        o = draw(st.sampled_from(['bnd', 'bnd', 'cf', 'time', 'new', 'rebnd']))
        ops.append([o, draw(st.integers(0, 63)), draw(st.integers(0, 7)), draw(st.booleans())])
    return ops


def _base(draw, st, kinds, d):
    if d == 3:
        m = gens.mesh3(draw, st, nmax=2, max_elements=4, ids=['crazy', 'crazy', 'bridge_arch_cracked', 'cuboid', 'ct', 'LDC',
                                                               'cuboid', 'psc'])
        m = gens.min2_periodic(m)
        sp = gens.space(draw, st, 3, 3, 5)
    else:
        m = gens.mesh2(draw, st, nmax=3, max_elements=8, ids=['crazy', 'chp1', 'quadrangle', 'rectangle', 'cic', 'bcr'])
        sp = gens.space(draw, st, 2, 3, 5)
    return {'d': d, 'm': m, 'sp': sp, 'forms': [draw(st.sampled_from(kinds)) for _ in range(2)],
            'hyb': [draw(st.booleans()) for _ in range(2)], 'u': [_u(draw, st, d) for _ in range(2)], 'ops': _hist(draw, st)}


def gh(draw, st):
    d = draw(st.sampled_from([3, 3, 3, 2]))
    return _base(draw, st, KINDS3 if d == 3 else KINDS2, d)


def ga(draw, st):
    c = _base(draw, st, ADT, 3)
    return c


def gb(draw, st):
    d = draw(st.sampled_from([2, 3, 3]))
    if d == 3:
        m = gens.mesh3(draw, st, nmax=3, max_elements=8, ids=['crazy', 'cuboid', 'cuboid'], cmax=0.)
        sp = gens.space(draw, st, 3, 3, 6)
    else:
        m = gens.mesh2(draw, st, nmax=3, max_elements=12, ids=['crazy', 'rectangle', 'rectangle'])
        if 'c' in m['kw']:
            m['kw']['c'] = 0.
        sp = gens.space(draw, st, 2, 4, 6)
    return {'d': d, 'm': m, 'sp': sp, 'hyb': draw(st.booleans()), 'u': [_u(draw, st, d) for _ in range(2)],
            'form': draw(st.sampled_from(['std', 'lt'])), 'k': draw(st.sampled_from([0, 2])),
            't': [gens.dyadic(draw, st, -1, 2, 4) for _ in range(2)], 'sel': draw(st.integers(1, 63)),
            'qd': draw(st.booleans())}


def mk_form(fc, kind, hyb, d):
    if d == 2:
        return fc('%s-f-%s' % (kind[1], kind[0]), hybrid=hyb)
    if kind[0] == 's':
        return fc('%s-f' % kind[1], hybrid=hyb)
    if kind[0] == 't':
        return fc('%s-t' % kind[1], hybrid=hyb)
    return fc('%s-lt' % kind[1], hybrid=hyb)


def mk_cf(fc, kind, u, names, d):
    """the prescribed field (the time is set on what it returns) or None"""
    import fm
    F = [fm.wrap(fm.func(x), d) for x in u]
    if d == 2:
        return fc('vector', F[:2]) if kind == 'o1' else None
    if kind in ('s0', 't0', 't2', 'l0', 'l2'):
        return fc('scalar', F[0])
    if kind in ('s1', 's2', 't2v'):
        return fc('vector', F)
    if kind in ('t2b', 'l0b', 'l2b'):
        return fc('scalar', dict((b, F[i % 3]) for i, b in enumerate(names)))
    if kind == 's2b':
        return fc('vector', dict((b, [F[i % 3], F[(i + 1) % 3], F[(i + 2) % 3]]) for i, b in enumerate(names)))
    if kind in ('t0w', 'l0w'):
        return fc('vector', F).flux
    if kind == 't1':
        return fc('vector', F).components.T_para
    raise Exception(kind)


def dofs_of(f, d):
    return lambda s: (f.numbering.do.find.local_dofs_on_element_side if d == 3 else f.numbering.do.find.local_dofs_on_element_edge)(s)


def side_values(M, fc, kind, hyb, u, names, t, d):
    """{(element, side): values} of the prescribed function, from a fresh form and field without boundary conditions"""
    import fm
    F = [fm.wrap(fm.func(x), d) for x in u]
    f = mk_form(fc, kind, hyb, d)
    SN = 'NSWEBF' if d == 3 else 'UDLR'
    bs = [(int(e), s, M.elements.map[e][i]) for e in M.elements for i, s in enumerate(SN)
          if isinstance(M.elements.map[e][i], str)]

    dofs = dofs_of(f, d)

    def run(field):
        field.current_time = t
        f.CF = field
        r = f.discretize(update_cochain=False)
        out = {}
        for e, s, b in bs:
            if r[0] == 'locally full local cochain':
                out[(e, s)] = r[1][e][dofs(s)]
            elif r[0] == 'mesh-element-side-wise local cochain':
                if e in r[1] and s in r[1][e]:
                    out[(e, s)] = r[1][e][s]
            else:
                out[(e, s)] = r[1][M.trace.elements.map[e][SN.index(s)]]
        return out
    if kind in ('s2b', 't2b', 'l0b', 'l2b'):
        out = {}
        for i in range(3):
            g = fc('vector', [F[i], F[(i + 1) % 3], F[(i + 2) % 3]]) if kind == 's2b' else fc('scalar', F[i])
            r = run(g)
            for e, s, b in bs:
                if names.index(b) % 3 == i:
                    out[(e, s)] = r[(e, s)]
        return out, bs, dofs, f
    if kind in ('t1', 't0w', 'l0w'):      # values of the primal trace form of the standard vector
        g = fc('%s-t' % kind[1], hybrid=True)
        f, keep = g, f
        return run(fc('vector', F)), bs, dofs_of(keep, d), keep
    return run(mk_cf(fc, kind, u, names, d)), bs, dofs, f


def geo_dofs(kind, nodes, s, d, f, hyb):
    """local dofs of the side, by geometry"""
    import topo
    import numpy as np
    from props import P13
    p = [len(n) - 1 for n in nodes]
    SN = 'NSWEBF' if d == 3 else 'UDLR'
    k = int(kind[1])
    if kind[0] == 'l':
        if hyb or k == 2:
            return [int(_) for _ in P13.local_gather(p, k, True)[0][s]]
        return [int(_) for _ in np.asarray(f.numbering.local_gathering[s])]
    if kind[0] == 't':
        return None
    shapes = topo.comp_shapes(d, p, k, '' if d == 3 else ('inner' if kind[0] == 'i' else 'outer'))
    return [int(_) for _ in topo.side_ids(shapes, topo.local_ids(shapes)[0], SN.index(s))]


def select(names, a, b):
    if a % 7 == 0:
        return 'all', list(names)
    sel = [x for i, x in enumerate(names) if (a >> i) & 1]
    if not sel:
        sel = [names[a % len(names)]]
    if b % 2:
        sel = sel[::-1]
    if len(sel) == 1 and b % 3 == 0:
        return sel[0], sel
    return (tuple(sel) if b % 5 == 0 else list(sel)), sel


def pairs(dofs, vals):
    o = {}
    for i, x in zip(dofs, vals):
        o.setdefault(int(i), []).append(float(x))
    return dict((i, sorted(v)) for i, v in o.items())


def same_pairs(got, exp, what, at):
    ensure(set(got) == set(exp), '%s: dofs %s, expected %s' % (what, sorted(got), sorted(exp)))
    for i in exp:
        close(got[i], exp[i], '%s: values of local dof %d' % (what, i), 0, at)


@facet(P, 'history', gh, np={1: 2, 2: 1, 3: 1}, quick={1: 40, 2: 12, 3: 10}, cost=0.4)
def history(case):
    """prescribed boundary dofs and values follow the selected boundaries, the function and its time"""
    import gc
    import numpy as np
    import fm
    d = case['d']
    M, S, fc, nodes = fm.setup(case)
    names = sorted(M.boundaries.names)
    if not names:
        from kit import reject
        reject()
    forms, models, keep, cache = [None, None], [None, None], [None, None], {}
    CF = [[None, None], [None, None]]
    SN = 'NSWEBF' if d == 3 else 'UDLR'

    def new(i):
        forms[i] = None
        keep[i] = None
        gc.collect()
        forms[i] = mk_form(fc, case['forms'][i], case['hyb'][i], d)
        models[i] = {'sel': None, 'cf': None}
        if case['forms'][i][0] == 'l' or case['forms'][i] == 's2b':
            keep[i] = forms[i].BC.interpret.boundary_cochain

    for i in range(2):
        new(i)
        for j in range(2):
            CF[i][j] = mk_cf(fc, case['forms'][i], case['u'][j], names, d)
            if CF[i][j] is not None:
                CF[i][j].current_time = 0.
        tag(case['forms'][i])
    time = [[0., 0.], [0., 0.]]

    def read(i, what):
        f, mo, kind, hyb = forms[i], models[i], case['forms'][i], case['hyb'][i]
        if mo['sel'] is None:
            return
        j = mo['cf']
        key = (i, j, None if j is None else time[i][j])
        if key not in cache:
            if j is None:
                g = mk_form(fc, kind, hyb, d)
                bs = [(int(e), s, M.elements.map[e][q]) for e in M.elements for q, s in enumerate(SN)
                      if isinstance(M.elements.map[e][q], str)]
                fd = g.numbering.do.find
                cache[key] = (None, bs, fd.local_dofs_on_element_side if d == 3 else fd.local_dofs_on_element_edge, g)
            else:
                cache[key] = side_values(M, fc, kind, hyb, case['u'][j], names, time[i][j], d)
        vals, bs, dofs, g = cache[key]
        want = {}
        for e, s, b in bs:
            if b in mo['sel']:
                D = [int(_) for _ in dofs(s)]
                G = geo_dofs(kind, nodes, s, d, g, hyb)
                if G is not None:
                    ensure(sorted(G) == sorted(D), 'local dofs of side %s of a %s form' % (s, kind))
                want.setdefault(e, []).append((D, None if vals is None else vals[(e, s)]))
        nontrivial(vals is not None and bool(fm.allmax(int(len(want) > 0))))
        at = 1e-11 if vals is None else 1e-10 * max([1.] + [float(np.max(np.abs(v))) for v in vals.values()])
        lo = f.BC.interpret.local
        ensure(set(int(_) for _ in lo.dofs) == set(want), '%s: elements with prescribed dofs %s, expected %s'
               % (what, sorted(lo.dofs), sorted(want)))
        ensure(sorted(int(_) for _ in lo) == sorted(want) and len(lo) == len(want), '%s: iteration over the elements' % what)
        ensure(all((e in lo) == (e in want) for e in M.elements), '%s: containment of elements' % what)
        if vals is None:
            ensure(lo.cochains is None, '%s: values without a function' % what)
            for e in want:
                ensure(sorted(int(_) for _ in lo.dofs[e]) == sorted(x for D, _ in want[e] for x in D),
                       '%s: prescribed dofs of element %d' % (what, e))
            return
        ensure(set(int(_) for _ in lo.cochains) == set(want), '%s: elements with prescribed values' % what)
        for e in want:
            ensure(len(lo.dofs[e]) == len(lo.cochains[e]), '%s: numbers of dofs and of values of element %d' % (what, e))
            same_pairs(pairs(lo.dofs[e], lo.cochains[e]),
                       pairs([x for D, _ in want[e] for x in D], [x for _, v in want[e] for x in v]),
                       '%s: element %d of a %s form' % (what, e, kind), at)
        std = kind in ('l0', 'l2', 'l0w') and hyb       # element-wise full cochains are not supported by boundary_cochain
        if keep[i] is not None and not std:
            for bc in (keep[i], f.BC.interpret.boundary_cochain):
                for e in M.elements:
                    v = bc[e].toarray().ravel()
                    ensure(len(v) == f.num.basis, '%s: length of the boundary cochain' % what)
                    o = pairs([x for D, _ in want.get(int(e), []) for x in D], [x for _, w in want.get(int(e), []) for x in w])
                    for x in range(len(v)):
                        c = o.get(x, [0.])
                        ensure(min(abs(v[x] - y) for y in c) <= at, '%s: boundary_cochain dof %d of element %d is %r, expected %s'
                               % (what, x, e, v[x], c))

    for step, (o, a, b, rd) in enumerate(case['ops']):
        i = b % 2
        f, mo = forms[i], models[i]
        what = 'step %d (%s)' % (step, o)
        if o == 'bnd' or (o == 'rebnd' and mo['sel'] is None):
            arg, mo['sel'] = select(names, a, b)
            f.BC.boundaries = arg
            ensure(sorted(f.BC.boundaries) == sorted(mo['sel']), 'BC.boundaries after setting %r' % (arg,))
        elif o == 'rebnd':
            for q in range(3):
                arg, mo['sel'] = select(names, a + 5 * q, b + q)
                f.BC.boundaries = arg
                if q < 2 and rd:
                    f.BC.interpret.local
        elif o == 'cf':
            j = a % 3
            j = None if j == 2 else j
            if CF[i][0] is not None:
                f.BC.CF = None if j is None else CF[i][j]
                mo['cf'] = j
        elif o == 'time':
            if CF[i][0] is not None:
                j = a % 2
                time[i][j] = (a % 9) / 4. - 1.
                CF[i][j].current_time = time[i][j]
                if mo['cf'] is None:
                    f.BC.CF = CF[i][j]
                    mo['cf'] = j
        elif o == 'new':
            f = None
            new(i)
            f, mo = forms[i], models[i]
            if rd:
                arg, mo['sel'] = select(names, a, b)
                f.BC.boundaries = arg
        if rd or step == len(case['ops']) - 1:
            for q in range(2):
                if b % 3 or q == i:
                    read(q, what)


@facet(P, 'dual', ga, np={1: 1, 2: 1}, quick={1: 20, 2: 8}, cost=0.4)
def dual(case):
    """boundary conditions of dual trace forms: trace mass matrix times the values of the primal form"""
    import numpy as np
    import fm
    if case['m']['id'] not in FLAT:
        case['m'] = {'id': 'crazy', 'kw': {'c': 0.1}, 'lay': case['m']['lay']}
    M, S, fc, nodes = fm.setup(case)
    names = sorted(M.boundaries.names)
    kind, hyb = case['forms'][0], case['hyb'][0]
    tag(kind)
    k = int(kind[1])
    CF = []
    for j in range(2):
        CF.append(mk_cf(fc, kind, case['u'][j], names, 3))
        CF[j].current_time = 0.
    time = [0., 0.]
    a = fc('%d-adt' % k)
    mm = fc('%d-t' % k, hybrid=True).matrices.mass_TEW
    sel, cf = None, None
    for step, (o, x, b, rd) in enumerate(case['ops']):
        if o in ('bnd', 'rebnd') or sel is None:
            arg, sel = select(names, x, b)
            a.BC.boundaries = sel if arg == 'all' else arg
        if o == 'cf' or cf is None:
            cf = x % 2
            a.prime.BC.CF = CF[cf]
            ensure(a.BC.CF is CF[cf], 'function of the dual boundary condition')
        if o == 'time':
            j = x % 2
            time[j] = (x % 9) / 4. - 1.
            CF[j].current_time = time[j]
        if o == 'new':
            a = fc('%d-adt' % k)
            arg, sel = select(names, x, b)
            a.BC.boundaries = sel if arg == 'all' else arg
            a.prime.BC.CF = CF[cf]
        if not (rd or step == len(case['ops']) - 1):
            continue
        vals, bs, dofs, g = side_values(M, fc, kind, True, case['u'][cf], names, time[cf], 3)
        lo = a.BC.interpret.local
        want = {}
        for e, s, bn in bs:
            if bn in sel:
                te = M.trace.elements.map[e]['NSWEBF'.index(s)]
                want.setdefault(e, []).append(([int(_) for _ in dofs(s)], np.asarray(mm[te] @ vals[(e, s)]).ravel()))
        ensure(set(int(_) for _ in lo.dofs) == set(want) == set(int(_) for _ in lo.cochains), 'step %d: elements with prescribed dofs' % step)
        at = 1e-10 * max([1.] + [float(np.max(np.abs(v))) for v in vals.values()])
        for e in want:
            same_pairs(pairs(lo.dofs[e], lo.cochains[e]),
                       pairs([i for D, _ in want[e] for i in D], [i for _, v in want[e] for i in v]),
                       'step %d (%s): element %d of a dual %s form' % (step, o, e, kind), at)
        nontrivial(True)


@facet(P, 'integrate', gb, np={1: 1, 2: 1}, quick={1: 50, 2: 12}, cost=0.3)
def integrate(case):
    """boundary integrals of the basis functions against prescribed boundary-wise fields"""
    import numpy as np
    import fm
    import ref
    import topo
    from props import P12, P13
    d = case['d']
    M, S, fc, nodes = fm.setup(case)
    names = sorted(M.boundaries.names)
    p = [len(n) - 1 for n in nodes]
    SN = 'NSWEBF' if d == 3 else 'UDLR'
    U = [[fm.func(x) for x in case['u'][j]] for j in range(2)]
    nontrivial(max(p) > 1 or M.elements.global_num > 1)
    geo = ref.Geo(M)
    lt = d == 3 and case['form'] == 'lt'
    nq0 = max(p) + 9
    sel = names
    if lt:
        k = case['k']
        f = fc('%d-lt' % k, hybrid=False)          # only conforming local trace forms have a local gathering
        fs = dict((b, fm.wrap(U[0][i % 3], 3)) for i, b in enumerate(names))
        V = fc('scalar', fs)
        V.current_time = case['t'][0]
        f.BC.CF = V
        sel = [b for i, b in enumerate(names) if (case['sel'] >> i) & 1] or names[:1]
        f.BC.boundaries = sel
        bi = f.BC.interpret.boundary_integration
        tag('%d-lt' % k)
    elif d == 3:
        f = fc('1-f', hybrid=case['hyb'])
        V = fc('vector', dict((b, [fm.wrap(U[0][(i + c) % 3], 3) for c in range(3)]) for i, b in enumerate(names)))
        V.current_time = case['t'][0]
        bi = f.do.boundary_integrate(V, quad_degree=[nq0] * 3) if case['qd'] else f.do.boundary_integrate(V)
        tag('3d 1-form')
    else:
        f = fc('0-f-o', hybrid=case['hyb'])
        V = fc('scalar', dict((b, fm.wrap(U[0][i % 3], 2)) for i, b in enumerate(names)))
        V.current_time = case['t'][0]
        bi = f.do.boundary_integrate(V, quad_degree=[nq0, nq0 + 1]) if case['qd'] else f.do.boundary_integrate(V)
        tag('2d outer 0-form')
    sides = dict((int(e), [(i, s, M.elements.map[e][i]) for i, s in enumerate(SN) if M.elements.map[e][i] in sel])
                 for e in M.elements)

    def expected(e, t, nq, uu):
        out = np.zeros(f.num.basis)
        gx, gw = ref.gauss(nq)
        for i, s, b in sides[e]:
            a = i // 2
            gg = [gx] * d
            gg = [np.array([1. if i % 2 else -1.]) if j == a else gg[j] for j in range(d)]
            x, J = geo.ev(e, gg)
            w = np.ones(1)
            for j in range(d):
                if j != a:
                    w = np.kron(gw, w)
            q = names.index(b)
            if d == 2:
                ds = np.sqrt((J[:, 1 - a] ** 2).sum(axis=0))
                B = np.ones((1, 1))
                for j in range(2):
                    B = np.kron(ref.lag(nodes[j], gg[j]), B)
                out += B @ (uu[q % 3](t, *x) * w * ds)
                continue
            ds, n = P12.surf(J, a)
            if lt:
                B, _ = P12.trace_phys(nodes, k, a, [gx] * 3, J)
                L = P13.local_gather(p, k, True)[0][s] if k == 2 else np.asarray(f.numbering.local_gathering[s])
                np.add.at(out, L, B[0] @ (uu[q % 3](t, *x) * w * ds))
                continue
            B, _ = ref.pushed_basis(geo, int(e), nodes, 1, '', gg)
            for c in range(3):
                out += np.asarray(B[c]) @ (uu[(q + c) % 3](t, *x) * w * ds)
        return out
    hist = [(case['t'][0], U[0], None), (case['t'][1], U[0], 'time'), (case['t'][1], U[0], 'sel')]
    for t, uu, op in hist:
        if op == 'time':
            V.current_time = t
        if op == 'sel':
            if not lt:
                continue
            sel = names if len(sel) < len(names) else names[1:]
            f.BC.boundaries = sel
            sides = dict((int(e), [(i, s, M.elements.map[e][i]) for i, s in enumerate(SN) if M.elements.map[e][i] in sel])
                         for e in M.elements)
        for e in M.elements:
            v = bi[e].toarray().ravel()
            R = expected(int(e), t, 16, uu)
            R2 = expected(int(e), t, min(p) + 1, uu) if (lt or not case['qd']) else expected(int(e), t, 11, uu)
            close(v, R, 'boundary integral of element %d (%s) at t=%s' % (e, op, t), 0,
                  1e-9 * max(1., float(np.max(np.abs(R)))) + 20 * float(np.max(np.abs(R - R2))))
