# -*- coding: utf-8 -*-
"""P24: saving and reading."""
from kit import S as KS, facet, ensure, close, nontrivial, tag
import gens

RULE = ('case = list of objects (meshes, spaces, forms, dual forms; repeated ones allowed) saved in one file, read by the same or by another '
        'number of ranks; non-trivial: a form on a mesh of at least two elements')
P = 'P24'
F3 = ['0-f', '1-f', '2-f', '3-f', '0-t', '1-t', '2-t', '0-e', '0-adf', '1-adf', '2-adf', '3-adf', '0-adt', '1-adt', '2-adt']
FLAT = ['crazy', 'crazy_periodic', 'cuboid', 'cuboid_periodic', 'ct', 'bridge_arch_cracked']
F2 = ['0-f-i', '0-f-o', '1-f-i', '1-f-o', '2-f-i', '2-f-o', '1-t-o']


def g(draw, st):
    nd = draw(st.sampled_from([2, 3]))
    ms, edm = [], []
    for _ in range(draw(st.integers(1, 2))):
        m = gens.mesh3(draw, st, nmax=2, max_elements=6) if nd == 3 else gens.mesh2(draw, st, nmax=3, max_elements=10)
        m['kw'].pop('wave', None)  # functions cannot be pickled
        ms.append(gens.min2_periodic(m))
        edm.append(draw(st.sampled_from([None, None, 'chaotic', 'debug'] if nd == 3 else [None, None, 'debug'])))
    if len(ms) == 2 and draw(st.booleans()):
        ms[1] = dict(ms[0], lay=[1 + draw(st.integers(1, 2)) for _ in range(nd)])
    sps = [gens.space(draw, st, nd, 2, nd + 1) for _ in range(draw(st.integers(1, 2)))]
    objs = []
    if nd == 2 or all(m['id'] in FLAT for m in ms):
        ids = F3 if nd == 3 else F2
    else:
        ids = F3[:-3]
    for _ in range(draw(st.integers(1, 5))):
        o = draw(st.sampled_from(['mesh', 'space', 'form', 'form', 'form', 'form', 'again', 'prime']))
        if o in ('again', 'prime'):
            objs.append([o, draw(st.integers(0, 4))])
        elif o in ('mesh', 'space'):
            objs.append([o, draw(st.integers(0, 1))])
        else:
            objs.append([o, draw(st.integers(0, 1)), draw(st.integers(0, 1)), draw(st.sampled_from(ids)),
                         draw(st.booleans()), draw(st.sampled_from([None, 'inner', 'outer'])), draw(st.sampled_from([None, 'a', 'x form'])),
                         draw(st.booleans())])
    return {'m': ms, 'edm': edm, 'sp': sps, 'o': objs, 'seed': draw(st.integers(0, 99)), 'sel': draw(st.sampled_from([None, None, 3, 5, 6, 30])),
            'one': draw(st.booleans()), 'name': draw(st.sampled_from(['file', 'file.mi', 'my_file', 'f1.2'])), 'tuple': draw(st.booleans()),
            'twice': draw(st.booleans())}


def make(case):
    import numpy as np
    import fm
    import bld
    Ms = [bld.mk_mesh(m, e) for m, e in zip(case['m'], case['edm'])]
    Ss = [bld.mk_space(s) for s in case['sp']]
    fcs = {}
    out = []
    for n, o in enumerate(case['o']):
        if o[0] == 'mesh':
            out.append(Ms[o[1] % len(Ms)])
        elif o[0] == 'space':
            out.append(Ss[o[1] % len(Ss)])
        elif o[0] in ('again', 'prime'):
            if out:
                x = out[o[1] % len(out)]
                out.append(x.prime if o[0] == 'prime' and hasattr(x, 'prime') else x)
        else:
            i, j = o[1] % len(Ms), o[2] % len(Ss)
            if (i, j) not in fcs:
                fcs[(i, j)] = bld.mk_fc(Ms[i], Ss[j])
            fc, ID = fcs[(i, j)], o[3]
            kw = {}
            if o[4] or ID[-1] == 'e' or ID[-2:] in ('-t',) or ID == '1-t-o':
                pass
            elif 'ad' not in ID:
                kw['hybrid'] = bool(o[7])
            if o[5] and ID[1:] in ('-f', '-adf'):
                kw['orientation'] = o[5]
            if o[6]:
                kw['name'] = o[6]
            f = fc(ID, **kw)
            f = f
            pr = f.prime if 'ad' in ID else f
            M = Ms[i]
            pr.cochain.local = dict((e, fm.hval(np.arange(pr.num.basis), hkey(M, e), case['seed'] + n)) for e in M.elements)
            if 'ad' in ID and o[7]:
                f.cochain.local = dict((e, fm.hval(np.arange(pr.num.basis), hkey(M, e), case['seed'] + n + 7)) for e in M.elements)
            out.append(f)
    return Ms, Ss, out


def key(M, e):
    rn, loc = M.do.find.region_name_and_local_indices_of_element(e)
    return '%s|%s' % (rn, ','.join(str(int(_)) for _ in loc))


def hkey(M, e):
    import zlib
    return zlib.crc32(key(M, e).encode()) % 1000


def norm(x):
    """comparable form of parameters"""
    import numpy as np
    if isinstance(x, dict):
        return dict((str(k), norm(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, np.ndarray):
        return norm(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def summary(x):
    """what is known of an object, on all ranks the same and independent of the number of ranks"""
    from root.config.main import COMM
    c = x.__class__.__name__
    d = {'class': c}
    if not hasattr(x, 'cochain'):
        d['parameters'] = norm(x.standard_properties.parameters)
        if hasattr(x, 'domain'):
            d['names'] = [sorted(x.domain.regions.names), sorted(x.boundaries.names), int(x.elements.global_num)]
        else:
            d['p'] = norm(list(x.p))
            d['nodes'] = norm([list(n) for n in x.nodes])
            d['basis'] = norm(x.basises[0].isKronecker) if hasattr(x.basises[0], 'isKronecker') else 0
        return d
    pr = x.prime if hasattr(x, 'prime') else x
    M = x.mesh
    if pr is x:
        q = dict(x.standard_properties.parameters)
        q.pop('region_wise_cochain_local', None)
        d['parameters'] = norm(q)
    loc = {}
    for e in M.elements:
        loc[key(M, e)] = [float(_) for _ in pr.cochain.local[e]]
    allc = {}
    for a in COMM.allgather(loc):
        allc.update(a)
    d.update(cochain=allc, mesh=summary(M), space=summary(x.space), dofs=int(pr.num.global_dofs) if hasattr(pr.num, 'global_dofs') else 0,
             basis=int(pr.num.basis), hybrid=bool(pr.whether.hybrid) if hasattr(pr.whether, 'hybrid') else 0,
             orientation=str(getattr(pr, 'orientation', 0)), name=str(x.standard_properties.name) if pr is x else '', k=x.k)
    if pr is not x:
        loc = {}
        for e in M.elements:
            loc[key(M, e)] = [float(_) for _ in x.cochain.local[e]]
        allc = {}
        for a in COMM.allgather(loc):
            allc.update(a)
        d['dual'] = allc
    return d


def same(a, b, what):
    ensure(set(a) == set(b), what + ': kind of object')
    for k in a:
        if k in ('cochain', 'dual'):
            ensure(set(a[k]) == set(b[k]), '%s: elements of the %s' % (what, k))
            for e in a[k]:
                if k == 'cochain':
                    ensure(a[k][e] == b[k][e], '%s: cochain of element %s changed from %r to %r' % (what, e, a[k][e], b[k][e]))
                else:
                    close(b[k][e], a[k][e], '%s: dual cochain of element %s' % (what, e), 1e-9, 1e-10)
        elif k in ('mesh', 'space'):
            same(a[k], b[k], what + ': ' + k)
        else:
            ensure(a[k] == b[k], '%s: %s changed from %r to %r' % (what, k, a[k], b[k]))


def owner(o):
    return o if not hasattr(o, 'cochain') else o.mesh


def do_save(case, objs, fn):
    from root.save import save
    if len(objs) == 1 and case['one']:
        save(objs[0], fn)
    else:
        save(tuple(objs) if case['tuple'] else list(objs), fn)


def do_read(case, n, fn):
    from root.read.main import read
    sel = None if case['sel'] is None or n == 1 and case['one'] else [(case['sel'] >> i) & 1 for i in range(n)]
    got = read(fn, sel) if sel is not None else read(fn)
    if n == 1:
        got = (got,)
    ensure(isinstance(got, tuple) and len(got) == n, 'number of objects read')
    sel = sel or [1] * n
    for i in range(n):
        ensure((got[i] is None) == (not sel[i]), 'selection of objects to read')
    return got, sel


def filename(case):
    """the name save uses"""
    n = case['name']
    return 'f1_2' if n == 'f1.2' else n


@facet(P, 'same_ranks', g, np={1: 1, 2: 1, 3: 1}, quick={1: 50, 2: 30, 3: 12}, cost=0.15)
def same_ranks(case):
    """save, change, read back"""
    import numpy as np
    from root.config.main import COMM
    Ms, Ss, objs = make(case)
    if not objs:
        return
    nontrivial(any(hasattr(o, 'cochain') and o.mesh.elements.global_num > 1 for o in objs))
    tag('%d objects' % len(objs))
    before = [summary(o) for o in objs]
    do_save(case, objs, case['name'])
    after = [summary(o) for o in objs]
    for a, b in zip(before, after):
        same(a, b, 'saving')
    # changes after saving are not in the file
    for o in objs:
        if hasattr(o, 'cochain'):
            pr = o.prime if hasattr(o, 'prime') else o
            for e in o.mesh.elements:
                pr.cochain.local[e][:] = 77.
    for t in range(2 if case['twice'] else 1):
        got, sel = do_read(case, len(objs), filename(case))
        for i, o in enumerate(got):
            if o is None:
                continue
            same(before[i], summary(o), 'object %d (%s)' % (i, before[i]['class']))
            ensure(all(o is not x for x in objs), 'read gives the object that was saved')
            if not hasattr(o, 'cochain'):
                ensure(o == objs[i], 'the object read is not equal to the saved one')
                continue
            ensure(o.mesh == objs[i].mesh and o.space == objs[i].space, 'mesh and space read are not equal to the saved ones')
            pr = o.prime if hasattr(o, 'prime') else o
            p0 = objs[i].prime if hasattr(o, 'prime') else objs[i]
            if case['edm'][0] != 'chaotic' and case['edm'][-1] != 'chaotic':
                G, G0 = pr.numbering.gathering, p0.numbering.gathering
                for e in o.mesh.elements:
                    ensure([int(_) for _ in G[e]] == [int(_) for _ in G0[e]], 'numbering of the form read')
        # forms on one mesh stay together
        prev = None
        for i, o in enumerate(got):
            if o is None or not hasattr(o, 'cochain'):
                continue
            if prev is not None and owner(objs[prev]) is owner(objs[i]):
                if all(owner(objs[j]) is owner(objs[i]) or objs[j] in Ss for j in range(prev, i)):
                    ensure(got[prev].mesh is o.mesh, 'forms saved together do not share their mesh')
            prev = i
        ok = True
        for o in got:
            # what is read is independent of other things that are read
            if hasattr(o, 'cochain'):
                (o.prime if hasattr(o, 'prime') else o).cochain.local = dict(
                    (e, 5. + 0 * v) for e, v in (o.prime if hasattr(o, 'prime') else o).cochain.local.items())
        ensure(ok, '')
    COMM.barrier()


@facet(P, 'other_ranks', g, np={13: 1, 31: 1, 42: 1}, quick={13: 14, 31: 14, 42: 8}, cost=0.3)
def other_ranks(case):
    """saved by some ranks, read by another number of ranks"""
    import json
    import os
    from root.config.main import COMM, RANK
    cwd = os.getcwd()
    os.chdir(KS.dir)
    try:
        if KS.stage == 0:
            Ms, Ss, objs = make(case)
            if not objs:
                KS.out = []
                return
            KS.out = [summary(o) for o in objs]
            do_save(case, objs, case['name'])
            COMM.barrier()
            return
        before = KS.prev[0]
        if not before:
            return
        nontrivial(any('cochain' in b for b in before))
        got, sel = do_read(case, len(before), filename(case))
        for i, o in enumerate(got):
            if o is not None:
                same(before[i], json.loads(json.dumps(summary(o))), 'object %d (%s)' % (i, before[i]['class']))
        COMM.barrier()
    finally:
        os.chdir(cwd)
