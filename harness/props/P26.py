# -*- coding: utf-8 -*-
"""P26: discrete fields and exports."""
from kit import facet, ensure, close, nontrivial, reject, tag
import gens

RULE = ('case = mesh, spaces, forms, grid; non-trivial: at least two elements and at least two grid points')
P = 'P26'
F3 = ['0-f', '1-f', '2-f', '3-f']
F2 = ['0-f-i', '0-f-o', '1-f-i', '1-f-o', '2-f-i', '2-f-o']


def axis(draw, st, full, nmax=6):
    """grid points along an axis, in [0,1]"""
    n = draw(st.integers(1, nmax))
    p = sorted(set(draw(st.lists(st.sampled_from([i / 16 for i in range(17)] + [1 / 3, 0.1, 0.7]), min_size=n, max_size=n))))
    if full:
        p = sorted(set([0., 1.] + p))
    return p


def g(draw, st, nf=2):
    nd = draw(st.sampled_from([3, 2]))
    c = {'nd': nd}
    c['m'] = gens.min2_periodic(gens.mesh3(draw, st, nmax=3, max_elements=12) if nd == 3 else gens.mesh2(draw, st, nmax=4, max_elements=20))
    c['sp'] = gens.space(draw, st, nd, 2, nd + 1)
    c['edm'] = draw(st.sampled_from([None, None, 'chaotic']))
    c['f'] = [[draw(st.sampled_from(F3 if nd == 3 else F2)), draw(st.booleans())] for _ in range(draw(st.integers(1, nf)))]
    c['seed'] = draw(st.integers(0, 99))
    return c


def g_df(draw, st):
    c = g(draw, st)
    nd = c['nd']
    c['grids'] = [[axis(draw, st, draw(st.booleans())) for _ in range(nd)] for _ in range(draw(st.integers(1, 3)))]
    c['way'] = draw(st.sampled_from(['01', '11', 'dict', 'list', 'inplace']))
    # other discretizations of the same domain, and again
    c['other'] = [gens.axis_layout(draw, st, 3) for _ in range(nd)]
    c['third'] = draw(st.booleans())
    c['vtk'] = draw(st.booleans())
    c['same name'] = draw(st.booleans())
    return c


def make(case, lay=None):
    import fm
    import numpy as np
    c = dict(case)
    if lay is not None:
        c['m'] = dict(case['m'], lay=lay)
    M, S, fc, nodes = fm.setup(c)
    fs = []
    for i, (ID, hyb) in enumerate(case['f']):
        f = fc(ID, hybrid=hyb, name='f' if case.get('same name') else 'f%d' % i)
        if hyb:
            fm.rand_cochain(f, case['seed'] + i)
        else:
            G = f.numbering.gathering
            f.cochain.local = dict((e, np.array([fm.hval(int(q), i, case['seed']) for q in G[e]])) for e in M.elements)
        fs.append(f)
    return M, fs


def locate(M, e):
    rn, loc = M.do.find.region_name_and_local_indices_of_element(e)
    return rn, [int(_) for _ in loc]


def candidates(M, fs, grid):
    """region -> grid indices -> (coordinates, [values of every form per element around the point])"""
    import numpy as np
    from itertools import product
    from root.config.main import COMM
    d = M.ndim
    out = {}
    for e in M.elements:
        rn, loc = locate(M, e)
        sp = M.elements.spacing[rn]
        sel, xi = [], []
        for a in range(d):
            lo, hi = float(sp[a][loc[a]]), float(sp[a][loc[a] + 1])
            G = np.array(grid[rn][a], dtype=float)
            w = [i for i in range(len(G)) if lo - 1e-9 <= G[i] <= hi + 1e-9]
            sel.append(w)
            xi.append(np.clip((G[w] - lo) / (hi - lo) * 2 - 1, -1, 1))
        if any(len(w) == 0 for w in sel):
            continue
        vals = []
        for f in fs:
            x, v = f.reconstruct(*xi, element_range=e)
            vals.append([np.array(_) for _ in v[e]])
        x = [np.array(_) for _ in x[e]]
        for q in product(*[range(len(w)) for w in sel]):
            k = tuple(sel[a][q[a]] for a in range(d))
            out.setdefault((rn, k), []).append([[float(_[q]) for _ in x], [[float(_[q]) for _ in v] for v in vals]])
    full = {}
    for o in COMM.allgather(out):
        for k in o:
            full.setdefault(k, []).extend(o[k])
    return full


def scale_of(full):
    return max([1.] + [abs(v) for c in full.values() for _, vals in c for V in vals for v in V])


def one_of(v, options, tol, msg):
    d = min(max(abs(a - b) for a, b in zip(v, o)) for o in options)
    ensure(d <= tol, '%s: %r is not one of %r' % (msg, v, options[:4]))


def grid_of(M, G):
    return dict((rn, G) for rn in M.domain.regions.names)


def check_df(df, n, M, fs, full, grid, tol):
    import numpy as np
    from itertools import product
    from root.config.main import COMM
    d = M.ndim
    owned = COMM.allgather(sorted(df.regions))
    ensure(sorted(r for o in owned for r in o) == sorted(M.domain.regions.names), 'regions of a discrete field over the ranks: %r' % owned)
    ensure(set(df.coordinates) == set(df.values) == set(df.regions), 'data of other regions')
    ensure(df.vdim == len(next(iter(full.values()))[0][1][n]), 'number of components')
    for rn in df.regions:
        shape = tuple(len(_) for _ in grid[rn])
        x, v = df.coordinates[rn], df.values[rn]
        ensure(all(np.shape(_) == shape for _ in x) and all(np.shape(_) == shape for _ in v), 'shape of the data')
        ensure(len(x) == d and len(v) == df.vdim, 'number of arrays')
        R = M.domain.regions[rn].interpolation.mapping(*[_.ravel() for _ in np.meshgrid(*grid[rn], indexing='ij')])
        for a in range(d):
            close(x[a].ravel(), np.array(R[a]).ravel(), 'coordinates %d in %s' % (a, rn), 0, tol)
            close(df.grid[rn][a], np.array(grid[rn][a], dtype=float), 'grid of the discrete field', 0, 1e-14)
        for k in product(*[range(i) for i in shape]):
            c = full[(rn, k)]
            one_of([float(_[k]) for _ in v], [o[1][n] for o in c], tol, 'value of form %d at %r in %s' % (n, k, rn))


def clean(name):
    import os
    import shutil
    from root.config.main import COMM, RANK
    COMM.barrier()
    if RANK == 0:
        if os.path.isdir(name):
            shutil.rmtree(os.path.abspath(name))
        elif os.path.isfile(name):
            os.remove(name)
    COMM.barrier()


def names_of(fs):
    out = []
    for f in fs:
        n = b = str(f.standard_properties.name)
        j = 0
        while n in out:
            j += 1
            n = '%s_%d' % (b, j)
        out.append(n)
    return out


@facet(P, 'discrete', g_df, np={1: 2, 2: 2, 3: 1, 5: 1}, quick={1: 18, 2: 10, 3: 8, 5: 6}, cost=0.3, timeout=150)
def discrete(case):
    """discrete fields, and the structured export made from them, of forms on several meshes and grids"""
    import os
    import numpy as np
    import fm
    from root.config.main import COMM, RANK
    loose = fm.tol(case['m'], 1e-9, 1e-5)
    worlds = [make(case)]
    lay = list(case['other'])
    m2 = gens.min2_periodic({'id': case['m']['id'], 'kw': case['m']['kw'], 'lay': lay})
    if np.prod([gens.layout_len(a) for a in m2['lay']]) <= 12:
        worlds.append(make(case, m2['lay']))
    d = case['nd']
    way = case['way']
    tag(way + ' ' + ' '.join(i for i, _ in case['f']))
    buf = None
    order = [(i, w) for i in range(len(case['grids'])) for w in range(len(worlds))]
    if case['third']:
        order = order + order[:1]
    for gi, w in order:
        M, fs = worlds[w]
        names = list(M.domain.regions.names)
        G = case['grids'][gi]
        nontrivial(M.elements.global_num > 1 and any(len(a) > 1 for a in G))
        grid = grid_of(M, G)
        arg = [np.array(a) for a in G]
        if way == '11':
            # only a negative entry makes it a grid in [-1, 1]
            arg = [2 * a - 1 if a[0] < 0.5 else a for a in arg]
        elif way == 'list':
            arg = [a[0] if len(a) == 1 else list(a) for a in G]
        elif way == 'dict':
            grid = dict((rn, [a[i % 2:] if len(a) > 1 else a for a in G]) for i, rn in enumerate(names))
            arg = dict((rn, [np.array(a) for a in grid[rn]]) for rn in names)
        elif way == 'inplace':
            if buf is None or any(len(a) != len(b) for a, b in zip(buf, G)):
                buf = [np.array(a) for a in G]
            else:
                for a, b in zip(buf, G):
                    a[:] = b
            arg = buf
        full = candidates(M, fs, grid)
        tol = loose * scale_of(full) * 100
        for n, f in enumerate(fs):
            df = f.reconstruct.discrete_field(arg)
            check_df(df, n, M, fs, full, grid, tol)
        if case['vtk'] and (gi, w) == order[-1]:
            from objects.CSCG.tools.gridToVTK import gridToVTK
            path = 'p26dir'
            clean(path)
            try:
                gridToVTK(arg, fs if len(fs) > 1 or case['third'] else fs[0], path)
                COMM.barrier()
                if RANK == 0:
                    ensure(sorted(os.listdir(path)) == sorted('region_%s.vts' % rn[2:] for rn in names), 'files %r' % sorted(os.listdir(path)))
                    for rn in names:
                        read_vts('%s/region_%s.vts' % (path, rn[2:]), rn, grid, full, fs, names_of(fs), M, tol)
            finally:
                clean(path)


def read_vts(file, rn, grid, full, fs, names, M, tol):
    import vtk
    from vtk.util.numpy_support import vtk_to_numpy
    from itertools import product
    r = vtk.vtkXMLStructuredGridReader()
    r.SetFileName(file)
    r.Update()
    o = r.GetOutput()
    d = M.ndim
    shape = [len(_) for _ in grid[rn]] + [1] * (3 - d)
    ext = o.GetExtent()
    dims = [ext[2 * a + 1] - ext[2 * a] + 1 for a in range(3)]
    ensure(dims == shape, 'dimensions %r of %s, not %r' % (dims, file, shape))
    pts = vtk_to_numpy(o.GetPoints().GetData())
    pd = o.GetPointData()
    ensure(sorted(pd.GetArrayName(i) for i in range(pd.GetNumberOfArrays())) == sorted(names), 'names of the data in %s' % file)
    arr = [vtk_to_numpy(pd.GetArray(n)) for n in names]
    for k in product(*[range(i) for i in shape]):
        i = k[0] + shape[0] * (k[1] + shape[1] * k[2])
        c = full[(rn, k[:d])]
        close(list(pts[i]), c[0][0] + [0.] * (3 - d), 'point %r of %s' % (k, file), 0, tol)
        for n in range(len(fs)):
            m = len(c[0][1][n])
            v = [float(_) for _ in arr[n][i].ravel()]
            if m > 1:
                ensure(len(v) == 3 and all(abs(_) < 1e-14 for _ in v[m:]), 'components of the data')
            one_of(v[:m], [q[1][n] for q in c], tol, 'data %s at %r of %s' % (names[n], k, file))


# ------------------------------------------------------------------------------------------------------------------
def g_un(draw, st):
    c = g(draw, st, 3)
    inner = draw(st.sampled_from([[0.5], [0.25, 0.75], [0.125, 0.5, 0.875], [1 / 3, 2 / 3]] if c['nd'] == 2 else [[0.5], [0.25, 0.75]]))
    c['axis'] = [0.] + inner + [1.]
    c['one'] = draw(st.booleans())
    return c


@facet(P, 'unstructured', g_un, np={1: 2, 2: 1, 4: 1}, quick={1: 12, 2: 8, 4: 8}, cost=0.5, timeout=150)
def unstructured(case):
    """the unstructured export"""
    import os
    import numpy as np
    import fm
    from itertools import product
    from root.config.main import COMM, RANK
    from objects.CSCG.tools.unstructuredGridToVTK import unstructuredGridToVTK
    loose = fm.tol(case['m'], 1e-9, 1e-5)
    M, fs = make(case)
    d = case['nd']
    names = list(M.domain.regions.names)
    ax = case['axis']
    n = len(ax)
    grid = grid_of(M, [ax] * d)
    nontrivial(M.elements.global_num > 1)
    tag(case['m']['id'] + ' ' + ' '.join(i for i, _ in case['f']))
    full = candidates(M, fs, grid)
    tol = loose * scale_of(full) * 100
    file = 'p26un'
    clean(file + '.vtu')
    try:
        arg = [np.array(ax) for _ in range(d)]
        single = len(fs) == 1 and case['one']
        path = unstructuredGridToVTK(arg, fs[0] if single else fs, file)
        ensure(isinstance(path, str) and os.path.isfile(path), 'path %r' % path)
        if RANK == 0:
            import vtk
            from vtk.util.numpy_support import vtk_to_numpy
            from scipy.spatial import cKDTree
            r = vtk.vtkXMLUnstructuredGridReader()
            r.SetFileName(file + '.vtu')
            r.Update()
            o = r.GetOutput()
            total = len(names) * (n - 1) ** d
            ensure(o.GetNumberOfCells() == total, '%d cells instead of %d' % (o.GetNumberOfCells(), total))
            pts = vtk_to_numpy(o.GetPoints().GetData())
            pd = o.GetPointData()
            vn = names_of(fs)
            ensure(sorted(pd.GetArrayName(i) for i in range(pd.GetNumberOfArrays())) == sorted(vn), 'names of the data')
            arr = [vtk_to_numpy(pd.GetArray(q)) for q in vn]
            corners = [q[::-1] for q in product(*[[0, 1]] * d)]
            cells, cent = [], []
            for rn in names:
                for k in product(*[range(n - 1)] * d):
                    K = [tuple(a + b for a, b in zip(k, q)) for q in corners]
                    X = [full[(rn, q)][0][0] for q in K]
                    cells.append((rn, K, X))
                    cent.append(np.mean(X, axis=0))
            tree = cKDTree(np.array(cent))
            seen = set()
            for i in range(total):
                cell = o.GetCell(i)
                T = o.GetCellType(i)
                ids = [cell.GetPointId(j) for j in range(cell.GetNumberOfPoints())]
                ensure(len(ids) == 2 ** d, 'number of nodes of a cell')
                if T in (9, 12):
                    ids = [ids[j] for j in ([0, 1, 3, 2] if d == 2 else [0, 1, 3, 2, 4, 5, 7, 6])]
                else:
                    ensure(T == (8 if d == 2 else 11), 'type %r of a cell' % T)
                x = [list(pts[j]) for j in ids]
                w, at = tree.query(np.mean([_[:d] for _ in x], axis=0))
                ensure(w <= tol, 'cell %d is no cell of the grid: %r' % (i, x))
                ensure(int(at) not in seen, 'a cell twice')
                seen.add(int(at))
                rn, K, X = cells[int(at)]
                for j in range(2 ** d):
                    close(x[j], X[j] + [0.] * (3 - d), 'node %d of cell %d' % (j, i), 0, tol)
                    for q in range(len(fs)):
                        m = len(full[(rn, K[j])][0][1][q])
                        v = [float(_) for _ in arr[q][ids[j]].ravel()][:m]
                        near = [c[1][q] for c in full[(rn, K[j])]]
                        if case['f'][q][0][0] != '0' or case['f'][q][1]:
                            # more regions may meet there
                            near = near + [c[1][q] for key in full for c in full[key]
                                           if max(abs(a - b) for a, b in zip(c[0], X[j])) < 1e-6]
                            if len(v) > 1:
                                # (exactly zero components do not replace those of another element)
                                for z in range(len(v)):
                                    one_of([v[z]], [[u[z]] for u in near], tol, 'component %d of %s at node %d of cell %d' % (z, vn[q], j, i))
                                continue
                        one_of(v, near, tol, 'data %s at node %d of cell %d' % (vn[q], j, i))
    finally:
        clean(file + '.vtu')


# ------------------------------------------------------------------------------------------------------------------
def g_file(draw, st):
    c = {'nd': 3, 'm': gens.min2_periodic(gens.mesh3(draw, st, nmax=3, max_elements=12)), 'sp': gens.space(draw, st, 3, 2, 4),
         'edm': draw(st.sampled_from([None, None, 'chaotic'])), 'f': [[draw(st.sampled_from(F3)), draw(st.booleans())]],
         'seed': draw(st.integers(0, 99)), 'ext': draw(st.sampled_from(['', '.txt', '.mat'])),
         'n': draw(st.one_of(st.integers(1, 300), st.lists(st.integers(1, 300), min_size=3, max_size=3))),
         'sel': draw(st.integers(0, 255)), 'way': draw(st.sampled_from(['none', 'one', 'list']))}
    return c


@facet(P, 'file', g_file, np={1: 1, 2: 1, 3: 1}, quick={1: 12, 2: 8, 3: 8}, cost=0.2, timeout=100)
def to_file(case):
    """the field of a form in a text or mat file"""
    import os
    import numpy as np
    from root.config.main import COMM, RANK
    M, (f,) = make(case)
    names = sorted(M.domain.regions.names)
    if case['way'] == 'none':
        sel, arg = names, None
    elif case['way'] == 'one':
        sel = [names[case['sel'] % len(names)]]
        arg = sel[0]
    else:
        sel = [r for i, r in enumerate(names) if (case['sel'] >> i) & 1] or names[:1]
        arg = sel
    N = M.elements.global_num
    nontrivial(N > 1)
    n = case['n'] if isinstance(case['n'], list) else [case['n']] * 3
    xi = []
    for a in range(3):
        k = int((n[a] / N) ** (1 / 3)) + 1
        xi.append(np.linspace(-1 + 1 / k, 1 - 1 / k, k))
    data = {}
    x, v = f.reconstruct(*xi)
    for e in M.elements:
        data[locate(M, e)[0], tuple(locate(M, e)[1])] = [np.array(_) for _ in list(x[e]) + list(v[e])]
    full = {}
    for o in COMM.allgather(data):
        full.update(o)
    base = 'p26f'
    vec = case['f'][0][0][0] in '12'
    tail = '__x_y_z_vx_vy_vz' if vec else '__x_y_z_v'
    ext = case['ext'] or '.txt'
    files = dict((rn, '%s__InRegion_%s%s%s' % (base, rn[2:], tail, ext)) for rn in names)
    for rn in names:
        clean(files[rn])
    try:
        f.export.field.to_file(base + case['ext'], numOfSamples=case['n'], regions=arg)
        COMM.barrier()
        if RANK == 0:
            for rn in names:
                ensure(os.path.isfile(files[rn]) == (rn in sel), 'file of region %s (%r)' % (rn, sel))
                if rn not in sel:
                    continue
                L = [max(q[1][a] for q in full if q[0] == rn) + 1 for a in range(3)]
                s = [len(_) for _ in xi]
                want = [np.zeros([L[a] * s[a] for a in range(3)]) for _ in range(6 if vec else 4)]
                for (r, (i, j, k)), D in full.items():
                    if r == rn:
                        for w, b in zip(want, D):
                            w[i * s[0]:(i + 1) * s[0], j * s[1]:(j + 1) * s[1], k * s[2]:(k + 1) * s[2]] = b
                if ext == '.txt':
                    got = np.loadtxt(files[rn], ndmin=2)
                    ensure(got.shape == (want[0].size, len(want)), 'shape of the data')
                    got = [got[:, c] for c in range(len(want))]
                else:
                    from scipy.io import loadmat
                    G = loadmat(files[rn])
                    got = [np.array(G[q]).reshape(want[0].shape).ravel('F') for q in (['x', 'y', 'z', 'vx', 'vy', 'vz'] if vec else ['x', 'y', 'z', 'v'])]
                for c, (a, b) in enumerate(zip(got, want)):
                    close(a, b.ravel('F'), 'column %d of region %s' % (c, rn), 1e-11, 1e-11)
    finally:
        for rn in names:
            clean(files[rn])


# ------------------------------------------------------------------------------------------------------------------
def g_por(draw, st):
    c = g(draw, st, 1)
    c['nd'] = 2
    c['m'] = gens.min2_periodic(gens.mesh2(draw, st, ['rectangle', 'crazy', 'rectangle_periodic'], nmax=3, max_elements=18))
    c['m']['kw'].pop('c', None)
    if c['m']['id'] == 'crazy':
        c['m']['kw']['c'] = 0.
    c['sp'] = gens.space(draw, st, 2, 2, 3)
    c['f'] = [[draw(st.sampled_from(F2)), True]]
    c['grid'] = [axis(draw, st, draw(st.booleans()), 8) for _ in range(2)]
    c['lo'] = [draw(st.sampled_from([-1.01, -0.51, -0.26, 0.01, 0.01, 0.33])) for _ in range(2)]
    c['wide'] = [draw(st.sampled_from([0.2, 0.55, 1.3, 20.])) for _ in range(2)]
    return c


@facet(P, 'portion', g_por, np={1: 1, 2: 1}, quick={1: 15, 2: 10}, cost=0.15, timeout=100)
def portion(case):
    """the part of a discrete field in a rectangle"""
    import numpy as np
    from root.config.main import COMM
    M, (f,) = make(case)
    df = f.reconstruct.discrete_field([np.array(a) for a in case['grid']])
    rng = [[a, a + b] for a, b in zip(case['lo'], case['wide'])]
    some = any(bool(((df.coordinates[rn][0] >= rng[0][0]) & (df.coordinates[rn][0] <= rng[0][1]) &
                     (df.coordinates[rn][1] >= rng[1][0]) & (df.coordinates[rn][1] <= rng[1][1])).any()) for rn in df.regions)
    if not COMM.allreduce(some):
        reject('no points in the range')
    p = df.portion.xy_range(*rng)
    nontrivial(M.elements.global_num > 1 and len(case['grid'][0]) * len(case['grid'][1]) > 3)
    got = 0
    for rn in df.regions:
        x, y = df.coordinates[rn]
        w = (x >= rng[0][0]) & (x <= rng[0][1]) & (y >= rng[1][0]) & (y <= rng[1][1])
        if not w.any():
            ensure(rn not in p.regions, 'region %s without points in the range' % rn)
            continue
        got += 1
        ensure(rn in p.regions, 'region %s with points in the range is missing' % rn)
        I = np.where(w.any(axis=1))[0]
        J = np.where(w.any(axis=0))[0]
        for a, b in zip(list(p.coordinates[rn]) + list(p.values[rn]), list(df.coordinates[rn]) + list(df.values[rn])):
            ensure(a.shape == (len(I), len(J)), 'shape of a portion')
            close(a, b[np.ix_(I, J)], 'data of a portion', 0, 1e-14)
    ensure(len(p.regions) == got, 'regions of a portion')
    ensure(p.mesh is M, 'mesh of a portion')
    COMM.barrier()
