"""C05: the numbering glues exactly the geometrically identical dofs; inverse queries agree with it."""
import numpy as np
from scipy.spatial import cKDTree
from vm import configs as C
from vm import geo as G
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (mesh, degree, space)',
    assumptions=['a dof is identified by the physical midpoint of its cell (cells of one space have distinct midpoints)',
                 'periodic configurations have period 1 in every axis'],
    note='Observes gathering matrices and every inverse query of both implementations against midpoints of dof cells. Forms of several degrees share one mesh and are judged in turn (the first again after the others).',
    must_observe=['several degrees', 'bijection', 'glue', 'euler', 'locations', 'representative', 'chained', 'local-dofs', 'face-dofs', 'boundary', 'dof-geometry',
                  'assemble'])


def cell_mid(d, e, cells):
    x = np.array([(lo + hi) / 2 for lo, hi, _ in cells]).T
    return d.mapping(e, *x).T


def identities(d, key, nodes, per):
    """(element, local) list, entity number per entry, count"""
    pts, where = [], []
    for e in d.elements:
        cells = G.dof_cells(nodes, *key, d.n, G.is_tri(d, e))
        pts.append(cell_mid(d, e, cells))
        where += [(e, i) for i in range(len(cells))]
    pts = np.concatenate(pts)
    if per:
        pts = np.mod(pts, 1.)
        pts[pts > 1 - 1e-6] = 0.
    # the axes of the cell do not matter: midpoints of distinct cells of a space are distinct
    tree = cKDTree(pts)
    num = -np.ones(len(pts), int)
    n = 0
    for i in range(len(pts)):
        if num[i] < 0:
            num[tree.query_ball_point(pts[i], 1e-5)] = n
            n += 1
    return where, num, n, pts


def euler(d, key, nodes):
    """expected number of dofs of structured single-block meshes"""
    conf = d.conf
    K = conf.get('K')
    if K is None:
        return None
    k, o = key
    n = d.n
    cell = [K[a] * (len(nodes[a]) - 1) for a in range(n)]
    per = conf.get('periodic')
    import itertools
    tot = 0
    for al in itertools.combinations(range(n), k):
        v = 1
        for a in range(n):
            v *= cell[a] if (a in al or per) else cell[a] + 1
        tot += v
    return tot


KS = dict(py1=[5], py1p=[4], py2=[3, 4], py2o=[3, 2], py2p=[3, 3], py3=[2, 3, 2], py3o=[2, 1, 3], py3p=[3, 2, 2], py2m=[4, 6], py3m=[2, 2, 2],
          ht2=[3, 2], ht2o=[2, 3], ht2p=[3, 3], ht2op=[3, 4], ht3=[2, 3, 2], ht3o=[2, 2, 3], ht3p=[3, 3, 3], ht3pc=[3, 3, 3], rq=[3, 3], rqn=[2, 3],
          py2mp=[4, 4], py1s=[1], py2s=[3, 1], py2s1=[1, 1], py2s2=[1, 2], ht2s=[1, 3])
for _c, _k in KS.items():
    C.CONF[_c]['K'] = _k


def run(ctx, conf, p, rep=0, d=None):
    d = d or C.build(conf, p, rng=np.random.default_rng([ctx.seed, rep, 31]))
    n, rng = d.n, ctx.rng
    nodes = G.nodes_of(p, n)
    per = bool(d.conf.get('periodic'))
    allgm = {}
    for key in S.SPACES[n]:
        ctx.case(conf, f'p={p}', key)
        try:
            gm = d.gm(key)
        except NotImplementedError:
            ctx.event('numbering not offered')
            continue
        N = d.ndofs(key)
        where, num, cnt, pts = identities(d, key, nodes, per)
        g = np.concatenate([gm[e] for e in d.elements])
        if not ctx.eq(len(g), len(num), 'local-count'):
            continue
        allgm[key] = gm
        ctx.true(np.array_equal(np.unique(g), np.arange(N)), 'bijection', f'{len(np.unique(g))} numbers used of {N}, max {g.max()}')
        ctx.eq(N, cnt, 'euler', 'number of dofs vs distinct entities')
        ex = euler(d, key, nodes)
        if ex is not None:
            ctx.eq(N, ex, 'euler', f'number of dofs vs the count of {key}-cells')
        a = {}
        b = {}
        for w, i, j in zip(where, num, g):
            if not ctx.true(a.setdefault(i, j) == j, 'glue', f'{w}: one entity, two numbers {a[i]} {j}'):
                break
            if not ctx.true(b.setdefault(j, i) == i, 'glue', f'{w}: number {j} for two entities'):
                break
        places = {}
        for w, j in zip(where, g):
            places.setdefault(int(j), []).append(w)
        (inverse_ht if d.impl == 'msehtt' else inverse_py)(ctx, d, key, gm, N, places, rng)
        boundary(ctx, d, key, gm, nodes, per)
        if d.impl == 'msehtt':
            dof_geometry(ctx, d, key, nodes, rng)
    chained(ctx, d, allgm, rng)
    for ev in ('representative', 'boundary', 'dof-geometry', 'face-dofs', 'chained', 'locations', 'local-dofs'):
        ctx.event(ev, 0) if ev in ctx.events else ctx.event(ev, 1)


def inverse_ht(ctx, d, key, gm, N, places, rng):
    GM = d.F[key].cochain.gathering_matrix
    ctx.eq(GM.num_rank_dofs, N, 'locations', 'num_rank_dofs')
    ctx.eq((GM.num_global_elements, GM.num_rank_elements, len(GM)), (len(d.elements),) * 3, 'locations', 'elements')
    pick = [int(i) for i in rng.permutation(N)[:12]]
    for i in pick:
        want = sorted(places[i])
        ctx.eq(sorted(GM.find_rank_locations_of_global_dofs(i)[i]), want, 'locations', f'dof {i}')
        neg = GM.find_rank_locations_of_global_dofs(i - N)
        ctx.eq(sorted(neg[i]), want, 'locations', f'dof {i - N} of {N}')
        ctx.eq(GM.num_global_locations(i), len(want), 'locations', f'count of dof {i}')
        r, e = GM.find_representative_location(i)
        ctx.true(r == 0 and e in [w[0] for w in want], 'representative', f'dof {i}: {r, e} not among {want}')
    for sub in (pick[:5], pick[3:9], tuple(pick[1:2]), pick[::-1]):
        got = GM.find_rank_locations_of_global_dofs(sub)
        ctx.eq({k: sorted(v) for k, v in got.items()}, {i: sorted(places[i]) for i in sub}, 'locations', 'list')
    es = [d.elements[i] for i in rng.integers(0, len(d.elements), 6)]
    ls = [int(rng.integers(0, len(gm[e]))) for e in es]
    got = GM.find_global_numbering_of_local_dofs(es, ls)
    for e, l in zip(es, ls):
        ctx.eq(int(got[(e, l)]), int(gm[e][l]), 'local-dofs', f'{e, l}')
        ctx.eq(GM.num_local_dofs(e), len(gm[e]), 'local-dofs')
    v = rng.standard_normal(N)
    ctx.close(GM.assemble({e: v[gm[e]] for e in d.elements}), v, 'assemble', 0)
    ctx.true(GM == d.F[key].cochain.gathering_matrix, 'assemble', 'equal to itself')


def inverse_py(ctx, d, key, gm, N, places, rng):
    GM = d.F[key].cochain.gathering_matrix
    ctx.eq((GM.num_dofs, GM.num_elements, GM.num_local_dofs), (N, len(d.elements), len(gm[0])), 'locations', 'sizes')
    pick = [int(i) for i in rng.permutation(N)[:12]]
    for i in pick + [i - N for i in pick[:3]]:
        es, ls = GM._find_elements_and_local_indices_of_dofs(i)[i % N]
        ctx.eq(sorted(zip(map(int, es), map(int, ls))), sorted(places[i % N]), 'locations', f'dof {i}')
    got = GM._find_elements_and_local_indices_of_dofs(pick)
    for i in pick:
        ctx.eq(sorted(zip(map(int, got[i][0]), map(int, got[i][1]))), sorted(places[i]), 'locations', f'list, dof {i}')
    es = [int(i) for i in rng.integers(0, len(d.elements), 4)]
    ls = [[int(j) for j in rng.permutation(len(gm[0]))[:3]] for _ in es]
    got = GM._find_global_numbering(es, ls)
    ctx.eq([int(i) for i in got], sorted({int(gm[e][j]) for e, l in zip(es, ls) for j in l}), 'local-dofs')
    v = rng.standard_normal(N)
    ctx.close(GM.assemble(np.array([v[gm[e]] for e in d.elements])), v, 'assemble', 0)
    ctx.event('representative')


def face_cells(cells, axis, side):
    """local dofs whose cell lies in the face"""
    return sorted(i for i, (lo, hi, al) in enumerate(cells) if axis not in al and abs(lo[axis] - side) < 1e-12)


FACE_TRI = {0: (1, -1), 1: (0, 1), 2: (1, 1)}


def boundary(ctx, d, key, gm, nodes, per):
    k, o = key
    n = d.n
    if k == n and d.impl == 'msehtt':
        return
    # every element face
    for e in d.elements[:6]:
        tri = G.is_tri(d, e)
        cells = G.dof_cells(nodes, k, o, n, tri)
        faces = FACE_TRI if tri else {2 * a + s: (a, 2 * s - 1) for a in range(n) for s in (0, 1)}
        for f, (a, s) in faces.items():
            want = face_cells(cells, a, s)
            if tri and k == 0 and f in (0, 2):
                want = sorted(set(want) | {0})
            if d.impl == 'msehtt':
                ind = f'm{n}n{n}k{k}' + (f'_{o}' if n == 2 and k == 1 else '')
                try:
                    got = d.tgm.elements[e].find_local_dofs_on_face(ind, d.p, f)
                except (NotImplementedError, AssertionError):
                    ctx.event('face dofs not offered')
                    continue
                got = sorted({int(i) for i in np.ravel(got)})
            else:
                if k == n:
                    continue
                try:
                    got = sorted({int(i) for i in np.ravel(d.F[key]._find_local_dofs_on(a, (s + 1) // 2))})
                except NotImplementedError:
                    continue
            if n == 3 and k == 1:
                pass
            ctx.eq(got, want, 'face-dofs', f'element {e} face {f} {key}')
    bm = d.obj.get('bm')
    if d.impl == 'msehtt' and bm is not None and not per:
        try:
            loc = bm.find_dofs(d.F[key], local=True) if not hasattr(bm, 'composition') else bm.composition.find_dofs(d.F[key], local=True)
        except (NotImplementedError, AssertionError) as ex:
            ctx.event('boundary dofs not offered')
            return
        faces = list(bm if not hasattr(bm, 'composition') else bm.composition)
        want = {}
        for e, f in faces:
            tri = G.is_tri(d, e)
            cells = G.dof_cells(nodes, k, o, n, tri)
            a, s = FACE_TRI[f] if tri else (f // 2, 2 * (f % 2) - 1)
            w = face_cells(cells, a, s) + ([0] if tri and k == 0 and f in (0, 2) else [])
            want.setdefault(e, set()).update(w)
        ctx.eq({e: [int(i) for i in v] for e, v in loc.items()}, {e: sorted(v) for e, v in want.items()}, 'boundary', f'{key}')
        # exactly the dofs on the boundary: those of codimension-one cells held by one element
        if k == n - 1:
            cnt = np.zeros(d.ndofs(key), int)
            for e in d.elements:
                np.add.at(cnt, gm[e], 1)
            glob = sorted({int(gm[e][i]) for e, v in loc.items() for i in v})
            want = set()
            for e in d.elements:
                tri = G.is_tri(d, e)
                cells = G.dof_cells(nodes, k, o, n, tri)
                fc = FACE_TRI.values() if tri else [(a, s) for a in range(n) for s in (-1, 1)]
                for a, s in fc:
                    want |= {int(gm[e][i]) for i in face_cells(cells, a, s) if cnt[gm[e][i]] == 1}
            ctx.eq(glob, sorted(want), 'boundary', f'boundary = faces held by one element, {key}')


def coords(g):
    return np.array(g.coo if hasattr(g, 'coo') else g._coo, float)


def dof_geometry(ctx, d, key, nodes, rng):
    k, o = key
    n = d.n
    from phyem.tools.miscellaneous.geometries import m3n3
    for e in d.elements[:4]:
        et = d.etype(e)
        if et not in (9, 'orthogonal rectangle', 'orthogonal hexahedron'):
            continue
        cells = G.dof_cells(nodes, k, o, n)
        for i in rng.permutation(len(cells))[:6]:
            i = int(i)
            lo, hi, al = cells[i]
            try:
                g = d.F[key].space.find_dof_geometry.local_dof(d.p, e, i)
            except NotImplementedError:
                ctx.event('dof geometry not offered')
                continue
            A, B = d.mapping(e, *lo[:, None])[:, 0], d.mapping(e, *hi[:, None])[:, 0]
            det = f'element {e} local dof {i} {key}: {g}'
            if n == 2:
                if k == 0:
                    ctx.close([g.x, g.y], A, 'dof-geometry', 1e-7, det)
                elif k == 1:
                    q = np.array([[g.A.x, g.A.y], [g.B.x, g.B.y]])
                    ctx.true(min(abs(q - [A, B]).max(), abs(q - [B, A]).max()) < 1e-7, 'dof-geometry', f'{det} instead of {A} {B}')
                else:
                    q = np.array([[v.x, v.y] for v in g])
                    c = d.mapping(e, np.array([lo[0], hi[0], hi[0], lo[0]]), np.array([lo[1], lo[1], hi[1], hi[1]])).T
                    ok = any(np.allclose(np.roll(cc, r, 0), q, atol=1e-7) for cc in (c, c[::-1]) for r in range(4)) if len(q) == 4 else False
                    ctx.true(ok, 'dof-geometry', f'{det}: {q.tolist()} instead of {c.tolist()}')
            else:
                A, B = [float(x) for x in A], [float(x) for x in B]
                D = [b - a for a, b in zip(A, B)]
                if k == 0:
                    ref = m3n3.Point3(*A)
                elif k == 1:
                    ref = m3n3.OrthogonalSegment3('xyz'[al[0]], m3n3.Point3(*A), D[al[0]])
                elif k == 2:
                    c = ({0, 1, 2} - set(al)).pop()
                    D[c] = 0
                    ref = m3n3.PerpRectangle('xyz'[c], A, D)
                else:
                    ref = m3n3.OrthogonalHexahedron(A, D)
                ctx.true(type(g) is type(ref) and g == ref, 'dof-geometry', det)
    if k == 0 and n == 2 and all(d.etype(e) in (9, 'orthogonal rectangle') for e in d.elements):
        try:
            info = d.F[key].space.local_dofs(d.p)
        except NotImplementedError:
            return
        for e in d.elements:
            cells = G.dof_cells(nodes, k, o, n)
            for i in rng.permutation(len(cells))[:4]:
                l, g = info[e][int(i)]
                ctx.close(l, cells[i][0], 'dof-geometry', 1e-10, 'local coordinates')
                ctx.close(g, d.mapping(e, *cells[i][0][:, None])[:, 0], 'dof-geometry', 1e-7, 'global coordinates')


def chained(ctx, d, gms, rng):
    keys = [k for k in gms]
    if not keys:
        return
    for rep in range(3):
        m = int(rng.integers(2, 4))
        if d.impl == 'msehtt':
            sel = [keys[i] for i in rng.integers(0, len(keys), m)]
        else:
            sel = [keys[i] for i in rng.permutation(len(keys))[:m]]
            if rep == 2:
                sel = [sel[0], sel[0]]
        ctx.case('chained', d.name, d.p, sel)
        N = [d.ndofs(k) for k in sel]
        if d.impl == 'msehtt':
            from phyem.msehtt.tools.gathering_matrix import MseHttGatheringMatrix as M
            GM = M([d.F[k].cochain.gathering_matrix for k in sel])
            tot = GM.num_global_dofs
        else:
            from phyem.msepy.tools.gathering_matrix import RegularGatheringMatrix as M
            GM = M([d.F[k].cochain.gathering_matrix for k in sel])
            tot = GM.num_dofs
        ctx.eq(tot, sum(N), 'chained', 'total')
        seen = {}
        back = {}
        start = {}
        for e in d.elements:
            g = np.asarray(GM[e])
            ref = [(c, int(i)) for c, k in enumerate(sel) for i in gms[k][e]]
            if not ctx.eq(len(g), len(ref), 'chained', f'element {e}'):
                return
            for a, b in zip(ref, g):
                ok = seen.setdefault(a, int(b)) == b and back.setdefault(int(b), a) == a
                if not ctx.true(ok, 'chained', f'element {e}: composition/dof {a} has number {b}, before {seen[a]}; {back[int(b)]}'):
                    return
        ctx.true(sorted(back) == list(range(tot)), 'chained', 'not 0..N-1')
        if d.impl == 'msehtt':
            for _ in range(6):
                c = int(rng.integers(0, m))
                i = int(rng.integers(0, N[c]))
                ctx.eq(int(GM.find_global_numbering_of_ith_composition_global_dof(c, i)), seen[(c, i)], 'chained', f'composition {c} dof {i}')
                e = d.elements[rng.integers(0, len(d.elements))]
                l = int(rng.integers(0, len(gms[sel[c]][e])))
                ctx.eq(int(GM.find_global_numbering_of_ith_composition_local_dof(c, e, l)), seen[(c, int(gms[sel[c]][e][l]))], 'chained',
                       f'composition {c} element {e} local dof {l}')
                pl = sorted(GM.find_rank_locations_of_global_dofs(seen[(c, i)])[seen[(c, i)]])
                want = []
                for e in d.elements:
                    off = sum(len(gms[k][e]) for k in sel[:c])
                    want += [(e, off + int(j)) for j in np.where(gms[sel[c]][e] == i)[0]]
                ctx.eq(pl, sorted(want), 'chained', 'locations')
            v = rng.standard_normal(tot)
            parts = GM.split({e: v[GM[e]] for e in d.elements})
            for c, k in enumerate(sel):
                w = np.array([v[seen[(c, i)]] for i in range(N[c])])
                for e in d.elements:
                    ctx.close(parts[c][e], w[gms[k][e]], 'chained', 0, 'split')


def sections(ctx, dom, kw, K, gamma, n, p):
    """msepy boundary sections: the dofs of a section are those on its faces"""
    d = S.make_msepy(n, K, p, dom, dict(kw), gamma=gamma)
    nodes = G.nodes_of(p, n)
    base = d.obj['mesh']
    allf = {}
    for tag, b in d.sections.items():
        fs = [(int(f._element), int(f._m), int(f._n)) for f in (b.faces[i] for i in b.faces)]
        ctx.case('section', dom, K, tag, len(fs))
        ctx.eq(len(set(fs)), len(fs), 'boundary', 'repeated face')
        allf[tag] = set(fs)
        for key in S.SPACES[n]:
            k, o = key
            if k == n:
                continue
            cells = G.dof_cells(nodes, k, o, n)
            gm = d.gm(key)
            # edges of 3d 1-forms: both components in the face
            want = {int(gm[e][i]) for e, m, s in fs for i in face_cells(cells, m, 2 * s - 1)}
            try:
                r = b.find_boundary_objects(d.F[key], 'gathering_matrix')
            except NotImplementedError:
                continue
            got = {int(i) for row in r for i in np.ravel(row)}
            ctx.true(got == want, 'boundary', f'{tag} {key}: missing {sorted(want - got)[:9]} wrong {sorted(got - want)[:9]}')
    ctx.eq(allf['a'] & allf['b'], set(), 'boundary', 'sections overlap')
    ctx.eq(allf['a'] | allf['b'], allf['all'], 'boundary', 'sections cover the boundary')
    # the geometric boundary
    hits = {}
    for e in d.elements:
        for a in range(n):
            for s in (0, 1):
                x = np.zeros((n, 1))
                x[a] = 2 * s - 1
                hits.setdefault(tuple(np.round(d.mapping(e, *x)[:, 0], 6) + 0.), []).append((e, a, s))
    ctx.eq({v[0] for v in hits.values() if len(v) == 1}, allf['all'], 'boundary', 'faces held by one element')
    for ev in META['must_observe']:
        ctx.event(ev)


SEC = [('crazy', dict(c=0.1, bounds=C.G2), [2, 3], {0: [1, 0, 0, 1]}, 2),
       ('crazy', dict(c=0.1, bounds=C.G2), [1, 3], {0: [0, 1, 0, 0]}, 2),
       ('crazy_multi', dict(c=0.05, bounds=C.B2, Ns=[2, 2]), [2, 1], {0: [1, 0, 1, 0], 1: [0, 1, 0, 0], 3: [0, 1, 0, 1]}, 2),
       ('crazy', dict(c=0.05, bounds=C.G3), [2, 1, 3], {0: [1, 0, 0, 1, 1, 0]}, 3),
       ('backward_step', {}, 1, {0: [1, 0, 1, 0]}, 2)]

CONFS = ['py1', 'py1p', 'py2', 'py2u', 'py2p', 'py1s', 'py2s', 'py2s1', 'py2s2', 'ht2s', 'py2m', 'py2mp', 'py2b', 'py2c', 'py3', 'py3m', 'py3p', 'ht2', 'ht2o', 'ht2p', 'ht2op', 'ht2m', 'ht2b', 'ht2c',
         'ht2r', 'ht2q', 'ht2chc', 'ht2chp', 'ht2trf', 'ht2trfo', 'ht2trfp', 'ht2trf2p', 'ht2trf2q', 'ht2ts', 'ht2bt', 'ht2mp', 'ht2mpt', 'ht2cht', 'ht3', 'ht3o', 'ht3p', 'rq', 'rqn', 'rt', 'rqt',
         'py1o', 'ht3b', 'py3b']


several = C.several(run)


def units(tier):
    U = []
    quick = tier == 'quick'
    for c in CONFS:
        conf = C.CONF[c]
        n = conf['n']
        ps = [1, 2, 3] if n < 3 else [1, 2]
        if not quick:
            ps = [1, 2, 3, 4, 5] if n < 3 else [1, 2, 3]
        if n == 2 and not (conf.get('tri') or c[0] == 'r' or c in ('ht2mpt', 'ht2ts', 'ht2chc', 'ht2chp', 'ht2q')):
            ps = ps + [(3, 2)] + ([] if quick else [(1, 4), (5, 2)])
        if n == 3:
            ps = ps + [(2, 1, 3)] + ([] if quick else [(1, 2, 3), (3, 2, 1)])
        if quick and n == 3:
            ps = ps[1:] if conf.get('periodic') is None else ps[:1] + ps[-1:]
            if c in ('ht3b', 'py3b'):
                ps = ps[:1]
        if conf.get('periodic') and conf['impl'] == 'msepy' and n == 3:
            ps = [q for q in ps if q != 1]
        if c in ('ht2trf2p', 'ht2trf2q'):
            ps = ps[:1] if quick else ps[:3]
        for p in ps:
            for r in range((2 if quick else 6) if c[0] == 'r' else 1):
                U.append((f'{c}:{p}:{r}', run, dict(conf=c, p=p, rep=r)))
    for i, (dom, kw, K, g, n) in enumerate(SEC):
        for p in ((2,) if quick else (1, 2, 3, 4)) if n == 2 else ((2,) if quick else (1, 2, (1, 2, 3))):
            U.append((f'sec{i}:{p}', sections, dict(dom=dom, kw=kw, K=K, gamma=g, n=n, p=p)))
    return U


def UNITS(tier):
    return units(tier) + C.several_units(several, ['py1', 'py2', 'py2m', 'py3', 'ht2', 'rq', 'ht3'] + ([] if tier == 'quick' else ['py2p', 'py3m', 'ht2p', 'rqt', 'ht2o']),
                                         1 if tier == 'quick' else 2)
