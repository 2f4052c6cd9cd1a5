"""C18: every built, refined, split or imported mesh is a conforming partition of its domain; boundaries and
geometrically selected sections are exactly what geometry says."""
import os
import random as pyrandom
import numpy as np
from vm.lazy import S, ph
from vm import geo as G
from vm import configs as C

META = dict(
    rule='one distinct case per mesh built (generator, dimension, random parameters, refinement/splitting/renumbering/import route) or per '
         'set of boundary selections on one mesh',
    assumptions=['periodic meshes have at least three layers of elements per periodic direction (with two, two faces have the same nodes)',
                 'points and faces closer to a selection criterion than 1e-3 without meeting it are not decided',
                 '3D cylinder channels and faces of curvilinear triangles raise NotImplementedError and are not claimed'],
    note='Trusts the element mappings evaluated pointwise, finite differences and quadrature for measures; coincidence of faces is decided '
         'from sampled points at 1e-6, so gaps below that are not seen.',
    must_observe=['criterion', 'measure', 'inverted', 'conforming', 'shared-by-two', 'face-nodes', 'neighbours', 'nodes', 'boundary-of-patch', 'statistics',
                  'renumbering', 'file', 'refined-if-asked', 'refined-only-if-asked', 'section', 'section-dofs', 'whole-boundary', 'locate',
                  'split meshes', 'refined meshes', 'locally refined meshes', 'vtu interfaces', 'element dictionaries', 'triangle/quad regions',
                  'mesh files', 'periodic slices', 'meshes of crazy', 'meshes of chaotic', 'meshes of meshpy', 'meshes of cylinder_channel',
                  'meshes of backward_step', 'meshes of quad', 'meshes of rectangle', 'meshes of crazy_multi'],
    why='tests build a handful of fixed msepy meshes and look at none of these relations; the monitor rebuilds every mesh from the positions '
        'of its points and compares node numbers, neighbours, boundaries, measures and selections, over random parameters of every generator')


TWO_PI = 2 * np.pi


# ------------------------------------------------------------------------------------------ a mesh observed
class Seen:
    """faces, corners and measures of all elements, from point evaluations of the element mappings alone"""

    def __init__(self, d, period=None, exact=True):
        self.d, self.n = d, d.n
        self.period = period
        self.faces = [f for f in G.faces_2d(d)]
        g = np.polynomial.legendre.leggauss(24 if d.n == 2 else 8)
        P, self.mid, self.size, self.out, self.pts = [], [], [], [], []
        for e, a, s in self.faces:
            if d.n == 1:
                xi = [np.array([s])]
                X = d.mapping(e, *xi)
                self.pts.append(X)
                self.mid.append(X[:, 0])
                self.size.append(1.)
                continue
            t = [np.array([-1., -.5, 0., .5, 1.])] * (d.n - 1)
            T = [x.ravel() for x in np.meshgrid(*t, indexing='ij')]
            X = d.mapping(e, *self._at(a, s, T))
            self.pts.append(X)
            self.mid.append(X[:, X.shape[1] // 2])
            gx = [x.ravel() for x in np.meshgrid(*[g[0]] * (d.n - 1), indexing='ij')]
            w = np.prod([x.ravel() for x in np.meshgrid(*[g[1]] * (d.n - 1), indexing='ij')], axis=0)
            J = d.njac(e, *self._at(a, s, gx))
            o = [i for i in range(d.n) if i != a]
            if d.n == 2:
                area = np.hypot(J[0, o[0]], J[1, o[0]])
            else:
                area = np.linalg.norm(np.cross(J[:, o[0]], J[:, o[1]], axis=0), axis=0)
            self.size.append(float(np.sum(w * area)))
        self.mid = np.array(self.mid)
        self.pts = np.array(self.pts)                       # (faces, n, points)
        self.size = np.array(self.size)

    def _at(self, a, s, T):
        xi = list(T)
        xi.insert(a, np.full(T[0].shape, float(s)))
        return xi

    def wrap(self, D):
        """difference vectors modulo the period"""
        if self.period is not None:
            L = np.array(self.period).reshape((1,) * (D.ndim - 1) + (-1,))
            D = D - np.round(D / L) * L
        return D

    def groups(self, idx=None, tol=1e-6):
        """faces grouped by coincidence: the midpoints and the point sets agree (modulo the period)"""
        idx = list(range(len(self.faces))) if idx is None else list(idx)
        M = self.mid[idx]
        left, out = np.ones(len(idx), bool), []
        for i in range(len(idx)):
            if not left[i]:
                continue
            c = np.nonzero(left & (np.abs(self.wrap(M - M[i])).max(axis=1) < tol))[0]
            if len(c) > 1:                         # same midpoint: same point set?
                A = self.pts[idx[i]].T
                c = [j for j in c if self._sameset(A, self.pts[idx[j]].T, tol)]
            left[c] = False
            out.append([idx[j] for j in c])
        return out

    def _sameset(self, A, B, tol):
        D = np.abs(self.wrap(A[:, None] - B[None])).max(axis=2)
        return bool((D.min(axis=1) < tol).all() and (D.min(axis=0) < tol).all())


def fid(d, face):
    e, a, s = face
    if G.is_tri(d, e):
        return {(1, -1.): 0, (0, 1.): 1, (1, 1.): 2}[(a, s)]
    return 2 * a + (s > 0)


def measure(ctx, d, area, name):
    """no inverted or degenerate element, total measure"""
    q = {1: 16, 2: 20, 3: 8}[d.n]
    tot, sign = 0., set()
    for e in d.elements:
        xi, w = S.tensor_gauss(d.n, q)
        J = d.njac(e, *xi)
        det = np.linalg.det(np.moveaxis(J, (0, 1), (-2, -1)))
        ok = det.min() > 0 or det.max() < 0
        ctx.true(ok, 'inverted', f'{name}: element {e} has Jacobian determinants from {det.min():.3e} to {det.max():.3e}')
        m = np.sum(w * np.abs(det))
        ctx.true(m > 1e-10, 'degenerate', f'{name}: element {e} has measure {m:.2e}')
        tot += m
        if not G.is_tri(d, e):
            sign.add(bool(det.mean() > 0))
        Jc = d.jac(e, *xi)
        ctx.close(Jc, J, 'jacobian', 1e-6, f'{name}: Jacobian matrix of element {e} vs its mapping')
    if area is not None:
        ctx.close(tot, area, 'measure', 1e-8, f'{name}: total measure')
    ctx.event('elements', len(d.elements))
    return tot


def validate(ctx, d, name, area=None, perimeter=None, period=None, curved=False, topology=True):
    s = Seen(d, period)
    measure(ctx, d, area, name)
    gr = s.groups()
    many = [[s.faces[i] for i in g] for g in gr if len(g) > 2]
    ctx.true(not many, 'shared-by-two', f'{name}: more than two elements share a face: {many[:2]}')
    ctx.event('interior faces', sum(len(g) == 2 for g in gr))
    bd = [g[0] for g in gr if len(g) == 1]
    if period is not None and all(p is not None for p in period):
        ctx.true(not bd, 'conforming', f'{name}: periodic mesh has {len(bd)} unpaired faces, e.g. {[s.faces[i] for i in bd[:2]]}')
    if perimeter is not None:
        ctx.close(float(s.size[bd].sum()), perimeter, 'conforming', 1e-7,
                  f'{name}: size of the unpaired faces vs size of the domain boundary')
    # the two elements of a face lie on its two sides: sizes agree
    for g in gr:
        if len(g) == 2:
            ctx.close(s.size[g[0]], s.size[g[1]], 'shared-by-two', 1e-7, f'{name}: sizes of a shared face')
    if topology and d.impl == 'msehtt':
        topo(ctx, d, s, gr, name)
    if topology and d.impl == 'msepy':
        topopy(ctx, d, s, gr, name)
    return s, gr


def topo(ctx, d, s, gr, name):
    """node numbers and neighbours that the code records = the geometric coincidences"""
    E = d.tgm.elements
    sets = {}
    for i, f in enumerate(s.faces):
        e = f[0]
        el = E[e]
        nodes = el.face_setting()[fid(d, f)]
        sets[i] = frozenset(E.map_(e)[j] for j in nodes)
    grp = {}
    for k, g in enumerate(gr):
        for i in g:
            grp[i] = k
    by = {}
    for i, st in sets.items():
        by.setdefault(st, set()).add(grp[i])
    bad = [(st, [[s.faces[j] for j in gr[k]] for k in ks]) for st, ks in by.items() if len(ks) > 1]
    ctx.true(not bad, 'face-nodes', f'{name}: distinct faces with the same nodes {str(bad[:1])[:300]}')
    bad = [[s.faces[i] for i in g] for g in gr if len({sets[i] for i in g}) > 1]
    ctx.true(not bad, 'face-nodes', f'{name}: one face with different nodes {str(bad[:1])[:300]}')
    # neighbours
    nb = E.global_neighbors
    for k, g in enumerate(gr):
        for i in g:
            e, a, sd = s.faces[i]
            other = [s.faces[j][0] for j in g if j != i]
            got = nb[e][fid(d, s.faces[i])]
            ctx.eq([got], [other[0] if other else None], 'neighbours', f'{name}: across face {s.faces[i]}')
    st = E.statistics
    ctx.eq([st['total amount elements'], len(E.global_map)], [len(d.elements)] * 2, 'statistics', name)
    cnt = {}
    for e in d.elements:
        cnt[str(E[e].etype)] = cnt.get(str(E[e].etype), 0) + 1
    ctx.eq(sorted((str(k), v) for k, v in st['total amount different elements'].items()), sorted(cnt.items()),
           'statistics', f'{name}: element types')
    # nodes = corner points
    corners(ctx, d, s, name)
    # the faces' own geometry
    for i in ctx.rng.permutation(len(s.faces))[:40]:
        f = s.faces[int(i)]
        if d.n != 2 or d.etype(f[0]) == 'unique curvilinear triangle':
            continue                # faces of curvilinear triangles are not implemented
        face = E[f[0]].faces[fid(d, f)]
        t = np.linspace(-1, 1, 5)
        X = np.array(face.ct.mapping(t))
        ok = np.abs(X - s.pts[int(i)]).max() < 1e-8 or np.abs(X[:, ::-1] - s.pts[int(i)]).max() < 1e-8
        ctx.true(ok, 'face-geometry', f'{name}: mapping of face {f}: {X.tolist()} vs {s.pts[int(i)].tolist()}')


def corners(ctx, d, s, name):
    """node number <-> corner point is one-to-one (modulo the period)"""
    E = d.tgm.elements
    pts, num = [], []
    for e in d.elements:
        el, tri = E[e], G.is_tri(d, e)
        fs, mp = el.face_setting(), E.map_(e)
        if tri:
            cs = [((1., -1.), (0, 1)), ((1., 1.), (1, 2)), ((-1., 0.), (0, 2))]
        else:
            cs = [(c, tuple(2 * a + (c[a] > 0) for a in range(d.n)))
                  for c in np.array(np.meshgrid(*[[-1., 1.]] * d.n, indexing='ij')).reshape(d.n, -1).T]
        for c, fids in cs:
            common = set(fs[fids[0]])
            for q in fids[1:]:
                common &= set(fs[q])
            ctx.true(len(common) == 1, 'corner', f'{name}: faces {fids} of element {e} share nodes {common}')
            if len(common) == 1:
                pts.append(d.mapping(e, *[np.array([float(v)]) for v in c])[:, 0])
                num.append(mp[common.pop()])
    pts, num = np.array(pts), np.array(num)
    first, left, k = -np.ones(len(num), int), np.ones(len(num), bool), 0
    for i in range(len(num)):
        if left[i]:
            c = left & (np.abs(s.wrap(pts - pts[i])).max(axis=1) < 1e-6)
            first[c] = k
            left &= ~c
            k += 1
    a, b = {}, {}
    for f, m in zip(first, num):
        a.setdefault(int(f), set()).add(int(m))
        b.setdefault(int(m), set()).add(int(f))
    ctx.true(all(len(v) == 1 for v in a.values()), 'nodes', f'{name}: one corner point has several node numbers')
    ctx.true(all(len(v) == 1 for v in b.values()), 'nodes', f'{name}: one node number at several corner points')
    ctx.event('corner points', k)


def boundary(ctx, d, s, name, reps=4):
    """boundary faces of all elements and of random patches"""
    E = d.tgm.elements
    els = list(d.elements)
    for r in range(reps):
        sub = els if r == 0 else [els[i] for i in sorted(ctx.rng.permutation(len(els))[:1 + int(ctx.rng.integers(len(els)))])]
        idx = [i for i, f in enumerate(s.faces) if f[0] in set(sub)]
        want = sorted(str((s.faces[g[0]][0], int(fid(d, s.faces[g[0]])))) for g in s.groups(idx) if len(g) == 1)
        got = sorted(str((x['element index'], int(x['face id'])))
                     for x in E._parse_boundary_faces_of_a_patch_of_elements(sub))
        ctx.eq(got, want, 'boundary-of-patch', f'{name}: boundary faces of {len(sub)} of {len(els)} elements')
        ctx.event('patches')


def topopy(ctx, d, s, gr, name):
    m = d.obj['mesh'].elements.map
    grp = {s.faces[i]: g for g in gr for i in g}
    for f, g in grp.items():
        e, a, sd = f
        got = m[e][2 * a + (sd > 0)]
        other = [s.faces[j][0] for j in g if s.faces[j] != f]
        ctx.eq([-1 if got is None else int(got)], [other[0] if other else -1], 'neighbours', f'{name}: across face {f}')


# ------------------------------------------------------------------------------------------ generators
def shoelace(P):
    P = np.array(P, float)
    return abs(np.sum(P[:, 0] * np.roll(P[:, 1], -1) - np.roll(P[:, 0], -1) * P[:, 1])) / 2


def plen(P):
    P = np.array(P, float)
    return np.linalg.norm(np.roll(P, -1, axis=0) - P, axis=1).sum()


def layout(rng, lo, hi):
    """an integer or a list of relative sizes"""
    if rng.random() < .6:
        return int(rng.integers(lo, hi + 1))
    return [round(float(v), 2) for v in rng.uniform(.5, 2, int(rng.integers(lo, hi + 1)))]


def box(rng, n):
    lo = np.round(rng.uniform(-2, 1, n), 2)
    L = np.round(rng.uniform(.4, 2.5, n), 2)
    return [[float(a), float(a + b)] for a, b in zip(lo, L)], [float(b) for b in L]


def boxes(L):
    n = len(L)
    return float(np.prod(L)), float({1: 2, 2: 2 * sum(L), 3: 2 * (L[0] * L[1] + L[-1] * L[0] + L[1] * L[-1])}[n]) if n > 1 else 2.


def spec(rng, gen, n, i):
    """(impl arguments, kwargs, area, perimeter, period) of one random mesh of generator gen"""
    per = bool(i % 3 == 2)
    b, L = box(rng, n)
    area, perim = boxes(L)
    if gen in ('crazy', 'crazy_multi'):
        c = float(rng.choice([0., .05, .1 if n < 3 else .06, -.08]))
        lo = 3 if per else 1
        K = [layout(rng, lo, 4 if n < 3 else 3) for _ in range(n)]
        kw = dict(c=c, bounds=b, periodic=per)
        if gen == 'crazy_multi':
            kw['Ns'] = [int(v) for v in rng.integers(1, 4 if n == 2 else 3, n)]
            K = [3 if per else int(rng.integers(1, 3))] * n
        return (gen,), kw, K, area, None if per else perim, L if per else None
    if gen == 'backward_step':
        x1, x2, y1, y2, z = [round(float(v), 2) for v in rng.uniform(.3, 2, 5)]
        kw = dict(x1=x1, x2=x2, y1=y1, y2=y2)
        A = x1 * y2 + x2 * (y1 + y2)
        P = 2 * (x1 + x2 + y1 + y2)
        K = int(rng.integers(1, 4 if n == 2 else 3))
        if n == 3:
            kw['z'] = z
            return (gen,), kw, K, A * z, P * z + 2 * A, None
        return (gen,), kw, K, A, P, None
    if gen == 'cylinder_channel':
        r = round(float(rng.uniform(.4, 1.2)), 2)
        dl, dr = [round(float(v), 2) for v in r + rng.uniform(.3, 4, 2)]
        h = round(float(2 * r + rng.uniform(.4, 4)), 2)
        kw = dict(r=r, dl=dl, dr=dr, h=h)
        A = (dl + dr) * h - np.pi * r ** 2
        P = 2 * (dl + dr + h) + 2 * np.pi * r
        K = int(rng.integers(1, 3))
        return (gen,), kw, K, A, P, None
    if gen == 'chaotic':
        pyrandom.seed(int(rng.integers(10 ** 6)))
        c = float(rng.choice([0., 0., .1, -.05, .2]))
        return (gen,), dict(bounds=b, c=c, periodic=per), int(rng.integers(1, 4)), area, None if per else perim, L if per else None
    if gen == 'rectangle':
        return (gen,), dict(bounds=b), [layout(rng, 1, 4) for _ in range(2)] if rng.random() < .7 else int(rng.integers(1, 5)), area, perim, None
    if gen == 'quad':
        P = [tuple(float(v) for v in np.round(np.array(q) * L + rng.uniform(-.25, .25, 2) * min(L), 3)) for q in ((0, 0), (1, 0), (1, 1), (0, 1))]
        return (gen,), dict(zip('ABCD', P)), int(rng.integers(1, 5)), shoelace(P), plen(P), None
    if gen == 'meshpy':
        m = int(rng.integers(3, 7))
        ang = np.sort(np.linspace(0, TWO_PI, m, endpoint=False) + rng.uniform(-.3, .3, m))
        P = [tuple(float(v) for v in q) for q in np.round(np.c_[np.cos(ang), np.sin(ang)] * rng.uniform(.8, 1.6, (m, 1)), 3)]
        return (gen,), dict(points=tuple(P), max_volume=float(rng.uniform(.1, .5))), None, shoelace(P), plen(P), None
    raise ValueError(gen)


def construct(impl, n, args, kw, K, period):
    if impl == 'msepy':
        return S.make_msepy(n, K, 1, args[0], dict(kw), [(0, 'inner')], periodic=period is not None)
    k = dict(kw)
    if K is not None:
        k['element_layout'] = K
    return S.make_msehtt(n, args, k, 1, [(0, 'inner')], mperiodic=period is not None, boundary=False)


def generator(ctx, impl, gen, n, reps):
    rng = ctx.rng
    for i in range(reps):
        args, kw, K, area, perim, period = spec(rng, gen, n, i)
        name = f'{impl} {gen} {n}D {kw} K={K}'
        ctx.case(f'{gen}:{n}:{i}')
        d = construct(impl, n, args, kw, K, period)
        s, gr = validate(ctx, d, name, area, perim, period)
        if impl == 'msehtt':
            boundary(ctx, d, s, name)
            if n == 2:
                locate(ctx, d, name)
        ctx.event(f'meshes of {gen}')
        if impl == 'msehtt' and n == 2 and gen != 'meshpy' and i % 2 == 0:
            kw2 = dict(kw)
            if gen == 'crazy' and kw['c'] == 0 and period is None:
                kw2['ts'] = 1 + int(rng.integers(2))
            elif gen in ('backward_step', 'quad', 'rectangle') or (gen == 'chaotic' and period is None):
                kw2['ts'] = 1
            if 'ts' in kw2:
                d = construct(impl, n, args, kw2, K, period)
                validate(ctx, d, name + ' split', area, perim, period)
                ctx.event('split meshes')


def dicts(ctx, reps):
    """imported meshes: element dictionaries, vtu interface, triangle/quad regions, files"""
    rng = ctx.rng
    from phyem.msehtt.static.mesh.great.config.tqr import TriQuadRegions
    for i in range(reps):
        Kx, Ky = [int(v) for v in rng.integers(1, 5, 2)]
        st, og = rng.uniform(.5, 2, 2), rng.uniform(-1, 1, 2)
        tri = [0., .5, 1.][i % 3]
        name = f'random {Kx}x{Ky} tri={tri}'
        ctx.case(f'dict:{i}')
        ind = C.random_quads(rng, Kx, Ky, tri=tri, stretch=tuple(st), origin=tuple(og))
        area, perim = float(st.prod()), float(2 * st.sum())
        if tri == 0:
            d = S.make_msehtt(2, (ind,), {}, 1, [(0, 'inner')], boundary=False)
            s, gr = validate(ctx, d, name + ' element dict', area, perim)
            boundary(ctx, d, s, name)
            locate(ctx, d, name)
            ctx.event('element dictionaries')
        coo = {}
        for e, vs in ind['element_map_dict'].items():
            for v, xy in zip(vs, ind['element_parameter_dict'][e]):
                coo[v] = tuple(float(q) for q in xy)
        from phyem.msehtt.static.mesh.great.config.vtu import MseHttVtuInterface
        # vtu cells: own coordinates of the points, arbitrary point numbers
        ren = {v: int(q) for v, q in zip(coo, rng.permutation(3 * len(coo))[:len(coo)])}
        vif = MseHttVtuInterface({ren[v]: xy for v, xy in coo.items()},
                                 {e: [ren[v] for v in vs] for e, vs in ind['element_map_dict'].items()},
                                 ind['element_type_dict'])
        ts = int(rng.integers(0, 3)) if tri else 0
        d = S.make_msehtt(2, (vif,), dict(ts=ts) if ts else {}, 1, [(0, 'inner')], boundary=False)
        s, gr = validate(ctx, d, name + f' vtu ts={ts}', area, perim)
        if ts == 0:
            boundary(ctx, d, s, name)
        ctx.event('vtu interfaces')
        if ts:
            ctx.event('split meshes')
        # triangle/quad regions
        reg = {e: (ind['element_type_dict'][e], [f'v{v}' for v in vs]) for e, vs in ind['element_map_dict'].items()}
        lay = int(rng.integers(0, 3))
        a = ({f'R{e}': t for e, (t, _) in reg.items()}, {f'v{v}': xy for v, xy in coo.items()},
             {f'R{e}': vs for e, (_, vs) in reg.items()})
        arg = TriQuadRegions(*a) if i % 2 else ('tqr',) + a
        d = S.make_msehtt(2, (arg,), dict(element_layout=lay), 1, [(0, 'inner')], boundary=False)
        n0 = sum(3 if t == 5 else 4 for t, _ in reg.values()) if lay else len(reg)
        s, gr = validate(ctx, d, name + f' tqr {lay}', area, perim)
        boundary(ctx, d, s, name, reps=2)
        ctx.event('triangle/quad regions')
        # a file keeps the mesh
        f = os.path.join(os.environ['VM_SCRATCH'], f'mesh{i}.phm')
        src = d
        src.tgm.saveto(f)
        r = S.make_msehtt(2, (f,), {}, 1, [(0, 'inner')], boundary=False)
        ctx.eq([str(e) for e in r.elements], [str(e) for e in src.elements], 'file', f'{name}: elements after reading')
        validate(ctx, r, name + ' file', area, perim)
        ctx.event('mesh files')


def slices(ctx, reps):
    rng = ctx.rng
    for i in range(reps):
        K = [int(v) for v in rng.integers(3, 5, 2)]
        b, L = box(rng, 2)
        th = round(float(rng.uniform(.3, 2)), 2)
        lv = int(rng.integers(3, 5))
        ctx.case(f'slice:{i}')
        d = S.make_msehtt(3, ('periodic slice',), dict(element_layout=K if i % 2 else K[0], bounds=b, thickness=th, levels=lv), 1,
                          [(0, 'inner')], mperiodic=True, boundary=False)
        s, gr = validate(ctx, d, f'slice {K} {b} {th} {lv}', L[0] * L[1] * th, None, L + [th])
        boundary(ctx, d, s, 'slice', reps=2)
        ctx.event('periodic slices')


def locate(ctx, d, name, reps=6):
    """which elements contain a point"""
    if any(d.etype(e) != 9 for e in d.elements):
        return                      # not implemented for the other types
    comp = [m for m in d.ms.base['meshes'].values() if m._composition is not None][0].composition
    els = d.elements
    quad = {e: d.mapping(e, np.array([-1., 1, 1, -1]), np.array([-1., -1, 1, 1])).T for e in els}
    for r in range(reps):
        e = els[int(ctx.rng.integers(len(els)))]
        if r < reps // 2:
            xi = ctx.rng.uniform(-.9, .9, 2)
        else:
            xi = np.array([[-1., 1.][int(ctx.rng.integers(2))], ctx.rng.uniform(-.8, .8)])
        x = d.mapping(e, *[np.array([v]) for v in xi])[:, 0]
        want = []
        for q, P in quad.items():
            E = np.roll(P, -1, axis=0) - P
            L = np.linalg.norm(E, axis=1)
            cr = (E[:, 0] * (x - P)[:, 1] - E[:, 1] * (x - P)[:, 0]) / L
            if (cr > -1e-9).all() or (cr < 1e-9).all():
                want.append(q)
        got = comp._find_in_which_elements_(float(x[0]), float(x[1]))
        if r >= reps // 2:                 # on an edge: tolerances of the code decide the far side, it must hold its own
            ctx.true(e in got or set(got) & set(want), 'locate', f'{name}: point {x} on an edge of {e}: {got}')
            ctx.true(set(got) <= set(want), 'locate', f'{name}: point {x}: {got} vs {want}')
        else:
            ctx.eq(sorted(map(str, got)), sorted(map(str, want)), 'locate', f'{name}: point {x} inside {e}')
        ctx.event('points located')


def renumber(ctx, reps):
    rng = ctx.rng
    for i in range(reps):
        b, L = box(rng, 2)
        args, kw, area, perim = [
            (('crazy',), dict(element_layout=[2, 3], c=0., bounds=b, periodic=False, trf=1), L[0] * L[1], 2 * sum(L)),
            (('backward_step',), dict(element_layout=2), 1 * .25 + .5, 2 * (2 + .5)),
            (('chaotic',), dict(element_layout=2, c=0., bounds=b, periodic=False, trf=2), L[0] * L[1], 2 * sum(L)),
        ][i % 3]
        ctx.case(f'renumber:{i}')
        kw = dict(kw, renumbering=True)
        d = S.make_msehtt(2, args, kw, 1, [(0, 'inner')], boundary=False)
        ctx.eq(d.elements, list(range(len(d.elements))), 'renumbering', f'{args}: element indices')
        s, gr = validate(ctx, d, f'renumbered {args} {kw}', area, perim)
        boundary(ctx, d, s, f'renumbered {args}')
        ctx.event('renumbered meshes')


# ------------------------------------------------------------------------------------------ triangular refinement
def indicator(rng, b, L):
    """a smooth refinement function with thresholds"""
    x0, y0 = [bb[0] + l * rng.uniform(.1, .9) for bb, l in zip(b, L)]
    w = rng.uniform(.2, .5) * min(L)
    kind = int(rng.integers(3))
    if kind == 0:
        f = lambda x, y: np.exp(-((x - x0) ** 2 + (y - y0) ** 2) / w ** 2)
    elif kind == 1:
        f = lambda x, y: np.exp(-(x - x0) ** 2 / w ** 2) + 0 * y
    else:
        f = lambda x, y: np.exp(-((x - x0) + (y - y0)) ** 2 / w ** 2)
    return f


def refine(ctx, which, reps):
    rng = ctx.rng
    for i in range(reps):
        b, L = box(rng, 2)
        area, perim, period = L[0] * L[1], 2 * sum(L), None
        lev = 1 + int(rng.integers(3 if i % 2 else 5))
        f = indicator(rng, b, L)
        if i % 4 == 1:
            lev = 4 + int(rng.integers(2))                  # deep
        th = sorted(rng.uniform(.05, .9, lev) if i % 4 != 1 else rng.uniform(.001, .02, lev))
        raw = lambda x, y, f=f: float(f(x, y)) if np.ndim(x) == 0 else f(x, y)
        ctx.case(f'refine:{which}:{i}')
        kinds = {'crazy': ('crazy',), 'crazyc': ('crazy',), 'chaotic': ('chaotic',), 'chaoticc': ('chaotic',), 'periodic': ('crazy',),
                 'multi': ('crazy_multi',)}
        if which == 'dict':
            st, og = np.array(L), np.array([q[0] for q in b])
            base = C.random_quads(rng, *[int(v) for v in rng.integers(1 + i % 2, 5 if lev < 4 else 3, 2)], stretch=tuple(st), origin=tuple(og))
            base['element_type_dict'] = {e: t for e, t in base['element_type_dict'].items()}
            args, kw = (base,), {}
            mode = ['middle', None, 'center'][i % 3]
            trf = dict(rff=raw, rft=[float(v) for v in th])
            if mode:
                trf['rcm'] = mode
            mode = mode or 'middle'
            if i % 2:
                f = peaks(rng, base)
                trf['rff'] = lambda x, y, f=f: float(f(x, y)) if np.ndim(x) == 0 else f(x, y)
                th = np.sort(rng.uniform(.5, .9, lev))
                trf['rft'] = [float(v) for v in th]
        else:
            K = [int(v) for v in rng.integers(1, 4 if lev < 4 else 3, 2)] if which != 'periodic' else [int(v) for v in rng.integers(3, 5, 2)]
            args = kinds[which]
            kw = dict(bounds=b, periodic=which == 'periodic', c=0. if which in ('crazy', 'chaotic', 'periodic') else .08,
                      element_layout=K if which not in ('chaotic', 'chaoticc') else int(rng.integers(1, 3)))
            if which in ('chaotic', 'chaoticc'):
                pyrandom.seed(1 + i)
            if which == 'multi':
                kw['Ns'] = [2, 1]
                kw['element_layout'] = 2
            mode = 'center'
            trf = lev if i % 3 == 0 else dict(rff=raw, rft=[float(v) for v in th], rcm='center')
            if which == 'periodic':
                perim, period = None, L
                if lev > 2:
                    lev, th = 2, th[:2]
                    trf = lev if i % 3 == 0 else dict(rff=raw, rft=[float(v) for v in th], rcm='center')
        d = S.make_msehtt(2, args, dict(kw, trf=trf), 1, [(0, 'inner')], mperiodic=period is not None, boundary=False)
        name = f'trf {which} {i} {trf if isinstance(trf, int) else (mode, np.round(th, 3).tolist())} b={b}'
        s, gr = validate(ctx, d, name, area, perim, period)
        if period is None:
            boundary(ctx, d, s, name, reps=2)
        ctx.event('refined meshes')
        ctx.event('refined levels', lev)
        requested(ctx, d, trf, lev, th, f, name, args, kw, period)
        if isinstance(trf, dict):
            criterion(ctx, d, mode, lev, th, f, name, base if which == 'dict' else None, which in ('crazy', 'periodic'))
        if any(isinstance(e, tuple) for e in d.elements) and any(not isinstance(e, tuple) for e in d.elements):
            ctx.event('locally refined meshes')


NINE = [np.array([0., 0, 0, 1, -1, 1, -1, 1, -1]), np.array([0., 1, -1, 0, 0, 1, -1, -1, 1])]


def nine(q):
    """centre, middles of the edges and vertices of a quadrilateral"""
    q = np.array(q, float)
    return np.r_[[q.mean(axis=0)], (q + np.roll(q, -1, axis=0)) / 2, q]


def peaks(rng, base, c=None):
    """narrow peaks at places where the refinement function is looked at"""
    qs = list(base['element_parameter_dict'].values())
    c = c or [nine(q)[int(rng.integers(9))] for q in qs if rng.random() < .6] or [nine(qs[0])[2]]
    w = .07 * min(np.linalg.norm(np.subtract(q[k], q[k - 1])) for q in qs for k in range(4))
    return lambda x, y: np.max([np.exp(-((x - a) ** 2 + (y - b) ** 2) / w ** 2) for a, b in c], axis=0)


def criterion(ctx, d, mode, lev, th, f, name, base, rect):
    """the elements which meet the criterion, and only they, are refined"""
    tol = 1e-6
    split = {}
    for e in d.elements:
        if isinstance(e, tuple):
            split.setdefault(e[0], []).append(e)
    at = (lambda P: float(f(*P.T).max())) if mode == 'middle' else lambda P: float(f(*P[:1].T).max())
    for e in [e for e in d.elements if not isinstance(e, tuple)] + list(split):
        if base is not None:
            P = nine(base['element_parameter_dict'][e])
        elif e not in split:
            P = d.mapping(e, *NINE).T
        elif rect:
            Q = np.concatenate([d.mapping(q, *NINE).T for q in split[e]])
            P = np.array([(Q.min(0) + Q.max(0)) / 2])
        else:
            continue
        v = at(P)
        if abs(v - th[0]) > tol:
            ctx.eq(e in split, v > th[0], 'criterion', f'{name}: element {e} is refined, its value {v:.4f}, threshold {th[0]:.4f}')
            ctx.event('criteria examined')
    if mode != 'middle':
        return
    # a vertex of a triangle decides as well
    s = Seen(d, None)
    for g in s.groups():
        for i in g:
            e, a, sd = s.faces[i]
            if not isinstance(e, tuple) or (a, sd) != (0, 1.) or len(e) - 1 >= lev:
                continue
            o = [s.faces[j] for j in g if j != i]
            if o and (not isinstance(o[0][0], tuple) or o[0][1:] != (0, 1.) or len(o[0][0]) > len(e)):
                continue
            v = float(f(*d.mapping(e, NINE[0][5:], NINE[1][5:])).max())
            ctx.true(v < th[len(e) - 1] + tol, 'criterion', f'{name}: triangle {e} can be bisected, its value at a vertex is {v:.4f}, '
                                                            f'threshold {th[len(e) - 1]:.4f}')
            ctx.event('criteria examined')


def looked_at(ctx, reps):
    """one peak at each place an element is judged by"""
    rng = ctx.rng
    for i in range(reps):
        for k in range(9):
            base = C.random_quads(rng, *[int(v) for v in rng.integers(1, 3, 2)], stretch=tuple(rng.uniform(.5, 2, 2)), origin=tuple(rng.uniform(-1, 1, 2)))
            es = list(base['element_parameter_dict'])
            e = es[int(rng.integers(len(es)))]
            q = base['element_parameter_dict'][e]
            f = peaks(rng, dict(element_parameter_dict={e: q}), [nine(q)[k]])
            raw = lambda x, y, f=f: float(f(x, y)) if np.ndim(x) == 0 else f(x, y)
            mode = 'center' if k == 0 and i % 2 else 'middle'
            ctx.case(f'looked at:{i}:{k}')
            d = S.make_msehtt(2, (base,), dict(trf=dict(rff=raw, rft=[.8], rcm=mode)), 1, [(0, 'inner')], boundary=False)
            ctx.true(any(isinstance(v, tuple) and v[0] == e for v in d.elements), 'criterion', f'{mode}: element {e} = {q} has its peak at place {k} and is not refined')
            criterion(ctx, d, mode, 1, [.8], f, f'peak at place {k} of {e}', base, False)


def requested(ctx, d, trf, lev, th, f, name, args, kw, period):
    """an element asked for refinement everywhere is refined; one asked nowhere (nor its neighbours) is not"""
    base = {}
    for e in d.elements:
        base.setdefault(e[0] if isinstance(e, tuple) else e, []).append(e)
    t = np.linspace(-1, 1, 9)
    XI = [a.ravel() for a in np.meshgrid(t, t, indexing='ij')]
    for e in d.elements:
        depth = 0 if not isinstance(e, tuple) else len(e) - 1
        if isinstance(trf, int):
            ctx.true(depth >= 1, 'refined-if-asked', f'{name}: uniform refinement leaves element {e}')
            continue
        X = d.mapping(e, *XI)
        v = f(*X)
        if depth == 0:
            ctx.true(not v.min() >= th[0], 'refined-if-asked', f'{name}: element {e} meets {th[0]:.3f} everywhere (min {v.min():.3f}) '
                                                               f'and is not refined')
    if isinstance(trf, int):
        # each level can at most halve: the number of levels shows in the depth
        ctx.eq(max(len(e) - 1 for e in d.elements), lev, 'levels', f'{name}: greatest depth')
        return
    for e, subs in base.items():
        if len(subs) == 1 and not isinstance(subs[0], tuple):
            continue
        V = np.concatenate([f(*d.mapping(q, *XI)) for q in subs])
        ctx.true(V.max() >= th[0] - 1e-9, 'refined-only-if-asked', f'{name}: element {e} is refined, its maximum is {V.max():.3f} < {th[0]:.3f}')
        ctx.event('elements refined on request')
    # level by level: a leaf triangle of depth k whose pair partner is the leaf across its bottom edge is bisected iff either asked
    s = Seen(d, period)
    leaf = {}
    for g in s.groups():
        for i in g:
            e, a, sd = s.faces[i]
            if isinstance(e, tuple) and (a, sd) == (0, 1.):
                leaf[e] = [s.faces[j] for j in g if j != i]
    for e, partner in leaf.items():
        k = len(e) - 1
        if k >= lev:
            continue
        v = f(*d.mapping(e, *XI))
        reached = not partner or (isinstance(partner[0][0], tuple) and partner[0][1:] == (0, 1.))
        # the partner existed with the same shape when level k+1 was decided if it is a leaf of any depth <= k
        if reached and v.min() >= th[k] and (not partner or len(partner[0][0]) - 1 <= k):
            ctx.fail('refined-if-asked', f'{name}: triangle {e} meets {th[k]:.3f} everywhere and can be bisected, but is not')
        ctx.event('triangles examined')


# ------------------------------------------------------------------------------------------ sections
def sections(ctx, reps):
    from phyem.tools.miscellaneous.geometries.m2n2 import Point2, StraightLine2, StraightSegment2, Polygon2, Curve2
    rng = ctx.rng
    for i in range(reps):
        b, L = box(rng, 2)
        mode = i % 4
        outline = [(b[0][0], b[1][0]), (b[0][1], b[1][0]), (b[0][1], b[1][1]), (b[0][0], b[1][1])]
        if mode == 0:
            args = (C.random_indicator(rng, 3, 4, tri=[0., .5][i % 8 // 4], stretch=tuple(L), origin=tuple(q[0] for q in b)),)
            kw = {}
        elif mode == 1:
            m = int(rng.integers(3, 6))
            ang = np.linspace(0, TWO_PI, m, endpoint=False) + rng.uniform(-.3, .3, m)
            outline = [tuple(float(v) for v in q) for q in np.round(np.c_[np.cos(ang), np.sin(ang)] * 1.3, 3)]
            args, kw = ('meshpy',), dict(points=tuple(outline), max_volume=.3)
        elif mode == 2:
            args, kw = ('cylinder_channel',), dict(element_layout=1, r=.5, dl=1.5, dr=2., h=2.)
            outline = [(-1.5, -1.), (2., -1.), (2., 1.), (-1.5, 1.)]
        else:
            args, kw = ('crazy',), dict(element_layout=[3, 2], bounds=b, periodic=False, c=0.05 if i % 8 < 4 else 0.)
            if i % 8 >= 4:
                kw['trf'] = 1
        ctx.case(f'sections:{i}')
        name = f'{args[0] if isinstance(args[0], str) else "random"} {i}'
        O = np.array(outline, float)
        at = lambda j, w: tuple(float(v) for v in O[j % len(O)] + w * (O[(j + 1) % len(O)] - O[j % len(O)]))
        j, k = [int(v) for v in rng.permutation(len(outline))[:2]]
        normal = lambda q: (lambda t: (float(t[1]), float(-t[0])))(np.subtract(at(q, 1), at(q, 0)) / np.linalg.norm(np.subtract(at(q, 1), at(q, 0))))
        nj, nk = normal(j), normal(k)
        kinds = [('ounv', nj if i % 2 else (nj, nk), ('normal', [nj] if i % 2 else [nj, nk]))]
        kinds.append(('on straight lines', ([at(j, .2), at(j, 1.7)], (Point2(*at(k, 0.)), Point2(*at(k, 1.))),
                                            StraightLine2(Point2(9., 0.), Point2(9., 1.))),
                      ('line', [(at(j, 0.), at(j, 1.)), (at(k, 0.), at(k, 1.))])))
        u, v = sorted(rng.uniform(0, 1, 2))
        seg = (at(j, u - .25), at(j, v + .25))
        kinds.append(('on straight segments', (StraightSegment2(Point2(*seg[0]), Point2(*seg[1])),) if i % 2 else (seg,), ('segment', [seg])))
        cen = O.mean(axis=0)
        r = np.linalg.norm(O - cen, axis=1).max() * 1.3
        a0 = rng.uniform(0, TWO_PI)
        pg = [tuple(float(q) for q in cen + r * np.array([np.cos(a0 + t), np.sin(a0 + t)])) for t in (0, 1.4, 2.6)] + [tuple(float(q) for q in cen)]
        kinds.append(('in polygons', (Polygon2(*[Point2(*q) for q in pg]),), ('polygon', [pg])))
        if mode == 2:
            sg = [1, -1][i // 4 % 2]
            kinds.append(('on curves', (Curve2(lambda t: .5 * np.cos(t), lambda t, sg=sg: sg * .5 * np.sin(t), [np.pi / 4 - .05, 3 * np.pi / 4 + .05]),),
                          ('arc', (sg,))))
        many(ctx, args, kw, kinds, name)


def many(ctx, args, kw, kinds, name, n=2):
    manifold, mesh = S.fresh(n)
    names = [rf'\Gamma_{{{c}{q}}}' for q in range(len(kinds)) for c in 'ab'] + [r'\Gamma_{w}', r'\Gamma_{x}']
    bm = mesh.boundary()
    mesh.boundary_partition(*names)
    sp = ph.space.new('Lambda', n - 1, orientation='outer')
    f0 = sp.make_form('f_s', 'forms')
    ph.space.finite(1)
    ms, obj = ph.fem.apply('msehtt', dict(manifold=manifold, mesh=mesh, bm=bm))
    tgm = ms.base['the_great_mesh']
    ms.config('tgm')(*args, **kw)
    ms.config(obj['mesh'])(tgm, 'all')
    ms.config(obj['bm'])(tgm, obj['mesh'])
    d = S.Disc('msehtt', n)
    d.ms, d.obj, d.tgm, d.p = ms, obj, tgm, 1
    s = Seen(d)
    gr = s.groups()
    allb = {(s.faces[g[0]][0], int(fid(d, s.faces[g[0]]))): g[0] for g in gr if len(g) == 1}
    by = {m.abstract.manifold._sym_repr: m for m in ms.base['meshes'].values()}
    whole = {(e, int(f)) for e, f in obj['bm'].composition}
    ctx.eq(sorted(map(str, whole)), sorted(map(str, allb)), 'whole-boundary', name)
    F = ms.base['forms'][f0._pure_lin_repr]
    for q, (kind, arg, orc) in enumerate(kinds):
        yes, no = oracle(d, s, list(allb.values()), orc)
        for ex, c in (('', 'a'), ('except ', 'b')):
            m = by[rf'\Gamma_{{{c}{q}}}']
            ms.config(m)(tgm, {'type': ['boundary_section', 'boundary section', 'boundary-section'][q % 3],
                               'partial elements': obj['mesh'], ex + kind: arg})
            sel = {(e, int(f)) for e, f in m.composition}
            ctx.eq(len(m.composition), len(sel), 'section', f'{name} {ex}{kind}: length')
            ctx.true(sel <= set(allb), 'section', f'{name} {ex}{kind}: selects faces that are not on the boundary')
            y = {a for a, x in allb.items() if x in (no if ex else yes)}
            w = {a for a, x in allb.items() if x in (yes if ex else no)}
            ctx.true(y <= sel and not (w & sel), 'section',
                     f'{name} {ex}{kind} {str(orc)[:200]}: of {len(allb)} misses {sorted(map(str, y - sel))[:4]}, '
                     f'wrongly includes {sorted(map(str, w & sel))[:4]}')
            ctx.event('selected faces', len(sel))
            ctx.event('rejected faces', len(allb) - len(sel))
            ctx.event('sections')
            dofs(ctx, d, s, F, m, sel, allb, f'{name} {ex}{kind}')


def dofs(ctx, d, s, F, m, sel, allb, name):
    """the dofs of a section: one (p = 1, face form) per selected face"""
    got = m.find_dofs(F, local=True)
    want = {e: 0 for e, f in sel}
    for e, f in sel:
        want[e] += 1
    ctx.eq(sorted((str(e), len(v)) for e, v in got.items() if len(v)), sorted((str(e), v) for e, v in want.items()), 'section-dofs',
           f'{name}: number of face dofs per element')


def oracle(d, s, bd, orc):
    """faces certainly in / certainly out (5 points of the face against the criterion, with a margin)"""
    kind, data = orc
    yes, no = set(), set()
    for i in bd:
        X = s.pts[i].T
        if kind == 'normal':
            e, a, sd = s.faces[i]
            J = d.njac(e, *s._at(a, sd, _grid(d.n)))
            o = [q for q in range(d.n) if q != a]
            if d.n == 2:
                N = np.array([J[1, o[0]], -J[0, o[0]]])
            else:
                N = np.cross(J[:, o[0]], J[:, o[1]], axis=0)
            N = N / np.linalg.norm(N, axis=0)
            if np.sum(N * J[:, a]) * sd < 0:
                N = -N
            dev = [np.abs(N - np.array(v)[:, None]).max() for v in data]
            (yes if min(dev) < 1e-8 else no).add(i) if min(dev) < 1e-8 or min(dev) > 1e-4 else None
        elif kind in ('line', 'segment'):
            dist = []
            for A, B in data:
                A, B = np.array(A), np.array(B)
                t = (X - A) @ (B - A) / np.sum((B - A) ** 2)
                if kind == 'segment':
                    t = np.clip(t, 0, 1)
                dist.append(np.linalg.norm(X - A - t[:, None] * (B - A), axis=1).max())
            if min(dist) < 1e-9:
                yes.add(i)
            elif min(dist) > 5e-3:
                no.add(i)
        elif kind == 'polygon':
            st = []
            for pg in data:
                pg = np.array(pg)
                ins = np.array([inside(x, pg) for x in X])
                dist = np.array([edge_dist(x, pg) for x in X])
                st.append((bool((ins & (dist > 1e-3)).all()), bool((~ins & (dist > 1e-3)).any())))
            if any(a for a, b in st):
                yes.add(i)
            elif all(b for a, b in st):
                no.add(i)
        elif kind == 'arc':
            on = np.abs(np.hypot(*X.T) - .5)
            if on.max() < 1e-8 and (data[0] * X[:, 1] > .34).all():
                yes.add(i)
            elif on.max() > 1e-2 or (data[0] * X[:, 1] < .25).any():
                no.add(i)
    return yes, no


def _grid(n):
    t = [np.array([-.9, -.3, .2, .8])] * (n - 1)
    return [x.ravel() for x in np.meshgrid(*t, indexing='ij')]


def inside(x, P):
    """winding number"""
    v = P - x
    a = np.arctan2(v[:, 1], v[:, 0])
    t = np.roll(a, -1) - a
    return abs(np.sum((t + np.pi) % TWO_PI - np.pi)) > np.pi


def edge_dist(x, P):
    out = []
    for A, B in zip(P, np.roll(P, -1, axis=0)):
        t = np.clip((x - A) @ (B - A) / np.sum((B - A) ** 2), 0, 1)
        out.append(np.linalg.norm(x - A - t * (B - A)))
    return min(out)


def sections3(ctx, reps):
    rng = ctx.rng
    for i in range(reps):
        b, L = box(rng, 3)
        gen = ['crazy', 'backward_step'][i % 2]
        args = (gen,)
        kw = dict(element_layout=[2, 3, 2], bounds=b, periodic=False, c=[0., .04][i // 2 % 2]) if gen == 'crazy' else dict(element_layout=1, z=.5)
        ax = [tuple(float(sg * (q == a)) for q in range(3)) for a in range(3) for sg in (-1, 1)]
        ch = [ax[int(v)] for v in rng.permutation(6)[:3]]
        ctx.case(f'sections3:{i}')
        many(ctx, args, kw, [('ounv', ch[0], ('normal', [ch[0]])), ('ounv', tuple(ch[1:]), ('normal', ch[1:]))], f'{gen} 3D {i}', n=3)


# ------------------------------------------------------------------------------------------ units
def UNITS(tier):
    t = 5 if tier == 'thorough' else 1
    u = []
    for gen in ('crazy', 'crazy_multi', 'backward_step', 'cylinder_channel'):
        for n in (1, 2, 3):
            if n == 1 and gen != 'crazy' or n == 3 and gen == 'cylinder_channel':
                continue
            u.append((f'generate:msepy:{gen}:{n}', generator, dict(impl='msepy', gen=gen, n=n, reps=3 * t)))
            if n > 1:
                u.append((f'generate:msehtt:{gen}:{n}', generator, dict(impl='msehtt', gen=gen, n=n, reps=(3 if n == 3 else 4) * t)))
    for gen in ('chaotic', 'rectangle', 'quad', 'meshpy'):
        u.append((f'generate:msehtt:{gen}:2', generator, dict(impl='msehtt', gen=gen, n=2, reps=(6 if gen == 'chaotic' else 3) * t)))
    u.append(('imported', dicts, dict(reps=6 * t)))
    u.append(('slices', slices, dict(reps=2 * t)))
    u.append(('renumber', renumber, dict(reps=3 * t)))
    for w in ('crazy', 'crazyc', 'chaotic', 'chaoticc', 'periodic', 'multi', 'dict'):
        u.append((f'refine:{w}', refine, dict(which=w, reps=(8 if w == 'dict' else 4) * t)))
    u.append(('looked at', looked_at, dict(reps=2 * t)))
    u.append(('sections', sections, dict(reps=8 * t)))
    u.append(('sections:3', sections3, dict(reps=2 * t)))
    return u


