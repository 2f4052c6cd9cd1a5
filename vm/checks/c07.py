"""C07: coordinate transformations of regions, elements, faces and boundary sections."""
import itertools
import numpy as np
from vm import configs as C
from vm import geo as G
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (configuration, element, point set) or face; Jacobians of the domain maps are compared with differences of the mappings',
    assumptions=['4th order differences with step 1e-3 reproduce the Jacobian of the smooth mappings used up to 1e-6',
                 'the mapping itself is the ground truth: it defines the geometry; its continuity, orientation and total volume are monitored'],
    note='Observes mappings, Jacobians, inverses, metrics of elements, regions, faces and boundary sections of both implementations.',
    must_observe=['jacobian', 'det', 'inverse', 'metric', 'volume', 'conforming', 'face', 'normal', 'sections'])

NAMES = ('Jacobian_matrix', 'inverse_Jacobian_matrix', 'Jacobian', 'inverse_Jacobian', 'metric', 'metric_matrix',
         'inverse_metric_matrix')
TOL = 2e-6


def full(M, shape):
    """nested lists of scalars/arrays -> array (a, b, *shape) / (*shape)"""
    if isinstance(M, (list, tuple)):
        return np.array([full(m, shape) for m in M])
    return np.broadcast_to(np.asarray(M, dtype=float), shape).copy()


def mats(J):
    return np.moveaxis(J, (0, 1), (-2, -1))


def back(M):
    return np.moveaxis(M, (-2, -1), (0, 1))


def expected(J):
    M = mats(J)
    det = np.linalg.det(M)
    inv = np.linalg.inv(M)
    T = np.swapaxes(M, -1, -2)
    Ti = np.swapaxes(inv, -1, -2)
    return dict(Jacobian_matrix=J, inverse_Jacobian_matrix=back(inv), Jacobian=det, inverse_Jacobian=1 / det,
                metric=det ** 2, metric_matrix=back(T @ M), inverse_metric_matrix=back(inv @ Ti))


KEY = dict(Jacobian_matrix='jacobian', inverse_Jacobian_matrix='inverse', Jacobian='det', inverse_Jacobian='inverse',
           metric='metric', metric_matrix='metric', inverse_metric_matrix='metric')


def points(rng, n, tri, shape=None):
    shape = shape or [(5,), (2, 3), (1,), (2, 1, 2)][int(rng.integers(4))]
    lo = -.9 if tri else -1.
    return [rng.uniform(lo, 1, shape) for _ in range(n)]


def moved(xi, rng):
    return [np.clip(x + rng.choice([0, 1e-7, -1e-5, 1e-3]), -.95, 1) for x in xi]


def judge(ctx, name, got, ref, shape, tag):
    a = full(got, shape)
    b = ref[name]
    ctx.close(a, b, KEY[name], TOL * 4, f'{tag} {name}', scale=max(1e-3, float(np.max(np.abs(b)))))


def element_points(d, rng, e, reps):
    """point sets; later ones are slight displacements, repetitions or permutations of earlier ones"""
    tri = G.is_tri(d, e)
    out = []
    for r in range(reps):
        k = rng.random()
        if out and k < .25:
            out.append(out[int(rng.integers(len(out)))])
        elif out and k < .5:
            out.append(moved(out[int(rng.integers(len(out)))], rng))
        elif out and k < .6:
            xi = out[int(rng.integers(len(out)))]
            out.append([np.ascontiguousarray(x[::-1]) for x in xi])
        else:
            out.append(points(rng, d.n, tri))
    return out


def elements(ctx, conf, reps=4, most=24):
    d = C.build(conf, 2, keys=[(d0, 'outer') for d0 in (0,)], rng=np.random.default_rng([ctx.seed, 7]))
    n, rng = d.n, ctx.rng
    els = d.elements
    few = els if len(els) <= most else [els[i] for i in sorted(rng.choice(len(els), most, replace=False))]
    order = [(e, xi) for e in few for xi in element_points(d, rng, e, reps)]
    shared = points(rng, n, any(G.is_tri(d, e) for e in els), (3,))
    order += [(e, shared) for e in few]            # the same points in all elements: caches must not mix elements
    order = [order[i] for i in rng.permutation(len(order))]
    for e, xi in order:
        ctx.case(conf, 'element', e, np.round(np.ravel(xi[0])[:3], 7))
        J = d.njac(e, *xi)
        ref = expected(J)
        for name in rng.permutation(NAMES):
            got = getattr(d.ct(e), name)(*xi)
            if n == 1 and name.endswith('matrix') and not isinstance(got, (list, tuple)):
                got = [[got]]
            judge(ctx, name, got, ref, xi[0].shape, f'{conf} element {e} {d.etype(e)}')
        ctx.true(np.all(ref['Jacobian'] > 0), 'det', f'{conf} element {e}: orientation {ref["Jacobian"]}')
        # affine/pointwise: evaluating one point alone gives the same coordinates
        X = d.mapping(e, *xi)
        one = [np.array([x.ravel()[-1]]) for x in xi]
        ctx.close(d.mapping(e, *one)[:, 0], X.reshape(n, -1)[:, -1], 'conforming', 1e-12, 'pointwise')
    # -- total volume
    q = 10 if n < 3 else 7
    xi, w = S.tensor_gauss(n, q)
    vol = {e: float(np.sum(np.asarray(d.ct(e).Jacobian(*xi), dtype=float) * w)) for e in few}
    for e in few:
        X = d.njac(e, *xi)
        ctx.close(vol[e], np.sum(np.linalg.det(mats(X)) * w), 'volume', 1e-5, f'{conf} element {e}', scale=max(1e-3, abs(vol[e])))
    if 'area' in d.conf:
        tot = sum(float(np.sum(np.asarray(d.ct(e).Jacobian(*xi), dtype=float) * w)) for e in els)
        ctx.close(tot, d.conf['area'], 'volume', 1e-6, f'{conf} total')
    if d.impl == 'msepy':
        aggregate_msepy(ctx, d, conf)
    else:
        aggregate_msehtt(ctx, d, conf)
    conforming(ctx, d, conf)


def conforming(ctx, d, conf):
    """both elements describe a common face by the same points"""
    n, rng = d.n, ctx.rng
    if d.conf.get('periodic'):
        return faces_periodic(ctx, d, conf)
    if n == 1:
        X = sorted((float(d.mapping(e, np.array([-1.]))[0, 0]), float(d.mapping(e, np.array([1.]))[0, 0])) for e in d.elements)
        for a, b in zip(X, X[1:]):
            ctx.close(a[1], b[0], 'conforming', 1e-10)
        return
    pairs, bd, bad = G.pair_faces(d)
    ctx.eq(bad, [], 'conforming', f'{conf}: a face with more than two elements')
    t = np.linspace(-1, 1, 7)
    for (A, B) in pairs:
        P = []
        for e, a, s in (A, B):
            g = np.meshgrid(*[t] * (n - 1), indexing='ij')
            xi = [x.ravel() for x in g]
            xi.insert(a, np.full(xi[0].shape, s))
            X = d.mapping(e, *xi)
            P.append(X[:, np.lexsort(np.round(X, 6))])
        ctx.close(P[0], P[1], 'conforming', 1e-7, f'{conf} {A} {B}')


def faces_periodic(ctx, d, conf):
    """every face of a fully periodic domain has a partner: the same face up to a translation by a domain size"""
    if d.n == 1:
        return ctx.true(True, 'conforming')
    n = d.n
    t = np.linspace(-1, 1, 4)
    pos = {}
    lo, hi = np.full(n, 1e9), np.full(n, -1e9)
    for e in d.elements:
        c = d.mapping(e, *[np.array(x) for x in zip(*itertools.product((-1., 1.), repeat=n))])
        lo, hi = np.minimum(lo, c.min(1)), np.maximum(hi, c.max(1))
    for e, a, s in G.faces_2d(d):
        xi = [np.zeros(1) for _ in range(n)]
        xi[a] = np.array([s])
        X = d.mapping(e, *xi)[:, 0]
        L = hi - lo
        r = np.round((X - lo) / L, 5) % 1.
        pos.setdefault(tuple(np.round(r, 4) % 1.), []).append((e, a, s))
    for k, v in pos.items():
        ctx.eq(len(v), 2, 'conforming', f'{conf} periodic face {k} {v}')


# ------------------------------------------------------------------------------------------- msepy
def aggregate_msepy(ctx, d, conf):
    mesh, n, rng = d.obj['mesh'], d.n, ctx.rng
    els = d.elements
    for rep in range(3):
        shape = [(4,), (2, 2), (3,)][rep]
        xi = points(rng, n, False, shape)
        ctx.case(conf, 'aggregate', rep)
        rg = [int(i) for i in rng.choice(els, min(len(els), 5), replace=False)] if rep else None
        if n == 1:
            J1 = mesh.ct.Jacobian_matrix(*xi)
        agg = mesh.elements.ct
        X = agg.mapping(*xi, element_range=rg)
        ctx.eq(sorted(X), sorted(rg or els), 'jacobian', 'element_range')
        if rg:
            X1 = agg.mapping(*xi, element_range=rg[0])
            ctx.eq(list(X1), [rg[0]], 'jacobian')
        whole = mesh.ct.mapping(*xi)
        for e in X:
            ref = d.mapping(e, *xi)
            ctx.close(np.array(X[e]), ref, 'conforming', 1e-12, f'{conf} elements.ct.mapping')
            ctx.close(np.array([w[..., e] for w in whole]), ref, 'conforming', 1e-12, f'{conf} mesh.ct.mapping')
        refs = {e: expected(d.njac(e, *xi)) for e in X}
        for name in NAMES:
            got = getattr(agg, name)(*xi, element_range=rg)
            ctx.eq(sorted(got), sorted(rg or els), KEY[name], 'element_range')
            for e in X:
                g = got[e]
                if n == 1 and name.endswith('matrix') and not isinstance(g, (list, tuple)):
                    g = [[g]]
                judge(ctx, name, g, refs[e], shape, f'{conf} elements.ct element {e}')
            got = getattr(mesh.ct, name)(*xi)
            for e in X:
                g = got(int(e))
                judge(ctx, name, g, refs[e], shape, f'{conf} mesh.ct element {e}')
    regs = mesh.manifold.regions
    if n > 1:
        for ri in range(len(regs)):
            es = range(*mesh.elements._elements_in_region(ri)) if hasattr(mesh.elements, '_elements_in_region') else None
            xi = points(rng, n, False, (3,))
            part = mesh.ct.mapping(*xi, regions=ri)
            ctx.case(conf, 'region', ri)
            if es is not None:
                for k, e in enumerate(es):
                    ctx.close(np.array([w[..., k] for w in part]), d.mapping(e, *xi), 'conforming', 1e-12, f'{conf} region {ri}')
    # region maps
    ct = mesh.manifold.ct
    for rep in range(3):
        rst = [rng.uniform(0.01, .99, [(4,), (2, 3), (1,)][rep]) for _ in range(n)]
        X = ct.mapping(*rst)
        JM = ct.Jacobian_matrix(*rst)
        ctx.eq(sorted(X), list(range(len(regs))), 'jacobian')
        for r in X:
            ctx.case(conf, 'region', r, rep)
            J = np.zeros((n, n) + rst[0].shape)
            h = 1e-3
            for j in range(n):
                for c, w in ((-2, 1 / 12), (-1, -2 / 3), (1, 2 / 3), (2, -1 / 12)):
                    at = [x.copy() for x in rst]
                    at[j] = at[j] + c * h
                    J[:, j] += w / h * np.array([np.asarray(v) + 0 * rst[0] for v in ct.mapping(*at, regions=r)[r]])
            got = JM[r]
            ctx.close(full(got, rst[0].shape), J, 'jacobian', TOL * 5, f'{conf} region {r}', scale=max(1., np.max(np.abs(J))))
            ctx.close(full(ct.Jacobian_matrix(*rst, regions=r)[r], rst[0].shape), J, 'jacobian', TOL * 5, f'{conf} region {r}', scale=max(1., np.max(np.abs(J))))
    if n > 1:
        em = mesh.elements
        got = em.area() if n == 2 else em.volume()
        if d.conf.get('ortho'):
            xi, w = S.tensor_gauss(n, 4)
            for e in got:
                ctx.close(got[e], np.sum(np.linalg.det(mats(d.njac(e, *xi))) * w), 'volume', 1e-7, f'{conf} area/volume of {e}', scale=max(1e-3, got[e]))
        elif 'area' in d.conf:
            ctx.close(sum(got.values()), d.conf['area'], 'volume', 1e-3, f'{conf} area/volume')


# ------------------------------------------------------------------------------------------- faces
def ref_face(n, tri, f):
    """(axis, side)"""
    if tri:
        return [(1, -1.), (0, 1.), (1, 1.)][f]
    return f // 2, (-1., 1.)[f % 2]


def face_case(ctx, d, e, a, s, fct, t, tag, ev, tol=TOL * 2):
    """t: n-1 arrays.  Observes mapping, tangents and outward unit normal of a face"""
    n = d.n
    xi = list(t)
    if n == 3 and ev == '2' and a == 1:
        xi = xi[::-1]                  # faces along the second axis are parametrised by dz ^ dx
    xi.insert(a, np.full(t[0].shape, s))
    args = xi if ev == '3' else t
    X = np.array([np.asarray(x, dtype=float) + 0 * t[0] for x in fct.mapping(*args)])
    ctx.close(X, d.mapping(e, *xi), 'face', 1e-11, f'{tag} mapping')
    J = d.njac(e, *xi)
    others = [b for b in range(n) if b != a]
    if n == 3:
        others = [(1, 2), (2, 0), (0, 1)][a]
    T = np.array([J[:, b] for b in others])            # (n-1, n, ...)
    got = fct.Jacobian_matrix(*args)
    if n == 2:
        got = full(list(got), t[0].shape)[None]
    else:
        got = np.moveaxis(full([list(r) for r in got], t[0].shape), 1, 0)
    ctx.close(got, T, 'face', tol, f'{tag} tangents', scale=max(1e-3, np.max(np.abs(T))))
    nv = full(list(fct.outward_unit_normal_vector(*args)), t[0].shape)
    normal_ok(ctx, nv, T, J[:, a] * s, tag)
    return nv, T


def normal_ok(ctx, nv, T, out, tag):
    ctx.close(np.sum(nv ** 2, axis=0), np.ones(nv.shape[1:]), 'normal', 1e-9, f'{tag} unit length')
    for v in T:
        ctx.close(np.sum(nv * v, axis=0), np.zeros(nv.shape[1:]), 'normal', TOL * 2, f'{tag} orthogonal to the face',
                  scale=max(1e-3, np.max(np.abs(v))))
    ctx.true(np.all(np.sum(nv * out, axis=0) > 0), 'normal', f'{tag}: not outward {nv}')


def face_points(rng, n, tri):
    return [rng.uniform(-.9 if tri else -1, 1, (4,)) for _ in range(n - 1)]


def aggregate_msehtt(ctx, d, conf):
    n, rng = d.n, ctx.rng
    els = d.elements if len(d.elements) <= 16 else [d.elements[i] for i in rng.choice(len(d.elements), 16, replace=False)]
    shared = None
    for e in els:
        el = d.tgm.elements[e]
        tri = G.is_tri(d, e)
        try:
            el.faces
        except NotImplementedError:
            continue
        area = []
        for f in range(3 if tri else 2 * n):
            a, s = ref_face(n, tri, f)
            try:
                F = el.faces[f]
            except NotImplementedError:
                continue
            ctx.case(conf, 'face', e, f, d.etype(e))
            sets = [face_points(rng, n, tri) for _ in range(2)]
            shared = shared or [np.array([-.3, .1, .9]) for _ in range(n - 1)]
            sets.append(shared)
            for t in sets:
                nv, T = face_case(ctx, d, e, a, s, F.ct, t, f'{conf} element {e} {d.etype(e)} face {f}', '3' if n == 3 else '2')
            plane = ctx.sub('face', F.ct.is_plane)
            if plane:
                c = np.array(F.ct.constant_outward_unit_normal_vector, dtype=float)
                ctx.close(c, nv[:, 0], 'normal', 2e-6, f'{conf} {e} face {f} constant normal')
                ctx.close(nv, nv[:, :1] + 0 * nv, 'normal', 1e-6, f'{conf} element {e} face {f}: is_plane() but the normal varies')
            elif plane is not None:
                ctx.raises(lambda: F.ct.constant_outward_unit_normal_vector, 'normal', 'constant normal of a curved face')
            if 'area' in dir(type(F)):
                try:
                    A = F.area
                except NotImplementedError:
                    A = None
                if A is not None:
                    q, w = S.tensor_gauss(n - 1, 12)
                    xi = list(q)
                    xi.insert(a, np.full(q[0].shape, s))
                    J = d.njac(e, *xi)
                    b = [i for i in range(n) if i != a]
                    m = np.linalg.norm(np.cross(J[:, b[0]], J[:, b[1]], axis=0), axis=0) if n == 3 else np.linalg.norm(J[:, b[0]], axis=0)
                    ctx.close(A, np.sum(m * w), 'face', 1e-4 if not d.conf.get('ortho') else 1e-6, f'{conf} {e} face {f} area', scale=max(1e-3, A))
        # closed surface: the normals integrate to zero
        close_surface(ctx, d, e, el, tri, conf)


def close_surface(ctx, d, e, el, tri, conf):
    n = d.n
    tot = 0.
    x, w = S.tensor_gauss(n - 1, 14)
    for f in range(3 if tri else 2 * n):
        a, s = ref_face(n, tri, f)
        xi = list(x)
        xi.insert(a, np.full(x[0].shape, s))
        F = el.faces[f]
        nv = full(list(F.ct.outward_unit_normal_vector(*(xi if n == 3 else x))), x[0].shape)
        J = F.ct.Jacobian_matrix(*(xi if n == 3 else x))
        if n == 2:
            m = np.linalg.norm(full(list(J), x[0].shape), axis=0)
        else:
            M = np.moveaxis(full([list(r) for r in J], x[0].shape), 1, 0)
            m = np.linalg.norm(np.cross(M[0], M[1], axis=0), axis=0)
        tot = tot + np.sum(nv * m * w, axis=1)
    ctx.close(tot, np.zeros(n), 'normal', 1e-5, f'{conf} element {e}: closed surface')


def sections(ctx, n, K, dom, kw, gammas):
    """boundary sections of a msepy mesh"""
    rng = ctx.rng
    d = S.make_msepy(n, K, 2, dom, dict(kw), [(0, 'outer')], gamma=gammas)
    d.name, d.conf = str((n, K, dom)), {}
    total = {}
    for name, b in d.sections.items():
        ids = list(b.faces)
        total[name] = {(int(b.faces[i]._element), int(b.faces[i]._m), int(b.faces[i]._n)) for i in ids}
        ctx.eq(len(total[name]), len(b.faces), 'sections', 'faces distinct')
        sets = [face_points(rng, n, False) for _ in range(2)] + [[np.array([-.5, .25]) for _ in range(n - 1)]]
        sets += [[x + 1e-6 for x in sets[-1]], sets[0]]
        for t in sets:
            ctx.case('section', d.name, name, np.round(t[0], 7))
            X, J, N = (getattr(b.ct, q)(*t) for q in ('mapping', 'Jacobian_matrix', 'outward_unit_normal_vector'))
            for D in (X, J, N):
                ctx.eq(sorted(D), ids, 'sections', 'keys')
            for i in ids:
                F = b.faces[i]
                e, a, s = int(F._element), int(F._m), (-1., 1.)[int(F._n)]

                class Agg:
                    mapping = staticmethod(lambda *q: X[i])
                    Jacobian_matrix = staticmethod(lambda *q: J[i])
                    outward_unit_normal_vector = staticmethod(lambda *q: N[i])
                face_case(ctx, d, e, a, s, Agg, t, f'{d.name} section {name} face {i}', '2')
                face_case(ctx, d, e, a, s, F.ct, t, f'{d.name} section {name} face {i} own', '2')
        if n == 2:
            for i in ids:
                F = b.faces[i]
                x, w = S.tensor_gauss(1, 14)
                xi = list(x)
                xi.insert(int(F._m), np.full(x[0].shape, (-1., 1.)[int(F._n)]))
                J = d.njac(int(F._element), *xi)[:, 1 - int(F._m)]
                L = np.sum(np.linalg.norm(J, axis=0) * w)
                ctx.close(F.length, L, 'face', 1e-6, 'length', scale=max(1e-3, L))
                if F.is_orthogonal():
                    nv = full(list(F.ct.outward_unit_normal_vector(x[0])), x[0].shape)
                    ctx.close(np.max(np.abs(nv), axis=0), np.ones(len(x[0])), 'normal', 1e-9, 'is_orthogonal')
    # Gamma_a and Gamma_b partition the boundary; 'all' are the faces without a neighbour
    if {'a', 'b', 'all'} <= set(total):
        ctx.eq(total['a'] & total['b'], set(), 'sections', 'disjoint')
        ctx.eq(total['a'] | total['b'], total['all'], 'sections', 'cover')
    pairs, bd, bad = G.pair_faces(d)
    ctx.eq(total.get('all'), {(e, a, int(s > 0)) for e, a, s in bd}, 'sections', 'boundary faces')


SEC = {
    'crazy2': (2, [2, 3], 'crazy', dict(c=0.1, bounds=[[-.5, 1], [.25, 1.5]]), [{0: [1, 0, 0, 0]}, {0: [0, 1, 1, 0]}, {0: [1, 0, 1, 1]}]),
    'ortho2': (2, [[1, 2, 1], [2, 1]], 'crazy', dict(c=0., bounds=[[-.5, 1], [.25, 1.5]]), [{0: [0, 1, 0, 1]}]),
    'crazy3': (3, [2, 1, 3], 'crazy', dict(c=0.05, bounds=[[0, 1], [0, 1.5], [0, 1]]), [{0: [1, 0, 0, 1, 0, 1]}, {0: [0, 0, 1, 0, 1, 0]}]),
    'ortho3': (3, [2, 2, 1], 'crazy', dict(c=0., bounds=[[0, 1], [0, 1.5], [0, 1]]), [{0: [1, 0, 0, 1, 0, 1]}]),
    'multi2': (2, [2, 1], 'crazy_multi', dict(c=0.05, bounds=[[0, 1], [0, 1]], Ns=[2, 2]), [{0: [1, 0, 0, 0], 3: [0, 1, 0, 1]}]),
    'step2': (2, 2, 'backward_step', {}, [{0: [1, 0, 0, 0]}]),
    'cyl2': (2, 1, 'cylinder_channel', {}, [{0: [1, 0, 0, 0]}]),
}


def UNITS(tier):
    quick = tier == 'quick'
    U = []
    for c, v in C.CONF.items():
        if c.startswith('K'):
            continue
        U.append((c, elements, dict(conf=c) if quick else dict(conf=c, reps=12, most=60)))
    for s, (n, K, dom, kw, gs) in SEC.items():
        for i, g in enumerate(gs):
            U.append((f'section:{s}:{i}', sections, dict(n=n, K=K, dom=dom, kw=kw, gammas=g)))
    return U
