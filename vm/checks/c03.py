"""C03: reconstruction: pointwise oracle, reduce o reconstruct = id, continuity, linearity, matrices, faces."""
import numpy as np
from vm import configs as C
from vm import geo as G
from vm.checks.c02 import Q2, Q3
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (mesh, degree, space, random cochain, random evaluation grid)',
    assumptions=['the field of a cochain is the push-forward of sum c_i * (Lagrange/edge basis) with the documented local '
                 'numbering, recomputed with independent bases and a numerical Jacobian; orientation signs of unstructured '
                 'elements are observed from reductions of random fields'],
    note='Observes every reconstruction path on every element type; trusts the element mapping (C07) and reduction (C02). Forms of several degrees share one mesh and are judged in turn (the first again after the others).',
    must_observe=['several degrees', 'pointwise', 'roundtrip', 'continuity', 'linear', 'matrix', 'face', 'rate', 'element-range', 'ravel'])


def rgrid(rng, n, ends=True):
    g = []
    for _ in range(n):
        m = int(rng.integers(1, 6))
        x = np.sort(rng.uniform(-.98, .98, m))
        if ends and rng.random() < .5:
            x = np.concatenate([[-1.], x, [1.]])
        g.append(x)
    return g


def run(ctx, conf, p, rep=0, d=None):
    d = d or C.build(conf, p, rng=np.random.default_rng([ctx.seed, rep, 13]))
    n, rng = d.n, ctx.rng
    nodes = G.nodes_of(p, n)
    tris = {e: G.is_tri(d, e) for e in d.elements}
    anytri = any(tris.values())
    per = bool(d.conf.get('periodic'))
    els = d.elements
    for key in S.SPACES[n]:
        k, o = key
        rev = G.has_reversal(d) and 0 < k < n
        sg = G.signs(d, key, nodes, tris, rng) if rev else None
        gmat = d.gm(key)
        t = 0.25
        g = d.random_global(key, t, rng)
        c = {e: g[gmat[e]] for e in els}
        ctx.case(conf, f'p={p}', key)
        for it in range(3):
            grid = rgrid(rng, n, ends=not anytri)
            if anytri:
                grid = [np.clip(x, -.97, 1) for x in grid]
            rec = d.recon(key, t, *grid)
            if it < 2 or True:
                ctx.true(set(rec) == set(els), 'all-elements')
            for e in els:
                s = sg[e] if rev else 1.
                X, V = G.recon(d, e, nodes, key, c[e] * s, tris[e], *grid)
                ctx.close(rec[e][0], X, 'coordinates', 1e-9, f'element {e}')
                ctx.close(rec[e][1], V, 'pointwise', 2e-7, f'element {e} {d.etype(e)} grid {[len(x) for x in grid]}',
                          scale=max(1., np.abs(V).max()))
        # not raveled
        raw = d.F[key][t].reconstruct(*grid) if d.impl == 'msepy' else d.F[key][t].reconstruct(*grid, ravel=False)
        shp = tuple(len(x) for x in grid)
        for e in els:
            for src, a in ((rec[e][0], raw[0]), (rec[e][1], raw[1])):
                for i in range(len(a)):
                    v = np.asarray(a[i][e])
                    ctx.true(v.shape == shp and np.array_equal(v.ravel('F'), np.ravel(src[i])), 'ravel', f'{v.shape} {shp}')
        # element range
        if d.impl == 'msehtt':
            sub = [e for e in els if rng.random() < .5] or els[:1]
            r2 = d.F[key][t].reconstruct(*grid, ravel=True, element_range=sub)
            ctx.true(set(r2[0][0]) == set(sub), 'element-range', f'{sorted(r2[0][0])} instead of {sub}')
            for e in sub:
                for i in range(len(r2[1])):
                    ctx.true(np.array_equal(np.ravel(r2[1][i][e]), rec[e][1][i]), 'element-range', f'element {e}')
        else:
            ctx.event('element-range')
        # linearity
        g2 = d.random_global(key, 0.5, rng)
        al, be = rng.uniform(-3, 3, 2)
        d.set(key, 0.75, {e: al * g[gmat[e]] + be * g2[gmat[e]] for e in els})
        ra, rb, rc = (d.recon(key, tt, *grid) for tt in (t, 0.5, 0.75))
        for e in els:
            ctx.close(rc[e][1], al * ra[e][1] + be * rb[e][1], 'linear', 1e-11, scale=1 + np.abs(rc[e][1]).max())
        # reconstruction matrix
        if not anytri and not (d.impl == 'msehtt' and any(d.etype(e) == 'unique curvilinear quad' for e in els)):
            RM = d.F[key].reconstruction_matrix(*grid)
            for e in els:
                m = [np.asarray(x) for x in RM[e]] if d.impl == 'msepy' else \
                    [np.asarray(x[e]) for x in (RM if isinstance(RM, (list, tuple)) else [RM])]
                ctx.eq(len(m), d.ncomp(key), 'matrix', 'number of components')
                for i, mi in enumerate(m):
                    ctx.close(mi @ c[e], rec[e][1][i], 'matrix', 1e-10, f'element {e} component {i}', scale=1 + np.abs(rec[e][1]).max())
        else:
            ctx.event('matrix')
        # round trip: integrate the reconstructed field over the dofs' cells
        q = 6
        gx, gw = np.polynomial.legendre.leggauss(max(len(x) for x in nodes) + 5)
        for c_ in range(d.ncomp(key)):
            roundtrip(ctx, d, key, nodes, tris, sg, c, t, c_, gx, gw)
        if not per:
            continuity(ctx, d, key, t, rng, anytri)
        if d.impl == 'msehtt' and n == 2:
            face(ctx, d, key, t, c, rng)
        else:
            ctx.event('face')


def roundtrip(ctx, d, key, nodes, tris, sg, c, t, comp, gx, gw):
    k, o = key
    n = d.n
    if 0 < k < n:
        al = ((comp,) if o == 'inner' else (1 - comp,)) if n == 2 else \
            ((comp,) if k == 1 else tuple(a for a in range(3) if a != comp))
    else:
        al = tuple(range(n)) if k == n else ()
    grid = []
    for a in range(n):
        x = nodes[a]
        if a in al:
            grid.append(np.concatenate([l + (r - l) / 2 * (gx + 1) for l, r in zip(x[:-1], x[1:])]))
        else:
            grid.append(x)
    anytri = any(tris.values())
    if anytri and k:      # the reference triangle is collapsed at xi=-1: no dof there
        grid = [np.where(x == -1, -1 + 1e-9, x) if i == 0 else x for i, x in enumerate(grid)]
    rec = d.recon(key, t, *grid)
    shp = tuple(len(x) for x in grid)
    XI = [a.ravel('F') for a in np.meshgrid(*grid, indexing='ij')]
    for e in d.elements:
        V = rec[e][1]
        J = d.njac(e, *XI)
        if k == 0:
            v = V[0]
        elif k == n:
            v = V[0] * np.abs(np.linalg.det(np.moveaxis(J, (0, 1), (-2, -1))))
        elif len(al) == 1 and (n == 3 or o == 'inner'):
            v = np.sum(V * J[:, al[0]], axis=0)
        elif n == 2:
            tt = J[:, al[0]]
            v = V[0] * tt[1] - V[1] * tt[0] if al[0] == 1 else -V[0] * tt[1] + V[1] * tt[0]
        else:
            a, b = [(1, 2), (2, 0), (0, 1)][comp]
            v = np.sum(V * np.cross(J[:, a], J[:, b], axis=0), axis=0)
        v = v.reshape(shp, order='F')
        for a in al:
            h = np.diff(nodes[a]) / 2
            v = np.moveaxis(v, a, -1)
            v = (v.reshape(v.shape[:-1] + (len(h), len(gx))) * gw).sum(-1) * h
            v = np.moveaxis(v, -1, a)
        if tris[e] and al and 0 not in al:
            v = v[1:]
        if tris[e] and not al:
            w = v.ravel('F')
            N = len(nodes[1])
            v = np.concatenate([[v[0, 0]], v[1:, :].ravel('F')])
        v = v.ravel('F')
        s = sg[e] if sg is not None else np.ones(len(c[e]))
        cells = G.dof_cells(nodes, k, o, n, tris[e])
        mine = [i for i, x in enumerate(cells) if x[2] == al] if 0 < k < n else list(range(len(cells)))
        if n == 3 and 0 < k < n or n == 2 and k == 1:
            pass
        ctx.close(v, (c[e] * s)[mine], 'roundtrip', 1e-6 if tris[e] else 1e-7, f'element {e} component {comp}', scale=4.)


def continuity(ctx, d, key, t, rng, anytri):
    n = d.n
    if n == 1:
        if key[0] != 0:
            return
        rec = d.recon(key, t, np.array([-1., 1.]))
        v = {}
        for e in d.elements:
            for i in (0, 1):
                v.setdefault(round(float(rec[e][0][0][i]), 9), []).append(rec[e][1][0][i])
        for x, l in v.items():
            ctx.close(l, [l[0]] * len(l), 'continuity', 1e-10)
        return
    pairs, bd, bad = G.pair_faces(d)
    ctx.eq(len(bad), 0, 'continuity', 'more than two elements at a face')
    k, o = key
    if k == n:
        return
    s = np.sort(rng.uniform(0.1, .9, 2))
    s = np.concatenate([-s[::-1], s])
    cache = {}
    for pr in pairs:
        out = []
        for e, a, side in pr:
            if (a, side) not in cache:
                g = [s] * n
                g[a] = np.array([side])
                cache[(a, side)] = d.recon(key, t, *g)
            X, V = cache[(a, side)][e]
            g = [s] * n
            g[a] = np.array([side])
            XI = [z.ravel('F') for z in np.meshgrid(*g, indexing='ij')]
            J = d.njac(e, *XI)
            out.append((X, V, [J[:, b] for b in range(n) if b != a]))
        (X1, V1, T1), (X2, V2, T2) = out
        # match points
        D = np.abs(X1[:, :, None] - X2[:, None, :]).max(axis=0)
        m = D.argmin(axis=1)
        if not ctx.true(D.min(axis=1).max() < 1e-7, 'continuity', 'matching faces have other points'):
            continue
        V2 = V2[:, m]
        sc = max(1., np.abs(V1).max())
        if k == 0:
            ctx.close(V1, V2, 'continuity', 1e-9, f'{pr}', scale=sc)
        elif (n == 2 and o == 'inner') or (n == 3 and k == 1):
            for T in T1:
                T = T / np.linalg.norm(T, axis=0)
                ctx.close((V1 * T).sum(0), (V2 * T).sum(0), 'continuity', 1e-7, f'tangential {pr}', scale=sc)
        else:
            N = np.array([T1[0][1], -T1[0][0]]) if n == 2 else np.cross(T1[0], T1[1], axis=0)
            N = N / np.linalg.norm(N, axis=0)
            ctx.close((V1 * N).sum(0), (V2 * N).sum(0), 'continuity', 1e-7, f'normal {pr}', scale=sc)


def face(ctx, d, key, t, c, rng):
    """reconstruction on element faces (space.RoF), offered for some types only"""
    f = d.F[key]
    x = np.sort(rng.uniform(-1, 1, 4))
    seen = False
    for e in d.elements[:6]:
        if G.is_tri(d, e):
            continue
        for fi, (a, side) in enumerate(((0, -1.), (0, 1.), (1, -1.), (1, 1.))):
            try:
                out = f.space.RoF(f.degree, f[t].cochain[e], e, fi, x)
            except NotImplementedError:
                return
            g = [x, x]
            g[a] = np.array([side])
            X, V = d.recon(key, t, *g)[e]
            m = d.ncomp(key)
            out = [np.ravel(z) for z in out]
            seen = True
            for i in range(2):
                ctx.close(out[i], X[i], 'face', 1e-10, 'coordinates')
            for i in range(m):
                ctx.close(out[2 + i], V[i], 'face', 1e-10, f'element {e} face {fi}', scale=1 + np.abs(V).max())
    return seen


def rate(ctx, impl, n, p, dom):
    """L2 error of reduce+reconstruct under h-refinement, by our own quadrature."""
    rng = ctx.rng
    comps = [G.Trig(rng, n, kmax=2.5) for _ in range(n)]
    Ks = (4, 8) if n < 3 else (2, 4)
    B = C.B1 if n == 1 else C.B2 if n == 2 else C.B3
    errs = {}
    for K in Ks:
        if impl == 'msepy':
            d = S.make_msepy(n, [K] * n, p, 'crazy', dict(c=dom, bounds=B))
        else:
            d = S.make_msehtt(n, ('crazy',), dict(element_layout=K, c=dom, bounds=B, periodic=False), p)
        gx, gw = np.polynomial.legendre.leggauss(p + 4)
        XI = [a.ravel('F') for a in np.meshgrid(*[gx] * n, indexing='ij')]
        W = np.prod([a.ravel('F') for a in np.meshgrid(*[gw] * n, indexing='ij')], axis=0)
        for key in S.SPACES[n]:
            fs = comps[:d.ncomp(key)]
            d.reduce(key, 0., d.cfun(key, *fs))
            rec = d.recon(key, 0., *[gx] * n)
            s = 0.
            for e in d.elements:
                X, V = rec[e]
                J = np.abs(np.linalg.det(np.moveaxis(d.njac(e, *XI), (0, 1), (-2, -1))))
                s += sum(np.sum((V[i] - f(0., *X)) ** 2 * W * J) for i, f in enumerate(fs))
            errs.setdefault(key, []).append(np.sqrt(s))
    for key, (a, b) in errs.items():
        want = p + 1 if key[0] == 0 else p
        ctx.case('rate', impl, n, p, dom, key)
        r = np.log2(a / b)
        ctx.true(r > want - (.45 if n < 3 else .8), 'rate', f'{key} p={p}: errors {a:.3e} {b:.3e} order {r:.2f}, expected {want}')


several = C.several(run)


def units(tier):
    quick = tier == 'quick'
    U = []
    P2 = [1, (2, 3), 3] if quick else [1, 2, 3, 4, (1, 2), (3, 1), (2, 4)]
    P3 = [(1, 2, 3), 2] if quick else [1, 2, 3, (2, 1, 3), (3, 2, 1)]
    for c in ['py1', 'py1o', 'py1p']:
        for p in (1, 3) if quick else (1, 2, 4, 6):
            U.append((c, p, 0))
    for c in Q2 + ([] if quick else ['ht2q', 'ht2r', 'ht2op', 'ht2ch', 'ht2mpt', 'ht2bt', 'ht2trfp']):
        uns = c[0] == 'r' or C.CONF[c].get('tri') or c in ('ht2mpt', 'ht2ts', 'ht2chc', 'ht2ch', 'ht2chp')
        for p in P2 + ([([1, 2], [2, 1, 1])] if C.CONF[c]['impl'] == 'msehtt' else []):
            if uns and isinstance(p, tuple):
                continue
            if quick and c in ('py2c', 'ht2c', 'ht2chc', 'ht2chp') and p != 3:
                continue
            for r in range((2 if quick else 6) if c[0] == 'r' else 1):
                U.append((c, p, r))
    for c in [c for c in Q3 if c not in ('ht3', 'ht3pc')] + ([] if quick else ['py3b', 'ht3b']):
        for p in P3[:1] if quick and c not in ('py3m', 'ht3o') else P3:
            U.append((c, p, 0))
    R = [(f'rate:{i}:{n}:{p}:{dom}', rate, dict(impl=i, n=n, p=p, dom=dom)) for i in ('msepy', 'msehtt')
         for n in (1, 2, 3) for p in ((1, 2, 3) if n < 3 else (1, 2)) for dom in (0., .1) if not (i == 'msehtt' and n == 1)
         and not (quick and n == 3 and (p == 2 or dom)) and not (i == 'msehtt' and n == 3 and dom)]
    return [(f'{c}:{p}:{r}', run, dict(conf=c, p=p, rep=r)) for c, p, r in U] + R


def UNITS(tier):
    return units(tier) + C.several_units(several, ['py1', 'py2', 'py2m', 'py3', 'ht2', 'rq', 'ht3o'] + ([] if tier == 'quick' else ['py2p', 'py3m', 'ht2p', 'rqt', 'ht2o']),
                                         1 if tier == 'quick' else 2)
