"""C02: reduction gives the integrals over the dofs' cells, shared dofs agree, reduction commutes with d."""
import numpy as np
from vm import configs as C
from vm import geo as G
from vm.lazy import S

META = dict(
    rule='one distinct case per (mesh, degree, k, orientation, random smooth or polynomial field, time)',
    assumptions=['the local numbering is the documented one; dof integrals are recomputed by 12-point Gauss rules on the '
                 'element mapping with a numerical Jacobian'],
    note='Observes reductions of random fields on every element type and degree shape; trusts the element mapping (decided by C07). Forms of several degrees share one mesh and are judged in turn (the first again after the others).',
    must_observe=['several degrees', 'dof-value', 'single-valued', 'commute', 'region-wise'])

TOL = 1e-7
Q2 = ['py2', 'py2u', 'py2p', 'py2m', 'py2mp', 'py2b', 'py2c', 'ht2', 'ht2o', 'ht2p', 'ht2m', 'ht2c', 'ht2b', 'ht2chc', 'ht2trf', 'ht2trfo', 'ht2trf2p', 'ht2trf2q',
      'ht2ts', 'ht2mp', 'ht2chp', 'rq', 'rqn', 'rt', 'rqt']
Q3 = ['py3', 'py3p', 'py3m', 'py3o', 'ht3', 'ht3o', 'ht3pc', 'ht3p']


def reference(d, nodes, key, comps, t, tris, ql):
    """dof integrals per element and an estimate of the error that the code's own quadrature makes"""
    val = lambda *x: [f(t, *x) for f in comps]
    refs, err = {}, 0.
    for e in d.elements:
        refs[e] = G.dof_values(d, e, nodes, *key, val, tri=tris[e])
        if key[0]:
            err = max(err, np.abs(refs[e] - G.dof_values(d, e, nodes, *key, val, tri=tris[e], q=ql)).max())
    return refs, err


def run(ctx, conf, p, rep=0, d=None):
    d = d or C.build(conf, p, rng=np.random.default_rng([ctx.seed, rep, 11]))
    n, rng = d.n, ctx.rng
    nodes = G.nodes_of(p, n)
    ql = min(len(x) for x in nodes) + 1        # one Gauss point less than the code's p + 3
    per = bool(d.conf.get('periodic'))
    tris = {e: d.etype(e) in (5, 'unique msepy curvilinear triangle') for e in d.elements}
    unstruct = d.impl == 'msehtt' and any(d.etype(e) in (5, 9, 'unique curvilinear quad', 'unique msepy curvilinear triangle')
                                          for e in d.elements)
    for o in ('inner', 'outer'):
        for k in range(n + 1):
            key = (k, o)
            t = round(float(rng.uniform(-2, 2)), 3)
            per2 = 2 if per else 1
            for kind in ('trig', 'poly')[:1 if per else 2]:
                mk = (lambda: G.Trig(rng, n, per)) if kind == 'trig' else (lambda: G.Poly(rng, n, 3))
                comps = [mk() for _ in range(d.ncomp(key))]
                ctx.case(conf, f'p={p}', f'k={k}', o, kind, f't={t}')
                c = d.reduce(key, t, d.cfun(key, *comps))
                scale = max(1e-12, max(np.abs(v).max() for v in c.values()))
                refs, err = reference(d, nodes, key, comps, t, tris, ql)
                for e in d.elements:
                    ref = refs[e]
                    a, b = (np.abs(c[e]), np.abs(ref)) if unstruct and 0 < k < n else (c[e], ref)
                    if ctx.true(a.shape == b.shape, 'dof-count', f'element {e}: {a.shape} vs {b.shape}'):
                        ctx.close(a, b, 'dof-value', TOL + 3 * err / scale, f'element {e} of type {d.etype(e)}', scale=scale)
                # shared dofs
                gm = d.gm(key)
                lo = np.full(d.ndofs(key), np.inf)
                hi = -lo
                for e in d.elements:
                    np.minimum.at(lo, gm[e], c[e])
                    np.maximum.at(hi, gm[e], c[e])
                ctx.true(np.isfinite(lo).all(), 'all-dofs-covered')
                ctx.close(lo, hi, 'single-valued', 1e-6, 'elements disagree on a shared dof', scale=scale)
                if k < n:
                    nk = (k + 1, o)
                    dc = G.derivative(n, k, o, comps)
                    c2 = d.reduce(nk, t, d.cfun(nk, *dc))
                    E = d.E(key)
                    s2 = max(1e-12, max(np.abs(v).max() for v in c2.values()))
                    tol = TOL + 3 * (reference(d, nodes, nk, dc, t, tris, ql)[1] + 4 * err) / max(s2, scale)
                    for e in d.elements:
                        ctx.close(E[e] @ c[e], c2[e], 'commute', tol, f'element {e} of type {d.etype(e)}',
                                  scale=max(s2, scale))
        del key


def tiny(ctx, s, tri):
    """meshes of any size: shared edges get one value, whatever the directions of the edges in the elements"""
    rng = ctx.rng
    keys = [(1, 'inner'), (1, 'outer')]
    d = S.make_msehtt(2, (C.random_indicator(rng, 3, 3, tri=tri, stretch=(s, s)),), {}, 2, keys)
    a, b = rng.uniform(-1, 1, 2)
    for key in keys:
        ctx.case('tiny', s, tri, key)
        c = d.reduce(key, 0., d.cfun(key, lambda t, x, y: a + 0 * x, lambda t, x, y: b + 0 * x))
        gm = d.gm(key)
        lo = np.full(int(max(np.max(gm[e]) for e in d.elements)) + 1, np.inf)
        hi = -lo
        for e in d.elements:
            np.minimum.at(lo, gm[e], c[e])
            np.maximum.at(hi, gm[e], c[e])
        ctx.close(lo / s, hi / s, 'single-valued', 1e-6, f'tiny mesh of size {s}')


def regions(ctx, n, rep):
    """a field of its own in each region, given in any order"""
    rng = ctx.rng
    Ns = [(3,), (2, 2), (2, 1, 2)][n - 1]
    B = [(float(a), float(a + b)) for a, b in zip(rng.uniform(-1, 1, n), rng.uniform(.7, 2, n))]
    K = [int(_) for _ in rng.integers(1, 4 if n < 3 else 3, n)]
    c = [0., .05][rep % 2]
    d = S.make_msepy(n, K, int(rng.integers(1, 4 if n < 3 else 3)), 'crazy_multi', dict(c=c, bounds=B, Ns=list(Ns)))
    N = int(np.prod(Ns))
    nodes = G.nodes_of(d.p, n)
    where = {}
    for e in d.elements:
        x = [float(np.ravel(v)[0]) for v in d.mapping(e, *[np.zeros(1)] * n)]
        i = [int((v - a) / (b - a) * m) for v, (a, b), m in zip(x, B, Ns)]
        where[e] = int(np.ravel_multi_index(i, Ns, order='F'))
    for o in ('inner', 'outer'):
        for k in range(n + 1):
            key = (k, o)
            t = round(float(rng.uniform(-2, 2)), 3)
            comps = [[G.Poly(rng, n, min(2, d.p)) for _ in range(d.ncomp(key))] for _ in range(N)]
            order = [int(_) for _ in rng.permutation(N)]
            ctx.case('regions', n, K, key, order, c, t)
            got = d.reduce(key, t, {i: d.cfun(key, *comps[i]) for i in order})
            for e in d.elements:
                ref = G.dof_values(d, e, nodes, *key, lambda *x: [g(t, *x) for g in comps[where[e]]], tri=False)
                ctx.close(got[e], ref, 'region-wise', 1e-3 if c else 1e-6, f'element {e} in region {where[e]}, fields given for the regions {order}', scale=1)


several = C.several(run)


def units(tier):
    U = []
    quick = tier == 'quick'
    P2 = [1, 2, (2, 3), 3] if quick else [1, 2, 3, 4, (1, 2), (2, 1), (3, 2), (4, 2)]
    P2x = [([1, 2], [2, 1, 1])]
    P3 = [1, (2, 1, 3), 2] if quick else [1, 2, (1, 2, 3), (3, 1, 2), 3]
    for c in ['py1', 'py1o', 'py1p']:
        for p in (2, 3) if quick else (1, 2, 3, 4, 6):
            U.append((c, p, 0))
    for c in Q2 + ([] if quick else ['ht2q', 'ht2r', 'ht2op', 'ht2ch', 'ht2mpt', 'ht2bt', 'ht2trfp']):
        uns = c[0] == 'r'
        for p in P2 + (P2x if C.CONF[c]['impl'] == 'msehtt' and not (uns or C.CONF[c].get('tri')) else []):
            asym = isinstance(p, tuple) and (uns or C.CONF[c].get('tri') or c in ('ht2mpt', 'ht2ts', 'ht2chc', 'ht2ch', 'ht2chp'))
            if asym:
                continue
            if quick and c in ('py2c', 'ht2c') and p not in (2, (2, 3)):
                continue
            if C.CONF[c].get('periodic') and p == 1:
                continue
            if c in ('ht2trf2p', 'ht2trf2q') and quick and p != 2:
                continue
            for r in range((2 if quick else 8) if uns else 1):
                U.append((c, p, r))
    for c in Q3 + ([] if quick else ['py3b', 'ht3b']):
        for p in P3[:2] if quick and c not in ('py3', 'ht3') else P3:
            if C.CONF[c].get('periodic') and p == 1:
                continue
            U.append((c, p, 0))
    return ([(f'{c}:{p}:{r}', run, dict(conf=c, p=p, rep=r)) for c, p, r in U]
            + [(f'regions:{n}:{r}', regions, dict(n=n, rep=r)) for n in (1, 2, 3) for r in range(4 if quick else 16)]
            + [(f'tiny:{s}:{t}', tiny, dict(s=s, tri=t)) for s in (1e-9, 1e-5, 1e3) for t in (0., .6)])


def UNITS(tier):
    return units(tier) + C.several_units(several, ['py1', 'py2', 'py2m', 'py3', 'ht2', 'rq', 'ht3'] + ([] if tier == 'quick' else ['py2p', 'py3m', 'ht2p', 'rqt', 'ht2o']),
                                         1 if tier == 'quick' else 2)
