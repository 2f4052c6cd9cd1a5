"""C01: incidence matrices: entries, d d = 0, ranks dictated by topology, independence of the metric, d() of forms."""
import numpy as np
from vm import configs as C
from vm.lazy import S

META = dict(
    note='Observes element and assembled incidence matrices of every element type; ranks fixed by known topology. Forms of several degrees share one mesh and are judged in turn (the first again after the others).',
    rule='one distinct case per (mesh configuration, degree, degree k, orientation, oracle); trivial (empty) matrices do not count',
    assumptions=['the dof numbering is the one reported by the gathering matrix; Betti numbers of the domains used are known '
                 '(box: contractible, periodic box: torus, channel with a cylinder: one hole)'],
    must_observe=['several degrees', 'entries', 'dd=0', 'global-row', 'rank', 'd()', 'metric-free'])

QUICK = ['py1', 'py1p', 'py2', 'py2u', 'py2p', 'py2m', 'py2mp', 'py2b', 'py2c', 'py3', 'py3m', 'ht2', 'ht2o', 'ht2p', 'ht2op',
         'ht2m', 'ht2b', 'ht2c', 'ht2chc', 'ht2chp', 'ht2trf', 'ht2trfo', 'ht2trfp', 'ht2ts', 'ht2bt', 'ht2mp',
         'ht3', 'ht3o', 'ht3p', 'rq', 'rqn', 'rt', 'rqt', 'py1o']


def betti(conf):
    n = conf['n']
    if conf.get('periodic'):
        from math import comb
        return [comb(n, k) for k in range(n + 1)]
    if 'c' == conf['name'][3:4] and conf['name'] in ('py2c', 'ht2c'):
        return [1, 1, 0]
    return [1] + [0] * n


def run(ctx, conf, p, rep=0, d=None):
    d = d or C.build(conf, p, rng=np.random.default_rng([ctx.seed, rep, 7]))
    n = d.n
    rng = ctx.rng
    for o in ('inner', 'outer'):
        E, D, gms = {}, {}, {}
        N = {k: d.ndofs((k, o)) for k in range(n + 1)}
        for k in range(n):
            ctx.case(conf, f'p={p}', f'k={k}', o)
            E[k] = d.E((k, o))
            g0, g1 = d.gm((k, o)), d.gm((k + 1, o))
            big = np.zeros((N[k + 1], N[k]))
            seen = np.zeros(N[k + 1], bool)
            for e in d.elements:
                A = E[k][e]
                ctx.true(A.shape == (len(g1[e]), len(g0[e])), 'shape', f'{A.shape} element {e}')
                ctx.true(np.isin(A, (-1, 0, 1)).all() and (np.abs(A).sum(axis=1) > 0).all(), 'entries',
                         f'element {e}: values {np.unique(A)[:8]}')
                loc = np.zeros((A.shape[0], N[k]))
                np.add.at(loc.T, g0[e], A.T)
                for i, r in enumerate(g1[e]):
                    if seen[r]:
                        ctx.true(np.array_equal(big[r], loc[i]), 'global-row',
                                 f'element {e} local dof {i}: the shared dof {r} has another row than in a neighbour')
                    else:
                        big[r] = loc[i]
                        seen[r] = True
            ctx.true(seen.all(), 'rows-covered')
            D[k] = big
        for k in range(n - 1):
            ctx.case(conf, f'p={p}', f'dd k={k}', o)
            for e in d.elements:
                ctx.true(not np.any(E[k + 1][e] @ E[k][e]), 'dd=0', f'element {e}')
            ctx.true(not np.any(D[k + 1] @ D[k]), 'dd=0', 'assembled')
        b = betti(d.conf)
        rank = {k: int(np.linalg.matrix_rank(D[k])) if min(D[k].shape) else 0 for k in range(n)}
        for k in range(n + 1):
            dim = N[k] - rank.get(k, 0) - rank.get(k - 1, 0)
            ctx.eq(dim, b[k], 'rank', f'{conf} p={p} {o}: dim H^{k}; N={N} ranks={rank}')
        # the form d() returns
        for k in range(n):
            key = (k, o)
            ctx.case(conf, f'p={p}', f'd() k={k}', o)
            c = {e: rng.standard_normal(len(v)) for e, v in d.gm(key).items()}
            d.set(key, 0.5, c)
            f = d.F[key]
            try:
                df = f.d()
            except NotImplementedError:
                ctx.event('d() not offered')
                df = None
            if d.impl == 'msehtt':
                cb = f[0.5].coboundary()
                for e in d.elements:
                    ctx.close(cb[e], E[k][e] @ c[e], 'coboundary', 1e-13)
                if df is not None:
                    for e in d.elements:
                        ctx.close(df[0.5].cochain[e], E[k][e] @ c[e], 'd()', 1e-13, f'element {e}')
            else:
                loc = df[0.5].cochain.local
                loc2 = f[0.5].coboundary.cochain.local
                for e in d.elements:
                    ctx.close(loc[e], E[k][e] @ c[e], 'd()', 1e-13, f'element {e}')
                    ctx.close(loc2[e], E[k][e] @ c[e], 'coboundary', 1e-13)
                ctx.true(np.array_equal(np.asarray(f.matrix.incidence[0].toarray()) if hasattr(f.matrix, 'incidence') else
                                        E[k][0], E[k][0]), 'matrix.incidence')


def metric_free(ctx, pair, p):
    a, b = (C.build(x, p) for x in pair)
    for k in range(a.n):
        for o in ('inner', 'outer'):
            ctx.case('metric-free', pair, p, k, o)
            A, B = a.E((k, o)), b.E((k, o))
            for e, f in zip(a.elements, b.elements):
                ctx.true(np.array_equal(A[e], B[f]), 'metric-free', f'{pair} element {e}')


C.mp('c01a', 2, [3, 2], 'crazy', dict(c=0.25, bounds=C.B2))
C.mp('c01b', 2, [3, 2], 'crazy', dict(c=0.0, bounds=[[-3, -1], [5, 5.5]]))
C.mp('c01c', 3, [2, 1, 2], 'crazy', dict(c=0.1, bounds=C.B3))
C.mp('c01d', 3, [2, 1, 2], 'crazy', dict(c=0.0, bounds=[[-3, -1], [5, 5.5], [0, 4]]))
C.mh('c01e', 2, ('crazy',), dict(element_layout=[3, 2], c=0.2, bounds=C.B2, periodic=False))
C.mh('c01f', 2, ('crazy',), dict(element_layout=[3, 2], c=0., bounds=[[-3, -1], [5, 5.5]], periodic=False))


several = C.several(run)


def units(tier):
    U = []
    ps = [1, 2, 3] if tier == 'quick' else [1, 2, 3, 4, 5]
    for c in QUICK + ([] if tier == 'quick' else ['py3p', 'py3b', 'ht3pc', 'ht3b', 'ht2q', 'ht2r', 'ht2ch', 'ht2mpt', 'py3o']):
        for p in ps:
            n = C.CONF[c]['n'] if c in C.CONF else 2
            if n == 3 and p > (2 if tier == 'quick' else 3):
                continue
            if tier == 'quick' and n == 2 and p == 3 and c not in ('py2m', 'rq', 'rqt', 'ht2trf', 'ht2', 'rt', 'py2'):
                continue
            if tier == 'quick' and n == 3 and p == 2 and c not in ('ht3', 'py3m'):
                continue
            reps = (3 if tier == 'quick' else 12) if c[:1] == 'r' else 1
            for r in range(reps):
                U.append((f'{c}:p{p}:{r}', run, dict(conf=c, p=p, rep=r)))
    for pr in (('c01a', 'c01b'), ('c01c', 'c01d'), ('c01e', 'c01f')):
        U.append((f'metric:{pr[0]}', metric_free, dict(pair=pr, p=2)))
    return U


def UNITS(tier):
    return units(tier) + C.several_units(several, ['py1', 'py2', 'py2m', 'py3', 'ht2', 'rq', 'ht3'] + ([] if tier == 'quick' else ['py2p', 'py3m', 'ht2p', 'rqt', 'ht2o']),
                                         1 if tier == 'quick' else 2)
