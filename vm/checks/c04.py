"""C04: mass matrices, inner products, norms, errors against our own integrals of the reconstructed fields."""
import numpy as np
from vm import configs as C
from vm import geo as G
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (mesh, degree, space, random cochains or random field)',
    assumptions=['a reported number may come from any Gauss rule with p+1..p+6 points, any Lobatto rule with p+1..p+4 points per '
                 'axis, or the exact integral; the same rule must explain all entries',
                 'orientation signs of unstructured elements are observed from reductions (they cancel in norms)'],
    note='Observes mass, norm, inner product, error of every space on every mesh family; trusts the element mapping (C07) and basis (C06). Forms of several degrees share one mesh and are judged in turn (the first again after the others).',
    must_observe=['several degrees', 'mass-matrix', 'symmetric', 'positive', 'norm', 'inner', 'error', 'd-error', 'H1-error', 'residual', 'total-mass'])

CANDS = [('G', j) for j in range(1, 7)] + [('L', j) for j in range(0, 4)] + [('F', 13)]


class Fields:
    """own evaluation of one space on the rules' grids"""

    def __init__(self, d, key, nodes, tris, sg):
        self.d, self.key, self.nodes, self.tris, self.sg, self.c = d, key, nodes, tris, sg, {}

    rule_nodes = None

    def at(self, e, cand):
        if (e, cand) not in self.c:
            tri = self.tris[e]
            x, w = G.flat(G.rule(cand, self.rule_nodes or self.nodes))
            if tri and cand[0] == 'L':
                x[0] = np.where(x[0] == -1, -1 + 1e-12, x[0])
            X, B, det = G.phys_basis(self.d, e, self.nodes, self.key, tri, *x)
            if self.sg is not None:
                B = B * self.sg[e][None, :, None]
            self.c[(e, cand)] = X, B, det * w
        return self.c[(e, cand)]


def cands(tris):
    return [c for c in CANDS if not (any(tris.values()) and c[0] == 'L')]


def best(ctx, got, fn, cs, key, tol, detail='', scale=None, memo=None):
    """got must equal fn(cand) for one candidate rule"""
    dev = np.inf
    got = np.asarray(got, float)
    order = sorted(cs, key=lambda c: c != memo.get(key)) if memo is not None else cs
    for c in order:
        ref = fn(c)
        if np.shape(ref) != got.shape:
            return ctx.true(False, key, f'{detail} shape {got.shape} instead of {np.shape(ref)}')
        s = max(1e-300, np.abs(ref).max()) if scale is None else scale
        v = np.abs(got - ref).max() / s
        if v < dev:
            dev, bref = v, ref
        if dev <= tol:
            if memo is not None:
                memo[key] = c
            break
    return ctx.true(dev <= tol, key, lambda: f'{detail} best relative deviation {dev:.3e} tol {tol}: {got.ravel()[:6]} vs {np.ravel(bref)[:6]}')


def run(ctx, conf, p, rep=0, d=None):
    d = d or C.build(conf, p, rng=np.random.default_rng([ctx.seed, rep, 17]))
    n, rng = d.n, ctx.rng
    nodes = G.nodes_of(p, n)
    tris = {e: G.is_tri(d, e) for e in d.elements}
    cs = cands(tris)
    els = d.elements
    per = bool(d.conf.get('periodic'))
    nomass = d.conf.get('nomass') or d.impl == 'msehtt' and \
        any(d.etype(e) in ('unique curvilinear quad', 'unique msepy curvilinear triangle', 'unique curvilinear triangle', 5) for e in els)
    FF = {}
    co = {}
    for key in S.SPACES[n]:
        k, o = key
        rev = G.has_reversal(d) and 0 < k < n
        sg = G.signs(d, key, nodes, tris, rng) if rev else None
        F = FF[key] = Fields(d, key, nodes, tris, sg)
        memo = {}
        ctx.case(conf, f'p={p}', key)
        t1, t2 = 0.25, 1.5
        gm = d.gm(key)
        u, v = (dict() for _ in range(2))
        for w, t in ((u, t1), (v, t2)):
            g = d.random_global(key, t, rng)
            w.update({e: g[gm[e]] for e in els})
        co[key] = (u, v)

        def integral(f, g, cand):
            tot = 0.
            for e in els:
                X, B, w = F.at(e, er.get(e, CANDS[0]) if cand == 'E' else cand)
                tot += np.sum(np.einsum('cap,a->cp', B, f[e]) * np.einsum('cap,a->cp', B, g[e]) * w)
            return tot

        er = {}          # the rule that explains the mass matrix of each element
        if not nomass:
            M = d.M(key)
            for e in els:
                ref = lambda c: np.einsum('cap,cbp,p->ab', F.at(e, c)[1], F.at(e, c)[1], F.at(e, c)[2])
                best(ctx, M[e], ref, cs, 'mass-matrix', 1e-7, f'element {e} {d.etype(e)}', memo=memo)
                er[e] = memo.get('mass-matrix', cs[0])
                ctx.close(M[e], M[e].T, 'symmetric', 1e-12, scale=np.abs(M[e]).max())
                ev = np.linalg.eigvalsh((M[e] + M[e].T) / 2)
                ctx.true(ev[0] > 1e-10 * ev[-1], 'positive', f'eigenvalues {ev[0]} {ev[-1]}')
            # norm and its variants
            f = d.F[key]
            cn = ['E'] + cs
            for t, w in ((t1, u), (t2, v)):
                val = f[t].norm()
                best(ctx, float(val) ** 2, lambda c: integral(w, w, c), cn, 'norm', 1e-6)
            dif = {e: v[e] - u[e] for e in els}
            best(ctx, float(f.norm_residual(t1, t2)) ** 2, lambda c: integral(dif, dif, c), cn, 'residual', 1e-6)
            best(ctx, float(f.norm_residual(t2, t1)) ** 2, lambda c: integral(dif, dif, c), cn, 'residual', 1e-6)
            best(ctx, float(f.norm_residual()) ** 2, lambda c: integral(dif, dif, c), cn, 'residual', 1e-6, 'default times')
            ctx.true(np.isnan(f.norm_residual(t1, t1)), 'residual-same-time')
            if d.impl == 'msepy':
                best(ctx, float(f.norm(t1, diff_to_t=t2)) ** 2, lambda c: integral(dif, dif, c), cn, 'residual', 1e-6)
                q = [len(a) + 2 for a in nodes]
                qq = q if n > 1 else q
                best(ctx, float(f.norm(t1, quad_degree=qq)) ** 2, lambda c: integral(u, u, c), cn, 'norm', 1e-6, 'quad_degree')
        else:
            for ev in ('mass-matrix', 'symmetric', 'positive', 'norm', 'residual'):
                ctx.event(ev)
        # total mass
        if d.impl == 'msehtt' and k in (0, n) and not (k == 0 and any(d.etype(e) == 'unique curvilinear triangle' for e in els)):
            best(ctx, d.F[key][t1].mass(), lambda c: sum(np.sum(F.at(e, c)[1][0].T @ u[e] * F.at(e, c)[2]) for e in els), cs,
                 'total-mass', 1e-7, scale=4.)
        else:
            ctx.event('total-mass')
        errors(ctx, d, key, F, nodes, tris, cs, per, rng)
    inner(ctx, d, FF, co, cs, nodes)


def errors(ctx, d, key, F, nodes, tris, cs, per, rng):
    k, o = key
    n = d.n
    t = round(float(rng.uniform(-1, 1)), 3)
    comps = [G.Trig(rng, n, per) for _ in range(d.ncomp(key))]
    d.F[key].cf = d.cfun(key, *comps)
    g = d.random_global(key, t, rng)
    if rng.random() < .3:
        d.F[key][t].reduce()
    c = d.get(key, t)

    def err2(F, c, comps, cand):
        tot = 0.
        for e in d.elements:
            X, B, w = F.at(e, cand)
            v = np.einsum('cap,a->cp', B, c[e])
            ex = np.array([f(t, *X) for f in comps])
            tot += np.sum((v - ex) ** 2 * w)
        return tot

    f = d.F[key]
    e0 = f[t].error()
    zero = {e: 0 * c[e] for e in c}
    ref = err2(F, c, comps, ('F', 13))
    best(ctx, float(e0) ** 2, lambda cand: err2(F, c, comps, cand), cs, 'error', 1e-6, f't={t}',
         scale=max(ref, .05 * err2(F, zero, comps, ('F', 13))))
    if d.impl == 'msepy' and d.ncomp(key) == 1:
        val = f[t].error(d=4)

        def err4(cand):
            tot = 0.
            for e in d.elements:
                X, B, w = F.at(e, cand)
                tot += np.sum((np.einsum('cap,a->cp', B, c[e]) - np.array([q(t, *X) for q in comps])) ** 4 * w)
            return tot
        best(ctx, float(val) ** 4, err4, cs, 'error-L4', 1e-6, scale=max(1e-8, err4(('F', 13))))
    if k == n or (n == 2 and k == 1 and False):
        for ev in ('d-error', 'H1-error'):
            ctx.event(ev)
        return
    nk = (k + 1, o)
    rev = G.has_reversal(d) and 0 < k + 1 < n
    F2 = Fields(d, nk, nodes, tris, G.signs(d, nk, nodes, tris, rng) if rev else None)
    d.F[key].cf = d.cfun(key, *comps)
    E = d.E(key)
    c2 = {e: E[e] @ c[e] for e in d.elements}
    dc = G.derivative(n, k, o, comps)
    if d.impl == 'msehtt':
        d1 = float(f[t].error(error_type='d_L2'))
        h1 = float(f[t].error(error_type='H1'))
    else:
        h1 = float(f[t].error(etype='H1'))
        d1 = float(np.sqrt(max(0, h1 ** 2 - float(e0) ** 2)))
    ref = err2(F2, c2, dc, ('F', 13))
    best(ctx, d1 ** 2, lambda cand: err2(F2, c2, dc, cand), cs, 'd-error', 1e-5, f't={t}', scale=max(ref, 1e-8))
    ctx.close(h1 ** 2, float(e0) ** 2 + d1 ** 2, 'H1-error', 1e-9, scale=max(1e-12, h1 ** 2))


def inner(ctx, d, FF, co, cs, nodes):
    """inner products between different forms and instants"""
    n = d.n
    keys = S.SPACES[n]
    # the coarse rules need not match the pair's rule: both spaces have the same degree, so the same candidates apply

    def ip(k1, a, k2, b, cand):
        tot = 0.
        for e in d.elements:
            X, B1, w = FF[k1].at(e, cand)
            _, B2, _ = FF[k2].at(e, cand)
            tot += np.sum(np.einsum('cap,a->cp', B1, a[e]) * np.einsum('cap,a->cp', B2, b[e]) * w)
        return tot

    done = 0
    for k1 in keys:
        for k2 in keys:
            if d.ncomp(k1) != d.ncomp(k2):
                continue
            if d.impl == 'msehtt':
                if not (n == 2 and k1[0] == k2[0] == 1):
                    continue
                if any(d.etype(e) == 'unique curvilinear triangle' for e in d.elements):
                    continue
                if not isinstance(d.p, int):
                    continue
            elif n == 1:
                continue
            for (i1, t1), (i2, t2) in (((0, .25), (1, 1.5)), ((1, 1.5), (0, .25)), ((0, .25), (0, .25))):
                if d.impl == 'msehtt':        # it keeps the three largest instants only
                    d.F[k1].cochain.clean('all')
                    d.F[k2].cochain.clean('all')
                d.set(k1, t1, co[k1][i1])
                d.set(k2, t2, co[k2][i2])
                f1, f2 = d.F[k1], d.F[k2]
                val = f1.inner_product(t1, f2, t2) if d.impl == 'msepy' else f1[t1].inner_product(f2[t2])
                a, b = co[k1][i1], co[k2][i2]
                sc = max(1e-12, np.sqrt(ip(k1, a, k1, a, ('F', 13)) * ip(k2, b, k2, b, ('F', 13))))
                best(ctx, float(val), lambda c: ip(k1, a, k2, b, c), cs, 'inner', 1e-6, f'{k1} {k2}', scale=sc)
                done += 1
    if not done:
        ctx.event('inner')


def mixed(ctx, conf, degrees):
    """inner products of forms of different polynomial degrees"""
    p1, p2 = degrees
    n = C.CONF[conf]['n']
    one = [(1, 'outer'), (1, 'inner')] if n == 2 else [(1, 'outer'), (2, 'inner')]
    keys = one if C.CONF[conf]['impl'] == 'msehtt' else one + [(0, 'outer'), (n, 'inner')]
    ex = {f'{i}{q}': (key, q) for i, key in enumerate(keys) for q in (p1, p2)}
    d = C.build(conf, p1, keys, rng=np.random.default_rng([ctx.seed, 19]), extra=ex)
    rng = ctx.rng
    tris = {e: G.is_tri(d, e) for e in d.elements}
    cs = cands(tris)
    FF, co = {}, {}
    for name, (key, q) in ex.items():
        f = d.X[name]
        ctx.eq(f.degree, q, 'degree')
        nodes = G.nodes_of(q, n)
        comps = [G.Trig(rng, n) for _ in range(d.ncomp(key))]
        f.cf = d.cfun(key, *comps)
        f[0.5].reduce()
        co[name] = {e: np.array(f[0.5].cochain.local[e] if d.impl == 'msepy' else f[0.5].cochain[e]) for e in d.elements}
        sg = None
        if G.has_reversal(d) and key[0] == 1:
            val = lambda *x: [c(0.5, *x) for c in comps]
            sg = {e: np.sign(G.dof_values(d, e, nodes, *key, val, tri=tris[e], q=8) * co[name][e]) for e in d.elements}
        for top in {p1, p2, max(q, p1, p2)}:
            F = FF[name, top] = Fields(d, key, nodes, tris, sg)
            F.rule_nodes = G.nodes_of(top, n)
    for a, (k1, q1) in ex.items():
        for b, (k2, q2) in ex.items():
            if d.ncomp(k1) != d.ncomp(k2):
                continue
            ctx.case(conf, 'mixed', k1, q1, k2, q2)

            def ip(x, y, c):
                A, B = FF[x, max(q1, q2)], FF[y, max(q1, q2)]
                return sum(np.sum(np.einsum('cap,a->cp', A.at(e, c)[1], co[x][e]) * np.einsum(
                    'cap,a->cp', B.at(e, c)[1], co[y][e]) * A.at(e, c)[2]) for e in d.elements)
            f, g = d.X[a], d.X[b]
            got = f.inner_product(.5, g, .5) if d.impl == 'msepy' else f[.5].inner_product(g[.5])
            sc = max(1e-12, np.sqrt(ip(a, a, ('F', 13)) * ip(b, b, ('F', 13))))
            best(ctx, float(got), lambda c: ip(a, b, c), cs, 'inner', 1e-7, f'degrees {q1} {q2}', scale=sc)


Q2 = ['py2', 'py2u', 'py2o', 'py2p', 'py2m', 'py2mp', 'py2b', 'ht2', 'ht2o', 'ht2p', 'ht2op', 'ht2m', 'ht2b', 'ht2r', 'ht2q', 'ht2chc', 'ht2trf',
      'ht2trfo', 'ht2ts', 'ht2mp', 'rq', 'rqn', 'rt', 'rqt']
Q3 = ['py3', 'py3o', 'py3m', 'py3p', 'ht3', 'ht3o', 'ht3p', 'ht3pc']


several = C.several(run)


def units(tier):
    U = []
    quick = tier == 'quick'
    P2 = [2, (2, 3), 1] if quick else [1, 2, 3, 4, (1, 2), (3, 2), (4, 2)]
    P3 = [1, (2, 1, 3)] if quick else [1, 2, (1, 2, 3), (3, 1, 2)]
    for c in ['py1', 'py1o', 'py1p']:
        for p in (2, 3) if quick else (1, 2, 3, 4, 6):
            U.append((c, p, 0))
    for c in Q2 + ([] if quick else ['py2c', 'ht2c', 'ht2bt', 'ht2trfp', 'ht2mpt', 'ht2ch', 'ht2chp']):
        uns = c[0] == 'r'
        conf = C.CONF[c]
        for p in P2:
            if isinstance(p, tuple) and (uns or conf.get('tri') or c in ('ht2mpt', 'ht2ts', 'ht2chc', 'ht2ch', 'ht2chp')):
                continue
            if conf.get('periodic') and p == 1:
                continue
            for r in range((1 if quick else 6) if uns else 1):
                U.append((c, p, r))
    for c in Q3 + ([] if quick else ['py3b', 'ht3b']):
        for p in P3[:1] if quick and C.CONF[c].get('periodic') else P3:
            if C.CONF[c].get('periodic') and p == 1 and c in ('py3p',):
                p = (1, 2, 2)
            U.append((c, p, 0))
    U = [(f'{c}:{p}:{r}', run, dict(conf=c, p=p, rep=r)) for c, p, r in U]
    for c in ('py2', 'py2u', 'py2o', 'py3', 'ht2', 'ht2o', 'ht2trf', 'rq', 'rqt'):
        for q in ((1, 6), (2, 4)) if c != 'py3' else ((1, 3),):
            U.append((f'{c}:mixed:{q}', mixed, dict(conf=c, degrees=q)))
    return U


def UNITS(tier):
    return units(tier) + C.several_units(several, ['py1', 'py2', 'py2m', 'py3', 'ht2', 'rq', 'ht3'] + ([] if tier == 'quick' else ['py2p', 'py3m', 'ht2p', 'rqt', 'ht2o']),
                                         1 if tier == 'quick' else 2)
