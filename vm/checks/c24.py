"""C24: the two implementations, and different descriptions of one mesh, give the same discretisation and the same answers."""
import os
import numpy as np
from vm import configs as C
from vm import geo as G
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (mesh, polynomial degree, form, quantity compared)',
    assumptions=['msehtt integrates mass matrices of orthogonal elements with the p-point Lobatto/Gauss rule of the form; msepy does the same '
                 'with high_accuracy off, so orthogonal meshes are compared with that setting, to round-off. On curved meshes the two '
                 'implementations use rules of different degree; there values are compared up to the accuracy of those rules',
                 'meshes of orthogonal rectangles and of general quadrilaterals are not compared with each other for the same reason'],
    note='The same manifold, mesh, degree and field on both implementations: numbering, gluing, incidence, mass, reduction, '
         'reconstruction, norms, errors, solutions of Poisson, heat, wave and flow problems. The same mesh given as predefined mesh, by '
         'elements in another order with other vertices first, through a vtu interface, renumbered, saved and read: equal results.',
    must_observe=['pair', 'solution', 'description'])

B2 = [[0., 1.], [-.2, 1.]]
B3 = [[0., 1.], [0., 1.5], [-.5, .5]]
PAIRS = {
    'crazy2': (2, 'crazy', lambda r: dict(c=float(r.uniform(.02, .1)), bounds=B2), lambda r: [int(v) for v in r.integers(1, 5, 2)]),
    'ortho2': (2, 'crazy', lambda r: dict(c=0., bounds=B2), lambda r: [int(v) for v in r.integers(1, 5, 2)]),
    'uneven2': (2, 'crazy', lambda r: dict(c=0., bounds=B2), lambda r: [[float(v) for v in r.uniform(.5, 2, int(r.integers(1, 4)))] for _ in range(2)]),
    'unevenc2': (2, 'crazy', lambda r: dict(c=.1, bounds=B2), lambda r: [[float(v) for v in r.uniform(.5, 2, int(r.integers(1, 4)))] for _ in range(2)]),
    'periodic2': (2, 'crazy', lambda r: dict(c=float(r.choice([0., .08])), bounds=B2, periodic=True), lambda r: [int(v) for v in r.integers(3, 5, 2)]),
    'multi2': (2, 'crazy_multi', lambda r: dict(c=float(r.choice([0., .05])), bounds=B2, Ns=[int(v) for v in r.integers(1, 4, 2)]), lambda r: [int(v) for v in r.integers(1, 3, 2)]),
    'step2': (2, 'backward_step', lambda r: {}, lambda r: int(r.integers(1, 3))),
    'cylinder2': (2, 'cylinder_channel', lambda r: {}, lambda r: 1),
    'ortho3': (3, 'crazy', lambda r: dict(c=0., bounds=B3), lambda r: [int(v) for v in r.integers(1, 4, 3)]),
    'crazy3': (3, 'crazy', lambda r: dict(c=.04, bounds=B3), lambda r: [int(v) for v in r.integers(1, 3, 3)]),
    'periodic3': (3, 'crazy', lambda r: dict(c=0., bounds=B3, periodic=True), lambda r: [3, 3, 3]),
    'multi3': (3, 'crazy_multi', lambda r: dict(c=0., bounds=B3, Ns=[2, 1, 1]), lambda r: [1, 2, 1]),
    'step3': (3, 'backward_step', lambda r: {}, lambda r: 1),
}


def field(rng, n, comps):
    out = []
    for _ in range(comps):
        w, s, a = rng.uniform(-1.5, 1.5, n), rng.uniform(0, 6), rng.uniform(.5, 1.5)
        out.append(lambda t, *x, w=w, s=s, a=a: a * np.sin(sum(v * y for v, y in zip(w, x)) + s + t))
    return out


class low:
    """msepy with the sparse mass matrices, which are those of msehtt on orthogonal meshes"""
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        if self.on:
            ph.config.set_high_accuracy(False)

    def __exit__(self, *a):
        ph.config.set_high_accuracy(True)


def relabel(gm, order):
    """gluing of the local dofs: global numbers replaced by the first place where they occur"""
    seen, out = {}, []
    for e in order:
        out.append([seen.setdefault(int(v), len(seen)) for v in gm[e]])
    return out


def measure(d, key, t):
    """norm, error and norm of the derivative, as the forms report them"""
    F, n = d.F[key], d.n
    k, o = key
    if d.impl == 'msepy':
        return dict(norm=F[t].norm(), error=F[t].error())
    out = dict(norm=F[t].norm(), error=F[t].error())
    return out


def pair(ctx, name, rounds):
    rng = ctx.rng
    n, dom, fkw, fK = PAIRS[name]
    for r in range(rounds):
        kw, K = fkw(rng), fK(rng)
        p = int(rng.integers(1, 4 if n == 2 else 3))
        per = kw.get('periodic', False)
        if n == 3 and name == 'periodic3':
            p = 1
        tag = f'{dom} {kw} K={K} p={p}'
        keys = [k for k in S.SPACES[n]]
        ortho = not kw.get('c', 0.) and dom != 'cylinder_channel'
        one_pair(ctx, name, n, dom, kw, K, p, per, tag, keys, ortho)


def one_pair(ctx, name, n, dom, kw, K, p, per, tag, keys, ortho):
    rng = ctx.rng
    a = ctx.sub('pair', lambda: S.make_msepy(n, K, p, dom, dict(kw), keys, periodic=per))

    def look(d, st):
        order, t = d.elements, 0.3
        for key in keys:
            k, o = key
            gm = d.gm(key)
            fs = st['field'][key]
            d.reduce(key, t, d.cfun(key, *fs))
            S_ = dict(gm=gm, nd=d.ndofs(key), c=d.get(key, t), E=d.E(key) if k < n else None, M=d.M(key), m=measure(d, key, t))
            if st['rec']:
                S_['rec'] = d.recon(key, t, *st['grid'])
            st['out'][key] = S_
        st['map'] = {e: d.mapping(e, *[g.ravel() for g in np.meshgrid(*st['grid'], indexing='ij')]) for e in order}
    fields = {key: field(rng, n, n if 0 < key[0] < n else 1) for key in keys}
    grid = [np.sort(rng.uniform(-1, 1, 3)) for _ in range(n)]
    rec = not (n == 3 and kw.get('c', 0.) != 0)
    st = [dict(field=fields, grid=grid, rec=rec, out={}) for _ in range(2)]
    if a is None:
        return
    if ctx.sub('pair', lambda: look(a, st[0]) or True) is None:
        return
    ea = a.elements
    if ortho:
        with low(True):
            al = ctx.sub('pair', lambda: S.make_msepy(n, K, p, dom, dict(kw), keys, periodic=per))
            if al is None:
                return
            for key in keys:
                Q = st[0]['out'][key]
                Q['M'] = al.M(key)    # the norms of msehtt are those of its mass matrices
                Q['m']['norm'] = np.sqrt(sum(v @ Q['M'][e] @ v for e, v in Q['c'].items()))
    b = ctx.sub('pair', lambda: S.make_msehtt(n, (dom,), dict(kw, element_layout=K), p, keys))
    if b is None or ctx.sub('pair', lambda: look(b, st[1]) or True) is None:
        return
    ctx.event('pair')
    eb = b.elements
    if not ctx.eq(len(ea), len(eb), 'pair|number of elements', tag):
        return
    A, B = st
    # same elements, found by position
    pos = {tuple(np.round(v[:, 0], 8) + 0.): e for e, v in B['map'].items()}
    match = {e: pos.get(tuple(np.round(v[:, 0], 8) + 0.)) for e, v in A['map'].items()}
    if not ctx.true(None not in match.values() and len(set(match.values())) == len(ea), 'pair|elements', f'{tag}: the elements are not at the same places'):
        return
    mtol = 1e-6 if ortho else .2
    ntol = dict(norm=2e-5 if ortho and n == 2 else 1e-3 if ortho else .1, error=1e-4 if ortho and n == 2 else 1e-3 if ortho else .3)
    rtol = 1e-5 if n == 2 else 1e-3 if ortho else 1e-2    # the rules of reductions differ
    judge = ortho or (n == 2 and dom != 'cylinder_channel')    # the rules are of low degree for the others
    for e in ea:
        ctx.close(A['map'][e], B['map'][match[e]], 'pair|mapping', 1e-10, f'{tag} {e}')
    for key in keys:
        x, y = A['out'][key], B['out'][key]
        ctx.case(name, tag, key)
        ctx.eq(x['nd'], y['nd'], 'pair|number of dofs', f'{tag} {key}')
        ctx.eq(relabel(x['gm'], ea), relabel(y['gm'], [match[e] for e in ea]), 'pair|gluing', f'{tag} {key}')
        sc = max(np.abs(v).max() for v in x['c'].values()) + 1e-12
        for e in ea:
            f = match[e]
            ctx.close(x['c'][e], y['c'][f], 'pair|reduction', rtol, f'{tag} {key} {e}', scale=sc)
            if x['E'] is not None:
                ctx.true(np.array_equal(x['E'][e], y['E'][f]), 'pair|incidence', f'{tag} {key} {e}')
            if judge:
                ctx.close(x['M'][e], y['M'][f], 'pair|mass', mtol, f'{tag} {key} {e}', scale=np.abs(x['M'][e]).max())
            if rec:
                ctx.close(x['rec'][e][0], y['rec'][f][0], 'pair|reconstruction places', 1e-9, f'{tag} {key} {e}')
                ctx.close(x['rec'][e][1], y['rec'][f][1], 'pair|reconstruction', 5 * rtol, f'{tag} {key} {e}',
                          scale=np.abs(x['rec'][e][1]).max() + 1e-9)
        for q in x['m'] if judge else ():
            ctx.close(x['m'][q], y['m'][q], f'pair|{q}', ntol[q], f'{tag} {key}', scale=abs(x['m']['norm']) + 1e-12)


# ------------------------------------------------------------------ solutions
def places(d):
    """{element: an interior point of it}"""
    x = [np.array([.1])] * d.n
    return {e: tuple(np.round(d.mapping(e, *x)[:, 0], 7) + 0.) for e in d.elements}


def same(ctx, key, A, B, tag, tol=1e-8):
    sc = max([float(np.abs(v).max()) for v in A.values()] + [1e-9])
    if not ctx.eq(sorted(A), sorted(B), key + ' elements', tag):
        return
    for e in A:
        ctx.close(A[e], B[e], key, tol, f'{tag} element {e}', scale=sc)


def poisson(ctx, n, o, periodic, rounds):
    from vm.checks import c14
    rng = ctx.rng
    for r in range(rounds):
        p = int(rng.integers(1, 4 if n == 2 else 2))
        c = float(rng.choice([0., .1])) if n == 2 else 0.
        bnd = c14.BND[n][int(rng.integers(2))]
        K = [int(v) for v in rng.integers(3 if periodic else 1, 5 if n == 2 else 4, n)]
        fields = c14.trig(rng, n, bnd, periodic)
        t = float(rng.uniform(0, 1))
        sel = [1] * (2 * n)
        while all(sel):
            sel = [int(v) for v in rng.integers(2, size=2 * n)]
        tag = f'poisson {n} {o} periodic={periodic} K={K} p={p} c={c} {bnd} sections={sel} t={t}'
        res = []
        for impl in ('msepy', 'msehtt'):
            ctx.case(tag, impl)
            with low(impl == 'msepy' and c == 0):
                res.append(ctx.sub('solution', lambda: c14.mixed(impl, n, o, periodic, p, K, c, bnd, sel, fields, t, cochains=True)))
        if None in res:
            continue
        ctx.event('solution')
        (e0, b0, x0, d0), (e1, b1, x1, d1) = res
        p0, p1 = places(d0), places(d1)
        ctx.close(e0, e1, 'solution|errors', {1: .1, 2: 3e-2, 3: 1e-2}[p] if c == 0 else .3, tag, scale=max(b0) + max(e0))
        for f in x0:
            same(ctx, f'solution|{f}', {p0[e]: v for e, v in x0[f].items()}, {p1[e]: v for e, v in x1[f].items()}, tag, {1: .1, 2: 3e-2, 3: 1e-2}[p] if c == 0 else .3)


def evolve(ctx, kind, n, rounds):
    """the same simulation from the same state"""
    from vm.checks import c14
    rng = ctx.rng
    for r in range(rounds):
        p = int(rng.integers(1, 4)) if n == 2 else 1
        K = [3] * 3 if n == 3 else [int(v) for v in rng.integers(3, 5, 2)]
        c = float(rng.choice([0., .08])) if n == 2 else 0.
        bnd = c14.BND[n][int(rng.integers(2))] if not (kind == 'flow' and n == 3) else [[0., 1.]] * 3
        Rn = float(rng.choice([0., .05]))
        dt, t0 = float(rng.uniform(.02, .3)), float(rng.uniform(-1, 1))
        nk = 3
        seed = int(rng.integers(1 << 30))
        tag = f'{kind} {n} K={K} p={p} c={c} {bnd} Rn={Rn} dt={dt}'
        k, o = int(rng.integers(1, n + 1)), ['outer', 'inner'][int(rng.integers(2))]
        out = []
        start = {}
        for impl in ('msepy', 'msehtt'):
            ctx.case(tag, k, o, impl)
            keep = {}

            def build(mesh):
                if kind == 'flow':
                    keep['ts'], A = c14.flow_forms(n, Rn)
                    return A
                sa, su = ph.space.new('Lambda', k, orientation=o), ph.space.new('Lambda', k - 1, orientation=o)
                a, u = sa.make_form('a', 'c24a'), su.make_form('u', 'c24u')
                da, du, d, cd = a.time_derivative(), u.time_derivative(), u.exterior_derivative(), a.codifferential()
                pde = ph.pde(['da = - d', 'du = cd'], dict(da=da, d=d, du=du, cd=cd))
                pde.unknowns = [a, u]
                wf = pde.test_with([sa, su], sym_repr=['v', 'w']).derive.integration_by_parts('1-1')
                ts = keep['ts'] = ph.time_sequence()
                td = wf.td
                td.set_time_sequence(ts)
                td.define_abstract_time_instants('k-1', 'k')
                td.differentiate('0-0', 'k-1', 'k')
                td.differentiate('1-0', 'k-1', 'k')
                td.average('0-1', u, ['k-1', 'k'])
                td.average('1-1', a, ['k-1', 'k'])
                wf = td()
                wf.unknowns = [a @ ts['k'], u @ ts['k']]
                dt_ = ts.make_time_interval('k-1', 'k')
                wf = wf.derive.split('0-0', 'f0', [a @ ts['k'], a @ ts['k-1']], ['+', '-'], factors=[1 / dt_, 1 / dt_])
                wf = wf.derive.split('0-2', 'f0', [(u @ ts['k-1']).exterior_derivative(), (u @ ts['k']).exterior_derivative()], ['+', '+'], factors=[1 / 2, 1 / 2])
                wf = wf.derive.split('1-0', 'f0', [u @ ts['k'], u @ ts['k-1']], ['+', '-'], factors=[1 / dt_, 1 / dt_])
                wf = wf.derive.split('1-2', 'f0', [a @ ts['k'], a @ ts['k-1']], ['+', '+'], factors=[1 / 2, 1 / 2])
                wf = wf.derive.rearrange({0: '0, 3 = 1, 2', 1: '2, 0 = 3, 1'})
                return dict(forms=dict(a=a, u=u), wf=[wf])

            def go():
                P = c14.Sim(impl, n, K, c, bnd, True, p, build)
                keep['ts'].specify('constant', [t0, t0 + nk * dt, 2 * nk], 2)
                g = np.random.default_rng(seed)
                new = not start
                d = S.Disc(impl, n)
                d.ms, d.obj, d.p, d.tgm = P.fem, P.obj, p, getattr(P, 'tgm', None)
                at = places(d)
                get = lambda f, t: {at[e]: v for e, v in P.get(f, t).items()}
                res = []
                when = dict(wo=t0, uo=t0, ui=t0 + dt / 2, wi=t0 + dt / 2) if kind == 'flow' else dict(a=t0, u=t0)
                for f, t in when.items():
                    if new:
                        P.random(f, t, g)
                        start[f] = {at[e]: v for e, v in P.get(f, t).items()}
                    else:
                        P.put(f, t, {e: start[f][at[e]] for e in P.elements})
                for i in range(1, nk):
                    if kind == 'flow':
                        def fix(l):
                            if impl == 'msepy':
                                l.customize.set_local_dof_ij_of_unknown_k_to_value(i=0, j=0, k=2, value=.5)
                            else:
                                l.customize.set_local_dof(2, P.elements[0], 0, .5)
                        P.solve(1, fix, k=i)
                        P.solve(0, fix, k=i)
                        t, h = t0 + i * dt, t0 + (i + .5) * dt
                        res.append({f: get(f, x) for f, x in dict(uo=t, wo=t, Po=h - dt, ui=h, wi=h, Pi=t).items()})
                    else:
                        P.solve(0, k=i)
                        res.append({f: get(f, t0 + i * dt) for f in 'au'})
                return res
            with low(impl == 'msepy' and c == 0):
                out.append(ctx.sub('solution', go))
        if None in out:
            continue
        ctx.event('solution')
        for i, (x, y) in enumerate(zip(*out)):
            for f in x:
                same(ctx, f'solution|{kind} {f}', x[f], y[f], f'{tag} {k} {o} step {i + 1}', 1e-4 if c == 0 else .1)


# ------------------------------------------------------------------ descriptions of one mesh
def shuffle(rng, m, tri=False):
    """the same elements numbered, and their vertices numbered and listed, in another way"""
    es = list(m['element_type_dict'])
    perm = rng.permutation(len(es)) + int(rng.integers(3)) * 7
    vs = sorted({v for q in m['element_map_dict'].values() for v in q})
    names = dict(zip(vs, (int(x) for x in rng.permutation(len(vs)) + 3)))
    td, md, pd = {}, {}, {}
    for i in rng.permutation(len(es)):
        e, new = es[int(i)], int(perm[int(i)])
        q, xy = [names[v] for v in m['element_map_dict'][e]], list(m['element_parameter_dict'][e])
        r = int(rng.integers(4)) if m['element_type_dict'][e] == 9 else 0
        td[new], md[new], pd[new] = m['element_type_dict'][e], q[r:] + q[:r], xy[r:] + xy[:r]
    return dict(element_type_dict=td, element_map_dict=md, element_parameter_dict=pd)


def vtu(m):
    from phyem.msehtt.static.mesh.great.config.vtu import MseHttVtuInterface
    coo = {}
    for e, vs in m['element_map_dict'].items():
        for v, xy in zip(vs, m['element_parameter_dict'][e]):
            coo[v] = tuple(xy)
    return MseHttVtuInterface(coo, m['element_map_dict'], m['element_type_dict'])


def grid_quads(xs, ys):
    td, md, pd = {}, {}, {}
    e = 0
    for j in range(len(ys) - 1):
        for i in range(len(xs) - 1):
            q = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
            td[e], md[e], pd[e] = 9, [a + 100 * b for a, b in q], [(xs[a], ys[b]) for a, b in q]
            e += 1
    return dict(element_type_dict=td, element_map_dict=md, element_parameter_dict=pd)


def problem(args, kw, p, sel, fields, t, per_point=True, periodic=False):
    """Poisson on a mesh of the unit square, everything that must not depend on the description"""
    n = 2
    ls, mp = ph.samples.wf_div_grad(n=2, degree=p, orientation='outer', periodic=False)
    fem, obj = ph.fem.apply('msehtt', dict(ls=ls))
    B = fem.base
    tgm = B['the_great_mesh']
    fem.config('tgm')(*args, **kw)
    mesh = [m for m in B['meshes'].values() if m.abstract.manifold._sym_repr == r'\mathcal{M}'][0]
    fem.config(mesh)(tgm, 'all')
    ax = [[s if i == a else 0 for i in range(n)] for a in range(n) for s in (-1, 1)]
    lines = [[(0., 0.), (0., 1.)], [(1., 0.), (1., 1.)], [(0., 0.), (1., 0.)], [(0., 1.), (1., 1.)]]
    pm = {}
    for m in B['meshes'].values():
        s = m.abstract.manifold._sym_repr
        if s in (r'\Gamma_u', r'\Gamma_\phi'):
            fem.config(m)(tgm, {'type': 'boundary_section', 'partial elements': mesh,
                                'on straight segments': [v for v, w in zip(lines, sel) if w == (s == r'\Gamma_u')]})
            pm[s] = m
    phi, u, f = (B['forms'][x] for x in ('potential', 'velocity', 'source'))
    F, g, lap = fields
    sc = ph.vc.scalar(S.pyfun(F, n))
    vu = ph.vc.vector(*[S.pyfun(v, n) for v in g])
    phi.cf, u.cf, f.cf = sc, vu, ph.vc.scalar(S.pyfun(lambda t_, *x: -lap(t_, *x), n))
    L = obj['ls'].apply()
    L.config(('essential bc', 1), pm[r'\Gamma_u'], vu, root_form=u)
    L.config(('natural bc', 1), pm[r'\Gamma_\phi'], sc, root_form=phi)
    f[t].reduce()
    sls = L(t)
    als = sls.assemble()
    sls.x.update(als.solve('spsolve')[0])
    d = S.Disc('msehtt', 2)
    d.ms, d.tgm, d.F, d.p = fem, tgm, dict(phi=phi, u=u, f=f), p
    nums = dict(elements=len(tgm.elements), dofs_u=u.cochain.gathering_matrix.num_global_dofs, dofs_phi=phi.cochain.gathering_matrix.num_global_dofs,
                shape=als.A._M.shape[0], error_phi=phi[t].error(), error_u=u[t].error(), norm_phi=phi[t].norm(), norm_u=u[t].norm(), norm_f=f[t].norm(),
                mass=phi[t].mass(), in_product=u[t].inner_product(u[t]), sections=(len(pm[r'\Gamma_u'].composition), len(pm[r'\Gamma_\phi'].composition)))
    pts = {}
    x = np.array([-.8, -.3, 0., .3, .8])
    for q in ('phi', 'u'):
        for e, (X, V) in d.recon(q, t, x, x).items():
            for i in range(X.shape[1]):
                pts.setdefault(tuple(np.round(X[:, i], 7) + 0.), {}).setdefault(q, []).append(V[:, i])
    return nums, pts


def description(ctx, kind, rounds):
    from vm.checks import c14
    rng = ctx.rng
    for r in range(rounds):
        p = int(rng.integers(1, 4))
        fields = c14.trig(rng, 2, [[0., 1.]] * 2, False)
        t = float(rng.uniform(0, 1))
        sel = [1] * 4
        while all(sel):
            sel = [int(v) for v in rng.integers(2, size=4)]
        todo = {}
        if kind == 'grid':
            K = [int(v) for v in rng.integers(1, 4, 2)]
            m = grid_quads(np.linspace(0, 1, K[0] + 1), np.linspace(0, 1, K[1] + 1))
            todo['predefined'] = (('crazy',), dict(element_layout=K, c=0., bounds=[[0., 1.], [0., 1.]], periodic=False))
            todo['renumbered'] = (('crazy',), dict(element_layout=K, c=0., bounds=[[0., 1.], [0., 1.]], periodic=False, renumbering=True))
            todo['regions'] = (('crazy_multi',), dict(element_layout=1, c=0., Ns=K, bounds=[[0., 1.], [0., 1.]], periodic=False))
        else:
            K = [int(v) for v in rng.integers(2, 5, 2)]
            m = C.random_quads(rng, K[0], K[1], rotate=bool(rng.integers(2)))
        todo['elements'] = ((m,), {})
        todo['shuffled'] = ((shuffle(rng, m),), {})
        todo['vtu'] = ((vtu(shuffle(rng, m)),), {})
        todo['elements renumbered'] = ((shuffle(rng, m),), dict(renumbering=True))
        tag = f'{kind} K={K} p={p} sections={sel} t={t}'
        ref = None
        todo['file'] = None
        for nm, a in todo.items():
            if nm == 'file':
                path = os.path.join(os.environ['VM_SCRATCH'], f'c24{r}_{kind}_{ctx.seed}.phm')

                def make():
                    d = S.make_msehtt(2, *todo['shuffled'], p=1, keys=[(0, 'outer')])
                    d.tgm.saveto(path)
                    return True
                if ctx.sub('description', make) is None:
                    continue
                a = ((path,), {})
            ctx.case(tag, nm)
            got = ctx.sub('description', lambda: problem(*a, p, sel, fields, t))
            if got is None:
                continue
            ctx.event('description')
            if ref is None or nm == 'elements':
                ref, first = got, nm
                continue
            for q, v in ref[0].items():
                ctx.close(np.asarray(got[0][q], float), np.asarray(v, float), f'description|{q}', 1e-7, f'{tag}: {nm} against {first}')
            if ctx.eq(len(ref[1]), len(got[1]), 'description|places', f'{tag}: {nm} against {first}') and \
                    ctx.true(set(ref[1]) == set(got[1]), 'description|places', f'{tag}: {nm} against {first}'):
                for q in ('phi', 'u'):
                    A = np.array([sorted(v[q], key=lambda w: tuple(np.round(w, 6)))[0] for _, v in sorted(ref[1].items())])
                    B = np.array([sorted(v[q], key=lambda w: tuple(np.round(w, 6)))[0] for _, v in sorted(got[1].items())])
                    ctx.close(A, B, f'description|field {q}', 1e-6, f'{tag}: {nm} against {first}', scale=np.abs(A).max() + 1e-9)


def UNITS(tier):
    q = tier == 'quick'
    U = []
    for nm, v in PAIRS.items():
        U.append((f'pair:{nm}', pair, dict(name=nm, rounds=(2 if v[0] == 2 else 1) if q else (10 if v[0] == 2 else 4))))
    for o, per in (('outer', False), ('inner', False), ('outer', True)):
        U.append((f'poisson:2:{o}:{per}', poisson, dict(n=2, o=o, periodic=per, rounds=3 if q else 15)))
    U.append(('poisson:3:outer:True', poisson, dict(n=3, o='outer', periodic=True, rounds=1 if q else 4)))
    for kind in ('wave', 'flow'):
        for n in (2, 3):
            U.append((f'evolve:{kind}:{n}', evolve, dict(kind=kind, n=n, rounds=(3 if n == 2 else 1) if q else (12 if n == 2 else 3))))
    for kind in ('grid', 'quads'):
        for i in range(2):
            U.append((f'description:{kind}:{i}', description, dict(kind=kind, rounds=2 if q else 8)))
    return U
