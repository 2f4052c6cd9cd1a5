"""C14: invariants of full simulations at every step, energy balances, and orders of convergence of manufactured solutions."""
import numpy as np
from vm import geo as G
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (problem, implementation, mesh, degrees of the forms, polynomial degree, time step sequence, step)',
    assumptions=['the invariants are those the discretisation guarantees: skew or dissipative structure, incidence matrices, sums over closed domains',
                 'measured orders of convergence between two meshes may be .4 below the order of the best approximation of the same fields'],
    note='Wave and heat problems for every form degree, dual-field incompressible flow in 2 and 3 dimensions (msepy and msehtt), with random '
         'initial states, random time steps and boundary kinds: energies, constraints, circulations and sums monitored at every step. '
         'Manufactured mixed Poisson, heat and wave solutions: error against interpolation error and against refinement in h, p and dt.',
    must_observe=['wave', 'heat', 'flow', 'order', 'time order'])


class Sim:
    """a discretisation of one formulation on one mesh"""

    def __init__(self, impl, n, K, c, bounds, periodic, p, build):
        self.impl, self.n = impl, n
        ph.config.set_embedding_space_dim(n)
        manifold = ph.manifold(n, periodic=periodic)
        mesh = ph.mesh(manifold)
        self.A = A = build(mesh)
        ph.space.finite(p)
        o = dict(manifold=manifold, mesh=mesh)
        for i, wf in enumerate(A['wf']):
            o[f'ls{i}'] = wf.mp().ls()
        self.fem, self.obj = fem, obj = ph.fem.apply(impl, o)
        if impl == 'msepy':
            fem.config(obj['manifold'])('crazy', c=c, periodic=periodic, bounds=bounds)
            if 'sections' in A:
                M = obj['manifold']
                for s, sel in A['sections'].items():
                    fem.config(fem.base['manifolds'][s])(M, {r: sel for r in M.regions})
            fem.config(obj['mesh'])(K)
        else:
            tgm = fem.base['the_great_mesh']
            fem.config('tgm')('crazy', element_layout=K, c=c, bounds=bounds, periodic=periodic)
            fem.config(obj['mesh'])(tgm, 'all')
            self.tgm = tgm
            ax = [[s if i == a else 0 for i in range(n)] for a in range(n) for s in (-1, 1)]
            for s, sel in A.get('sections', {}).items():
                for mm in fem.base['meshes'].values():
                    if mm.abstract.manifold._sym_repr == s:
                        inc = {'type': 'boundary_section', 'partial elements': obj['mesh']}
                        fem.config(mm)(tgm, dict(inc, ounv=[v for v, w in zip(ax, sel) if w]))
            if A.get('sections'):
                s0, sel = list(A['sections'].items())[0]
                rest = [v for v, w in zip(ax, sel) if not w]
                for mm in fem.base['meshes'].values():
                    if mm.abstract.manifold._sym_repr == A['last']:
                        fem.config(mm)(tgm, dict({'type': 'boundary_section', 'partial elements': obj['mesh']}, ounv=rest))
        self.F = {k: fem.base['forms'][f._pure_lin_repr] for k, f in A['forms'].items()}
        self.ls = [obj[f'ls{i}'].apply() for i in range(len(A['wf']))]
        self._M = {}

    @property
    def elements(self):
        return list(range(len(self.obj['mesh'].elements))) if self.impl == 'msepy' else sorted(self.tgm.elements)

    def get(self, f, t):
        F = self.F[f]
        return {e: np.array(v) for e, v in (enumerate(F.cochain[t].local) if self.impl == 'msepy' else ((e, F[t].cochain[e]) for e in self.elements))}

    def put(self, f, t, v):
        F = self.F[f]
        F[t].cochain = np.array([v[e] for e in self.elements]) if self.impl == 'msepy' else {e: np.array(v[e]) for e in self.elements}

    def gm(self, f):
        g = self.F[f].cochain.gathering_matrix
        return {e: np.array(g[e]) for e in self.elements}

    def ndofs(self, f):
        return 1 + max(int(v.max()) for v in self.gm(f).values())

    def random(self, f, t, rng):
        g = rng.standard_normal(self.ndofs(f))
        gm = self.gm(f)
        self.put(f, t, {e: g[gm[e]] for e in self.elements})

    def mass(self, f):
        if f not in self._M:
            F = self.F[f]
            M = F.matrix.mass if self.impl == 'msepy' else self.fem.array('mass matrix', F)[0]
            self._M[f] = {e: M[e].toarray() for e in self.elements}
        return self._M[f]

    def E(self, f):
        F = self.F[f]
        E = F.coboundary.incidence_matrix if self.impl == 'msepy' else F.incidence_matrix
        return {e: E[e].toarray() for e in self.elements}

    def dot(self, f, u, v):
        M = self.mass(f)
        return sum(float(u[e] @ M[e] @ v[e]) for e in u)

    def total(self, f, u):
        """sum of a cochain over the geometric cells"""
        gm = self.gm(f)
        g = np.zeros(self.ndofs(f))
        for e in u:
            g[gm[e]] = u[e]
        return g

    def solve(self, i, fix=None, **kw):
        l = self.ls[i](**kw)
        if fix:
            fix(l)
        als = l.assemble()
        x = als.solve('spsolve') if self.impl == 'msehtt' else als.solve()
        l.x.update(x[0])
        return x


def add(a, u, b, v):
    return {e: a * u[e] + b * v[e] for e in u}


def amax(u):
    return max(float(np.abs(v).max()) for v in u.values())


def steps(rng, kind, nk):
    """(function making the sequence, instants)"""
    t0 = float(rng.uniform(-1, 1))
    if kind == 'constant':
        L = float(rng.uniform(.2, 2)) * nk / 4
        return (lambda ts: ts.specify('constant', [t0, t0 + L, 2 * nk], 2)), [t0 + L * i / nk for i in range(nk + 1)]
    w = rng.uniform(.02, .6, nk + 5)
    it = iter(w)
    cum = np.concatenate([[t0], t0 + np.cumsum(w)])
    return (lambda ts: ts.specify('function', t0, lambda: float(next(it)))), [float(v) for v in cum[:nk + 1]]


GRID = {('msepy', 1): ([[4], [7], [[1, 2, 1.5, .7]]], .1), ('msepy', 2): ([[3, 3], [2, 4], [[1, 2, 1.5], [2, 1]]], .1),
        ('msepy', 3): ([[2, 2, 2], [2, 1, 3]], .05), ('msehtt', 2): ([[3, 3], [3, 4], [[1, 2, 1.5], [2, 1, 1]]], .1), ('msehtt', 3): ([[3, 3, 3]], 0.)}
BND = {1: [[[0., 1.]], [[-1., 2.]]], 2: [[[0., 1.], [0., 1.]], [[-.5, 1.], [0., 2.]]], 3: [[[0., 1.]] * 3, [[0., 1.], [0., .8], [-.5, 1.]]]}


def mesh_of(rng, impl, n, periodic):
    Ks, c = GRID[(impl, n)]
    K = Ks[int(rng.integers(len(Ks)))]
    if n == 3 and impl == 'msehtt' and not periodic:
        K = [2, 1, 2]
    if periodic and impl == 'msepy':
        K = [k if not isinstance(k, int) else max(k, 2) for k in K]
    c = c if rng.random() < .5 and n > 1 else 0.
    b = BND[n][int(rng.integers(2))]
    return K, c, b


# ------------------------------------------------------------------ waves
def wave(ctx, impl, n, rounds, nk):
    """da/dt = s d*b, db/dt = -d a with implicit midpoint: energy, balance and constraint at every step"""
    rng = ctx.rng
    for r in range(rounds):
        k = int(rng.integers(n))
        o = ['outer', 'inner'][int(rng.integers(2))]
        bc = ['periodic', 'natural', 'essential'][int(rng.integers(3 if n > 1 else 2))]
        s = float(rng.choice([1., .25, 3.]))
        p = int(rng.integers(1, 4 if n < 3 else 3))
        kind = ['constant', 'function'][int(rng.integers(2))]
        specify, times = steps(rng, kind, nk)
        K, c, bnd = mesh_of(rng, impl, n, bc == 'periodic')
        swap = bool(rng.integers(2))
        sel = [1] * (2 * n) if rng.random() < .3 else [int(v) for v in rng.integers(2, size=2 * n)]     # faces with a given there
        keep = {}

        def build(mesh):
            from phyem.src.form.operators import trace
            sa, sb = ph.space.new('Lambda', k, orientation=o), ph.space.new('Lambda', k + 1, orientation=o)
            a, b = sa.make_form('a', 'c14a'), sb.make_form('b', 'c14b')
            da, db, cd, d = a.time_derivative(), b.time_derivative(), b.codifferential(), a.exterior_derivative()
            sc = ph.constant_scalar(s) if s != 1 else None
            cdb = cd if sc is None else sc * cd
            ex = ['da = cdb', 'db = - d']
            if swap:
                ex = ['da - cdb = 0', '- db = d']
            pde = ph.pde(ex, dict(da=da, db=db, cdb=cdb, d=d))
            pde.unknowns = [a, b]
            if bc == 'essential':
                pde.bc.partition(r'\Gamma_e', r'\Gamma_x')
                pde.bc.define_bc({r'\Gamma_e': trace(a)})
            wf = pde.test_with([sa, sb], sym_repr=['v', 'w'])
            wf = wf.derive.integration_by_parts('0-1')
            if bc != 'periodic':
                wf = wf.derive.delete('0-2')
            ts = ph.time_sequence()
            td = wf.td
            td.set_time_sequence(ts)
            td.define_abstract_time_instants('k-1', 'k-1/2', 'k')
            td.differentiate('0-0', 'k-1', 'k')
            td.differentiate('1-0', 'k-1', 'k')
            td.average('0-1', b, ['k-1', 'k'])
            td.average('1-1', a, ['k-1', 'k'])
            wf = td()
            wf.unknowns = [a @ ts['k'], b @ ts['k']]
            dt = ts.make_time_interval('k-1', 'k')
            q = -1 if swap else 1
            wf = wf.derive.split('0-0', 'f0', [a @ ts['k'], a @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
            h = ph.constant_scalar(s / 2) if s != 1 else 1 / 2
            wf = wf.derive.split('0-2', 'f0', [b @ ts['k-1'], b @ ts['k']], ['+', '+'], factors=[h, h])
            wf = wf.derive.split('1-0', 'f0', [b @ ts['k'], b @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
            wf = wf.derive.split('1-2', 'f0', [(a @ ts['k-1']).exterior_derivative(), (a @ ts['k']).exterior_derivative()], ['+', '+'], factors=[1 / 2, 1 / 2])
            wf = wf.derive.rearrange({0: '0, 3 = 1, 2', 1: '3, 0 = 2, 1'})
            keep['ts'] = ts
            A = dict(forms=dict(a=a, b=b), wf=[wf])
            if bc == 'essential':
                A.update(sections={r'\Gamma_e': sel}, last=r'\Gamma_x')
            return A
        P = ctx.sub('wave', lambda: Sim(impl, n, K, c, bnd, bc == 'periodic', p, build))
        if P is None:
            continue
        tag = f'{impl} {n} K={K} c={c} {bnd} k={k} {o} p={p} s={s} {bc} {kind} swap={swap}'
        specify(keep['ts'])
        if bc == 'essential':
            zero = S.pyfun(lambda t, *x: 0 * x[0], n)
            vc = ph.vc.scalar(zero) if k == 0 else ph.vc.vector(*[zero] * n)
            if impl == 'msepy':
                P.ls[0].bc.config(P.fem.base['manifolds'][r'\Gamma_e'])(vc)
            else:
                pm = [m for m in P.fem.base['meshes'].values() if m.abstract.manifold._sym_repr == r'\Gamma_e'][0]
                P.ls[0].config(('essential bc', 1), pm, vc, root_form=P.F['a'])
        t = times[0]
        P.random('a', t, rng)
        P.random('b', t, rng)
        a0, b0 = P.get('a', t), P.get('b', t)
        if bc == 'essential':                     # boundary dofs of a start at zero
            gm = P.gm('a')
            edge = boundary_dofs(P, 'a', k, p, sel)
            a0 = {e: np.where(np.isin(gm[e], edge), 0., v) for e, v in a0.items()}
            P.put('a', t, a0)
        H0 = P.dot('a', a0, a0) + s * P.dot('b', b0, b0)
        E, gb = P.E('a'), P.gm('b')
        Ma, Mb = P.mass('a'), P.mass('b')
        ga, Na = P.gm('a'), P.ndofs('a')
        tot0 = P.total('b', b0).sum() if k + 1 == n else None
        mass0 = P.total('a', a0) if k == 0 else None
        for i in range(1, nk + 1):
            tn = times[i]
            if ctx.sub('wave', lambda: P.solve(0, k=i)) is None:
                break
            ctx.case(tag, i)
            ctx.event('wave')
            a1, b1 = P.get('a', tn), P.get('b', tn)
            sc = max(amax(a1), amax(b1), amax(a0), amax(b0))
            H = P.dot('a', a1, a1) + s * P.dot('b', b1, b1)
            ctx.close(H, H0, 'wave|energy', 1e-9, f'{tag} step {i}', scale=H0)
            am, bm = add(.5, a0, .5, a1), add(.5, b0, .5, b1)
            dt = tn - times[i - 1]
            for e in b1:
                ctx.close(b1[e], b0[e] - dt * (E[e] @ am[e]), 'wave|pointwise', 1e-9, f'{tag} step {i}', scale=sc * max(1, dt * np.abs(E[e]).sum(1).max()))
            R = np.zeros(Na)
            for e in a1:
                np.add.at(R, ga[e], Ma[e] @ (a1[e] - a0[e]) - dt * s * (E[e].T @ (Mb[e] @ bm[e])))
            if bc == 'essential':
                R[edge] = 0
                for e in a1:
                    ctx.close(a1[e][np.isin(ga[e], edge)], 0., 'wave|essential', 1e-10, tag, scale=sc)
            ctx.close(R, 0., 'wave|balance', 1e-9, f'{tag} step {i}', scale=sc * max(1, dt * s) * max(np.abs(Mb[e]).max() * np.abs(E[e]).sum(0).max() + np.abs(Ma[e]).max() for e in E))
            if tot0 is not None and (bc == 'periodic' or bc == 'essential' and all(sel)):
                ctx.close(P.total('b', b1).sum(), tot0, 'wave|sum', 1e-9, f'{tag} step {i}', scale=sc * len(gb) * p ** n)
            # what the forms report is what the cochains say
            F = P.F['b']
            N = F.norm(tn) if impl == 'msepy' else F[tn].norm()
            if c == 0:
                ctx.close(N ** 2, P.dot('b', b1, b1), 'wave|reported norm', 1e-9, tag, scale=H0)
            a0, b0 = a1, b1


def boundary_dofs(P, f, k, p, sel):
    """global dofs of a k-form on faces of the domain: dofs whose geometric cell lies in one element's outer face"""
    n = P.n
    nodes = G.nodes_of(p, n)
    d = S.Disc(P.impl, n)
    d.ms, d.obj, d.p = P.fem, P.obj, p
    d.tgm = getattr(P, 'tgm', None)
    o = P.A['forms'][f].orientation
    faces = G.pair_faces(d)[1]
    gm = P.gm(f)
    out = set()
    cells = G.dof_cells(nodes, k, o, n)
    for e, a, s in faces:
        if not sel[2 * a + (s > 0)]:
            continue
        for i, (lo, hi, along) in enumerate(cells):
            if lo[a] == hi[a] == s and a not in along:
                out.add(int(gm[e][i]))
    return np.array(sorted(out), dtype=int)


# ------------------------------------------------------------------ heat
def heat(ctx, impl, n, rounds, nk):
    """da/dt = kappa d u, u = -d* a: the energy falls by exactly what the gradient dissipates"""
    rng = ctx.rng
    for r in range(rounds):
        k = int(rng.integers(1, n + 1))
        o = ['outer', 'inner'][int(rng.integers(2))]
        bc = ['periodic', 'natural'][int(rng.integers(2))]
        kap = float(rng.choice([1., .1, 2.5]))
        p = int(rng.integers(1, 4 if n < 3 else 3))
        kind = ['constant', 'function'][int(rng.integers(2))]
        specify, times = steps(rng, kind, nk)
        K, c, bnd = mesh_of(rng, impl, n, bc == 'periodic')
        keep = {}

        def build(mesh):
            sa, su = ph.space.new('Lambda', k, orientation=o), ph.space.new('Lambda', k - 1, orientation=o)
            a, u = sa.make_form('a', 'c14a'), su.make_form('u', 'c14u')
            da, d, cd = a.time_derivative(), u.exterior_derivative(), a.codifferential()
            K_ = ph.constant_scalar(kap)
            kd = K_ * d
            pde = ph.pde(['da = kd', 'u = - cd'], dict(da=da, kd=kd, cd=cd, u=u))
            pde.unknowns = [a, u]
            wf = pde.test_with([sa, su], sym_repr=['v', 'w'])
            wf = wf.derive.integration_by_parts('1-1')
            if bc != 'periodic':
                wf = wf.derive.delete('1-2')
            ts = ph.time_sequence()
            td = wf.td
            td.set_time_sequence(ts)
            td.define_abstract_time_instants('k-1', 'k-1/2', 'k')
            td.differentiate('0-0', 'k-1', 'k')
            td.average('0-1', u, ['k-1/2'])
            td.average('1-0', u, ['k-1/2'])
            td.average('1-1', a, ['k-1', 'k'])
            wf = td()
            wf.unknowns = [a @ ts['k'], u @ ts['k-1/2']]
            dt = ts.make_time_interval('k-1', 'k')
            wf = wf.derive.split('0-0', 'f0', [a @ ts['k'], a @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
            wf = wf.derive.split('1-1', 'f0', [a @ ts['k-1'], a @ ts['k']], ['+', '+'], factors=[1 / 2, 1 / 2])
            wf = wf.derive.rearrange({0: '0, 2 = 1', 1: '2, 0 = 1'})
            keep['ts'] = ts
            return dict(forms=dict(a=a, u=u), wf=[wf])
        P = ctx.sub('heat', lambda: Sim(impl, n, K, c, bnd, bc == 'periodic', p, build))
        if P is None:
            continue
        tag = f'{impl} {n} K={K} c={c} {bnd} k={k} {o} p={p} kappa={kap} {bc} {kind}'
        specify(keep['ts'])
        P.random('a', times[0], rng)
        a0 = P.get('a', times[0])
        E = P.E('u')
        for i in range(1, nk + 1):
            if ctx.sub('heat', lambda: P.solve(0, k=i)) is None:
                break
            ctx.case(tag, i)
            ctx.event('heat')
            dt = times[i] - times[i - 1]
            a1, u1 = P.get('a', times[i]), P.get('u', (times[i] + times[i - 1]) / 2)
            H0, H1, D = P.dot('a', a0, a0), P.dot('a', a1, a1), P.dot('u', u1, u1)
            ctx.close(H1 - H0, -2 * dt * kap * D, 'heat|energy balance', 1e-9, f'{tag} step {i}', scale=H0)
            ctx.true(H1 <= H0 * (1 + 1e-12), 'heat|energy grows', f'{tag} step {i}: {H0} {H1}')
            for e in a1:
                ctx.close(a1[e], a0[e] + dt * kap * (E[e] @ u1[e]), 'heat|pointwise', 1e-9, f'{tag} step {i}', scale=max(amax(a0), dt * kap * amax(u1) * 6))
            if k == n and bc == 'periodic':
                ctx.close(P.total('a', a1).sum(), P.total('a', a0).sum(), 'heat|mass', 1e-9, f'{tag} step {i}', scale=amax(a0) * len(E) * p ** n)
            a0 = a1


# ------------------------------------------------------------------ dual-field flow
def flow_forms(n, Rn):
    """the dual-field formulation of incompressible flow (periodic): linear half steps with known vorticity"""
    kk = dict(Pi=0, ui=1, wi=2, wo=n - 2, uo=n - 1, Po=n)
    sp = {}
    for f, k in kk.items():
        sp[f] = ph.space.new('Lambda', k, orientation='inner' if f[1] == 'i' else 'outer')
    sym = dict(Pi=r'P', ui='u', wi=r'\omega', wo=r'\tilde{\omega}', uo=r'\tilde{u}', Po=r'\tilde{P}')
    f = {q: sp[q].make_form(sym[q], 'c14 ' + q) for q in kk}
    Pi, ui, wi, wo, uo, Po = (f[q] for q in kk)
    R, R2 = (ph.constant_scalar(Rn), ph.constant_scalar(Rn / 2)) if Rn else (None, None)
    env = dict(f, wo_x_ui=wo.cross_product(ui), wi_x_uo=wi.cross_product(uo), dPi=Pi.exterior_derivative(), cd_ui=ui.codifferential(),
               d_ui=ui.exterior_derivative(), cd_Po=Po.codifferential(), cd_uo=uo.codifferential(), d_uo=uo.exterior_derivative(),
               dui_dt=ui.time_derivative(), duo_dt=uo.time_derivative())
    vi, vo = '', ''
    if Rn:
        env['cd_wi'], env['d_wo'] = R * wi.codifferential(), R * wo.exterior_derivative()
        vi, vo = ' + cd_wi', ' + d_wo'
    ts = ph.time_sequence()
    # inner: k-1/2 -> k+1/2, as the outer field, the vorticity of the outer field known
    pde = ph.pde([f'dui_dt + wo_x_ui + dPi{vi} = 0', 'wi - d_ui = 0', '- cd_ui = 0'], env)
    pde.unknowns = [ui, wi, Pi]
    wf = pde.test_with([sp['ui'], sp['wi'], sp['Pi']], sym_repr=['v', 'w', 'q'])
    if Rn:
        wf = wf.derive.integration_by_parts('0-3')
    wf = wf.derive.integration_by_parts('2-0')
    s, m, e = 'k-1/2', 'k', 'k+1/2'
    td = wf.td
    td.set_time_sequence(ts)
    td.define_abstract_time_instants('k-1', s, m, e)
    td.differentiate('0-0', s, e)
    td.average('0-1', wo, [m])
    td.average('0-1', ui, [s, e])
    td.average('0-2', Pi, [m])
    if Rn:
        td.average('0-3', wi, [s, e])
    td.average('1-0', wi, [e])
    td.average('1-1', ui, [e])
    td.average('2-0', ui, [e])
    iwf = td()
    iwf.unknowns = [ui @ ts[e], wi @ ts[e], Pi @ ts[m]]
    dti = ts.make_time_interval(s, e)
    iwf = iwf.derive.split('0-0', 'f0', [ui @ ts[e], ui @ ts[s]], ['+', '-'], factors=[1 / dti, 1 / dti])
    iwf = iwf.derive.split('0-2', 'f0', [(wo @ ts[m]).cross_product(ui @ ts[s]), (wo @ ts[m]).cross_product(ui @ ts[e])], ['+', '+'], factors=[1 / 2, 1 / 2])
    if Rn:
        iwf = iwf.derive.split('0-5', 'f0', [wi @ ts[s], wi @ ts[e]], ['+', '+'], factors=[R2, R2])
        iwf = iwf.derive.rearrange({0: '0, 3, 6, 4 = 1, 2, 5'})
        known = ('0-1', '0-5')
    else:
        iwf = iwf.derive.rearrange({0: '0, 3, 4 = 1, 2'})
        known = ('0-1', '0-4')
    for t in known:
        iwf.terms[t].add_extra_info({'known-forms': wo @ ts[m]})
    # outer: k-1 -> k, the vorticity of the inner field known
    pde = ph.pde([f'duo_dt + wi_x_uo - cd_Po{vo} = 0', 'wo - cd_uo = 0', 'd_uo = 0'], env)
    pde.unknowns = [uo, wo, Po]
    wf = pde.test_with([sp['uo'], sp['wo'], sp['Po']], sym_repr=[r'\tilde{v}', r'\tilde{w}', r'\tilde{q}'])
    wf = wf.derive.integration_by_parts('0-2')
    wf = wf.derive.integration_by_parts('1-1')
    s, m, e = 'k-1', 'k-1/2', 'k'
    td = wf.td
    td.set_time_sequence(ts)
    td.define_abstract_time_instants(s, m, e)
    td.differentiate('0-0', s, e)
    td.average('0-1', wi, [m])
    td.average('0-1', uo, [s, e])
    td.average('0-2', Po, [m])
    if Rn:
        td.average('0-3', wo, [s, e])
    td.average('1-0', wo, [e])
    td.average('1-1', uo, [e])
    td.average('2-0', uo, [e])
    owf = td()
    owf.unknowns = [uo @ ts[e], wo @ ts[e], Po @ ts[m]]
    dto = ts.make_time_interval(s, e)
    owf = owf.derive.split('0-0', 'f0', [uo @ ts[e], uo @ ts[s]], ['+', '-'], factors=[1 / dto, 1 / dto])
    owf = owf.derive.split('0-2', 'f0', [(wi @ ts[m]).cross_product(uo @ ts[s]), (wi @ ts[m]).cross_product(uo @ ts[e])], ['+', '+'], factors=[1 / 2, 1 / 2])
    if Rn:
        owf = owf.derive.split('0-5', 'f0', [(wo @ ts[s]).exterior_derivative(), (wo @ ts[e]).exterior_derivative()], ['+', '+'], factors=[R2, R2])
        owf = owf.derive.rearrange({0: '0, 3, 6, 4 = 1, 2, 5'})
    else:
        owf = owf.derive.rearrange({0: '0, 3, 4 = 1, 2'})
    for t in known:
        owf.terms[t].add_extra_info({'known-forms': wi @ ts[m]})
    return ts, dict(forms=f, wf=[iwf, owf])


def flow(ctx, impl, n, rounds, nk):
    rng = ctx.rng
    for r in range(rounds):
        Rn = float(rng.choice([0., 0., .02]))
        p = int(rng.integers(1, 4)) if n == 2 else 1
        Ks = {('msepy', 2): [[3, 3], [4, 2]], ('msehtt', 2): [[3, 3], [4, 3]], ('msepy', 3): [[2, 2, 2]], ('msehtt', 3): [[3, 3, 3]]}[(impl, n)]
        K = Ks[int(rng.integers(len(Ks)))]
        c = .05 if impl == 'msepy' and rng.random() < .4 else 0.
        bnd = BND[n][int(rng.integers(2))]
        if n == 3:
            bnd = [[0., 1.]] * 3
        keep = {}

        def build(mesh):
            keep['ts'], A = flow_forms(n, Rn)
            return A
        P = ctx.sub('flow', lambda: Sim(impl, n, K, c, bnd, True, p, build))
        if P is None:
            continue
        tag = f'{impl} {n} K={K} c={c} {bnd} p={p} Rn={Rn}'
        dt = float(rng.uniform(.01, .3))
        t0 = float(rng.uniform(-1, 1))
        keep['ts'].specify('constant', [t0, t0 + nk * dt, 2 * nk], 2)
        # random initial states: uo = curl of something (divergence free), ui weakly divergence free
        P.random('wo', t0, rng)
        Eo, Ew = P.E('uo'), P.E('wo')
        uo = {e: Ew[e] @ v for e, v in P.get('wo', t0).items()}
        P.put('uo', t0, uo)
        for f in ('ui', 'wi'):
            P.random(f, t0 + dt / 2, rng)
        ui = weakly_div_free(P, P.get('ui', t0 + dt / 2))
        P.put('ui', t0 + dt / 2, ui)
        Ei = P.E('ui')
        P.put('wi', t0 + dt / 2, {e: Ei[e] @ v for e, v in ui.items()})

        P.random('wo', t0, rng)                     # consistent weak vorticity: M w = E^T M u
        P.put('wo', t0, weak_codiff(P, 'wo', 'uo', uo, Ew))
        wo0, ui0, uo0 = P.get('wo', t0), ui, uo
        wi0 = P.get('wi', t0 + dt / 2)

        def fix(f):
            def go(l):
                if impl == 'msepy':
                    l.customize.set_local_dof_ij_of_unknown_k_to_value(i=0, j=0, k=2, value=0)
                else:
                    l.customize.set_local_dof(2, P.elements[0], 0, 0.)
            return go
        Hi0, Ho0 = P.dot('ui', ui, ui), P.dot('uo', uo, uo)
        hel0 = None
        for i in range(1, nk):
            t, th = t0 + i * dt, t0 + (i + .5) * dt
            if ctx.sub('flow', lambda: P.solve(1, fix(('uo', 'wo')), k=i)) is None:
                break
            if ctx.sub('flow', lambda: P.solve(0, fix(('ui', 'wi')), k=i)) is None:
                break
            ctx.case(tag, i)
            ctx.event('flow')
            uo1, wo1, ui1, wi1 = P.get('uo', t), P.get('wo', t), P.get('ui', th), P.get('wi', th)
            sc = max(amax(ui0), amax(uo0))
            for e in uo1:
                ctx.close(Eo[e] @ uo1[e], 0., 'flow|div u', 1e-8, f'{tag} step {i}', scale=sc)
                ctx.close(wi1[e], Ei[e] @ ui1[e], 'flow|vorticity', 1e-8, f'{tag} step {i}', scale=amax(wi1) + sc)
            Ho, Hi = P.dot('uo', uo1, uo1), P.dot('ui', ui1, ui1)
            wom, wim = add(.5, wo0, .5, wo1), add(.5, wi0, .5, wi1)
            ctx.close((Ho - Ho0) / 2, -dt * Rn * P.dot('wo', wom, wom), 'flow|energy outer', 1e-8, f'{tag} step {i}', scale=Ho0)
            ctx.close((Hi - Hi0) / 2, -dt * Rn * P.dot('wi', wim, wim), 'flow|energy inner', 1e-8, f'{tag} step {i}', scale=Hi0)
            ctx.close(amax(weak_residual(P, 'wo', 'uo', uo1, wo1, Ew)), 0., 'flow|weak vorticity', 1e-8, f'{tag} step {i}', scale=wscale(P, 'wo', wo1))
            if n == 2:
                ctx.close(P.total('wi', wi1).sum(), 0., 'flow|total vorticity', 1e-8, f'{tag} step {i}', scale=amax(wi1) * 10)
            uo0, wo0, ui0, wi0, Ho0, Hi0 = uo1, wo1, ui1, wi1, Ho, Hi


def assemble(P, f, M):
    """dense global matrix of local ones, and the numbering"""
    g, N = P.gm(f), P.ndofs(f)
    A = np.zeros((N, N))
    for e, m in M.items():
        A[np.ix_(g[e], g[e])] += m
    return A, g


def weak_codiff(P, fw, fu, u, E):
    """w with (w, v) = (u, d v) for all v"""
    Mu = P.mass(fu)
    A, g = assemble(P, fw, P.mass(fw))
    b = np.zeros(len(A))
    for e in u:
        np.add.at(b, g[e], E[e].T @ (Mu[e] @ u[e]))
    x = np.linalg.solve(A, b)
    return {e: x[g[e]] for e in u}


def weak_residual(P, fw, fu, u, w, E):
    Mu, Mw = P.mass(fu), P.mass(fw)
    g = P.gm(fw)
    b = np.zeros(P.ndofs(fw))
    for e in u:
        np.add.at(b, g[e], E[e].T @ (Mu[e] @ u[e]) - Mw[e] @ w[e])
    return {0: b}


def wscale(P, f, w):
    return amax(w) * max(float(np.abs(m).max()) for m in P.mass(f).values()) + 1e-9


def weakly_div_free(P, u):
    """u + grad q with (u + grad q, grad v) = 0 for all v"""
    E, M = P.E('Pi'), P.mass('ui')
    A, g = assemble(P, 'Pi', {e: E[e].T @ M[e] @ E[e] for e in u})
    b = np.zeros(len(A))
    for e in u:
        np.add.at(b, g[e], E[e].T @ (M[e] @ u[e]))
    x = np.linalg.lstsq(A, b, rcond=1e-12)[0]
    return {e: u[e] - E[e] @ x[g[e]] for e in u}


# ------------------------------------------------------------------ orders of convergence
def trig(rng, n, bounds, periodic, kmax=1):
    """product field with its gradient and Laplacian: callables of (t, x...)"""
    L = [b[1] - b[0] for b in bounds]
    w = [2 * np.pi * int(rng.integers(1, kmax + 1)) / l if periodic else float(rng.uniform(1.5, 3.)) / l for l in L]
    ph_ = rng.uniform(0, 6, n)
    tw = float(rng.uniform(.2, 1.5))

    def val(der, t, *x):
        v = np.cos(tw * t)
        for a in range(n):
            z = w[a] * x[a] + ph_[a]
            v = v * [np.sin(z), w[a] * np.cos(z), -w[a] ** 2 * np.sin(z)][der[a]]
        return v
    unit = lambda a, m: tuple(m if b == a else 0 for b in range(n))
    f = lambda t, *x: val((0,) * n, t, *x)
    g = [lambda t, *x, a=a: val(unit(a, 1), t, *x) for a in range(n)]
    lap = lambda t, *x: sum(val(unit(a, 2), t, *x) for a in range(n))
    return f, g, lap


def mixed(impl, n, o, periodic, p, K, c, bnd, sel, fields, t, cochains=False):
    """one manufactured mixed Poisson problem: (errors of phi and u, interpolation errors, pointwise residual of the constraint)"""
    ls, mp = ph.samples.wf_div_grad(n=n, degree=p, orientation=o, periodic=periodic)
    fem, obj = ph.fem.apply(impl, dict(ls=ls))
    B = fem.base
    base = r'\mathcal{M}'
    mesh = [m for m in B['meshes'].values() if m.abstract.manifold._sym_repr == base][0]
    tgm = None
    if impl == 'msepy':
        M = B['manifolds'][base]
        fem.config(M)('crazy', c=c, bounds=bnd, periodic=periodic)
        if not periodic:
            fem.config(B['manifolds'][r'\Gamma_u'])(M, {r: sel for r in M.regions})
        fem.config(mesh)(K)
    else:
        tgm = B['the_great_mesh']
        fem.config('tgm')('crazy', element_layout=K, c=c, bounds=bnd, periodic=periodic)
        fem.config(mesh)(tgm, 'all')
        ax = [[s if i == a else 0 for i in range(n)] for a in range(n) for s in (-1, 1)]
        pm = {}
        for m in B['meshes'].values():
            s = m.abstract.manifold._sym_repr
            if s in (r'\Gamma_u', r'\Gamma_\phi'):
                fem.config(m)(tgm, {'type': 'boundary_section', 'partial elements': mesh, 'ounv': [v for v, w in zip(ax, sel) if w == (s == r'\Gamma_u')]})
                pm[s] = m
    phi, u, f = (B['forms'][x] for x in ('potential', 'velocity', 'source'))
    F, g, lap = fields
    sc = ph.vc.scalar(S.pyfun(F, n))
    vu = ph.vc.vector(*[S.pyfun(v, n) for v in g]) if n > 1 else ph.vc.scalar(S.pyfun(g[0], 1))
    phi.cf, u.cf, f.cf = sc, vu, ph.vc.scalar(S.pyfun(lambda t_, *x: -lap(t_, *x), n))
    L = obj['ls'].apply()
    if not periodic:
        vb = vu
        if impl == 'msepy':
            L.bc.config(B['manifolds'][r'\Gamma_u'])(vb)
            L.bc.config(B['manifolds'][r'\Gamma_\phi'])(sc)
        else:
            eu = o == 'outer'
            L.config(('essential bc' if eu else 'natural bc', 1), pm[r'\Gamma_u'], vb, root_form=u)
            L.config(('natural bc' if eu else 'essential bc', 1), pm[r'\Gamma_\phi'], sc, root_form=phi)
    err = lambda F_: F_.error(t) if impl == 'msepy' else F_[t].error()
    phi[t].reduce()
    u[t].reduce()
    best = err(phi), err(u)
    f[t].reduce()
    sls = L(t)
    if periodic:                                # the potential is fixed at one degree of freedom
        v = float(phi.cochain[t].local[0, 0]) if impl == 'msepy' else float(phi[t].cochain[sorted(tgm.elements)[0]][0])
        if impl == 'msepy':
            sls.customize.set_local_dof_ij_of_unknown_k_to_value(i=0, j=0, k=1, value=v)
        else:
            sls.customize.set_local_dof(1, sorted(tgm.elements)[0], 0, v)
    als = sls.assemble()
    x = als.solve('spsolve') if impl == 'msehtt' else als.solve()
    sls.x.update(x[0])
    if cochains:
        get = lambda F_: {e: np.array(v) for e, v in (enumerate(F_.cochain[t].local) if impl == 'msepy' else ((e, F_[t].cochain[e]) for e in sorted(tgm.elements)))}
        d = S.Disc(impl, n)
        d.ms, d.obj, d.p, d.tgm = fem, dict(mesh=mesh), p, tgm
        return (err(phi), err(u)), best, dict(phi=get(phi), u=get(u)), d
    return (err(phi), err(u)), best


def order(ctx, impl, n, o, periodic, rounds):
    rng = ctx.rng
    for r in range(rounds):
        p = int(rng.integers(1, 4 if n < 3 else 3))
        c = float(rng.choice([0., .1])) if n > 1 and not (impl == 'msehtt' and n == 3) else 0.
        bnd = BND[n][int(rng.integers(2))]
        K0 = {1: 6, 2: {1: 6, 2: 4, 3: 3}.get(p), 3: 3 if p == 1 else 2}[n]
        if n == 3 and impl == 'msehtt' and periodic:
            K0 = 3
        fields = trig(rng, n, bnd, periodic)
        t = float(rng.uniform(0, 1))
        while True:
            sel = [int(v) for v in rng.integers(2, size=2 * n)]
            if not all(sel) and (o == 'outer' or True):
                break
        ctx.event('order')
        tag = f'{impl} {n} {o} periodic={periodic} p={p} c={c} {bnd} sections={sel}'
        out = []
        for K in (K0, 2 * K0):
            ctx.case(tag, K)
            out.append(ctx.sub('order', lambda: mixed(impl, n, o, periodic, p, [K] * n, c, bnd, sel, fields, t)))
        if None in out:
            continue
        (e0, b0), (e1, b1) = out
        for i, nm in enumerate(('phi', 'u')):
            want = min(p, np.log2(b0[i] / b1[i])) - .4
            got = np.log2(e0[i] / e1[i])
            ctx.true(got >= want, f'order|{nm} rate', f'{tag}: errors {e0[i]:.3e} -> {e1[i]:.3e}, order {got:.2f}; interpolation {b0[i]:.3e} -> {b1[i]:.3e}')
        for e, b, K in ((e0, b0, K0), (e1, b1, 2 * K0)):
            ctx.true(sum(e) <= 4 * sum(b), 'order|best approximation', f'{tag} K={K}: errors {e} interpolation {b}')


def time_order(ctx, impl, n, rounds):
    """a standing wave and a decaying mode: the error in time is of second order"""
    rng = ctx.rng
    for r in range(rounds):
        kind = ['wave', 'heat'][int(rng.integers(2))]
        o = ['outer', 'inner'][int(rng.integers(2))]
        bnd = BND[n][int(rng.integers(2))]
        L = [b[1] - b[0] for b in bnd]
        w = [2 * np.pi / l for l in L]
        lam = sum(v * v for v in w)
        sh = rng.uniform(0, 6, n)
        om = float(np.sqrt(lam))
        kap = 1. / lam
        p, K = {1: (6, 6), 2: (5, 4)}[n]
        if impl == 'msehtt':
            K = 4
        t0 = float(rng.uniform(0, 1))
        T = float(rng.uniform(.8, 1.2)) / (om if kind == 'wave' else 1.)
        # a scalar n-form, u the (n-1)-form with d u = -lam a on the modes; outer: grad, inner (n <= 2): its rotation
        A = lambda *x: np.prod([np.sin(w[i] * x[i] + sh[i]) for i in range(n)], axis=0)
        dA = lambda a, *x: w[a] * np.cos(w[a] * x[a] + sh[a]) * np.prod([np.sin(w[i] * x[i] + sh[i]) for i in range(n) if i != a] or [1. + 0 * x[0]], axis=0)
        ta, tb = (lambda t: np.cos(om * (t - t0)), lambda t: np.sin(om * (t - t0))) if kind == 'wave' else (lambda t: np.exp(-(t - t0)), None)
        ctx.event('time order')
        tag = f'{kind} {impl} {n} {o} {bnd}'
        errs = []
        for nk in (4, 8, 16):
            keep = {}

            def build(mesh):
                sa, su = ph.space.new('Lambda', n, orientation=o), ph.space.new('Lambda', n - 1, orientation=o)
                a, u = sa.make_form('a', 'c14a'), su.make_form('u', 'c14u')
                da, du, d, cd = a.time_derivative(), u.time_derivative(), u.exterior_derivative(), a.codifferential()
                K_ = ph.constant_scalar(kap)
                kd = K_ * d
                if kind == 'wave':
                    pde = ph.pde(['da = - d', 'du = cd'], dict(da=da, d=d, du=du, cd=cd))
                else:
                    pde = ph.pde(['da = - kd', 'u = cd'], dict(da=da, kd=kd, u=u, cd=cd))
                pde.unknowns = [a, u]
                wf = pde.test_with([sa, su], sym_repr=['v', 'w']).derive.integration_by_parts('1-1')
                ts = ph.time_sequence()
                td = wf.td
                td.set_time_sequence(ts)
                td.define_abstract_time_instants('k-1', 'k')
                td.differentiate('0-0', 'k-1', 'k')
                if kind == 'wave':
                    td.differentiate('1-0', 'k-1', 'k')
                else:
                    td.average('1-0', u, ['k-1', 'k'])
                td.average('0-1', u, ['k-1', 'k'])
                td.average('1-1', a, ['k-1', 'k'])
                wf = td()
                wf.unknowns = [a @ ts['k'], u @ ts['k']]
                dt = ts.make_time_interval('k-1', 'k')
                wf = wf.derive.split('0-0', 'f0', [a @ ts['k'], a @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
                h = ph.constant_scalar(kap / 2) if kind == 'heat' else 1 / 2
                wf = wf.derive.split('0-2', 'f0', [(u @ ts['k-1']).exterior_derivative(), (u @ ts['k']).exterior_derivative()], ['+', '+'], factors=[h, h])
                f = 1 / dt if kind == 'wave' else 1 / 2
                wf = wf.derive.split('1-0', 'f0', [u @ ts['k'], u @ ts['k-1']], ['+', '-' if kind == 'wave' else '+'], factors=[f, f])
                wf = wf.derive.split('1-2', 'f0', [a @ ts['k'], a @ ts['k-1']], ['+', '+'], factors=[1 / 2, 1 / 2])
                wf = wf.derive.rearrange({0: '0, 3 = 1, 2', 1: '2, 0 = 3, 1'})
                keep['ts'] = ts
                return dict(forms=dict(a=a, u=u), wf=[wf])

            def go():
                P = Sim(impl, n, [K] * n, 0., bnd, True, p, build)
                keep['ts'].specify('constant', [t0, t0 + T, nk], 1)
                a, u = P.F['a'], P.F['u']
                # wave: da = -d u, du = d*a = -grad a; heat: u = d*a = -grad a, da = -kap div u
                sg = (lambda t: -tb(t) / om) if kind == 'wave' else (lambda t: -ta(t))
                a.cf = ph.vc.scalar(S.pyfun(lambda t, *x: ta(t) * A(*x), n))
                if n == 1:
                    u.cf = ph.vc.scalar(S.pyfun(lambda t, *x: sg(t) * dA(0, *x), n))
                elif o == 'outer':
                    u.cf = ph.vc.vector(*[S.pyfun(lambda t, *x, i=i: sg(t) * dA(i, *x), n) for i in range(n)])
                else:                           # d = rot, d* of an inner 2-form = (a_y, -a_x)
                    u.cf = ph.vc.vector(S.pyfun(lambda t, *x: -sg(t) * dA(1, *x), n), S.pyfun(lambda t, *x: sg(t) * dA(0, *x), n))
                a[t0].reduce()
                u[t0].reduce()
                err = lambda F, t: F.error(t) if impl == 'msepy' else F[t].error()
                space = err(a, t0) + err(u, t0)
                for k in range(1, nk + 1):
                    P.solve(0, k=k)
                return err(a, t0 + T), err(u, t0 + T), space
            ctx.case(tag, nk)
            errs.append(ctx.sub('time order', go))
        if None in errs:
            continue
        txt = f'{tag}: errors {[e[:2] for e in errs]} interpolation {errs[0][2]:.2e}'
        for i in (0, 1):
            for a_, b_ in zip(errs, errs[1:]):
                if b_[i] > 20 * b_[2]:              # resolved in space
                    ctx.true(1.8 <= np.log2(a_[i] / b_[i]) <= 2.4, 'time order|rate', txt)
        ctx.true(errs[-1][0] + errs[-1][1] < .1 * (errs[0][0] + errs[0][1]) and errs[0][0] < .1, 'time order|level', txt)


def UNITS(tier):
    q = tier == 'quick'
    U = []
    for impl, n in (('msepy', 1), ('msepy', 2), ('msepy', 3), ('msehtt', 2), ('msehtt', 3)):
        R = (10 if n < 3 else 4) if q else (40 if n < 3 else 12)
        U.append((f'wave:{impl}:{n}', wave, dict(impl=impl, n=n, rounds=R, nk=4 if q else 8)))
        U.append((f'heat:{impl}:{n}', heat, dict(impl=impl, n=n, rounds=R, nk=3 if q else 6)))
        if n > 1:
            U.append((f'flow:{impl}:{n}', flow, dict(impl=impl, n=n, rounds=(6 if n == 2 else 2) if q else (25 if n == 2 else 4), nk=5 if q else 10)))
    for impl, n in (('msepy', 1), ('msepy', 2), ('msepy', 3), ('msehtt', 2), ('msehtt', 3)):
        for o, per in (('outer', False), ('inner', False), ('outer', True))[2 * (n == 1 or (impl, n) == ('msepy', 3)):]:      # no boundary data there
            U.append((f'order:{impl}:{n}:{o}:{per}', order, dict(impl=impl, n=n, o=o, periodic=per, rounds=(6 if n < 3 else 2) if q else (25 if n < 3 else 6))))
    for impl, n in (('msepy', 1), ('msepy', 2), ('msehtt', 2)):
        U.append((f'time:{impl}:{n}', time_order, dict(impl=impl, n=n, rounds=3 if q else 15)))
    return U
