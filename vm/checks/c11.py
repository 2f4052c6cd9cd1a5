"""C11: boundary integration against our own quadrature, natural/essential conditions in systems, integration by parts, fluxes."""
import numpy as np
from vm import geo as G
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (mesh, degree, form, boundary sections, condition kind, time)',
    assumptions=['own boundary faces, outward normals and surface elements from the element mappings (differences)',
                 'boundary data of low polynomial degree on affine meshes, where every rule the code may use is exact; on curved '
                 'meshes the tolerance is the spread between the Gauss and Lobatto rules of p+2 points and a fine one'],
    note='Boundary vectors against own quadrature; systems with and without conditions compared row by row; manufactured solutions '
         'inside the discrete space must be reproduced; fluxes against the divergence theorem.',
    must_observe=['bi', 'sections', 'essential', 'natural', 'ibp', 'flux'])

B2 = [[0., 1.], [0., 1.2]]
B3 = [[0., 1.], [0., 1.5], [-.5, .5]]
# name: (impl, n, mesh, affine)
MESH = dict(
    py2o=('msepy', 2, ('crazy', dict(c=0., bounds=B2), [2, 3]), True),
    py2u=('msepy', 2, ('crazy', dict(c=0., bounds=B2), [[1, 2, 1.5], [2, 1]]), True),
    py2=('msepy', 2, ('crazy', dict(c=.05, bounds=B2), [3, 3]), False),
    py21=('msepy', 2, ('crazy', dict(c=0., bounds=B2), [1, 1]), True),
    py2m=('msepy', 2, ('crazy_multi', dict(c=0., bounds=B2, Ns=[2, 2]), [1, 2]), True),
    py2b=('msepy', 2, ('backward_step', {}, 1), True),
    py2c=('msepy', 2, ('cylinder_channel', {}, 1), False),
    py3=('msepy', 3, ('crazy', dict(c=0., bounds=B3), [2, 1, 2]), True),
    py3c=('msepy', 3, ('crazy', dict(c=.03, bounds=B3), [2, 2, 1]), False),
    ht2o=('msehtt', 2, (('crazy',), dict(element_layout=[2, 3], c=0., bounds=B2, periodic=False)), True),
    ht2u=('msehtt', 2, (('crazy',), dict(element_layout=[[1, 2, 1.5], [2, 1]], c=0., bounds=B2, periodic=False)), True),
    ht2=('msehtt', 2, (('crazy',), dict(element_layout=3, c=.05, bounds=B2, periodic=False)), False),
    ht21=('msehtt', 2, (('crazy',), dict(element_layout=1, c=0., bounds=B2, periodic=False)), True),
    ht2r=('msehtt', 2, (('rectangle',), dict(element_layout=[2, 2])), True),
    ht2b=('msehtt', 2, (('backward_step',), dict(element_layout=1)), True),
    rq=('msehtt', 2, ('quads', 3, 2), False),
    ht2t=('msehtt', 2, (('crazy',), dict(element_layout=2, c=0., bounds=B2, periodic=False, ts=1)), False),
    ht3=('msehtt', 3, (('crazy',), dict(element_layout=[2, 1, 2], c=0., bounds=B3, periodic=False)), True),
    ht31=('msehtt', 3, (('crazy',), dict(element_layout=1, c=0., bounds=B3, periodic=False)), True),
)


def mesh_of(rng, name):
    impl, n, m, affine = MESH[name]
    if m[0] == 'quads':
        from vm import configs as C
        m = ((C.random_indicator(rng, m[1], m[2], rotate=bool(rng.integers(2))),), {})
    return impl, n, m, affine


class Prob:
    """A weak formulation on a mesh with boundary sections a, b (and maybe c)."""

    def __init__(self, rng, name, p, build, secs=('a', 'b')):
        self.rng, self.name, self.p = rng, name, p
        self.impl, n, m, self.affine = mesh_of(rng, name)
        self.n = n
        ph.config.set_embedding_space_dim(n)
        manifold = ph.manifold(n, periodic=False)
        mesh = ph.mesh(manifold)
        self.G = {s: rf'\Gamma_{s}' for s in secs}
        o = dict(manifold=manifold, mesh=mesh)
        self.A = build(self, mesh)                # abstract: dict with 'pde' and forms
        bm = mesh.boundary()
        ls = self.A.get('ls')
        if ls is not None:
            o['ls'] = ls
        self.ms, self.obj = ph.fem.apply(self.impl, o)
        B = self.B = self.ms.base
        self.ph_forms = {k: B['forms'][v._pure_lin_repr] for k, v in self.A['forms'].items()}
        d = self.d = S.Disc(self.impl, n)
        d.ms, d.obj, d.p = self.ms, self.obj, p
        d.tgm = None
        d.F = {}
        self.sec = {}
        if self.impl == 'msepy':
            dom, kw, K = m
            M = self.obj['manifold']
            self.ms.config(M)(dom, **kw)
            self.flags = self.gamma(M)
            for s in list(self.G)[:-1]:
                self.ms.config(B['manifolds'][self.G[s]])(M, self.flags[s])
            self.ms.config(self.obj['mesh'])(K)
            for mm in B['meshes'].values():
                for s, r in self.G.items():
                    if mm.manifold is B['manifolds'][r]:
                        self.sec[s] = mm
        else:
            d.tgm = B['the_great_mesh']
            self.ms.config('tgm')(*m[0], **m[1])
            self.ms.config(self.obj['mesh'])(d.tgm, 'all')
            self.cut()
            for mm in B['meshes'].values():
                for s, r in self.G.items():
                    if mm.abstract.manifold._sym_repr == r:
                        self.ms.config(mm)(d.tgm, self.inc[s])
                        self.sec[s] = mm
        self.boundary = G.pair_faces(d)[1]
        self.tri = {e: G.is_tri(d, e) for e in d.elements}
        if ls is not None:
            self.ls = self.obj['ls'].apply()

    def gamma(self, M):
        """random region faces for every section but the last; a section may be empty"""
        out = {}
        n, rng = self.n, self.rng
        left = {r: [1] * (2 * n) for r in M.regions}
        mp = M.regions.map
        for r in left:
            left[r] = [1 if mp[r][i] is None else 0 for i in range(2 * n)]
        for s in list(self.G)[:-1]:
            sel = {}
            for r in left:
                row = [int(v and rng.random() < .5) for v in left[r]]
                left[r] = [v - w for v, w in zip(left[r], row)]
                if any(row):
                    sel[r] = row
            out[s] = sel
        return out

    def cut(self):
        """random sections of a msehtt mesh through its public selection rules"""
        rng, n = self.rng, self.n
        M = self.obj['mesh']
        base = {'type': 'boundary_section', 'partial elements': M}
        names = list(self.G)
        self.inc = {}
        ax = [[s if i == a else 0 for i in range(n)] for a in range(n) for s in (-1, 1)]
        grp = rng.integers(len(names), size=len(ax))
        if self.name in ('rq', 'ht2t', 'ht2', 'ht2o', 'ht2u'):
            (x0, x1), (y0, y1) = B2 if self.name != 'rq' else [[0., 1.], [0., 1.]]
            seg = [[(x0, y0), (x0, y1)], [(x1, y0), (x1, y1)], [(x0, y0), (x1, y0)], [(x0, y1), (x1, y1)]]
            kind = ['on straight segments', 'on straight lines'][int(rng.integers(2))]
            for i, s in enumerate(names):
                self.inc[s] = dict(base, **{kind: [q for q, g in zip(seg, grp) if g == i]})
        else:
            for i, s in enumerate(names):
                self.inc[s] = dict(base, ounv=[a for a, g in zip(ax, grp) if g == i])

    def faces(self, s):
        """[(element, axis, side)] of a section"""
        if self.impl == 'msepy':
            f = self.sec[s].faces
            return [(int(q._element), int(q._m), 2. * int(q._n) - 1) for q in (f[i] for i in f)]
        c = self.sec[s].composition
        out = []
        for e, i in c:
            if self.tri[e]:
                out.append((e,) + {0: (1, -1.), 1: (0, 1.), 2: (1, 1.)}[i])
            else:
                out.append((e, i // 2, 2. * (i % 2) - 1))
        return out

    def at(self, f, x, w):
        """coordinates, outward normal times surface element times weights, reference grid of a face"""
        e, a, s = f
        d, n = self.d, self.n
        grid = [x] * n
        grid[a] = np.array([s])
        XI = [q.ravel('F') for q in np.meshgrid(*grid, indexing='ij')]
        W = [w] * n
        W[a] = np.ones(1)
        ww = np.prod([q.ravel('F') for q in np.meshgrid(*W, indexing='ij')], axis=0)
        J = np.moveaxis(d.njac(e, *XI), (0, 1), (-2, -1))
        N = s * np.abs(np.linalg.det(J))[:, None] * np.linalg.inv(J)[:, a, :]
        return d.mapping(e, *XI), N.T * ww, grid

    def bvec(self, key, faces, fn, rule):
        """boundary integral of the test functions of a form against the data: {element: vector}, and a scale"""
        k, o = key
        n = self.n
        nodes = G.nodes_of(self.p, n)
        x, w = rule
        out, sc = {}, {}
        for f in faces:
            e = f[0]
            X, N, grid = self.at(f, x, w)
            _, b, _ = G.phys_basis(self.d, e, nodes, key, self.tri[e], *grid)
            D = [np.asarray(c, float) + 0 * X[0] for c in fn(*X)]
            if k == 0 and n == 2 and o == 'outer':
                v = (D[0] * N[1] - D[1] * N[0]) * b[0]
            elif k == 0:
                v = sum(a * c for a, c in zip(D, N)) * b[0]
            elif k == n - 1 and not (n == 2 and o == 'inner'):
                v = D[0] * sum(b[i] * N[i] for i in range(n))
            elif n == 2:
                v = D[0] * (b[1] * N[0] - b[0] * N[1])
            else:
                T = [D[1] * N[2] - D[2] * N[1], D[2] * N[0] - D[0] * N[2], D[0] * N[1] - D[1] * N[0]]
                v = sum(b[i] * T[i] for i in range(3))
            out[e] = out.get(e, 0) + v.sum(-1)
            sc[e] = sc.get(e, 0) + np.abs(v).sum(-1).max()
        return out, max(sc.values(), default=1.)


def rules(p):
    q = max(p) if isinstance(p, tuple) else p
    x = G.gll(q + 1)
    c = np.zeros(q + 2)
    c[-1] = 1
    from numpy.polynomial import legendre as L
    return L.leggauss(16), [L.leggauss(q + 2), (x, 2. / ((q + 1) * (q + 2) * L.legval(x, c) ** 2))]


def poly(ex, co):
    def f(t_, *x):
        return sum((c[0] + c[1] * t_) * np.prod([xx ** e for xx, e in zip(x, E)], axis=0) for E, c in zip(ex, co)) + 0 * x[0]
    f.ex, f.co = ex, co
    return f


def dpoly(f, a):
    return poly([tuple(max(v - (i == a), 0) for i, v in enumerate(E)) for E in f.ex], np.array([c * E[a] for E, c in zip(f.ex, f.co)]))


def data(rng, n, comps, deg, t=True):
    """random polynomial fields (t, x...) of total degree deg per component"""
    out = []
    for _ in range(comps):
        ex = [e for e in np.ndindex(*(deg + 1,) * n) if sum(e) <= deg]
        co = rng.uniform(-1, 1, (len(ex), 2))

        out.append(poly(ex, co))
    return out


def vcof(fs, n):
    fs = [S.pyfun(f, n) for f in fs]
    return ph.vc.scalar(fs[0]) if len(fs) == 1 else ph.vc.vector(*fs)


# ------------------------------------------------------------------ boundary vectors
def bi(ctx, mesh, p, rounds):
    rng = ctx.rng
    impl, n = MESH[mesh][:2]
    if n == 2:
        keys = [(0, 'outer'), (0, 'inner'), (1, 'outer'), (1, 'inner')]
    else:
        keys = [(k, o) for k in (0, 1, 2) for o in ('outer', 'inner')]
    for r in range(rounds):
        def build(P, m):
            m.boundary_partition(*P.G.values())
            forms = {}
            for k, o in keys:
                s = ph.space.new('Lambda', k, orientation=o)
                forms[(k, o)] = s.make_form(rf'f_{k}^{o}', f'form{k}{o}')
            ph.space.finite(p)
            return dict(forms=forms)
        P = Prob(rng, mesh, p, build)
        d = P.d
        d.F = P.ph_forms
        ctx.case(mesh, p, r)
        fa, fb = P.faces('a'), P.faces('b')
        if mesh != 'py2c' or impl == 'msepy':
            ctx.eq(len(set(fa)) + len(set(fb)), len(fa) + len(fb), 'sections', 'repeated faces')
            ctx.eq(sorted(fa + fb), sorted(P.boundary), 'sections', f'{mesh} {r}: sections a, b partition the boundary')
        fine, low = rules(p)
        nodes = G.nodes_of(p, n)
        for key in keys:
            k, o = key
            f = d.F[key]
            nc = 1 if k == n - 1 else n
            fs = data(rng, n, nc, 2)
            t = float(rng.uniform(0, 2))
            vc = vcof(fs, n)
            fn = lambda *x: [g(t, *x) for g in fs]
            sg = G.signs(d, key, nodes, P.tri, rng) if G.has_reversal(d) and k == 1 else None
            for s, fc in (('a', fa), ('b', fb)):
                ctx.case(mesh, p, key, s, len(fc))
                ref, sc = P.bvec(key, fc, fn, fine)
                spread = 0.
                if not P.affine:
                    for lo in low:
                        v, _ = P.bvec(key, fc, fn, lo)
                        spread = max([spread] + [np.abs(v[e] - ref[e]).max() for e in v])
                if impl == 'msepy':
                    got = ctx.sub('bi', lambda: f.boundary_integrate.with_vc_over_boundary_section(t, vc, P.sec[s]))
                else:
                    got = ctx.sub('bi', lambda: f.bi.with_vc_over_boundary_section(t, vc, P.sec[s]))
                if got is None:
                    continue
                for e in d.elements:
                    z = np.zeros(len(d.gm(key)[e]))
                    g = np.asarray(got[e] if impl == 'msepy' else got.get(e, z))
                    w = ref.get(e, z)
                    if sg is not None:
                        w = w * sg[e]
                    ctx.close(g, w, f'bi|{impl} {key}', 1e-6, f'{mesh} p={p} section {s} element {e}',
                              scale=sc + 4e6 * spread if spread else max(sc, 1e-3))
                if k in (0, n - 1) and len(fc) == 0:
                    ctx.true(all(np.all(np.asarray(v) == 0) for v in (got if impl == 'msepy' else got.values())), 'bi|empty', s)


# ------------------------------------------------------------------ essential conditions
def project_pde(key, p, essential):
    def build(P, mesh):
        k, o = key
        sp = ph.space.new('Lambda', k, orientation=o)
        a, g = sp.make_form('a', 'aa'), sp.make_form('g', 'gg')
        pde = ph.pde(['a = g'], dict(a=a, g=g))
        pde.unknowns = [a]
        pde.bc.partition(*P.G.values())
        from phyem.src.form.operators import trace
        if essential:
            pde.bc.define_bc({P.G[s]: trace(a) for s in essential})
        wf = pde.test_with([sp], sym_repr=['b'])
        wf = wf.derive.rearrange({0: '0 = 1'})
        ph.space.finite(p)
        return dict(forms=dict(a=a, g=g), ls=wf.mp().ls())
    return build


def dense(P, t, gmkeys=None):
    l = P.ls(t)
    als = l.assemble()
    return l, np.asarray(als.A._M.toarray()), vec(als.b, P.impl), als


def vec(b, impl):
    for a in ('_v', '_gv', '_V', 'V'):
        if hasattr(b, a):
            v = getattr(b, a)
            return np.array(v.toarray() if hasattr(v, 'toarray') else v, dtype=float).ravel()
    raise Exception(dir(b))


def section_dofs(P, F, key, s):
    """{global dof: (element, local dof)} on the faces of a section, from the documented local numbering"""
    n = P.n
    nodes = G.nodes_of(P.p, n)
    gm = F.cochain.gathering_matrix
    out = {}
    for e, a, sd in P.faces(s):
        for i, (lo, hi, along) in enumerate(G.dof_cells(nodes, key[0], key[1], n, P.tri[e])):
            if lo[a] == hi[a] == sd and a not in along:
                out[int(gm[e][i])] = (e, i)
            elif P.tri[e] and lo[0] == hi[0] == -1 and a == 1 and not along:
                out[int(gm[e][i])] = (e, i)                     # the collapsed vertex
    return out


def essential(ctx, mesh, p, key, rounds):
    rng = ctx.rng
    impl, n = MESH[mesh][:2]
    k, o = key
    nc = 1 if k == 0 else n
    for r in range(rounds):
        secs = ('a', 'b', 'c') if r % 2 else ('a', 'b')
        ess = [s for s in secs if rng.random() < .7] or ['a']
        seed = int(rng.integers(1 << 30))
        P = Prob(np.random.default_rng(seed), mesh, p, project_pde(key, p, ess), secs)
        d = P.d
        a, g = P.ph_forms['a'], P.ph_forms['g']
        gf = data(rng, n, nc, 3)
        g.cf = vcof(gf, n)
        bd = {s: data(rng, n, nc, 3) for s in ess}
        nodes = G.nodes_of(p, n)
        for s in ess:
            v = vcof(bd[s], n)
            if impl == 'msepy':
                P.ls.bc.config(P.B['manifolds'][P.G[s]], **(dict(form=a) if rng.random() < .5 else {}))(v)
            else:
                P.ls.config(('essential bc', 1), P.sec[s], v, root_form=a)
        M0 = {e: (a.matrix.mass if impl == 'msepy' else P.ms.array('mass matrix', a)[0])[e].toarray() for e in d.elements}
        gm = a.cochain.gathering_matrix
        GM = {e: np.array(gm[e]) for e in d.elements}
        N = 1 + max(int(v.max()) for v in GM.values())
        A0 = np.zeros((N, N))
        for e in d.elements:
            A0[np.ix_(GM[e], GM[e])] += M0[e]
        for t in list(rng.uniform(0, 3, 3)) + [0.]:
            t = float(t)
            ctx.case(mesh, p, key, secs, ess, round(t, 3))
            g[t].reduce()
            gv = {e: np.array((g[t].cochain.local[e] if impl == 'msepy' else g[t].cochain[e])) for e in d.elements}
            b0 = np.zeros(N)
            for e in d.elements:
                b0[GM[e]] += M0[e] @ gv[e]
            got = ctx.sub('essential', lambda: dense(P, t))
            if got is None:
                break
            l, A, b, als = got
            want_A, want_b, D, conflict = A0.copy(), b0.copy(), {}, set()
            for s in ess:
                # reduced boundary values, by the form's own reduction (judged in C02)
                a.cf = vcof(bd[s], n)
                if impl == 'msepy':
                    red = a.reduce(t, update_cochain=False, target=vcof(bd[s], n))
                else:
                    red = a.reduce(a.cf[t])
                for dof, (e, i) in section_dofs(P, a, key, s).items():
                    if dof in D:
                        conflict.add(dof)
                    D.setdefault(dof, []).append(red[e][i])
            for dof in D:
                want_A[dof] = 0
                want_A[dof, dof] = 1
                want_b[dof] = D[dof][-1]
            cl = sorted(conflict)
            keep = np.setdiff1d(np.arange(N), cl)
            sc = max(1., np.abs(A0).max())
            ctx.close(A, want_A, f'essential|{impl} matrix', 1e-8, f'{mesh} {key} {ess}', scale=sc)
            ctx.close(b[keep], want_b[keep], f'essential|{impl} rhs', 1e-8, f'{mesh} {key} {ess} t={t}')
            for dof in cl:                      # sections that share a dof: one of the values given for it
                ctx.true(min(abs(b[dof] - v) for v in D[dof]) < 1e-8, f'essential|{impl} rhs', f'shared dof {dof}')
            x = np.linalg.solve(want_A, b)
            sol = als.solve('spsolve') if impl == 'msehtt' else als.solve()
            ctx.close(np.asarray(sol[0], float).ravel(), x, f'essential|{impl} solution', 1e-6, mesh, scale=max(1, np.abs(x).max()))
            l.x.update(sol[0])
            c = a[t].cochain
            for e in d.elements:
                ctx.close(np.array(c.local[e] if impl == 'msepy' else c[e]), x[GM[e]], f'essential|{impl} cochain', 1e-6,
                          mesh, scale=max(1, np.abs(x).max()))
            del l, als, got


# ------------------------------------------------------------------ natural conditions, integration by parts
def ds_pde(key, p, natural):
    """u = d* w with natural data of w on the sections; u in (k, o), w in (k + 1, o)"""
    def build(P, mesh):
        from phyem.src.form.operators import trace, Hodge
        k, o = key
        s1, s2 = ph.space.new('Lambda', k, orientation=o), ph.space.new('Lambda', k + 1, orientation=o)
        u, w, z = s1.make_form('u', 'uu'), s2.make_form('w', 'ww'), s2.make_form('z', 'zz')
        ds_w = w.codifferential()
        pde = ph.pde(['u = ds_w', 'z = w'], dict(u=u, w=w, z=z, ds_w=ds_w))
        pde.unknowns = [u, z]
        pde.bc.partition(*P.G.values())
        pde.bc.define_bc({P.G[s]: trace(Hodge(w)) for s in natural})
        wf = pde.test_with([s1, s2], sym_repr=['v', 'q'])
        wf = wf.derive.integration_by_parts('0-1')
        wf = wf.derive.rearrange({0: '0 = 1, 2', 1: '0 = 1'})
        ph.space.finite(p)
        return dict(forms=dict(u=u, w=w, z=z), ls=wf.mp().ls())
    return build


def natural(ctx, mesh, p, key, rounds):
    rng = ctx.rng
    impl, n = MESH[mesh][:2]
    k, o = key
    for r in range(rounds):
        multi = impl == 'msehtt' and r % 2 == 0
        secs = ('a', 'b', 'c') if multi else ('a', 'b')
        nat = [s for s in secs if rng.random() < .7] or ['a'] if multi else ['a']
        P = Prob(rng, mesh, p, ds_pde(key, p, nat), secs)
        d = P.d
        u, w = P.ph_forms['u'], P.ph_forms['w']
        q = min(p) if isinstance(p, tuple) else p
        wc = n if 0 < k + 1 < n else 1
        wf = data(rng, n, wc, q - 1)             # inside every component of the space
        w.cf = vcof(wf, n)
        same = rng.random() < .5
        bd = {s: wf if same else data(rng, n, wc, 2) for s in nat}
        for s in nat:
            if impl == 'msepy':
                P.ls.bc.config(P.B['manifolds'][P.G[s]])(vcof(bd[s], n))
            else:
                P.ls.config(('natural bc', 1), P.sec[s], vcof(bd[s], n), root_form=w)
        fine, low = rules(p)
        gm = {e: np.array(u.cochain.gathering_matrix[e]) for e in d.elements}
        gz = {e: np.array(w.cochain.gathering_matrix[e]) for e in d.elements}
        N, Z = (1 + max(int(v.max()) for v in g_.values()) for g_ in (gm, gz))
        nodes = G.nodes_of(p, n)
        d.F = {key: u, (k + 1, o): w}
        sg = G.signs(d, key, nodes, P.tri, rng) if G.has_reversal(d) and k == 1 else None
        w.cf = vcof(wf, n)
        mass = lambda f: {e: (f.matrix.mass if impl == 'msepy' else P.ms.array('mass matrix', f)[0])[e].toarray() for e in d.elements}
        Mu, Mw = mass(u), mass(w)
        E = d.E(key)
        for t in [0.] + list(rng.uniform(0, 3, 2)):
            t = float(t)
            ctx.case(mesh, p, key, secs, nat, same, round(t, 3))
            w[t].reduce()
            wv = d.get((k + 1, o), t)
            b0, bz = np.zeros(N), np.zeros(Z)
            spread = 0.
            for e in d.elements:
                b0[gm[e]] += E[e].T @ Mw[e] @ wv[e]
                bz[gz[e]] += Mw[e] @ wv[e]
            for s in nat:
                fn = lambda *x: [g_(t, *x) for g_ in bd[s]]
                v, sc = P.bvec(key, P.faces(s), fn, fine)
                for e in v:
                    b0[gm[e]] -= v[e] if sg is None else v[e] * sg[e]
                if not P.affine:
                    for lo in low:
                        v2, _ = P.bvec(key, P.faces(s), fn, lo)
                        spread = max([spread] + [np.abs(v2[e] - v[e]).max() for e in v])
            got = ctx.sub('natural', lambda: dense(P, t))
            if got is None:
                break
            l, A, b, als = got
            ctx.eq(A.shape, (N + Z, N + Z), 'natural|shape')
            want = np.concatenate([b0, bz])
            order = np.full(N + Z, -1, dtype=int)
            cg = l.global_gathering_matrices[0]
            for e in d.elements:
                order[np.concatenate([gm[e], N + gz[e]])] = np.asarray(cg[e])
            if not ctx.eq(sorted(order), list(range(N + Z)), 'natural|numbering', 'system numbering is not one to one'):
                break
            A, b = A[np.ix_(order, order)], b[order]
            ctx.close(b, want, f'natural|{impl} rhs {key}', 1e-6, f'{mesh} p={p} natural {nat} t={t}',
                      scale=max(1, np.abs(want).max()) + 1e7 * spread)
            A0 = np.zeros((N + Z, N + Z))
            for e in d.elements:
                A0[np.ix_(gm[e], gm[e])] += Mu[e]
                A0[np.ix_(N + gz[e], N + gz[e])] += Mw[e]
            ctx.close(A, A0, f'natural|{impl} matrix', 1e-8, mesh, scale=max(1, np.abs(A0).max()))
            if P.affine and same and sorted(sum((P.faces(s) for s in nat), [])) == sorted(P.boundary):
                # the codifferential of a polynomial field of the space is reproduced: discrete integration by parts
                sol = als.solve('spsolve') if impl == 'msehtt' else als.solve()
                l.x.update(sol[0])
                u.cf = w.cf.codifferential()
                ctx.close(u[t].error(), 0., f'ibp|{impl} {key}', 1e-6, f'{mesh} p={p} t={t}')
                ds = codiff(n, k + 1, o, wf, t)
                for e in d.elements:
                    grid = [np.array([-.7, .1, .6])] * n
                    X, V, _ = G.phys_basis(d, e, nodes, key, P.tri[e], *grid)
                    x = np.asarray(sol[0], float).ravel()[order][gm[e]]
                    V = np.einsum('cap,a->cp', V, x if sg is None else x * sg[e])
                    ctx.close(V, np.array([c + 0 * X[0] for c in ds(*X)]), f'ibp|{impl} {key}', 1e-6, f'{mesh} p={p}')
            del l, als, got


def codiff(n, k, o, fs, t, h=1e-4):
    """analytic codifferential of a k-form given by components, by 4th order differences"""
    def dd(f, a):
        def g(*x):
            def at(s):
                y = list(x)
                y[a] = y[a] + s * h
                return f(t, *y)
            return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)
        return g
    if n == 3:
        if k == 1:
            return lambda *x: [-sum(dd(fs[a], a)(*x) for a in range(3))]
        if k == 2:
            return lambda *x: [dd(fs[2], 1)(*x) - dd(fs[1], 2)(*x), dd(fs[0], 2)(*x) - dd(fs[2], 0)(*x),
                               dd(fs[1], 0)(*x) - dd(fs[0], 1)(*x)]
        return lambda *x: [-dd(fs[0], a)(*x) for a in range(3)]
    if k == 1 and o == 'inner':
        return lambda *x: [-dd(fs[0], 0)(*x) - dd(fs[1], 1)(*x)]
    if k == 1:
        return lambda *x: [dd(fs[1], 0)(*x) - dd(fs[0], 1)(*x)]
    if o == 'inner':
        return lambda *x: [dd(fs[0], 1)(*x), -dd(fs[0], 0)(*x)]
    return lambda *x: [-dd(fs[0], 0)(*x), -dd(fs[0], 1)(*x)]


# ------------------------------------------------------------------ mixed boundary conditions, exact solutions
def poisson(ctx, mesh, p, orientation, rounds):
    """manufactured polynomial Poisson solutions with essential and natural conditions on random sections are exact"""
    rng = ctx.rng
    impl, n = MESH[mesh][:2]

    def build(P, m):
        from phyem.src.form.operators import trace, Hodge
        ko = ({'outer': (n - 1, n)} | {'inner': (1, 0)})[orientation]
        s1, s2 = (ph.space.new('Lambda', k, orientation=orientation) for k in ko)
        u, phi, f = s1.make_form('u', 'uu'), s2.make_form(r'\phi', 'pp'), s2.make_form('f', 'ff')
        if orientation == 'outer':
            ds, du = phi.codifferential(), u.exterior_derivative()
            pde = ph.pde(['u = - ds', 'f = - du'], dict(u=u, phi=phi, f=f, ds=ds, du=du))
        else:
            ds, du = u.codifferential(), phi.exterior_derivative()
            pde = ph.pde(['u = du', 'f = ds'], dict(u=u, phi=phi, f=f, ds=ds, du=du))
        pde.unknowns = [u, phi]
        pde.bc.partition(*P.G.values())
        e, na = ('b', 'a')
        if orientation == 'outer':
            pde.bc.define_bc({P.G['b']: trace(u), P.G['a']: trace(Hodge(phi))})
            wf = pde.test_with([s1, s2], sym_repr=['v', 'q']).derive.integration_by_parts('0-1')
            wf = wf.derive.rearrange({0: '0, 1 = 2', 1: '1 = 0'})
        else:
            pde.bc.define_bc({P.G['a']: trace(phi), P.G['b']: trace(Hodge(u))})
            wf = pde.test_with([s1, s2], sym_repr=['v', 'q']).derive.integration_by_parts('1-1')
            wf = wf.derive.rearrange({0: '0, 1 = ', 1: '1 = 0, 2'})
        ph.space.finite(p)
        return dict(forms=dict(u=u, phi=phi, f=f), ls=wf.mp().ls())
    for r in range(rounds):
        P = Prob(rng, mesh, p, build)
        if not P.faces('a'):
            ctx.case(mesh, p, orientation, 'pure Neumann')
            continue
        u, phi, f = (P.ph_forms[k] for k in ('u', 'phi', 'f'))
        q = min(p) if isinstance(p, tuple) else p
        s = data(rng, n, 1, q - 1 if orientation == 'outer' else q)
        vs = vcof(s, n)
        gr = [dpoly(s[0], a) for a in range(n)]
        la = [dpoly(g_, a) for a, g_ in enumerate(gr)]
        vu = vcof(gr, n)
        phi.cf, u.cf, f.cf = vs, vu, vcof([lambda t_, *x: -sum(g_(t_, *x) for g_ in la)], n)
        ess, nat = ('b', 'a') if orientation == 'outer' else ('a', 'b')
        ve, vn = (vu, vs) if orientation == 'outer' else (vs, vu)
        fe, fn = (u, phi) if orientation == 'outer' else (phi, u)
        if impl == 'msepy':
            P.ls.bc.config(P.B['manifolds'][P.G[ess]])(ve)
            P.ls.bc.config(P.B['manifolds'][P.G[nat]])(vn)
        else:
            P.ls.config(('essential bc', 1), P.sec[ess], ve, root_form=fe)
            P.ls.config(('natural bc', 1), P.sec[nat], vn, root_form=fn)
        for t in [0.] + list(rng.uniform(0, 3, 2)):
            t = float(t)
            ctx.case(mesh, p, orientation, len(P.faces('a')), len(P.faces('b')), round(t, 3))
            f[t].reduce()

            def solve():
                l = P.ls(t)
                als = l.assemble()
                sol = als.solve('spsolve') if impl == 'msehtt' else als.solve()
                l.x.update(sol[0])
                return phi[t].error(), u[t].error()
            out = ctx.sub('ibp', solve)
            if out is not None:
                ctx.close(out, [0, 0], f'ibp|{impl} poisson {orientation}', 1e-7, f'{mesh} p={p} t={t} ')


# ------------------------------------------------------------------ fluxes
def flux(ctx, mesh, p, rounds):
    rng = ctx.rng
    n = 2
    for r in range(rounds):
        def build(P, m):
            m.boundary_partition(*P.G.values())
            forms = {}
            for k, o in S.SPACES[n]:
                s = ph.space.new('Lambda', k, orientation=o)
                forms[(k, o)] = s.make_form(rf'f_{k}^{o}', f'form{k}{o}')
            ph.space.finite(p)
            return dict(forms=forms)
        P = Prob(rng, mesh, p, build, ('a', 'b', 'c') if r % 2 else ('a', 'b'))
        d = P.d
        d.F = P.ph_forms
        fine, _ = rules(p)
        nodes = G.nodes_of(p, n)
        for key in ((1, 'outer'),):                 # inner 1-forms: not implemented
            F = d.F[key]
            d.random_global(key, 1., rng)
            c = d.get(key, 1.)
            sg = G.signs(d, key, nodes, P.tri, rng) if G.has_reversal(d) else None
            tot, sc = 0., 0.
            for s in P.G:
                ctx.case(mesh, p, key, s, len(P.faces(s)))
                ref = 0.
                for f in P.faces(s):
                    X, N, grid = P.at(f, *fine)
                    _, b, _ = G.phys_basis(d, f[0], nodes, key, P.tri[f[0]], *grid)
                    v = np.einsum('cap,a->cp', b, c[f[0]] if sg is None else c[f[0]] * sg[f[0]])
                    ref += np.sum(v * N)
                    sc += np.abs(v * N).sum()
                q = 14 if not P.affine else 7
                got = ctx.sub('flux', lambda: F[1.].flux_over_boundary_section(P.sec[s], quad_degree=q))
                if got is None:
                    continue
                ctx.close(got, ref, f'flux|{key}', 1e-7 if not P.affine else 1e-9, f'{mesh} p={p} {s}', scale=max(sc, 1e-2))
                tot += got
            if key == (1, 'outer'):
                E = d.E(key)
                ctx.close(tot, sum((E[e] @ c[e]).sum() for e in d.elements), 'flux|divergence theorem', 1e-7, mesh, scale=max(sc, 1e-2))


def UNITS(tier):
    U = []
    quick = tier == 'quick'
    R = 1 if quick else 4
    two = ['py2o', 'py2u', 'py2', 'py21', 'py2m', 'py2b', 'ht2o', 'ht2u', 'ht2', 'ht21', 'ht2r', 'ht2b', 'rq'] + ([] if quick else ['py2c'])
    for m in two:
        for p in ([2, (3, 2)] if quick else [1, 2, 3, 4, (1, 3), (3, 2)]):
            if m == 'rq' and isinstance(p, tuple):
                continue
            U.append((f'bi:{m}:{p}', bi, dict(mesh=m, p=p, rounds=R)))
    for m in ('ht3', 'ht31'):
        for p in ([2, (1, 2, 3)] if quick else [1, 2, 3, (1, 2, 3), (3, 1, 2)]):
            U.append((f'bi:{m}:{p}', bi, dict(mesh=m, p=p, rounds=R)))
    for m in ['py2o', 'py2', 'py2m', 'py3', 'py3c', 'ht2o', 'ht2', 'ht2b', 'rq', 'ht3']:
        n = MESH[m][1]
        for k, o in [(k, o) for k in range(n) for o in (('outer', 'inner') if n == 2 else ('outer',) if n == 1 else (('outer', 'inner')[k % 2],))]:
            p = 2 if n < 3 else (1, 2, 1) if m == 'ht3' else 1
            U.append((f'ess:{m}:{k}{o}', essential, dict(mesh=m, p=p, key=(k, o), rounds=2 * R)))
            if not quick:
                U.append((f'ess3:{m}:{k}{o}', essential, dict(mesh=m, p=3 if n < 3 else 2, key=(k, o), rounds=2)))
    for m in ['py2o', 'py2u', 'py2', 'py2m', 'ht2o', 'ht2', 'ht2u', 'ht21', 'rq'] + ([] if quick else ['py2b', 'ht2b', 'ht2r']):
        for k in (0, 1):
            for o in ('outer', 'inner'):
                for p in [2] if quick else [2, 3, (2, 3)]:
                    if m == 'rq' and isinstance(p, tuple):
                        continue
                    U.append((f'nat:{m}:{k}{o}:{p}', natural, dict(mesh=m, p=p, key=(k, o), rounds=2 * R)))
    for k in (0, 1, 2):
        for p in [2] if quick else [1, 2, (2, 1, 3)]:
            U.append((f'nat:ht3:{k}:{p}', natural, dict(mesh='ht3', p=p, key=(k, 'outer' if k != 1 else 'inner'), rounds=2 * R)))
    for m in ['py2o', 'py2u', 'ht2o', 'ht2u', 'py2m', 'ht2b', 'py2b'] + ['ht3']:
        for o in ('outer', 'inner'):
            U.append((f'poi:{m}:{o}', poisson, dict(mesh=m, p=3 if MESH[m][1] == 2 else 2, orientation=o, rounds=2 * R)))
    for m in ['ht2o', 'ht2', 'ht2b', 'rq', 'ht2t', 'ht21']:
        U.append((f'flux:{m}', flux, dict(mesh=m, p=2 if m != 'ht2o' else (2, 3), rounds=2 * R)))
    return U
