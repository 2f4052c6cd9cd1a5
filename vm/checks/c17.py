"""C17: nonlinear terms, their reductions to vectors / matrices, derivatives, and the nonlinear solvers against own integrals
and an own dense Newton / Picard iteration."""
import numpy as np
from vm import configs as C
from vm import geo as G
from vm.checks import c04, c11
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (mesh, degrees, term, spaces, random fields) or (problem, scheme, time)',
    assumptions=['a nonlinear term may be integrated with any Gauss rule of p+1..p+6 or Lobatto rule of p+1..p+4 points per axis or exactly'],
    note='The three-dimensional data of each trilinear term ((A x B, C), <A x B, C>, (A x B, dC), (ABC), (AB, dC), (A dB, C), (A dB, dC)) is compared with own integrals of own basis functions on 14 meshes, for forms of equal and of different degree, and its reductions with given cochains to vectors (one slot left) and matrices (two slots left) with contractions of the data. 16 abstract nonlinear problems (each nonlinear operator, signs, constant factors, known forms in either slot, codifferentials after integration by parts, several nonlinear terms in several equations) are pushed through pde -> wf -> mp -> nls to both implementations on periodic meshes and, with essential conditions on sections (also two on one section), on bounded meshes; the monitor rebuilds the dense residual and Jacobian from own term tensors, compares the matrix, right side and evaluate_f, and runs its own dense Newton and Picard iterations against the history of step norms, the reason to stop, the number of iterations and the solution of the real solver, for initial guesses at the same, another or no instant, fixed dofs through every customization, tolerances 1e-4..1e-10 and iteration limits (also forced). The equations must hold for the converged solution; sources and guesses must be unchanged and a second instance of the system must not see the first one. Products of which one or all factors are given forms (A x B, C), <A x B, C>, (A x B, dC), (ABC), (A dB, C), ln A, (A x B, C x D) ... enter linear systems as matrices and vectors that must be the contractions of own tensors with the given cochains of the instant asked for; so do the projection and the Hodge operator between two spaces (the matrices M E P, their transposes and M E H, with P = M^-1 W of own integrals W).',
    must_observe=['term-data', 'term-vector', 'term-matrix', 'system-solution', 'system-linear', 'system-residual', 'system-fresh', 'newton', 'picard', 'calm', 'newton-constraint',
                  'given-matrix', 'given-vector', 'given-log', 'given-four', 'moved-pi-test-A', 'moved-pi-test-B', 'moved-star'])


def cross(A, B, n):
    """pointwise A x B of basis functions: (components, i, j, points)"""
    a, b = len(A), len(B)
    p = lambda i, j: np.einsum('il,jl->ijl', A[i], B[j])
    if n == 2 and (a, b) == (1, 2):
        return np.array([-p(0, 1), p(0, 0)])
    if n == 2 and (a, b) == (2, 2):
        return np.array([p(0, 1) - p(1, 0)])
    assert n == 3 and (a, b) == (3, 3)
    return np.array([p(1, 2) - p(2, 1), p(2, 0) - p(0, 2), p(0, 1) - p(1, 0)])


def times(A, B, n):
    if len(A) == 1:
        return np.einsum('il,cjl->cijl', A[0], B)
    assert len(A) == len(B)
    return np.einsum('cil,cjl->ijl', A, B)[None]


TERMS = {   # class: (operation, d on B, d on C)
    'AxB_ip_C': (cross, 0, 0), 'AxB_dp_C': (cross, 0, 0), 'AxB_ip_dC': (cross, 0, 1), 'T_ABC': (times, 0, 0), 'AB_ip_dC': (times, 0, 1),
    'AdB_ip_C': (times, 1, 0), 'AdB_ip_dC': (times, 1, 1)}


def options(name, n):
    """allowed (key A, key B, key C): numbers of components must match what the term is for"""
    op, db, dc = TERMS[name]
    nc = {k: (1 if k[0] in (0, n) else n) for k in S.SPACES[n]}
    up = lambda k, s: (k[0] + s, k[1])
    out = []
    for a in nc:
        for b in nc:
            for c in nc:
                if db and b[0] == n or dc and c[0] == n:
                    continue
                t = (nc[a], nc[up(b, db)], nc[up(c, dc)])
                ok = [(1, 2, 2), (2, 2, 1)] if n == 2 else [(3, 3, 3)]
                if op is times:
                    ok = [(1, 2, 2), (1, 1, 1)] if n == 2 else []
                if t in ok:
                    out.append((a, b, c))
    return out


class Own:
    """own basis functions of several forms of one discretization, on the points of a rule"""

    def __init__(self, d, forms, rng):
        self.d, self.n = d, d.n
        self.tris = {e: G.is_tri(d, e) for e in d.elements}
        self.forms = forms          # name: (F, key, p)
        self.sg, self.c = {}, {}
        self.rev = G.has_reversal(d)
        self.rng = rng
        pm = max(f[2] for f in forms.values())
        self.rule_nodes = G.nodes_of(pm, d.n)
        self.fields = {}

    def field(self, key, p):
        if (key, p) not in self.fields:
            nodes = G.nodes_of(p, self.n)
            sg = None
            if self.rev and 0 < key[0] < self.n:
                sg = self.signs_(key, p, nodes)
            F = c04.Fields(self.d, key, nodes, self.tris, sg)
            F.rule_nodes = self.rule_nodes
            self.fields[(key, p)] = F
        return self.fields[(key, p)]

    def signs_(self, key, p, nodes):
        """as observed from reductions of a form of this space and degree"""
        name = next((nm for nm, (F, k, q) in self.forms.items() if (k, q) == (key, p)), None)
        d = self.d
        if name is None or d.F.get(key) is self.forms[name][0]:
            return G.signs(d, key, nodes, self.tris, self.rng)
        old = d.F[key]
        d.F[key] = self.forms[name][0]
        try:
            return G.signs(d, key, nodes, self.tris, self.rng)
        finally:
            d.F[key] = old

    def basis(self, name, e, cand, d=False):
        """(X, (components, ndofs, points), det * weight)"""
        F, key, p = self.forms[name]
        if not d:
            return self.field(key, p).at(e, cand)
        X, B, w = self.field((key[0] + 1, key[1]), p).at(e, cand)
        E = F.incidence_matrix[e].toarray() if self.d.impl == 'msehtt' else np.asarray(F.coboundary.incidence_matrix[e].toarray())
        return X, np.einsum('cal,ai->cil', B, E), w


def tensor(own, name, abc, e, cand):
    op, db, dc = TERMS[name]
    _, A, w = own.basis(abc[0], e, cand)
    _, B, _ = own.basis(abc[1], e, cand, db)
    _, Cc, _ = own.basis(abc[2], e, cand, dc)
    return np.einsum('cijl,ckl,l->ijk', op(A, B, own.n), Cc, w)


def klass(impl, name):
    import importlib
    if impl == 'msehtt':
        mod = {'AxB_ip_C': 'trilinear_AxB_ip_C', 'AxB_dp_C': 'trilinear_AxB_dp_C', 'AxB_ip_dC': 'trilinear_AxB_ip_dC', 'T_ABC': 'trilinear_ABC',
               'AB_ip_dC': 'trilinear_AB_ip_dC', 'AdB_ip_C': 'trilinear_AdB_ip_C', 'AdB_ip_dC': 'trilinear_AdB_ip_dC'}[name]
        return getattr(importlib.import_module('phyem.msehtt.static.form.addons.nop_data_computer.' + mod), name)
    mod = importlib.import_module('phyem.msepy.form.addons.noc.diff_3_entries_AxB_ip_C')
    return getattr(mod, {'AxB_ip_C': '_AxBipC', 'AxB_dp_C': '_AxBdpC'}[name])


def data(ctx, conf, p, rounds):
    """the integrals of a term, and its reductions to a vector and a matrix with given cochains"""
    n = C.CONF[conf]['n']
    rng = np.random.default_rng([ctx.seed, p, 171])
    names = ['AxB_ip_C', 'AxB_dp_C'] if C.CONF[conf]['impl'] == 'msepy' else list(TERMS)
    names = [x for x in names if options(x, n) and not (x == 'AxB_ip_dC' and n == 3 and not C.CONF[conf].get('ortho'))]
    done = []
    keys = S.SPACES[n]
    same = {f'{k}{o}': ((k, o), p) for k, o in keys}
    other = {f'{k}{o}+': ((k, o), p + 1) for k, o in keys}
    third = {f'{k}{o}=': ((k, o), p) for k, o in keys}
    d = C.build(conf, p, keys, rng=rng, extra={**same, **other, **third})
    forms = {'F' + str(k): (d.F[k], k, p) for k in keys}
    for x, (k, q) in {**same, **other, **third}.items():
        forms[x] = (d.X[x], k, q)
    own = Own(d, forms, rng)
    cs = c04.cands(own.tris)
    for r in range(rounds):
        for name in names:
            op = options(name, n)
            a, b, c = op[rng.integers(len(op))]
            pool = {k: [x for x, f in forms.items() if f[1] == k] for k in (a, b, c)}
            for k in pool:
                rng.shuffle(pool[k])
            abc = [pool[k].pop() for k in (a, b, c)]
            FF = [forms[x][0] for x in abc]
            lab = f'{conf} p={p} {name} {abc}'
            key = (conf, p, name, tuple(abc))
            ctx.case(key, r)

            def go():
                term = klass(d.impl, name)(*FF)
                term._make_3d_data()
                return term, {e: np.asarray(term._3d_data[e]) for e in d.elements}
            v = ctx.sub(f'term-data|{conf}|{name}', go)
            if v is None:
                continue
            term, T = v
            memo = {}
            good = True
            els = d.elements if len(d.elements) < 10 else [d.elements[i] for i in rng.choice(len(d.elements), 9, replace=False)]
            sc = max(np.abs(t).max() for t in T.values())
            for e in els:
                good &= c04.best(ctx, T[e], lambda cand: tensor(own, name, abc, e, cand), cs, f'term-data|{conf}|{name}|{a}{b}{c}', 2e-7, f'{lab} e={e} {d.etype(e)}', scale=sc, memo=memo)
            reductions(ctx, d, term, FF, T, rng, lab, conf, name)


def put(d, F, t, rng):
    if d.impl == 'msehtt':
        gm = F.cochain.gathering_matrix
        x = rng.normal(size=gm.num_global_dofs)
        loc = {e: x[np.asarray(gm[e])] for e in d.elements}
        F[t].cochain = loc
    else:
        gm = np.asarray(F.cochain.gathering_matrix._gm)
        x = rng.normal(size=gm.max() + 1)
        loc = {e: x[gm[e]] for e in d.elements}
        F[t].cochain = x[gm]
    return loc


def reductions(ctx, d, term, FF, T, rng, lab, conf, name):
    """with given cochains a term is a vector or a matrix"""
    sub = {0: 'ijk,j,k->i', 1: 'ijk,i,k->j', 2: 'ijk,i,j->k'}
    for i in range(3):
        o = [x for x in range(3) if x != i]
        v = ctx.sub(f'term-vector|{conf}|{name}', lambda: term(1, FF[i])[0])
        if v is not None:
            tt = 0.5
            cc = [None] * 3
            for j in o:
                cc[j] = put(d, FF[j], tt, rng)
            sv = ctx.sub(f'term-vector|{conf}|{name}', lambda: v(tt))
            if sv is not None:
                for e in d.elements:
                    ref = np.einsum(sub[i], T[e], cc[o[0]][e], cc[o[1]][e])
                    ctx.close(np.ravel(sv[e]), ref, f'term-vector|{conf}|{name}', 1e-11, f'{lab} vector of form {i} e={e}', scale=max(1., np.abs(ref).max()))
        r, c = (o if rng.integers(2) else o[::-1])
        M = ctx.sub(f'term-matrix|{conf}|{name}', lambda: term(2, FF[r], FF[c]))
        if M is not None:
            tt = 0.75
            ci = put(d, FF[i], tt, rng)
            sm = ctx.sub(f'term-matrix|{conf}|{name}', lambda: M(tt))
            if sm is not None:
                for e in d.elements:
                    ref = np.einsum('ijk,' + 'ijk'[i] + '->' + 'ijk'[r] + 'ijk'[c], T[e], ci[e])
                    ctx.close(sm[e].toarray(), ref, f'term-matrix|{conf}|{name}', 1e-11, f'{lab} matrix rows {r} cols {c} e={e}', scale=max(1., np.abs(ref).max()))


# ------------------------------------------------------------------ nonlinear systems
# name: ({equation: added terms}, integrations by parts, duality pairings, known forms, [(equation, sign, factor, term class, (A, B) or
# (A, B) with known ones)], dimensions, msepy too)
PROBLEMS = dict(
    wxu=({0: '+ wxu'}, [], [], {}, [(0, 1, 1., 'AxB_ip_C', 'wu')], (2, 3), True),
    wxu2=({0: '- wxu'}, [], [], {}, [(0, -1, 1., 'AxB_ip_C', 'wu')], (2, 3), True),
    awxu=({0: '- awxu'}, [], [], {}, [(0, -1, .7, 'AxB_ip_C', 'wu')], (2, 3), True),
    known=({0: '- wxu + gxu'}, [], [], {'0-2': 'g'}, [(0, -1, 1., 'AxB_ip_C', 'wu'), (0, 1, 1., 'AxB_ip_C', 'gu')], (2, 3), True),
    known2=({0: '- wxu + wxf'}, [], [], {'0-2': 'f'}, [(0, -1, 1., 'AxB_ip_C', 'wu'), (0, 1, 1., 'AxB_ip_C', 'wf')], (2, 3), True),
    cd_wxu=({1: '- cd_wxu', 0: '+ wxu'}, ['1-1'], [], {}, [(1, -1, 1., 'AxB_ip_dC', 'wu'), (0, 1, 1., 'AxB_ip_C', 'wu')], (2, 3), False),
    cd_PQ=({0: '+ cd_PQ'}, ['0-1'], [], {}, [(0, 1, 1., 'AB_ip_dC', 'PQ')], (2,), False),
    cd_wu=({1: '- cd_wu'}, ['1-1'], [], {}, [(1, -1, 1., 'AB_ip_dC', 'wu')], (2,), False),
    all=({0: '+ wxu - cd_PQ', 1: '- cd_wu'}, ['0-2', '1-1'], [], {},
         [(0, 1, 1., 'AxB_ip_C', 'wu'), (0, -1, 1., 'AB_ip_dC', 'PQ'), (1, -1, 1., 'AB_ip_dC', 'wu')], (2,), False),
    ab=({0: '- sab'}, [], ['0-1'], {}, [(0, -1, 1., 'T_ABC', 'ab')], (2,), False, 'Pab', 'hkm'),
    kb=({0: '+ sab + skb'}, [], ['0-1', '0-2'], {'0-2': 'k'}, [(0, 1, 1., 'T_ABC', 'ab'), (0, 1, 1., 'T_ABC', 'kb')], (2,), False, 'Pab', 'hkm'),
    am=({0: '+ sab + sam'}, [], ['0-1', '0-2'], {'0-2': 'm'}, [(0, 1, 1., 'T_ABC', 'ab'), (0, 1, 1., 'T_ABC', 'am')], (2,), False, 'Pab', 'hkm'),
    cd_kdb=({2: '+ cd_kdb', 0: '+ sab'}, ['2-1'], ['0-1'], {'2-1': 'k'}, [(0, 1, 1., 'T_ABC', 'ab'), (2, 1, 1., 'AdB_ip_dC', 'kb')], (2,), False, 'Pab', 'hkm'),
    cd_adm=({2: '- cd_adm', 0: '+ sab'}, ['2-1'], ['0-1'], {'2-1': 'm'}, [(0, 1, 1., 'T_ABC', 'ab'), (2, -1, 1., 'AdB_ip_dC', 'am')], (2,), False, 'Pab', 'hkm'),
    kdb=({1: '- skdb', 0: '+ sab'}, [], ['0-1', '1-1'], {'1-1': 'k'}, [(0, 1, 1., 'T_ABC', 'ab'), (1, -1, 1., 'AdB_ip_C', 'kb')], (2,), False, 'Puab', 'hfkm'),
    adm=({1: '+ sadm', 0: '+ sab'}, [], ['0-1', '1-1'], {'1-1': 'm'}, [(0, 1, 1., 'T_ABC', 'ab'), (1, 1, 1., 'AdB_ip_C', 'am')], (2,), False, 'Puab', 'hfkm'),
)


def names(prob):
    P = PROBLEMS[prob]
    return P[7:] if len(P) > 7 else ('uwPQ', 'fghh')


def abstract(n, prob, p, secs=(), ess=()):
    add, ibp, dual, known = PROBLEMS[prob][:4]
    UNK, SRC = names(prob)
    deg = dict(w=(n - 2, 'outer'), u=(n - 1, 'outer'), P=(n, 'outer'), Q=(n, 'outer'), f=(n - 1, 'outer'), g=(n - 2, 'outer'), h=(n, 'outer'))
    deg.update({x: (0, 'inner') for x in 'abkm'})
    sp = {k: ph.space.new('Lambda', k[0], orientation=k[1]) for k in S.SPACES[n]}
    used = [x for x in deg if x in UNK + SRC + ''.join(t[4] for t in PROBLEMS[prob][4])]
    fm = {x: sp[deg[x]].make_form(x, f'{x}{x}{deg[x][0]}') for x in used}
    env = dict(fm)
    c = ph.constant_scalar(.7)
    from phyem.src.form.operators import Hodge
    if 'w' in UNK:
        u, w, P, Q, f, g = (fm[x] for x in 'uwPQfg')
        env.update(wxu=w.cross_product(u), gxu=g.cross_product(u), wxf=w.cross_product(f))
        env['awxu'] = c * env['wxu']
        env['cd_wxu'] = env['wxu'].codifferential()
        env['cd_PQ'] = P.multi(Q, sp[deg['P']]).codifferential()
        env['cd_wu'] = w.multi(u, sp[deg['u']]).codifferential()
    else:
        a, b, k, m = (fm[x] for x in 'abkm')
        s0, s1 = sp[(0, 'inner')], sp[(1, 'inner')]
        for x, y in ('ab', 'kb', 'am'):
            env[f's{x}{y}'] = Hodge(fm[x].multi(fm[y], s0))
            z = fm[x].multi(fm[y].exterior_derivative(), s1)
            env[f's{x}d{y}'] = Hodge(z)
            env[f'cd_{x}d{y}'] = z.codifferential()
    pde = ph.pde([f'{x} {add.get(i, "")} = {s}' for i, (x, s) in enumerate(zip(UNK, SRC))], env)
    pde.unknowns = [fm[x] for x in UNK]
    if secs:
        from phyem.src.form.operators import trace
        pde.bc.partition(*secs.values())
        for s, x in ess:
            pde.bc.define_bc({secs[s]: trace(fm[x])})
    wf = pde.test_with([sp[deg[x]] for x in UNK], sym_repr=['v', 'q', 'r', 's'][:len(UNK)])
    for i in ibp:
        wf = wf.derive.integration_by_parts(i)
    for i in dual:
        wf = wf.derive.switch_to_duality_pairing(i)
    for i, k in known.items():
        wf.terms[i].add_extra_info({'known-forms': fm[k]})
    ph.space.finite(p)
    return fm, deg, wf.mp().nls()


class System:
    """the concrete system, and our own dense residual and derivative of it"""

    def __init__(self, ctx, impl, n, d, obj, nls, fm, deg, prob, p, rng):
        self.UNK, self.SRC = UNK, SRC = names(prob)
        self.ctx, self.impl, self.n, self.d, self.prob, self.nls = ctx, impl, n, d, prob, nls
        self.F = {x: d.ms.base['forms'][fm[x]._pure_lin_repr] for x in fm}
        d.F = {deg[x]: self.F[x] for x in fm}
        self.key = deg
        self.forms = {x: (self.F[x], self.key[x], p) for x in fm}
        self.own = Own(d, self.forms, rng)
        for k in sorted({self.key[x] for x in fm}):
            self.own.field(k, p)            # (may use cochains)
        self.gm = {x: {e: np.asarray(self.F[x].cochain.gathering_matrix[e]) for e in d.elements} for x in fm}
        self.N = {x: 1 + max(int(g.max()) for g in self.gm[x].values()) for x in fm}
        self.off = dict(zip(UNK, np.cumsum([0] + [self.N[x] for x in UNK])))
        self.dim = sum(self.N[x] for x in UNK)
        self.M = {}
        for x in UNK:
            m = self.F[x].matrix.mass if impl == 'msepy' else d.ms.array('mass matrix', self.F[x])[0]
            self.M[x] = {e: m[e].toarray() for e in d.elements}
        self.terms = PROBLEMS[prob][4]

    def put(self, x, t, v):
        F = self.F[x]
        if self.impl == 'msehtt':
            F[t].cochain = {e: v[g] for e, g in self.gm[x].items()}
        else:
            F[t].cochain = v[np.array([self.gm[x][e] for e in self.d.elements])]

    def get(self, x, t):
        c = self.F[x].cochain[t] if self.impl == 'msehtt' else self.F[x][t].cochain.local
        return self.gather(x, c)

    def gather(self, x, c):
        v = np.full(self.N[x], np.nan)
        for e, g in self.gm[x].items():
            ce = np.asarray(c[e])
            b = np.isfinite(v[g])
            self.ctx.close(v[g][b], ce[b], f'system-solution|{self.impl}', 1e-12, 'local values of shared dofs of a solution agree', scale=max(1., np.abs(ce).max()))
            v[g] = ce
        return v

    def split(self, x):
        return {k: x[self.off[k]: self.off[k] + self.N[k]] for k in self.UNK}

    def tensors(self, s, lab):
        UNK = self.UNK
        """integrals of the nonlinear terms of a static system; compared to ours"""
        self.T = []
        rows = {}
        cs = c04.cands(self.own.tris)
        for (i, sg, fac, name, ab) in self.terms:
            if any(k not in UNK for k in ab):
                term = klass(self.impl, name)(*[self.F[k] for k in ab], s.test_forms[i])
                term._make_3d_data()
                self.T.append((i, sg * fac, ab, {e: np.asarray(term._3d_data[e]) for e in self.d.elements}))
                continue
            k = rows.get(i, 0)
            rows[i] = k + 1
            st = s._nonlinear_terms[i][k]
            T = {}
            order = [next(x for x in UNK if c is s.unknowns[UNK.index(x)] or getattr(c, '_f', None) is self.F[x]) if c is not s.test_forms[i] else 'test' for c in st.correspondence]
            perm = [order.index(k) for k in (ab[0], ab[1], 'test')]
            memo = {}
            for e in self.d.elements:
                T[e] = np.asarray(st(e)).transpose(perm)
                c04.best(self.ctx, T[e], lambda cand: fac * tensor(self.own, name, ab + UNK[i], e, cand), cs, f'system-terms|{self.impl}|{name}', 2e-7, f'{lab} row {i} term {k} e={e}', memo=memo)
                T[e] = T[e] / fac
            self.T.append((i, sg * fac, ab, T))
        self.ctx.eq({i: len(v) for i, v in s._nonlinear_terms.items()}, rows, f'system-terms|{self.impl}', f'{lab}: number of nonlinear terms per equation')

    def known(self, s, lab):
        UNK = self.UNK
        """own linear part, and the given one"""
        A = np.zeros((self.dim, self.dim))
        b = np.zeros(self.dim)
        for i, x in enumerate(UNK):
            for j, y in enumerate(UNK):
                for e in self.d.elements:
                    r, c = self.gm[x][e] + self.off[x], self.gm[y][e] + self.off[y]
                    if s._A[i][j] is not None:
                        m = s._A[i][j][e]
                        np.add.at(A, np.ix_(r, c), m.toarray() if hasattr(m, 'toarray') else m)
            for e in self.d.elements:
                v = s._b[i][e]
                np.add.at(b, self.gm[x][e] + self.off[x], np.ravel(v.toarray() if hasattr(v, 'toarray') else v))
        return A, b

    def residual(self, x, src):
        UNK, SRC = self.UNK, self.SRC
        X = {**self.split(x), **src}
        r = np.zeros(self.dim)
        J = np.zeros((self.dim, self.dim))
        for k, sname in zip(UNK, SRC):
            for e in self.d.elements:
                g = self.gm[k][e]
                np.add.at(r, g + self.off[k], self.M[k][e] @ (X[k][g] - X[sname][g]))
                np.add.at(J, np.ix_(g + self.off[k], g + self.off[k]), self.M[k][e])
        L = J.copy()
        for i, c, (a, b), T in self.T:
            t = UNK[i]
            for e in self.d.elements:
                ga, gb, gc = self.gm[a][e], self.gm[b][e], self.gm[t][e]
                np.add.at(r, gc + self.off[t], c * np.einsum('ijk,i,j->k', T[e], X[a][ga], X[b][gb]))
                mb = c * np.einsum('ijk,i->kj', T[e], X[a][ga])
                ma = c * np.einsum('ijk,j->ki', T[e], X[b][gb])
                if b in UNK:
                    np.add.at(J, np.ix_(gc + self.off[t], gb + self.off[b]), mb)
                    if a not in UNK:
                        np.add.at(L, np.ix_(gc + self.off[t], gb + self.off[b]), mb)
                if a in UNK:
                    np.add.at(J, np.ix_(gc + self.off[t], ga + self.off[a]), ma)
                    if b not in UNK:
                        np.add.at(L, np.ix_(gc + self.off[t], ga + self.off[a]), ma)
        return r, J, L

    def lnorm(self, dx):
        """norm of all local values"""
        D = self.split(dx)
        return np.sqrt(sum(np.sum(D[k][g] ** 2) for k in self.UNK for g in self.gm[k].values()))


def newton(sy, x0, src, fixed, steps):
    """our own iterations: yields (x, dx)"""
    x = x0.copy()
    for _ in range(steps):
        r, J, _ = sy.residual(x, src)
        for q, v in fixed.items():
            J[q] = 0
            J[q, q] = 1
            r[q] = x[q] - v
        dx = np.linalg.solve(J, -r)
        x = x + dx
        yield x, dx


def picard(sy, x0, src, fixed, steps):
    x = x0.copy()
    for _ in range(steps):
        r, J, L = sy.residual(x, src)
        rhs = L @ x - r
        A = L.copy()
        for q, v in fixed.items():
            A[q] = 0
            A[q, q] = 1
            rhs[q] = v
        y = np.linalg.solve(A, rhs)
        yield y, y - x
        x = y


def judge(ctx, lab, key, sy, its, info, atol, maxiter, got, src, fixed, slow):
    """the history, the reason to stop and the result of a solve against our own iterations"""
    B = np.array(info['residuals'], float)
    own, calm = [], True
    for x, dx in its(len(B)):
        own.append((x, np.linalg.norm(dx), sy.lnorm(dx)))
        if not np.isfinite(own[-1][1]) or own[-1][1] > 20:
            calm = False            # chaotic iterations amplify round-off: compared up to here
            break
    ctx.event('calm' if calm else 'wild')
    g = np.array([o[1] for o in own])
    lo = np.array([o[2] for o in own])
    tol = 1e-6 * np.maximum(g, 1e-3 * max(1e-3, np.linalg.norm(own[-1][0]))) * (1 if calm else 100)
    Bo = B[:len(own)]
    ok = (np.abs(Bo - g) <= tol).all() or (np.abs(Bo - lo) <= tol * 3).all()
    ctx.true(ok, f'{key}|history', f'{lab}: step norms {B}, own {g} (local values {lo})')
    force = isinstance(maxiter, str)
    m = int(maxiter)
    why = None
    stop = None
    for i, b in enumerate(B):
        if not force and b < atol:
            why, stop = 0, i
        elif i + 1 >= m:
            why, stop = i + 1, i
        elif not force and i and b > 100 * B[i - 1]:
            why, stop = -1, i
        elif not force and i and b < B[i - 1] and (B[i - 1] - b) / B[i - 1] < slow:
            why, stop = i + 1, i
        if stop is not None:
            break
    ctx.eq((info['convergence info'], len(B) - 1), (why, stop), f'{key}|stop', f'{lab}: residuals {B} atol {atol} maxiter {maxiter}')
    if not calm:
        return
    x = own[-1][0]
    sc = max(1., np.abs(x).max())
    ctx.close(got, x, f'{key}|solution', 1e-8, f'{lab}: against own iterations {B}', scale=sc)
    if info['convergence info'] == 0 and atol < 1e-7:
        r, _, _ = sy.residual(got, src)
        fx = np.array(sorted(fixed), dtype=int)
        r[fx] = 0
        ctx.close(r, 0 * r, f'{key}|residual', 1e-9, f'{lab}: the solution satisfies the equations', scale=sc)


def periodic(ctx, impl, n, prob, p, c, rounds, scheme=None):
    """nonlinear systems on periodic meshes"""
    rng = np.random.default_rng([ctx.seed, p, n, 172])
    M, mesh = S.fresh(n, True)
    fm, deg, nls = abstract(n, prob, p)
    ms, obj = ph.fem.apply(impl, dict(nls=nls, M=M, mesh=mesh))
    bounds = [[float(lo), float(lo + rng.uniform(.8, 1.3))] for lo in rng.uniform(-1, 1, n)]
    d = S.Disc(impl, n)
    d.ms, d.obj, d.p, d.tgm = ms, obj, p, None
    if impl == 'msehtt':
        tgm = d.tgm = ms.base['the_great_mesh']
        ms.config('tgm')('crazy', element_layout=[3] * n, c=c, bounds=bounds, periodic=True)
        ms.config(obj['mesh'])(tgm, 'all')
    else:
        ms.config(obj['M'])('crazy', c=c, periodic=True, bounds=bounds)
        ms.config(obj['mesh'])([3, 2, 3][:n])
    N = obj['nls'].apply()
    sy = System(ctx, impl, n, d, obj, N, fm, deg, prob, p, rng)
    first = True
    for r in range(rounds):
        solve(ctx, sy, N, rng, f'{impl} n={n} {prob} p={p} c={c} round {r}', None, first, r)
        first = False


def solve(ctx, sy, N, rng, lab, ess, first, r):
    impl, n, prob = sy.impl, sy.n, sy.prob
    t = float(np.round(rng.uniform(0, 2) + 3 * r, 3))      # (the newest cochain is the one of the largest time)
    amp = [.03, .1, .3][r % 3]
    src = {}
    UNK = sy.UNK
    for x in [y for y in sy.F if y not in UNK]:
        src[x] = rng.normal(size=sy.N[x]) * amp
        sy.put(x, t, src[x])
    guess = {x: rng.normal(size=sy.N[x]) * amp for x in UNK}
    mode = ['same', 'other', 'none'][int(rng.integers(3))]
    tg = t if mode == 'same' else t + .25
    if mode == 'none':
        guess = {x: np.zeros(sy.N[x]) for x in UNK}
        if sy.impl == 'msehtt':
            for x in UNK:
                sy.F[x].cochain.clean('all')
        else:
            for x in UNK:
                sy.F[x].cochain.clean()
        if any(sy.F[x].cochain.newest is not None for x in UNK):
            mode = 'other'
    if mode != 'none':
        for x in UNK:
            sy.F[x].cochain.clean('all') if impl == 'msehtt' else sy.F[x].cochain.clean()
            sy.put(x, tg, guess[x])
    scheme = 'Picard' if impl == 'msehtt' and rng.integers(2) else 'Newton-Raphson'
    s = ctx.sub(f'system|{impl}|{prob}', lambda: N(t))
    if s is None:
        return
    key = f'{"picard" if scheme == "Picard" else "newton"}|{impl}|{prob}'
    ctx.case(lab, t, scheme, mode, prob)
    fixed, linear = {}, set()
    if first:
        sy.tensors(s, lab)
    A, b = sy.known(s, lab)
    r0, J0, L0 = sy.residual(np.zeros(sy.dim), src)
    if not ess:
        ctx.close(A, L0, f'system-linear|{impl}', 1e-11, f'{lab}: matrix', scale=max(1., np.abs(L0).max()))
        ctx.close(b, -r0, f'system-linear|{impl}', 1e-11, f'{lab}: right side', scale=max(1., np.abs(r0).max()))
    x0 = np.concatenate([guess[x] for x in UNK])
    if ess:
        fixed, linear = ess(t)
    R = ctx.sub(f'{key}|evaluate', lambda: s.evaluate_f([local(sy, x, guess[x]) for x in UNK]))
    if R is not None and not ess:
        rr = np.zeros(sy.dim)
        for x, v in zip(UNK, R):
            for e in sy.d.elements:
                np.add.at(rr, sy.gm[x][e] + sy.off[x], np.ravel(v[e].toarray() if hasattr(v[e], 'toarray') else v[e]))
        ro = sy.residual(x0, src)[0]
        ctx.close(rr, ro, f'system-residual|{impl}|{prob}', 1e-10, f'{lab}: evaluate_f', scale=max(1., np.abs(ro).max()))
    custom = None
    if not ess and (r % 3 == 1 or rng.random() < .5):
        custom = fixed_dofs(sy, s, rng, scheme, guess, fixed)
    for q, v in fixed.items():
        if scheme != 'Picard' and q not in linear:
            x0[q] = v
    atol = 10. ** -rng.integers(4, 11)
    maxiter = [12, 3, '4', 12, 1, '2'][int(rng.integers(6))]
    kw = dict(atol=atol, maxiter=maxiter)
    if impl == 'msehtt':
        kw['scheme'] = scheme
    lab += f' t={t} {scheme} guess {mode} {kw} {custom}'
    def go():
        try:
            return s.solve([sy.F[x] for x in UNK], **kw)
        except NotImplementedError as e:
            if 'signatures' in str(e):
                return 'no'                # Picard refuses systems it cannot make a key for
            raise
    res = ctx.sub(f'{key}|solve', go)
    if res == 'no':
        return ctx.event('picard-refused')
    if res is None:
        return
    X, msg, info = res
    out = np.concatenate([sy.get(x, t) for x in UNK])
    its = (lambda k: newton(sy, x0, src, fixed, k)) if scheme != 'Picard' else (lambda k: picard(sy, x0, src, fixed, k))
    judge(ctx, lab, key, sy, its, info, atol, maxiter, out, src, fixed, 1e-4 if impl == 'msehtt' else 1e-6)
    if isinstance(X, (list, tuple)):
        ret = np.concatenate([sy.gather(x, v) for x, v in zip(UNK, X)])
    else:
        ret = np.ravel(X)
        if ret.shape != out.shape:
            ret = None
    if ret is not None and isinstance(X, (list, tuple)):
        ctx.close(ret, out, f'{key}|returned', 1e-12, f'{lab}: returned and stored solutions agree', scale=max(1., np.abs(out).max()))
    # the data of the problem stay as they were
    for x in src:
        ctx.close(sy.get(x, t), src[x], f'{key}|sources', 0., f'{lab}: {x} unchanged')
    if mode == 'other':
        for x in UNK:
            ctx.close(sy.get(x, tg), guess[x], f'{key}|guess', 0., f'{lab}: the initial guess {x} is unchanged')
    # a new instance of the system is not affected by what was done to the old one
    s2 = ctx.sub(f'system|{impl}|{prob}', lambda: N(t))
    if s2 is not None and not ess:
        A2, b2 = sy.known(s2, lab)
        ctx.true(np.array_equal(A, A2) and np.array_equal(b, b2), f'system-fresh|{impl}', f'{lab}: a second instance differs')


def local(sy, x, v):
    if sy.impl == 'msepy':
        return v[np.array([sy.gm[x][e] for e in sy.d.elements])]
    from phyem.msehtt.tools.vector.static.local import MseHttStaticLocalVector
    return MseHttStaticLocalVector({e: v[g] for e, g in sy.gm[x].items()}, sy.F[x].cochain.gathering_matrix)


def fixed_dofs(sy, s, rng, scheme, guess, fixed):
    """fix some dofs through the customizations"""
    said = []
    UNK = sy.UNK
    if sy.impl == 'msehtt' and rng.integers(2):        # one more equation fixes one dof (and a multiplier takes its equation)
        i = int(rng.integers(len(UNK)))
        q = int(rng.integers(sy.N[UNK[i]]))
        v = guess[UNK[i]][q]
        if scheme == 'Newton-Raphson':        # (Picard supports a zero only, and says so)
            s.customize.add_additional_constrain__fix_a_global_dof(i, q)
            fixed[q + sy.off[UNK[i]]] = v
            sy.ctx.event('newton-constraint')
            return [('constraint', UNK[i], q)]
    for _ in range(int(rng.integers(1, 3))):
        i = int(rng.integers(len(UNK)))
        x = UNK[i]
        ds = [int(q) for q in rng.choice(sy.N[x], size=min(sy.N[x], int(rng.integers(1, 4))), replace=False)]
        ds = [q for q in ds if q + sy.off[x] not in fixed]
        if not ds:
            continue
        vs = rng.normal(size=len(ds)) * .1
        c = s.customize
        if sy.impl == 'msehtt':
            if scheme == 'Picard':
                c.set_global_dofs_for_unknown(i, ds, vs)
            else:
                c.fixed_global_dofs_for_unknown(i, ds)
                if rng.integers(2):
                    c.set_x0_for_unknown(i, ds, vs)
                else:
                    vs = [guess[x][q] for q in ds]
        else:
            if rng.integers(2):
                for q, v in zip(ds, vs):
                    c.set_dof(int(q + sy.off[x]), float(v))
            else:
                vs = [guess[x][q] for q in ds]
                for q in ds:
                    c.set_no_evaluation(int(q + sy.off[x]))
        said.append((x, ds, [float(v) for v in vs]))
        for q, v in zip(ds, vs):
            fixed[q + sy.off[x]] = v
    return said


def bounded(ctx, mesh, prob, p, rounds):
    """essential conditions on boundary sections of nonlinear systems"""
    impl, n = c11.MESH[mesh][:2]
    for r in range(rounds):
        rng = np.random.default_rng([ctx.seed, p, n, 173, r])
        seed = int(rng.integers(1 << 30))
        pool = [(s, 'u') for s in 'ab']
        ess = [x for x in pool if rng.random() < .7]
        if n == 2 and rng.random() < .6:
            s = 'ab'[int(rng.integers(2))]
            if impl == 'msepy':                 # one condition per section
                ess = [x for x in ess if x[0] != s]
            ess.append((s, 'w'))
        ess = ess or [('a', 'u')]
        keep = {}

        def build(P, m):
            fm, deg, nls = abstract(n, prob, p, P.G, ess)
            keep['deg'], keep['fm'] = deg, fm
            return dict(forms=fm, ls=nls)
        P = ctx.sub(f'system|{impl}|{prob}', lambda: c11.Prob(np.random.default_rng(seed), mesh, p, build))
        if P is None:
            return
        d = P.d
        sy = System(ctx, impl, n, d, P.obj, P.ls, keep['fm'], keep['deg'], prob, p, rng)
        UNK = sy.UNK
        bd = {}
        for s, x in ess:
            bd[s, x] = c11.data(rng, n, 1 if sy.key[x][0] == 0 else n, 2)
            bd[s, x] = [(lambda t, *X, f=f: .1 * f(t, *X)) for f in bd[s, x]]
            v = c11.vcof(bd[s, x], n)
            if impl == 'msepy':
                P.ls.bc.config(P.B['manifolds'][P.G[s]], form=sy.F[x])(v)
            else:
                P.ls.config(('essential bc', 1), P.sec[s], v, root_form=sy.F[x])
        rows = {t[0] for t in PROBLEMS[prob][4] if t[4][0] in UNK and t[4][1] in UNK}

        def conditions(t):
            fixed, linear = {}, set()
            for s, x in ess:
                F = sy.F[x]
                v = c11.vcof(bd[s, x], n)
                red = F.reduce(t, update_cochain=False, target=v) if impl == 'msepy' else F.reduce(v @ t)
                for dof, (e, i) in c11.section_dofs(P, F, sy.key[x], s).items():
                    fixed[dof + sy.off[x]] = red[e][i]
                    if impl == 'msehtt' and UNK.index(x) not in rows:
                        linear.add(dof + sy.off[x])
            return fixed, linear
        for k in range(2):
            solve(ctx, sy, P.ls, rng, f'{mesh} {prob} p={p} ess={ess} round {r}/{k}', conditions, k == 0, 2 * r + k)

# ------------------------------------------------------------------ terms with given forms in linear systems
def _weak(form, A, B, v, sp, ko, fac):
    """the weak term, with the given factor"""
    from phyem.src.wf.term.main import inner, duality_pairing
    from phyem.src.form.operators import Hodge
    d = lambda x: x.exterior_derivative()
    if form == 'AxB,C':
        return inner(A.cross_product(B), v, factor=fac)
    if form == '*(AxB),C':
        return inner(Hodge(A.cross_product(B)), v, factor=fac)
    if form == 'AXB,C':
        return inner(A.Cross_Product(B), v, factor=fac)
    if form == 'AxB|C':
        return duality_pairing(A.cross_product(B), v, factor=fac)
    if form == 'AxB,dC':
        return inner(A.cross_product(B), d(v), factor=fac)
    if form == 'A,BC':
        return inner(A, B.multi(v, A.space), factor=fac)
    if form == 'AB|C':
        return duality_pairing(A.multi(B, sp[ko]), v, factor=fac)
    if form == 'AB,dC':
        return inner(A.multi(B, d(v).space), d(v), factor=fac)
    if form == 'AB|dC':
        return duality_pairing(A.multi(B, sp[ko]), d(v), factor=fac)
    if form == 'AdB|C':
        return duality_pairing(A.multi(d(B), sp[ko]), v, factor=fac)
    if form == 'AdB,dC':
        return inner(A.multi(d(B), d(v).space), d(v), factor=fac)
    raise KeyError(form)


GIVEN = {'AxB,C': 'AxB_ip_C', '*(AxB),C': 'AxB_ip_C', 'AXB,C': 'AxB_ip_C', 'AxB|C': 'AxB_dp_C', 'AxB,dC': 'AxB_ip_dC', 'A,BC': 'T_ABC', 'AB|C': 'T_ABC',
         'AB,dC': 'AB_ip_dC', 'AB|dC': 'AB_ip_dC', 'AdB|C': 'AdB_ip_C', 'AdB,dC': 'AdB_ip_dC'}
KO = {'AB|C': 0, 'AB|dC': 1, 'AdB|C': 0}


def _linear(ctx, impl, n, p, c, keys, test, put_term, known):
    """a linear system for u (and w) with one more term. keys: name: space, of the given forms A, B, (C), and w (None: no w);
    put_term(forms, test form, spaces) gives the term. Returns (disc, system, name: form, name: key) or None if it is refused"""
    M, mesh = S.fresh(n, True)
    sp = {k: ph.space.new('Lambda', k[0], orientation=k[1]) for k in S.SPACES[n]}
    keys = dict(keys, u=test, f=test)
    if keys.get('w'):
        keys['g'] = keys['w']
    keys = {x: k for x, k in keys.items() if k}
    fm = {x: sp[k].make_form(x, f'{x}{x}fm') for x, k in keys.items()}
    two = 'w' in keys
    pde = ph.pde(['u + u = f', 'w = g'] if two else ['u = f + f'], {x: fm[x] for x in 'ufwg' if x in fm})
    pde.unknowns = [fm[x] for x in 'uw' if x in fm]
    wf = pde.test_with([sp[keys[x]] for x in 'uw' if x in keys], sym_repr=['v', 'q'][:1 + two])
    try:
        t = put_term(fm, wf.test_forms[0], sp)
    except (NotImplementedError, AssertionError):
        return                                        # (such spaces have no such product)
    gv = [fm[x] for x in known]
    if gv:
        t.add_extra_info({'known-forms': gv if len(gv) > 1 else gv[0]})
    sign = '+-'[int(ctx.rng.integers(2))]
    wf = wf.derive.replace('0-1' if two else '0-2', t, sign)
    ph.space.finite(p)
    ms, obj = ph.fem.apply(impl, dict(ls=wf.mp().ls(), M=M, mesh=mesh))
    bounds = [[float(lo), float(lo + ctx.rng.uniform(.8, 1.3))] for lo in ctx.rng.uniform(-1, 1, n)]
    d = S.Disc(impl, n)
    d.ms, d.obj, d.p, d.tgm = ms, obj, p, None
    if impl == 'msehtt':
        tgm = d.tgm = ms.base['the_great_mesh']
        ms.config('tgm')('crazy', element_layout=[3] * n, c=c, bounds=bounds, periodic=True)
        ms.config(obj['mesh'])(tgm, 'all')
    else:
        ms.config(obj['M'])('crazy', c=c, periodic=True, bounds=bounds)
        ms.config(obj['mesh'])([3, 2, 2][:n])
    F = {x: ms.base['forms'][fm[x]._pure_lin_repr] for x in fm}
    d.F = {keys[x]: F[x] for x in fm}
    return d, obj['ls'].apply(), F, keys, (1. if sign == '+' else -1.)


def _system(ctx, key, lab, d, L, F, keys, p, sign, fac, T, give, own, size=None):
    """compare the system at t with the contraction of T(e) (last index: test form) with the given forms"""
    from vm.checks import c13
    t = float(np.round(ctx.rng.uniform(0, 2), 3))
    X = {}
    for x in F:
        if x in give or x in 'fg':
            pos = give.get(x) == 'positive'
            for tt in (t + .5, t):
                X[x] = put(d, F[x], tt, ctx.rng)
                if pos:
                    X[x] = positive(d, F[x], keys[x], tt, ctx.rng)
    s = ctx.sub(key, lambda: L(t))
    if s is None:
        return
    A, b = c13.blocks(s, d.impl)
    M = {x: F[x].matrix.mass if d.impl == 'msepy' else d.ms.array('mass matrix', F[x])[0] for x in F if x in 'uw'}
    arr = lambda m: m.toarray() if hasattr(m, 'toarray') else np.asarray(m, float)
    cs = c04.cands(own.tris)
    memo = {}
    for e in d.elements:
        me = {x: M[x][e].toarray() for x in M}
        ctx.close(arr(A[0][0][e]), me['u'], f'{key}|other', 1e-11, f'{lab}: mass', scale=np.abs(me['u']).max())
        v = me['u'] @ X['f'][e]
        if 'w' in F:
            ctx.close(arr(A[1][1][e]), me['w'], f'{key}|other', 1e-11, f'{lab}: mass', scale=np.abs(me['w']).max())
            ctx.close(np.ravel(arr(b[1][e])), me['w'] @ X['g'][e], f'{key}|other', 1e-11, f'{lab}: rhs', scale=max(1e-3, np.abs(me['w'] @ X['g'][e]).max()))
            ctx.close(np.ravel(arr(b[0][e])), v, f'{key}|other', 1e-11, f'{lab}: rhs', scale=max(1e-3, np.abs(v).max()))
            c04.best(ctx, arr(A[0][1][e]), lambda cand: sign * fac * T(e, cand, X), cs, key, 2e-7, f'{lab} matrix e={e}', memo=memo, scale=None if size is None else size(e))
        else:
            c04.best(ctx, np.ravel(arr(b[0][e])) - v, lambda cand: sign * fac * T(e, cand, X), cs, key, 2e-7, f'{lab} vector e={e}', memo=memo)
    return True


def positive(d, F, key, t, rng):
    """a field of values around 2"""
    one = ph.vc.scalar((lambda t, x, y: 2 + 0 * x) if d.n == 2 else (lambda t, x, y, z: 2 + 0 * x))
    F.cf = one
    F[t].reduce()
    c = F[t].cochain if d.impl == 'msehtt' else F[t].cochain.local
    gm = F.cochain.gathering_matrix
    gm = {e: np.asarray(gm[e]) for e in d.elements}
    x = rng.uniform(.9, 1.1, size=1 + max(int(g.max()) for g in gm.values()))
    loc = {e: np.asarray(c[e]) * x[gm[e]] for e in d.elements}
    if d.impl == 'msehtt':
        F[t].cochain = loc
    else:
        F[t].cochain = np.array([loc[e] for e in d.elements])
    return loc


def given(ctx, impl, n, p, c, rounds):
    """products of forms of which one or all are given: a matrix or a vector of a linear system"""
    rng = ctx.rng
    forms = [f for f in GIVEN if options(GIVEN[f], n) and not (impl == 'msepy' and not GIVEN[f].startswith('AxB_')) and not (impl == 'msepy' and f == 'AxB,dC')]
    todo = [(f, var) for f in forms for var in ('A', 'B', 'AB')]
    other = {'inner': 'outer', 'outer': 'inner'}
    for r in range(rounds):
        for f, var in todo:
            name = GIVEN[f]
            if name == 'AxB_ip_dC' and n == 3 and c:
                continue
            op = options(name, n)
            got = None
            for _ in range(60):
                a, b, cc = op[rng.integers(len(op))]
                ko = (n - cc[0] - KO[f], other[cc[1]]) if f in KO else None
                keys = dict(A=a, B=b, w=None) if var == 'AB' else dict(A=a, w=b) if var == 'A' else dict(B=b, w=a)
                fac = [1., .7, -2.][rng.integers(3)]

                def term(fm, v, sp):
                    return _weak(f, fm.get('A', fm.get('w')), fm.get('B', fm.get('w')), v, sp, ko, ph.constant_scalar(fac) if fac != 1 else None)
                got = ctx.sub(f'given|{impl}|{f}|{var}', lambda: _linear(ctx, impl, n, p, c, keys, cc, term, var) or 'no')
                if got != 'no':
                    break
            if got is None or got == 'no':
                ctx.event('given-refused')
                continue
            d, L, F, K, sign = got
            lab = f'{impl} n={n} p={p} c={c} {f} {a}{b}{cc} given {var} factor {fac} sign {sign}'
            ctx.case(lab, r)
            own = Own(d, {x: (F[x], K[x], p) for x in F}, rng)
            for k in sorted(set(K.values())):
                own.field(k, p)
            abc = ('A' if 'A' in F else 'w', 'B' if 'B' in F else 'w', 'u')

            def T(e, cand, X):
                q = tensor(own, name, abc, e, cand)
                if var == 'A':
                    return np.einsum('ijk,i->kj', q, X['A'][e])
                if var == 'B':
                    return np.einsum('ijk,j->ki', q, X['B'][e])
                return np.einsum('ijk,i,j->k', q, X['A'][e], X['B'][e])
            if _system(ctx, f'given|{impl}|{f}|{var}', lab, d, L, F, K, p, sign, fac, T, {x: 1 for x in var}, own):
                ctx.event('given-vector' if var == 'AB' else 'given-matrix')


def more(ctx, impl, p, rounds):
    """(ln A, C) of a given A; (A x B, C x D) with given A, B, C or B, C"""
    from phyem.src.wf.term.main import inner
    rng, n = ctx.rng, 2
    for r in range(rounds):
        if impl == 'msehtt':
            for n in (2, 3):
                for k in S.SPACES[n]:
                    if k[0] not in (0, n) or n == 3 and rng.integers(2):
                        continue
                    fac = [1., .7, -2.][rng.integers(3)]
                    got = ctx.sub('given|log', lambda: _linear(ctx, impl, n, p if n == 2 else 1, .05, dict(A=k), k, lambda fm, v, sp: inner(fm['A'].log(), v, factor=ph.constant_scalar(fac)), 'A') or 'no')
                    if got is None or got == 'no':
                        continue
                    d, L, F, K, sign = got
                    q = p if n == 2 else 1
                    own = Own(d, {x: (F[x], K[x], q) for x in F}, rng)
                    own.field(k, q)

                    def T(e, cand, X):
                        _, A, w = own.basis('A', e, cand)
                        return np.einsum('l,kl,l->k', np.log(np.einsum('il,i->l', A[0], X['A'][e])), A[0], w)
                    lab = f'{impl} n={n} p={q} log {k} factor {fac} sign {sign}'
                    ctx.case(lab, r)
                    if _system(ctx, 'given|log', lab, d, L, F, K, q, sign, fac, T, dict(A='positive'), own):
                        ctx.event('given-log')
        else:
            ks = [(1, 'inner'), (1, 'outer')]
            for var in ('ABC', 'BC'):
                got = None
                for _ in range(60):
                    a, b, cc, v_ = [ks[rng.integers(2)] for _ in range(4)]
                    fac = [1., .7, -2.][rng.integers(3)]
                    keys = dict(A=a, B=b, C=cc) if var == 'ABC' else dict(w=a, B=b, C=cc)
                    got = ctx.sub(f'given|four|{var}', lambda: _linear(ctx, impl, 2, p, 0., keys, v_, lambda fm, v, sp: inner(
                        fm.get('A', fm.get('w')).cross_product(fm['B']), fm['C'].cross_product(v), factor=ph.constant_scalar(fac)), var) or 'no')
                    if got != 'no':
                        break
                if got is None or got == 'no':
                    ctx.fail(f'given|four|{var}', f'{impl} p={p}: no combination of forms of (A x B, C x D) is accepted')
                    continue
                d, L, F, K, sign = got
                own = Own(d, {x: (F[x], K[x], p) for x in F}, rng)
                for k in sorted(set(K.values())):
                    own.field(k, p)

                def T(e, cand, X):
                    an = 'A' if 'A' in F else 'w'
                    (_, A, w), (_, B, _), (_, Cc, _), (_, D, _) = [own.basis(x, e, cand) for x in (an, 'B', 'C', 'u')]
                    z = lambda P, Q: np.einsum('il,jl->ijl', P[0], Q[1]) - np.einsum('il,jl->ijl', P[1], Q[0])
                    AB = np.einsum('ijl,j->il', z(A, B), X['B'][e])
                    CD = np.einsum('ijl,i->jl', z(Cc, D), X['C'][e])
                    m = np.einsum('il,kl,l->ki', AB, CD, w)
                    return m @ X['A'][e] if var == 'ABC' else m
                lab = f'{impl} p={p} (AxB, CxD) {a}{b}{cc}{v_} given {var} factor {fac} sign {sign}'
                ctx.case(lab, r)
                if _system(ctx, f'given|four|{var}', lab, d, L, F, K, p, sign, fac, T, {x: 1 for x in var}, own):
                    ctx.event('given-four')


def moved(ctx, n, p, c, rounds):
    """(A, d pi B) and (d * A, B): the projection and the Hodge operator between two spaces, element by element"""
    from phyem.src.wf.term.main import inner
    from phyem.src.form.operators import Hodge
    rng = ctx.rng
    other = {'inner': 'outer', 'outer': 'inner'}
    scal = (0, n)
    for r in range(rounds):
        for kind in ('pi-test-A', 'pi-test-B') + (('star',) if n == 2 else ()):
            o = ('inner', 'outer')[rng.integers(2)]
            k = 0 if kind == 'star' else int(rng.integers(n))
            if kind == 'star':
                src = (2, other[o])
            else:
                ok = [(a, b) for a in range(n + 1) for b in other if (a in scal) == (k in scal) and (a, b) != (k, o)]
                src = ok[rng.integers(len(ok))]
            v, w = ((k + 1, o), src) if kind != 'pi-test-B' else (src, (k + 1, o))
            fac = [1., .7, -2.][rng.integers(3)]

            def term(fm, t, sp):
                f = ph.constant_scalar(fac)
                if kind == 'star':
                    return inner(Hodge(fm['w']).d(), t, factor=f)
                A, B = (t, fm['w']) if kind == 'pi-test-A' else (fm['w'], t)
                return inner(A, B.project_to(sp[(k, o)]).d(), factor=f)
            lab = f'n={n} p={p} c={c} {kind} {src} to {(k, o)} factor {fac}'
            got = ctx.sub(f'moved|{kind}|raised', lambda: _linear(ctx, 'msepy', n, p, c, dict(w=w, z=(k, o)), v, term, ''))
            if got is None:
                continue
            d, L, F, K, sign = got
            ctx.case(lab, r)
            own = Own(d, {x: (F[x], K[x], p) for x in F}, rng)
            for q in sorted(set(K.values())):
                own.field(q, p)
            b = 'u' if kind == 'pi-test-B' else 'w'
            M0, MA, E = F['z'].matrix.mass, F['w' if b == 'u' else 'u'].matrix.mass, F['z'].coboundary.incidence_matrix

            def T(e, cand, X):
                _, Z, w_ = own.basis('z', e, cand)
                _, B, _ = own.basis(b, e, cand)
                W = np.einsum('cil,cjl,l->ij', Z, B, w_)
                D = MA[e].toarray() @ E[e].toarray() @ np.linalg.solve(M0[e].toarray(), W)
                return D.T if b == 'u' else D
            if _system(ctx, f'moved|{kind}', lab, d, L, F, K, p, sign, fac, T, {}, own, lambda e: abs(fac) * np.abs(MA[e].toarray()).max()):
                ctx.event(f'moved-{kind}')


def UNITS(tier):
    th = tier == 'thorough'
    u = []
    confs = ['ht2', 'ht2o', 'ht2m', 'ht2c', 'ht2q', 'ht2p', 'rq', 'ht3o', 'ht3', 'py2', 'py2o', 'py2m', 'py3', 'py3o']
    for c in confs:
        for p in ([1, 2, 3] if th else [2 if '3' not in c else 1]):
            if p == 3 and '3' in c:
                continue
            u.append((f'data/{c}/{p}', data, dict(conf=c, p=p, rounds=(4 if th else 1))))
    for prob, P in PROBLEMS.items():
        dims, py = P[5:7]
        for impl in ('msehtt', 'msepy'):
            if impl == 'msepy' and not py:
                continue
            for n in dims:
                cc = 0. if prob == 'cd_wxu' and n == 3 else .05
                for p in ([1, 2, 3] if n == 2 else [1]) if th else [2 if n == 2 else 1]:
                    if n == 3 and not th and prob in ('wxu2', 'awxu'):
                        continue
                    u.append((f'per/{impl}/{n}/{prob}/{p}', periodic, dict(impl=impl, n=n, prob=prob, p=p, c=cc, rounds=(18 if th else 6))))
    for m in ('py2', 'py2o', 'py2m', 'py2b', 'py3', 'py3c', 'ht2o', 'ht2', 'rq', 'ht2b', 'ht2r', 'ht3'):
        n = c11.MESH[m][1]
        for prob in ('wxu', 'known', 'known2') if th else ('wxu', 'known'):
            if n == 3 and prob == 'known' and not th:
                continue
            u.append((f'ess/{m}/{prob}', bounded, dict(mesh=m, prob=prob, p=2 if n == 2 else 1, rounds=6 if th else 3)))
    for impl in ('msehtt', 'msepy'):
        for n in (2, 3):
            for p in ([1, 2, 3] if n == 2 else [1]) if th else [2 if n == 2 else 1]:
                for c in (0., .05) if th else [.05 if n == 2 else 0.]:
                    u.append((f'given/{impl}/{n}/{p}/{c}', given, dict(impl=impl, n=n, p=p, c=c, rounds=4 if th else 1)))
        for p in (1, 2, 3) if th and impl == 'msehtt' else (1, 2) if th else (2,):
            for n in (2, 3) if impl == 'msepy' else ():
                for c in (0., .05):
                    if n == 2 or p == 1 or c == 0 or th:
                        u.append((f'moved/{n}/{p}/{c}', moved, dict(n=n, p=p if n == 2 else min(p, 2), c=c, rounds=6 if th else 2)))
            u.append((f'more/{impl}/{p}', more, dict(impl=impl, p=p, rounds=4 if th else 2)))
    return u
