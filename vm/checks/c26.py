"""C26: what happened earlier in the process changes nothing."""
import gc
import numpy as np
from vm import child
from vm import configs as C
from vm.child import ChildFailed
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (pool of similar problems, order in which a process works on them)',
    assumptions=['results are compared with those of a new process doing the same thing first; they agree to rounding (1e-10 relative)',
                 'set-ups of an implementation are used only until its next apply (which clears the previous one), other objects as long as one likes',
                 'arrays handed out which are not the data of an object itself (samples, coordinates, metric, basis functions, nodes) may be changed by the caller'],
    note='Pools of deliberately similar problems (the same counts, degrees or names with different bounds, meshes, fields or numberings) are worked on by several new '
         'processes in rotated orders, so that each problem is the first in one of them. On the way objects are kept, dropped and collected, queries repeated, arrays '
         'handed out are overwritten and arrays handed in are reused. Everything must agree with the process where the problem came first. '
         'Other processes go through many small set-ups of which none is kept; where the degrees of freedom are, is looked up against the numbering itself.',
    must_observe=['first', 'later', 'again', 'spoiled', 'kept', 'unchanged', 'apart', 'requested'])


# ---------------------------------------------------------------- what is asked
def fields(rng, n, comps, periodic=False):
    out = []
    for _ in range(comps):
        w, s = rng.uniform(-2, 2, n), float(rng.uniform(0, 6))
        if periodic:
            w = np.zeros(n)
        out.append(lambda t, *x, w=w, s=s: np.sin(sum(a * b for a, b in zip(w, x)) + s + t) + .3)
    return out


class Handed:
    """arrays the code gave us"""
    def __init__(self):
        self.A, self.kept = [], []

    def keep(self):
        """the user goes on with some of them"""
        self.kept += [(a, a.copy()) for a in self.A if a.dtype.kind == 'f' and not any(np.shares_memory(a, g) for G in GRIDS.values() for g in G)][::3]
        self.A = []

    def intact(self):
        return sum(not np.array_equal(a, b, equal_nan=True) for a, b in self.kept)

    def __call__(self, v):
        if isinstance(v, np.ndarray):
            self.A.append(v)
        elif isinstance(v, dict):
            for w in v.values():
                self(w)
        elif isinstance(v, (list, tuple)):
            for w in v:
                self(w)
        return v

    def spoil(self):
        for a in self.A:
            if a.flags.writeable and a.dtype.kind == 'f' and not any(np.shares_memory(a, g) for G in GRIDS.values() for g in G):
                a *= -1.5
                a += 7
        self.A = []


def copy(v):
    if isinstance(v, dict):
        return {k: copy(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return [copy(w) for w in v]
    return np.array(v)


def build(spec):
    n = spec['n']
    keys = spec.get('keys') or S.SPACES[n]
    if spec['impl'] == 'msepy':
        return S.make_msepy(n, spec['K'], spec['p'], spec.get('dom', 'crazy'), spec['kw'], keys, spec.get('periodic', False))
    if 'quads' in spec:
        m = C.random_quads(np.random.default_rng(spec['quads']), *spec['K'], **spec.get('qkw', {}))
        keep = copy_mesh(m)
        d = S.make_msehtt(n, (m,), dict(spec.get('kw', {})), spec['p'], keys)
        d.given = m, keep
        return d
    return S.make_msehtt(n, (spec.get('dom', 'crazy'),), dict(spec['kw'], element_layout=spec['K']), spec['p'], keys)


def copy_mesh(m):
    import pickle
    return pickle.loads(pickle.dumps(m))


GRIDS = {}


def grid(n, j):
    """the same array objects again and again, with other values in them"""
    if n not in GRIDS:
        GRIDS[n] = [np.zeros(4) for _ in range(n)]
    r = np.random.default_rng(j)
    for g in GRIDS[n]:
        g[:] = np.sort(r.uniform(-1, 1, 4))
    return GRIDS[n]


def geometry(d, j, H):
    n = d.n
    G = grid(n, j)
    x = [a.ravel() for a in np.meshgrid(*G, indexing='ij')]
    x0 = [a.copy() for a in x]
    out = {}
    for e in d.elements[:6]:
        ct = d.ct(e)
        out[e] = {}
        for f in ('mapping', 'Jacobian_matrix', 'Jacobian', 'inverse_Jacobian_matrix', 'metric', 'metric_matrix', 'inverse_metric_matrix'):
            if hasattr(ct, f):
                v = getattr(ct, f)(*x)
                out[e][f] = [np.array(a) + 0 * x[0] for a in flat(v)]
                if f != 'mapping':
                    H(v)
    same = all(np.array_equal(a, b) for a, b in zip(x, x0))
    return out, same


def flat(v):
    return [w for u in v for w in flat(u)] if isinstance(v, (list, tuple)) else [v]


def basis(d, j, H):
    from phyem.tools.quadrature import Quadrature
    n = d.n
    G = grid(n, j)
    g0 = copy(G)
    out = {}
    for k, F in d.F.items():
        if d.impl == 'msepy':
            b = F.space.basis_functions[F.degree](*G)
            out[str(k)] = [np.array(v) for v in flat(b)]
            H(b)
    for kind in ('Gauss', 'Lobatto'):
        q = Quadrature(int(np.random.default_rng(j).integers(1, 6)), category=kind).quad
        out[kind] = [np.array(v) for v in q]
        H(q)
    r = np.random.default_rng([j, 3])
    for _ in range(3):
        p = [int(v) for v in r.integers(1, 4, 2 + j % 2)]
        kinds = [('Gauss', 'Lobatto')[int(v)] for v in r.integers(2, size=len(p))]
        Q = Quadrature(p, category=kinds)
        out[f'{p} {kinds}'] = [[np.array(v) for v in flat(w)] for w in (Q.quad, Q.quad_weights_ravel, list(Q.quad_ndim), list(Q.quad_ndim_ravel))]
        H([list(Q.quad), Q.quad_weights_ravel, list(Q.quad_ndim), list(Q.quad_ndim_ravel)])
    return out, all(np.array_equal(a, b) for a, b in zip(G, g0))


def forms(d, j, H, t=.5):
    n, rng = d.n, np.random.default_rng([j, 7])
    G = grid(n, j)
    g0 = copy(G)
    out = {}
    for k, F in d.F.items():
        o = out[str(k)] = {}
        cf = d.cfun(k, *fields(rng, n, d.ncomp(k), getattr(d, 'periodic', False)))
        F.cf = cf
        F[t].reduce()
        o['cochain'] = copy(d.get(k, t))
        o['norm'] = np.array(F[t].norm() if d.impl == 'msehtt' else F[t].norm())
        o['error'] = np.array(F[t].error())
        if k[0] < n:
            D = F[t].coboundary() if d.impl == 'msehtt' else F[t].coboundary.local if hasattr(F[t].coboundary, 'local') else None
            if D is not None:
                o['coboundary'] = {e: np.array(D[e]) for e in d.elements}
            o['incidence'] = d.E(k)
        R = F[t].reconstruct(*G, ravel=True) if n > 1 else F[t].reconstruct(*G)
        o['samples'] = copy(R)
        H(R)
        # data of our own, in an array we use again
        if d.impl == 'msehtt':
            c = {e: np.array(v) * 2 for e, v in d.get(k, t).items()}
            F[t + 1].cochain = c
            o['set'] = copy(d.get(k, t + 1))
            R = F[t + 1].reconstruct(*G, ravel=True)
            o['samples of set'] = copy(R)
            H(R)
    return out, all(np.array_equal(a, b) for a, b in zip(G, g0))


def mass(d, j, H):
    out = {}
    for k in d.F:
        M = d.M(k)
        out[str(k)] = copy(M)
        F = d.F[k]
        G = grid(d.n, j)
        if d.impl == 'msepy':
            R = F.reconstruction_matrix(*G) if hasattr(F, 'reconstruction_matrix') else None
            if R is not None:
                out[f'{k} samples'] = [copy(R[e]) for e in d.elements[:4]]
                H([R[e] for e in d.elements[:4]])
        g = d.gm(k)
        out[f'{k} numbering'] = copy(g)
    return out, True


def samples(d, j, H, t=.25):
    """fields made of forms at scattered points"""
    n, rng = d.n, np.random.default_rng([j, 9])
    out = {}
    for k, F in list(d.F.items())[:3]:
        F.cf = d.cfun(k, *fields(rng, n, d.ncomp(k)))
        F[t].reduce()
        x = d.mapping(d.elements[0], *rng.uniform(-.9, .9, (n, 5)))
        if d.impl == 'msehtt':
            _, itp = F.numeric._interpolate_(t, ddf=.02)
            out[str(k)] = copy(itp(*x))
            out[f'{k} tsp'] = copy(F.numeric.tsp(t)(0., *x))
            D = F.numeric.rws(t, ddf=.002)
            out[f'{k} rws'] = copy([[q[e] for e in d.elements[:3]] for q in D._val_dict_list])
        elif n == 2:
            itp = F.numeric.interp(t)
            out[str(k)] = copy([f(*x) for f in (itp if isinstance(itp, (list, tuple)) else (itp,))])
            D = F.numeric.dds.rws(t=t, ddf=4)
            out[f'{k} rws'] = copy([[q[e] for e in list(q)[:3]] for q in D._val_dict_list])
        else:
            return out, True
    return out, True


def algebra(d, j, H):
    """local matrices assembled, changed and assembled again"""
    out = {}
    rng = np.random.default_rng([j, 11])
    for k in list(d.F)[:2]:
        F = d.F[k]
        M = F.matrix.mass if d.impl == 'msepy' else d.ms.array('mass matrix', F)[0]
        A = M.assemble()
        out[str(k)] = np.array(A._M.toarray() if hasattr(A, '_M') else A._mat.toarray())
        if d.impl == 'msepy':
            M2 = M @ M if j % 2 else M + M
            M2.customize.identify_row(int(rng.integers(3))) if hasattr(M2, 'customize') and hasattr(M2.customize, 'identify_row') else None
        else:
            M2 = M @ M if j % 2 else M + M
            if hasattr(M2, 'customize') and hasattr(M2.customize, 'identify_row'):
                M2.customize.identify_row(int(rng.integers(3)))
        B = M2.assemble()
        out[f'{k} changed'] = np.array(B._M.toarray() if hasattr(B, '_M') else B._mat.toarray())
        A = M.assemble()
        out[f'{k} again'] = np.array(A._M.toarray() if hasattr(A, '_M') else A._mat.toarray())
    return out, True


def given(d, j, H, t=.75):
    """what the caller hands in stays as it is; lists and dicts handed out are the caller's"""
    out, same = {}, True
    rng = np.random.default_rng([j, 13])
    for k, F in d.F.items():
        name = str(k)
        if d.impl == 'msehtt':
            g = d.gm(k)
            c = {e: rng.standard_normal(len(g[e])) for e in d.elements}
            v = np.zeros(d.ndofs(k))
            for e in c:
                v[np.asarray(g[e])] = c[e]
            c = {e: v[np.asarray(g[e])] for e in c}
            c0 = {e: w.copy() for e, w in c.items()}
            F[t].cochain = c
            out[name] = copy(d.get(k, t))
            F[t].norm(), F[t].reconstruct(*grid(d.n, j), ravel=True)
            same = same and all(c[e].shape == c0[e].shape and np.array_equal(c[e], c0[e]) for e in c0)
            G = F.cochain.gathering_matrix
            from phyem.msehtt.tools.vector.static.local import MseHttStaticLocalVector as LV
            c = {e: w.reshape(-1, 1) for e, w in c.items()}
            out[f'{name} vector'] = copy(LV(c, G).assemble(vtype='gathered', mode='replace')._V)
            same = same and all(w.ndim == 2 for w in c.values())
            q = tuple(int(i) for i in rng.integers(0, d.ndofs(k), 4))
            r = G.find_rank_locations_of_global_dofs(q)
            out[f'{name} where'] = [[[int(a) for a in p] for p in r[i]] for i in q]
            r.clear()
            out[f'{name} shared'] = [int(G.num_global_locations(i)) for i in q]
            out[f'{name} place'] = [[int(a) for a in G.find_representative_location(i)] for i in q]
            if 'bm' in d.obj and k[0] < d.n:
                r = d.obj['bm'].find_dofs(F)
                out[f'{name} boundary'] = {e: [int(i) for i in w] for e, w in r.items()}
                for w in r.values():
                    w.append(0)
                r.clear()
                r = d.obj['bm'].find_dofs(F, local=False)
                out[f'{name} boundary dofs'] = [int(i) for i in r]
                r.clear()
            if k == list(d.F)[0]:
                from phyem.msehtt.tools.vector.static.global_distributed import MseHttGlobalVectorDistributed as GV
                from phyem.msehtt.tools.vector.static.global_gathered import MseHttGlobalVectorGathered as GG
                from phyem.msehtt.tools.linear_system.static.global_.main import MseHttLinearSystem as LS
                A = d.ms.array('mass matrix', F)[0].assemble()
                b, x0 = rng.standard_normal(d.ndofs(k)), rng.standard_normal(d.ndofs(k))
                b0, x00 = b.copy(), x0.copy()
                for scheme in ('gmres', 'lgmres'):
                    LS(A, GV(b)).solve(scheme, x0=GG(x0), atol=1e-3, maxiter=2)
                    same = same and np.array_equal(b, b0) and np.array_equal(x0, x00)
        else:
            a = np.asarray(F.cochain.gathering_matrix._gm)
            v = rng.standard_normal(d.ndofs(k))
            c = v[a]
            c0 = c.copy()
            F[t].cochain = c
            out[name] = copy(d.get(k, t))
            F[t].norm()
            F[t].reconstruct(*grid(d.n, j))
            same = same and np.array_equal(c, c0)
            q = [int(i) for i in rng.integers(0, d.ndofs(k), 4)]
            q0 = list(q)
            r = F.cochain.gathering_matrix._find_elements_and_local_indices_of_dofs(q)
            out[f'{name} where'] = [[[int(a) for a in p] for p in r[i]] for i in q]
            H(r)
            for w in r.values():
                for p in w:
                    np.asarray(p)[...] = 0
            same = same and q == q0
    return out, same


ASK = dict(given=given, geometry=geometry, basis=basis, forms=forms, mass=mass, samples=samples, algebra=algebra)


# ---------------------------------------------------------------- whole problems
def whole(spec, j):
    from vm.checks import c14, c17, c19
    kind = spec['whole']
    if kind == 'mixed':
        n, impl = spec['n'], spec['impl']
        rng = np.random.default_rng(spec.get('data', 0))
        bnd = spec['bounds']
        f = c14.trig(rng, n, bnd, spec['periodic'])
        e, best, c, d = c14.mixed(impl, n, spec['o'], spec['periodic'], spec['p'], spec['K'], spec['c'], bnd, spec.get('sel'), f, .25, cochains=True)
        return dict(error=np.array(e), best=np.array(best), phi=c['phi'], u=c['u'])
    if kind == 'nonlinear':
        return nonlinear(**spec['kw'])
    o = getattr(c19, spec['whole'])(**spec['kw'])
    return {q: o[q] for q in ('each', 'all', 'sum')}


def nonlinear(impl, n, prob, p, K, c, bounds, data):
    from vm.checks import c17
    M, mesh = S.fresh(n, True)
    fm, deg, nls = c17.abstract(n, prob, p)
    ms, obj = ph.fem.apply(impl, dict(nls=nls, M=M, mesh=mesh))
    d = S.Disc(impl, n)
    d.ms, d.obj, d.p, d.tgm = ms, obj, p, None
    if impl == 'msehtt':
        d.tgm = ms.base['the_great_mesh']
        ms.config('tgm')('crazy', element_layout=K, c=c, bounds=bounds, periodic=True)
        ms.config(obj['mesh'])(d.tgm, 'all')
    else:
        ms.config(obj['M'])('crazy', c=c, periodic=True, bounds=bounds)
        ms.config(obj['mesh'])(K)
    F = {x: ms.base['forms'][fm[x]._pure_lin_repr] for x in fm}
    UNK, _ = c17.names(prob)
    rng = np.random.default_rng(data)
    t = .5
    for x in F:
        cs = [(lambda t_, *y, v=float(v): v + 0 * y[0]) for v in rng.uniform(-.2, .2, n if 0 < deg[x][0] < n else 1)]
        F[x].cf = (ph.vc.scalar if len(cs) == 1 else ph.vc.vector)(*[S.pyfun(f, n) for f in cs])
        F[x][t].reduce()
    s = obj['nls'].apply()(t)
    out = {}
    if impl == 'msehtt':
        R = s.evaluate_f([F[x].cochain.static_vec(t) for x in UNK])
    else:
        R = s.evaluate_f([F[x].cochain[t].local for x in UNK])
    for x, v in zip(UNK, R):
        out[f'residual {x}'] = [np.ravel(v[e].toarray() if hasattr(v[e], 'toarray') else v[e]) for e in d.elements]
    X, msg, info = s.solve([F[x] for x in UNK], atol=1e-9, maxiter=5)
    for x in UNK:
        cc = F[x].cochain[t] if impl == 'msehtt' else F[x][t].cochain.local
        out[f'solution {x}'] = [np.array(cc[e]) for e in d.elements]
    return out


def history(ops, specs, seed):
    """work through the operations; [(result, arrays given stay as they are)]"""
    import random
    rng = np.random.default_rng([seed, 5])
    ph.config.set_auto_cleaning(False)
    alive, out, H, old = {}, [], Handed(), []
    for i, (s, what, j) in enumerate(ops):
        spec = specs[s]
        random.seed(17), np.random.seed(17)
        if what == 'whole':
            out.append((s, what, j, whole(spec, j), True))
            alive.clear()
            if rng.random() < .7:
                gc.collect()
            continue
        if s not in alive or rng.random() < .3:
            if rng.random() < .5:
                old.append(dict(alive))             # the user keeps them
            else:
                old.clear()
            alive.clear()                           # another apply ends the previous set-up
            gc.collect()
            d = build(spec)
            d.periodic = spec.get('periodic', False) or spec.get('kw', {}).get('periodic', False)
            alive[s] = d
        d = alive[s]
        for again in range(1 + int(rng.random() < .4)):
            r, same = ASK[what](d, j, H)
            if hasattr(d, 'given'):
                same = same and same_mesh(*d.given)
            out.append((s, what, j, copy(r), same))
            if rng.random() < .6:
                H.spoil()
                out[-1] += ('spoiled',)
            elif rng.random() < .5:
                H.keep()
            H.A = []
    return out, len(H.kept), H.intact()


def same_mesh(a, b):
    return repr(a) == repr(b)


# ---------------------------------------------------------------- pools
def pools(rng, name):
    """(specs, operations)"""
    specs, ops = [], []
    if name.startswith('py') or name.startswith('ht'):
        impl, n = ('msepy' if name[:2] == 'py' else 'msehtt'), int(name[2])
        p = int(rng.integers(1, 4 if n < 3 else 3))
        K = [int(v) for v in rng.integers(2, 4 if n < 3 else 3, n)]
        b = [[0., float(v)] for v in rng.uniform(.8, 1.5, n)]
        c = 0. if name[:3] == 'ht3' else float(rng.uniform(.02, .15))
        base = dict(impl=impl, n=n, p=p, K=K, kw=dict(c=c, bounds=b, periodic=False))
        if n == 1:
            base['kw'].pop('c') if False else None
        specs = [base,
                 dict(base, kw=dict(base['kw'], bounds=[[lo + .5, hi + 1] for lo, hi in b])),
                 dict(base, kw=dict(base['kw'], c=c + .07 if name[:3] != 'ht3' else 0.)),
                 dict(base, K=K[::-1] if n > 1 and K[0] != K[-1] else [k + 1 for k in K]),
                 dict(base, p=p + 1 if p < 3 - (n == 3) else p - 1)]
        if n == 2 and impl == 'msehtt':
            q = dict(impl=impl, n=2, p=p, K=K, quads=int(rng.integers(1000)))
            specs[2:4] = [q, dict(q, quads=q['quads'] + 1)]
        if impl == 'msepy' and n > 1:
            specs[3] = dict(base, p=tuple(int(v) for v in rng.permutation([p, p % 2 + 1] + [1] * (n - 2))))
        kinds = ['geometry', 'basis', 'forms', 'mass', 'samples', 'algebra', 'given']
        if n == 1:
            kinds = ['geometry', 'basis', 'forms', 'mass', 'given']
        for s in range(len(specs)):
            for w in kinds:
                ops.append((s, w, int(rng.integers(1, 3))))
        ops = [ops[int(i)] for i in rng.permutation(len(ops))]
        # queries about one problem stay together (in groups), the data change
        ops.sort(key=lambda q: (q[0] * 7 + 3) % 5)
    elif name.startswith('mixed'):
        impl, n = ('msepy' if 'py' in name else 'msehtt'), int(name[-1])
        p, K = int(rng.integers(1, 3)), [int(v) for v in rng.integers(2, 4, n)]
        if n == 3:
            p, K = 1, [2, 2, 2]
        b = [[0., float(v)] for v in rng.uniform(.8, 1.5, n)]
        sel = [int(v) for v in rng.integers(2, size=2 * n)]
        sel[0] = 1
        base = dict(whole='mixed', impl=impl, n=n, o='outer', periodic=False, p=p, K=K, c=.05 if n == 2 else 0., bounds=b, sel=sel, data=1)
        specs = [base, dict(base, data=2), dict(base, o='inner'), dict(base, sel=[1 - v for v in sel] if min(sel) == 0 else [0] + sel[1:]),
                 dict(base, bounds=[[lo - .5, hi] for lo, hi in b]), dict(base, p=p + 1 if n == 2 else p, data=3)]
        ops = [(s, 'whole', 0) for s in range(len(specs))]
    elif name.startswith('nonlinear'):
        impl, n = ('msepy' if 'py' in name else 'msehtt'), int(name[-1])
        p = int(rng.integers(1, 3)) if n == 2 else 1
        b = [[0., float(v)] for v in rng.uniform(.8, 1.5, n)]
        prob = 'wxu'
        base = dict(impl=impl, n=n, prob=prob, p=p, K=[3] * n if impl == 'msehtt' else [3, 2, 2][:n], c=.05, bounds=b, data=1)
        kws = [base, dict(base, bounds=[[lo, hi * 2] for lo, hi in b]), dict(base, c=0.), dict(base, prob='known', data=2), dict(base, data=3, bounds=[[lo - 1, hi] for lo, hi in b])]
        if n == 2:
            kws.append(dict(base, prob='known2' if impl == 'msepy' else 'all', p=3 - p))
        specs = [dict(whole='nonlinear', kw=k) for k in kws]
        ops = [(s, 'whole', 0) for s in range(len(specs))] * 2
    else:
        s0 = int(rng.integers(1000))
        from vm.checks import c25
        keys = [c25.KEYS[int(v)] for v in rng.permutation(6)[:2]]
        P = dict(kw=dict(seed=s0, p=1, o='outer', how='spsolve', K=[2, 2]))
        specs = [dict(whole='poisson_job', **P), dict(whole='poisson_job', kw=dict(P['kw'], seed=s0 + 1)),
                 dict(whole='generations_job', kw=dict(seed=s0, p=2, keys=keys, which='quad', ts=0, steps=3)),
                 dict(whole='generations_job', kw=dict(seed=s0 + 1, p=2, keys=keys, which='quad', ts=0, steps=2)),
                 dict(whole='grids_job', kw=dict(seed=s0, p=1, o='outer', how='spsolve', mgc=2)),
                 dict(whole='grids_job', kw=dict(seed=s0 + 1, p=1, o='inner', how='V', mgc=2)),
                 dict(whole='adaptive_job', kw=dict(seed=s0, p=1, o='outer', steps=2)),
                 dict(whole='mesh_job', kw=dict(conf='rqt', p=1, keys=S.SPACES[2], seed=s0)),
                 dict(whole='mesh_job', kw=dict(conf='rqt', p=1, keys=S.SPACES[2], seed=s0 + 1))]
        ops = [(s, 'whole', 0) for s in range(len(specs))]
    return specs, ops


def deviations(a, b, where=''):
    """[(place, size)] of differences"""
    if isinstance(b, dict):
        if not isinstance(a, dict) or list(map(str, sorted(a, key=str))) != list(map(str, sorted(b, key=str))):
            return [(where + ' keys', np.inf)]
        return [q for k in b for q in deviations(a[k], b[k], f'{where}/{str(k)[:24]}')]
    if isinstance(b, (list, tuple)) and not all(np.isscalar(v) for v in b):
        if len(a) != len(b):
            return [(where + ' length', np.inf)]
        return [q for i, (u, v) in enumerate(zip(a, b)) for q in deviations(u, v, f'{where}/{i}')]
    if isinstance(b, (str, bool, int, type(None))):
        return [] if a == b else [(where, np.inf)]
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
        return [(f'{where} {x.shape} {y.shape}', np.inf)]
    if y.dtype.kind in 'OUS':
        return [] if list(map(str, x.ravel())) == list(map(str, y.ravel())) else [(where, np.inf)]
    if y.size == 0 or np.array_equal(x, y, equal_nan=y.dtype.kind == 'f'):
        return []
    dev = np.abs(np.nan_to_num(x, nan=1e300) - np.nan_to_num(y, nan=1e300)).max() / max(np.nanmax(np.abs(y)), 1e-3)
    return [(where, float(dev))]


def pool(ctx, name, orders, tol=1e-10):
    specs, ops = pools(ctx.rng, name)
    N = len(ops)
    starts = sorted({(i * N) // orders for i in range(orders)})
    runs = []
    for i in starts:
        order = ops[i:] + ops[:i]
        try:
            r, kept, changed = child.call('vm.checks.c26', 'history', ops=order, specs=specs, seed=ctx.seed + i)
            runs.append((i, r))
            ctx.event('kept', kept)
            ctx.true(changed == 0, f'{name.split()[0]}|data handed out', f'{name}: order from {i}: {changed} of {kept} arrays the caller keeps have changed')
        except ChildFailed as ex:
            if not ex.in_repo:
                raise RuntimeError(str(ex))
            ctx.fail(f'{name}|raised', f'order from {i}: {ex}')
    # the process where a question came first among those runs (its position in the process) tells
    ref = {}
    for i, r in runs:
        for pos, q in enumerate(r):
            k = q[:3]
            if k not in ref or pos < ref[k][0]:
                ref[k] = pos, i, q[3]
    for i, r in runs:
        ctx.case(name, i)
        seen, before, spoiled = set(), {}, False
        for pos, q in enumerate(r):
            s, what, j, res, same = q[:5]
            k = q[:3]
            ctx.event('first' if pos == 0 else 'again' if k in seen else 'later')
            seen.add(k)
            ctx.event('unchanged')
            ctx.true(same, f'{what}|data of the caller', f'{name}: {specs[s]} order {i}')
            dev = [v for v in deviations(res, ref[k][2]) if v[1] > tol]
            ctx.true(not dev, f'{what}|{name}', lambda: f'{specs[s]} data {j}: place {pos} of order {i} differs from place {ref[k][0]} of order {ref[k][1]}: {dev[:3]}; before: {[x[:3] for x in r[max(0, pos - 3):pos]]} {"spoiled" if spoiled else ""}')
            if len(q) > 5:
                ctx.event('spoiled')
                spoiled = True


def apart(ctx, impl, n, times):
    """many set-ups one after another, none of which is kept: what belonged to former ones is gone"""
    rng = ctx.rng
    shapes = [[3, 2, 2][:n], [2, 3, 2][:n], [1, 3][:n] if n == 2 else [2, 2, 3]] if n > 1 else [[4], [2, 2]]
    keys = S.SPACES[n]
    for i in range(times):
        p = int(rng.integers(1, 3)) if rng.random() < .3 else 1
        K, b = shapes[int(rng.integers(len(shapes)))], [(0., float(v)) for v in rng.uniform(.5, 1.5, n)]
        per = bool(impl == 'msepy' and rng.random() < .3)
        if impl == 'msepy':
            d = S.make_msepy(n, K if n > 1 or len(K) == 1 else [[1., 1., 1., 2.]], p, 'crazy', dict(c=0., bounds=b, periodic=per), keys, per)
        else:
            d = S.make_msehtt(n, ('crazy',), dict(c=0., bounds=b, element_layout=K, periodic=False), p, keys)
        ctx.case('apart', impl, n, i, K, p, per)
        gms = []
        for key in keys:
            gm = d.F[key].cochain.gathering_matrix
            gms.append(gm)
            where(ctx, impl, gm, {e: np.array(gm[e]) for e in d.elements}, rng, key)
            g = d.random_global(key, .5, rng)
            if impl == 'msepy':
                j = int(rng.integers(len(g)))
                ctx.close(d.F[key].cochain[.5].of_dof(j), g[j], 'apart|of_dof', 1e-12, f'{key} dof {j}, set-up {i}')
        j, k = rng.permutation(len(keys))[:2]
        G = type(gms[0])([gms[j], gms[k]])
        sizes = [gms[j].num_dofs if impl == 'msepy' else gms[j].num_global_dofs]
        num = {e: np.array(G[e]) for e in d.elements}
        where(ctx, impl, G, num, rng, 'chain')
        seen, back = {}, {}
        for e in d.elements:
            for q, parts in ((0, gms[j]), (1, gms[k])):
                at = len(gms[j][e]) if q else 0
                for a, c in zip(num[e][at:at + len(parts[e])], parts[e]):
                    ctx.true(seen.setdefault((q, int(c)), int(a)) == int(a) and back.setdefault(int(a), (q, int(c))) == (q, int(c)),
                             'apart|chain', f'{keys[j]}, {keys[k]}, element {e}: {int(c)} -> {int(a)}')
        del d, gm, gms, G, num, parts
        gc.collect()
        ctx.event('apart')


def where(ctx, impl, gm, num, rng, what):
    """the places of some dofs"""
    top = max(int(v.max()) for v in num.values()) + 1
    for many in (False, True):
        dofs = [int(v) for v in rng.integers(top, size=3)] if many else [int(rng.integers(min(top, 6)))]
        if impl == 'msepy':
            got = gm._find_elements_and_local_indices_of_dofs(dofs if many else dofs[0])
            got = {int(k): sorted(zip(map(int, v[0]), map(int, v[1]))) for k, v in got.items()}
        else:
            got = gm.find_rank_locations_of_global_dofs(dofs if many else dofs[0])
            got = {int(k): sorted((int(a), int(b)) for a, b in v) for k, v in got.items()}
        ref = {k: sorted((int(e), int(i)) for e in num for i in np.where(num[e] == k)[0]) for k in dofs}
        ctx.true(got == ref, 'apart|places', f'{what}: {got} instead of {ref}')


def requested(ctx, n, times):
    """what is done to a mass matrix that was asked for leaves the next one alone"""
    rng = ctx.rng
    for i in range(times):
        p = int(rng.integers(1, 3))
        b = [(0., float(v)) for v in rng.uniform(.5, 1.5, n)]
        d = S.make_msehtt(n, ('crazy',), dict(c=.1, bounds=b, element_layout=[int(v) for v in rng.integers(1, 3, n)], periodic=False), p, S.SPACES[n])
        for key in S.SPACES[n]:
            ctx.case('requested', n, i, p, key)
            want = {e: np.array(d.M(key)[e]) for e in d.elements}
            ask = lambda: d.ms.array('mass matrix', d.F[key])[0]
            dense = lambda M: {e: np.asarray(M[e].todense()) for e in d.elements}
            A = ctx.sub('requested', ask)
            B = ctx.sub('requested', ask)
            if A is None or B is None:
                continue
            top = int(max(v.max() for v in d.gm(key).values())) + 1
            for what in rng.permutation(3):
                row = int(rng.integers(top))
                if what == 0:
                    A.customize.identify_row(row)
                elif what == 1:
                    A.customize.zero_rows([row])
                else:
                    A.assemble()
                C_ = ask()
                for M, name in ((B, 'the other one'), (C_, 'the next one'), (-(-B), 'its opposite')):
                    got = dense(M)
                    ctx.true(all(np.allclose(got[e], want[e], rtol=1e-11, atol=1e-13) for e in want), 'requested|matrix', f'{name} {key} p={p} {what}')
                G = np.zeros((top, top))
                for e, v in d.gm(key).items():
                    G[np.ix_(v, v)] += want[e]
                ctx.close(np.asarray(B.assemble()._M.todense()), G, 'requested|assembled', 1e-10, f'{key} p={p}', scale=np.abs(G).max())
            ctx.event('requested')


def UNITS(tier):
    q = tier == 'quick'
    out = [(f'requested/{n}', requested, dict(n=n, times=(2 if n == 2 else 1) * (1 if q else 5))) for n in (2, 3)]
    for i in range(1 if q else 4):
        for name, orders in (('py1', 3), ('py2', 4), ('py3', 3), ('ht2', 4), ('ht3', 3), ('mixed py 2', 3), ('mixed ht 2', 3), ('nonlinear py 2', 3), ('nonlinear py 3', 3),
                             ('nonlinear ht 2', 3), ('whole', 4)):
            out.append((f'{name}/{i}', pool, dict(name=name, orders=orders if q else 2 * orders)))
    for impl, n, times in (('msepy', 1, 20), ('msepy', 2, 25), ('msepy', 3, 15), ('msehtt', 2, 15), ('msehtt', 3, 8)):
        out.append((f'apart/{impl}/{n}', apart, dict(impl=impl, n=n, times=times if q else 4 * times)))
    return out
