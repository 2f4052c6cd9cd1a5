"""C25: adaptively renewed meshes and multi-grid hierarchies carry fields, times and systems over."""
import numpy as np
from vm import configs as C
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (base mesh, degree, forms, history of renewals) or (level hierarchy, degree, form, transfer)',
    assumptions=['renewal samples the old field at about 100 (method 3) or 60 (method 1) places per element and direction; smooth fields are '
                 'required to survive up to the change over that distance plus the accuracy of the two spaces',
                 'adaptive base meshes consist of straight quadrilaterals in 2D (others are refused by the code)',
                 'a renewal of method 2 fails loudly (known finding)'],
    note='Adaptive: histories of renewals (local, uniform, repeated, coarsening, periodically repeated indicators), all forms, several '
         'times; after each step the new mesh, numbering and linear systems are compared with those of a static set-up with the same '
         'refinement, untouched base elements must keep their degrees of freedom, constants stay exact, smooth fields stay accurate. '
         'Multi-grid: each level against a separate static set-up, correspondence of degrees of freedom, passing of cochains and '
         'vectors, and solutions of the multi-grid and direct schemes against dense solutions.',
    must_observe=['renewed', 'identity', 'untouched', 'constant', 'smooth', 'same mesh', 'system', 'stepped', 'restored', 'levels', 'hierarchy', 'complete', 'interpolated', 'other field', 'scheme', 'cycle', 'level system'])

GRID = [np.linspace(-1, 1, 3)] * 2
KEYS = S.SPACES[2]


def base_mesh(rng, which):
    st, og = rng.uniform(.5, 2, 2), rng.uniform(-1, 1, 2)
    K = [int(v) for v in rng.integers(1, 4, 2)]
    if which == 'rect':
        return C.random_quads(rng, *K, amp=0., stretch=tuple(st), origin=tuple(og))
    return C.random_quads(rng, *K, stretch=tuple(st), origin=tuple(og))


def box(m):
    X = np.array([v for q in m['element_parameter_dict'].values() for v in q])
    return X.min(0), X.max(0)


def bump(rng, m):
    lo, hi = box(m)
    c, w = rng.uniform(lo, hi), rng.uniform(.15, .5) * (hi - lo).min()
    f = lambda x, y: np.exp(-((x - c[0]) ** 2 + (y - c[1]) ** 2) / w ** 2)
    return lambda x, y: float(f(x, y)) if np.ndim(x) == 0 else f(x, y)


class Ada:
    def __init__(self, m, p, keys, build=None):
        manifold, mesh = S.fresh(2)
        self.m, self.p = m, p
        bm = mesh.boundary()
        fs = {}
        for k, o in keys:
            fs[(k, o)] = ph.space.new('Lambda', k, orientation=o).make_form(rf'f_{k}^{o}', f'form{k}{o}')
        ph.space.finite(p)
        self.ms, self.obj = ph.fem.apply('msehtt-a', dict(manifold=manifold, mesh=mesh, bm=bm))
        self.ms.config('tgm')(C.rankwise(m))
        self.ms.config(self.obj['mesh'])(self.ms.tgm(), 'all')
        self.ms.config(self.obj['bm'])(self.ms.tgm(), self.obj['mesh'])
        self.T = {k: self.ms.base['forms'][v._pure_lin_repr] for k, v in fs.items()}

    def now(self, i=-1):
        d = S.Disc('msehtt', 2)
        d.F = {k: T.generations[i] for k, T in self.T.items()}
        d.tgm = next(iter(d.F.values())).tgm
        d.ms, d.obj, d.p = self.ms, self.obj, self.p
        return d


def geometry(d):
    """{element: rounded coordinates of its 9 points, in order}"""
    X = [a.ravel() for a in np.meshgrid(*GRID, indexing='ij')]
    return {e: tuple(map(tuple, np.round(d.mapping(e, *X), 8).T + 0.)) for e in d.elements}


def owner(m, geo):
    """{element: base element which contains its centre}"""
    out = {}
    for e, g in geo.items():
        c = np.mean(g, axis=0)
        for b, q in m['element_parameter_dict'].items():
            q = np.array(q)
            s = [np.cross(np.append(q[(i + 1) % 4] - q[i], 0), np.append(c - q[i], 0))[2] for i in range(4)]
            if min(s) > 0 or max(s) < 0:
                out[e] = b
                break
    return out


def trig_fields(rng, m, comps):
    lo, hi = box(m)
    L = (hi - lo).max()
    out = []
    for _ in range(comps):
        w, s = rng.uniform(-1.5, 1.5, 2) / L, rng.uniform(0, 6)
        out.append(lambda t, x, y, w=w, s=s: 2 + np.sin(w[0] * x + w[1] * y + s + t))
    return out, 1.5 * np.sqrt(2) / L


def pick(rng, m, before):
    """the next refinement: (description, trf)"""
    kind = int(rng.integers(6)) if before else int(rng.integers(4))
    if kind == 5:
        return 'again', before[-1][1]
    if kind == 4:
        return 'earlier', before[int(rng.integers(len(before)))][1]
    if kind == 3:
        n = int(rng.integers(0, 3))
        return f'uniform {n}', n
    th = sorted(float(v) for v in rng.uniform(.1, .9, int(rng.integers(1, 4))))
    trf = dict(rff=bump(rng, m), rft=th)
    if rng.random() < .5:
        trf['rcm'] = ['center', 'middle'][int(rng.integers(2))]
    return f'local {np.round(th, 2).tolist()}', trf


def check_mesh(ctx, A, d, trf, ts, tag, keys):
    """the generation is what a static set-up with this refinement makes"""
    s = ctx.sub('same mesh', lambda: S.make_msehtt(2, (A.m,), dict(trf=trf, ts=ts), A.p, keys))
    if s is None:
        return
    ctx.event('same mesh')
    # names and order may be anything as long as both agree on the places
    gd, gs = d['geo'], geometry(s)
    if ctx.eq(sorted(gd.values()), sorted(gs.values()), 'same mesh|elements', tag):
        at = {g: e for e, g in gs.items()}
        for k in keys:
            a, b = {gd[e]: v for e, v in d['gm'][k].items()}, {gs[e]: v for e, v in s.gm(k).items()}
            n1 = relabel(a)
            ctx.true(n1 == relabel(b), 'same mesh|numbering', f'{tag} {k}')
            E0 = d['E'].get(k)
            if E0 is not None:
                Es = s.E(k)
                ctx.true(all(np.array_equal(E0[e], Es[at[gd[e]]]) for e in gd), 'same mesh|incidence', f'{tag} {k}')


def relabel(gm):
    seen, out = {}, {}
    for g in sorted(gm):
        out[g] = [seen.setdefault(int(v), len(seen)) for v in gm[g]]
    return out


def err(d, key, t, fs):
    """the greatest deviation of the reconstruction from fs at 25 inner places of each element"""
    g = np.array([-.8, -.3, .1, .5, .9])
    R = d.recon(key, t, *[g] * d.n)
    return max(np.abs(np.array([f(t, *x) for f in fs]) - v).max() for x, v in R.values())


def history(ctx, which, reps, steps, method=3):
    rng = ctx.rng
    for r in range(reps):
        m = base_mesh(rng, which)
        ts = [1, 0, 1, 2][int(rng.integers(4))] if len(m['element_type_dict']) < 4 else int(rng.integers(2))
        p = int(rng.integers(1, 4))
        nk = int(rng.integers(1, 3))
        keys = [KEYS[int(i)] for i in rng.permutation(6)[:nk]]
        ph.config.set_auto_cleaning(False)
        A = ctx.sub('renewed', lambda: Ada(m, p, keys))
        if A is None:
            continue
        hist = []
        tag0 = f'{which} {len(m["element_type_dict"])} base elements p={p} ts={ts} {keys} method {method}'
        if ctx.sub('renewed', lambda: A.ms.initialize(ts=ts) or True) is None:
            continue
        trf0 = 0
        mode = ['constant', 'smooth', 'random'][int(rng.integers(3))]
        times = sorted(float(v) for v in np.round(rng.uniform(-1, 1, int(rng.integers(1, 3))), 4))
        one = A.now()

        def fill(d):
            """the fields under test into the current generation"""
            fields = {}
            for k in keys:
                comps = 2 if k[0] == 1 else 1
                if mode == 'constant':
                    c = rng.uniform(.5, 2, (comps,)) * rng.choice([-1, 1])
                    fields[k] = [lambda t, x, y, v=float(v): v * (1 + t) + 0 * x for v in c], 0.
                else:
                    fields[k] = trig_fields(rng, m, comps)
                cf = d.cfun(k, *fields[k][0])
                A.T[k].cf = cf
                for t in times:
                    if mode == 'random':
                        d.random_global(k, t, rng)
                    else:
                        A.T[k][t].reduce()
            return fields
        fields = ctx.sub('renewed', lambda: fill(one))
        if fields is None:
            continue
        have = {k: A.T[k].cf for k in keys}
        last, ok = 0, True
        for step in range(steps):
            name, trf = pick(rng, m, hist)
            clean = bool(rng.random() < .3)
            chosen = None if rng.random() < .8 or nk == 1 else A.T[keys[0]]
            tag = f'{tag0} {mode}: {[h[0] for h in hist]} then {name}{" clean" if clean else ""}'
            ctx.case(tag)
            old = A.now()
            go = {k: geometry(old) for k in keys[:1]}[keys[0]]
            co = {(k, t): old.get(k, t) for k in keys for t in times}
            bad = {(k, t): err(old, k, t, fields[k][0]) for k in keys for t in times} if mode != 'random' else {}
            gmo = {k: old.gm(k) for k in keys}
            info = ctx.sub('renewed', lambda: A.ms.renew(trf, ts=ts, use_method=method, clean=clean, forms=chosen))
            if info is None:
                ok = False
                break
            hist.append((name, trf))
            ctx.event('renewed')
            new = A.now()
            gn = geometry(new)
            same = sorted(gn.values()) == sorted(go.values())
            ctx.eq(bool(info['all same']), same, 'identity|reported', tag)
            for k in keys:
                T = A.T[k]
                ctx.true(T.current.cf._field is have[k]._field or T.cf._field is T.generations[-2].cf._field, 'renewed|field kept', tag)
                ctx.eq(T.ith_generation, len(hist) + 1, 'renewed|generation counted', tag)
                ctx.true(len(T.generations) == 2, 'renewed|generations kept', tag)
                if chosen is not None and T is not chosen:
                    ctx.eq(list(T.current.cochain.times), [], 'renewed|only the chosen forms', tag)
                    continue
                if not ctx.eq(sorted(T.current.cochain.times), times, 'renewed|times', tag):
                    ok = False
                    continue
                if clean:
                    ctx.eq(list(T.generations[0].cochain.times), [], 'renewed|old ones cleaned', tag)
                else:
                    for t in times:
                        now = old.get(k, t)
                        ctx.true(all(np.array_equal(now[e], co[k, t][e]) for e in now), 'renewed|old ones kept', tag)
            if not ok:
                break
            live = [k for k in keys if chosen is None or A.T[k] is chosen]
            bo, bn = owner(m, go), owner(m, gn)
            parts = lambda g, own: {b: sorted(g[e] for e in g if own.get(e) == b) for b in m['element_type_dict']}
            po, pn = parts(go, bo), parts(gn, bn)
            calm = {b for b in po if po[b] == pn[b]}
            at = {g: e for e, g in go.items()}
            for k in live:
                gm = new.gm(k)
                wild = {int(v) for e in gn if bn.get(e) not in calm for v in gm[e]}
                for t in times:
                    c = new.get(k, t)
                    ctx.eq(set(c), set(gn), 'renewed|elements', tag)
                    if method == 3 and same:
                        ctx.event('identity')
                        ctx.true(all(np.array_equal(c[e], co[k, t][at[gn[e]]]) for e in gn), 'identity|cochain', f'{tag} {k}')
                    elif method == 3:
                        n = 0
                        for e in gn:
                            if bn.get(e) in calm:
                                f = at[gn[e]]
                                w = np.array([int(v) not in wild for v in gm[e]])
                                # only what is shared with nobody is sure to be left alone by the averaging of shared dofs
                                n += int(w.sum())
                                ctx.close(c[e][w], co[k, t][f][w], 'untouched|cochain', 1e-13 if k[0] == 2 else 1e-12, f'{tag} {k} t={t} {e}', scale=np.abs(co[k, t][f]).max() + 1e-12)
                        ctx.event('untouched', n)
                    if mode == 'random':
                        continue
                    e0, e1 = bad[k, t], err(new, k, t, fields[k][0])
                    if mode == 'constant' and (k[0] < 2 or p > 1):
                        ctx.event('constant')
                        ctx.close(e1, 0., 'constant', 1e-9 if k[0] < 2 else 1e-8, f'{tag} {k} t={t}')
                    else:
                        ctx.event('smooth')
                        smooth(ctx, m, d=new, k=k, t=t, p=p, f=fields[k], e0=e0, e1=e1, tag=tag, method=method)
            if mode == 'random' or method != 3 or rng.random() < .5 or chosen is not None:
                # start the next step from known fields again
                fields = ctx.sub('renewed', lambda: fill(new))
                have = {k: A.T[k].cf for k in keys}
            snap = dict(geo=gn, gm={k: new.gm(k) for k in keys}, E={k: new.E(k) for k in keys if k[0] < 2})
            last = snap, trf
        if ok and last:
            check_mesh(ctx, A, last[0], last[1], ts, f'{tag0}: {[h[0] for h in hist]}', keys)


def smooth(ctx, m, d, k, t, p, f, e0, e1, tag, method):
    """the change over the sampling distance, and the accuracy of the old and the new space"""
    fs, slope = f
    lo, hi = box(m)
    F, s = d.F[k], t + 10.
    F[s].reduce(d.cfun(k, *[lambda tt, x, y, g=g: g(t, x, y) for g in fs])[s])
    best = err(d, k, s, [lambda tt, x, y, g=g: g(t, x, y) for g in fs])
    F.cochain.clean(t=s)
    grain = slope * np.linalg.norm(hi - lo) / (100 if method == 3 else 60)
    ctx.true(e1 <= 2.5 * (e0 + best + grain), 'smooth', f'{tag} {k} t={t}: deviation {e1:.2e} after {e0:.2e} before, {best:.2e} of the new space, {grain:.2e} of the sampling')


# ---------------------------------------------------------------- linear systems over generations
def sections(rng):
    ax = [(-1, 0), (1, 0), (0, -1), (0, 1)]
    while True:
        s = [int(v) for v in rng.integers(2, size=4)]
        if 0 < sum(s) < 4:
            return [a for a, w in zip(ax, s) if w], [a for a, w in zip(ax, s) if not w]


class Poisson:
    """wf_div_grad on an adaptive (adaptive=True) or an ordinary implementation"""
    def __init__(self, m, p, o, secs, cfs, adaptive, trf=0, ts=1, **kw):
        ls, mp = ph.samples.wf_div_grad(n=2, degree=p, orientation=o)
        self.ms, self.obj = ph.fem.apply('msehtt-a' if adaptive else 'msehtt', dict(ls=ls))
        ms, B = self.ms, self.ms.base
        self.o, self.secs, self.cfs, self.adaptive = o, secs, cfs, adaptive
        by = {x.abstract.manifold._sym_repr: x for x in B['meshes'].values()}
        mesh, self.gu, self.gp = by[r'\mathcal{M}'], by[r'\Gamma_u'], by[r'\Gamma_\phi']
        tgm = ms.tgm() if adaptive else B['the_great_mesh']
        ms.config('tgm')(C.rankwise(m)) if adaptive else ms.config('tgm')(C.rankwise(m), trf=trf, ts=ts, **kw)
        ms.config(mesh)(tgm, 'all')
        if adaptive:
            ms.config(by[r'\partial\mathcal{M}'])(tgm, mesh)
        for g, s in ((self.gu, secs[0]), (self.gp, secs[1])):
            ms.config(g)(tgm, {'type': 'boundary_section', 'partial elements': mesh, 'ounv': s})
        if adaptive:
            ms.initialize(ts=ts)
        self.phi, self.u, self.f = (B['forms'][x] for x in ('potential', 'velocity', 'source'))
        self.phi.cf, self.u.cf, self.f.cf = cfs
        self.ls = self.obj['ls']
        if not adaptive:
            self.ls = self.ls.apply()

    def config(self):
        eu = self.o == 'outer'
        c = self.ls.config
        c(('essential bc' if eu else 'natural bc', 1), self.gu, self.cfs[1], root_form=self.u)
        c(('natural bc' if eu else 'essential bc', 1), self.gp, self.cfs[0], root_form=self.phi)

    def solve(self, t):
        now = (lambda F: F.current) if self.adaptive else (lambda F: F)
        F = dict(phi=now(self.phi), u=now(self.u), f=now(self.f))
        F['f'][t].reduce()
        sls = (self.ls.apply() if self.adaptive else self.ls)(t)
        als = sls.assemble()
        x = als.solve('spsolve')
        sls.x.update(x[0])
        d = S.Disc('msehtt', 2)
        d.F, d.tgm = F, F['u'].tgm
        d.ms, d.obj = self.ms, self.obj
        return d, sls, als, x[0]


def blocks(d, sls, geo):
    """{place: local matrices and vectors}"""
    A, b = getattr(sls.A, '_A', None) or sls.A._AAA._A, getattr(sls.b, '_b', None) or sls.b._Bbb._b
    dense = lambda M: None if M is None else M.toarray() if hasattr(M, 'toarray') else np.asarray(M)
    out = {}
    for e, g in geo.items():
        out[g] = [[None if B is None else dense(B[e]) for B in row] for row in A], [None if B is None else dense(B[e]).ravel() for B in b]
    return out


def system(ctx, reps, steps):
    from vm.checks import c14
    rng = ctx.rng
    for r in range(reps):
        m = base_mesh(rng, 'rect')
        p, ts = int(rng.integers(1, 4)), 1
        o = ['outer', 'inner'][int(rng.integers(2))]
        lo, hi = box(m)
        F, g, lap = c14.trig(rng, 2, [[float(a), float(b)] for a, b in zip(lo, hi)], False)
        cfs = ph.vc.scalar(S.pyfun(F, 2)), ph.vc.vector(*[S.pyfun(v, 2) for v in g]), ph.vc.scalar(S.pyfun(lambda t_, *x: -lap(t_, *x), 2))
        secs = sections(rng)
        late = int(rng.integers(3))
        tag = f'{len(m["element_type_dict"])} base elements p={p} ts={ts} {o} {secs[0]} configured at {late}'
        A = ctx.sub('system', lambda: Poisson(m, p, o, secs, cfs, True, ts=ts))
        if A is None:
            continue
        hist, trf, t0 = [], 0, float(np.round(rng.uniform(-1, 1), 4))
        done = False
        for step in range(steps):
            t = t0 + step
            if step:
                name, trf = pick(rng, m, hist)
                hist.append((name, trf))
                if ctx.sub('system', lambda: A.ms.renew(trf, ts=ts) or True) is None:
                    break
            if not done and (step == late or step == steps - 1):
                if rng.random() < .5:               # the system of this generation is in use already
                    ctx.sub('system', lambda: A.ls.apply())
                A.config()
                done = True
            if not done:
                continue
            ctx.case(tag, step, t)
            where = f'{tag} {[h[0] for h in hist]} step {step}'
            a = ctx.sub('system', lambda: A.solve(t))
            if a is None:
                break
            da, sa, aa, xa = a
            ga = geometry(da)
            ba = blocks(da, sa, ga)
            ca = {(k, g_): np.array(da.F[k][t].cochain[e]) for k in ('phi', 'u') for e, g_ in ga.items()}
            ea = [da.F[k][t].error() for k in ('phi', 'u')]

            def fresh():
                s = Poisson(m, p, o, secs, cfs, False, trf, ts)
                s.config()
                return s.solve(t)
            # the parsers work on the implementation applied last, so the adaptive one is brought back afterwards
            s = ctx.sub('system|static', fresh)
            if s is None:
                break
            ds, ss, as_, xs = s
            gs = geometry(ds)
            if not ctx.eq(sorted(ga.values()), sorted(gs.values()), 'system|elements', where):
                break
            ctx.event('system')
            bs = blocks(ds, ss, gs)
            for g_ in ba:
                (M1, v1), (M2, v2) = ba[g_], bs[g_]
                for i in range(2):
                    for j in range(2):
                        x, y = M1[i][j], M2[i][j]
                        if ctx.eq(x is None, y is None, 'system|blocks', where) and x is not None:
                            ctx.close(x, y, 'system|matrix', 1e-12, f'{where} block {i}{j}', scale=np.abs(y).max() + 1e-3)
                    x, y = v1[i], v2[i]
                    if ctx.eq(x is None, y is None, 'system|blocks', where) and x is not None:
                        ctx.close(x, y, 'system|vector', 1e-12, f'{where} block {i}', scale=np.abs(y).max() + 1e-3)
            for k in ('phi', 'u'):
                big = max(np.abs(v).max() for (kk, _), v in ca.items() if kk == k)
                for e, g_ in gs.items():
                    ctx.close(ca[k, g_], ds.F[k][t].cochain[e], 'system|solution', 1e-7, f'{where} {k}', scale=big + 1e-3)
            ctx.close(np.array(ea), np.array([ds.F[k][t].error() for k in ('phi', 'u')]), 'system|error', 1e-6, where)
            if step < steps - 1:                   # only one implementation is alive at a time
                A = ctx.sub('system', lambda: Poisson(m, p, o, secs, cfs, True, ts=ts))
                if A is None:
                    break
                done = False
                late = step + 1 + int(rng.integers(2))
                if hist:
                    ok = ctx.sub('system', lambda: [A.ms.renew(h[1], ts=ts) for h in hist])
                    if ok is None:
                        break


# ---------------------------------------------------------------- time stepping over generations
def stepped(ctx, reps, steps):
    rng = ctx.rng
    for r in range(reps):
        m = base_mesh(rng, ['rect', 'quad'][int(rng.integers(2))])
        p, ts_ = int(rng.integers(1, 4)), 1
        k, o = KEYS[int(rng.integers(6))]
        trf_of = lambda: int(rng.integers(0, 3 if len(m['element_type_dict']) < 3 else 2))
        ph.config.set_auto_cleaning(False)
        manifold, mesh = S.fresh(2)
        sp = ph.space.new('Lambda', k, orientation=o)
        a, g = sp.make_form('a', 'c25a'), sp.make_form('g', 'c25g')
        da = a.time_derivative()
        pde = ph.pde(['da = g'], dict(da=da, g=g))
        pde.unknowns = [a]
        wf = pde.test_with([sp], sym_repr=['v'])
        seq = ph.time_sequence()
        td = wf.td
        td.set_time_sequence(seq)
        td.define_abstract_time_instants('k-1', 'k-1/2', 'k')
        td.differentiate('0-0', 'k-1', 'k')
        td.average('0-1', g, ['k-1/2'] if r % 2 else ['k-1', 'k'])
        wf = td()
        wf.unknowns = [a @ seq['k']]
        dt_ = seq.make_time_interval('k-1', 'k')
        wf = wf.derive.split('0-0', 'f0', [a @ seq['k'], a @ seq['k-1']], ['+', '-'], factors=[1 / dt_, 1 / dt_])
        if not r % 2:
            wf = wf.derive.split('0-2', 'f0', [g @ seq['k-1'], g @ seq['k']], ['+', '+'], factors=[1 / 2, 1 / 2])
        wf = wf.derive.rearrange({0: '0 = 1, 2'} if r % 2 else {0: '0 = 1, 2, 3'})
        ph.space.finite(p)
        ls = wf.mp().ls()
        t0, dt, n = float(np.round(rng.uniform(-1, 1), 3)), float(np.round(rng.uniform(.05, .3), 3)), steps
        seq.specify('constant', [t0, t0 + n * dt, 2 * n], 2)
        tag = f'{len(m["element_type_dict"])} base elements p={p} ts={ts_} {k} {o}'
        ctx.case(tag, 'stepped')

        def start():
            ms, obj = ph.fem.apply('msehtt-a', dict(manifold=manifold, mesh=mesh, ls=ls))
            ms.config('tgm')(m)
            ms.config(obj['mesh'])(ms.tgm(), 'all')
            ms.initialize(ts=ts_)
            return ms, obj
        got = ctx.sub('stepped', start)
        if got is None:
            continue
        ms, obj = got
        A, G_ = ms.base['forms'][a._pure_lin_repr], ms.base['forms'][g._pure_lin_repr]
        comps = 2 if k == 1 else 1
        fs, _ = trig_fields(rng, m, comps)
        cf = lambda q: (ph.vc.scalar if comps == 1 else ph.vc.vector)(*[S.pyfun(lambda t, x, y, f=f: q * f(t, x, y), 2) for f in fs])
        A.cf, G_.cf = cf(1.), cf(-.7)
        A[t0].reduce()
        hist = []
        for kk in range(1, n + 1):
            t1, th, t2 = t0 + (kk - 1) * dt, t0 + (kk - .5) * dt, t0 + kk * dt
            where = f'{tag} {hist} step {kk}'

            def go():
                for t in (t1, th, t2):
                    G_[t].reduce()
                sls = obj['ls'].apply()(k=kk)
                als = sls.assemble()
                x = als.solve('spsolve')
                sls.x.update(x[0])
                return A.current, G_.current
            got = ctx.sub('stepped', go)
            if got is None:
                break
            Ac, Gc = got
            ctx.event('stepped')
            els = list(Ac.tgm.elements)
            for e in els:
                gg = np.asarray(Gc[th].cochain[e]) if r % 2 else .5 * (np.asarray(Gc[t1].cochain[e]) + np.asarray(Gc[t2].cochain[e]))
                want = np.asarray(Ac[t1].cochain[e]) + dt * gg
                ctx.close(Ac[t2].cochain[e], want, 'stepped|step', 1e-9, where, scale=np.abs(want).max() + 1e-3)
            if kk < n and rng.random() < .8:
                trf = trf_of()
                hist.append(trf)
                info = ctx.sub('stepped', lambda: ms.renew(trf, ts=ts_, clean=bool(kk % 2)))
                if info is None:
                    break
                ctx.true(A.current is not Ac, 'stepped|new generation', where)
                have = sorted(A.current.cochain.times)
                ctx.true(any(abs(h - t2) < 1e-7 for h in have), 'stepped|carried over', f'{where} {have} {t2}')


# ---------------------------------------------------------------- cached and read again
class Spot:
    """an indicator which can be written to a file"""
    def __init__(self, c, w):
        self.c, self.w = c, w

    def __call__(self, x, y):
        v = np.exp(-((x - self.c[0]) ** 2 + (y - self.c[1]) ** 2) / self.w ** 2)
        return float(v) if np.ndim(x) == 0 else v


def restored(ctx, reps):
    import pickle
    rng = ctx.rng
    for r in range(reps):
        m = base_mesh(rng, ['rect', 'quad'][int(rng.integers(2))])
        ts, p = int(rng.integers(2)), int(rng.integers(1, 4))
        keys = [KEYS[int(i)] for i in rng.permutation(6)[:2]]
        tag = f'{len(m["element_type_dict"])} base elements p={p} ts={ts} {keys}'
        ph.config.set_auto_cleaning(False)
        A = ctx.sub('restored', lambda: Ada(m, p, keys))
        if A is None or ctx.sub('restored', lambda: A.ms.initialize(ts=ts) or True) is None:
            continue
        lo, hi = box(m)
        files = []
        for step in range(3):
            ctx.case(tag, step)
            if step:
                trf = int(rng.integers(3)) if rng.random() < .4 else dict(rff=Spot(rng.uniform(lo, hi), .3 * (hi - lo).min()), rft=[.3, .6][:int(rng.integers(1, 3))])
                if ctx.sub('restored', lambda: A.ms.renew(trf, ts=ts) or True) is None:
                    break
            d = A.now()
            t = float(step)
            for k in keys:
                d.random_global(k, t, rng)
            want = {k: {g: d.get(k, t)[e] for e, g in geometry(d).items()} for k in keys}
            data = ctx.sub('restored', lambda: pickle.dumps([A.T[k]._make_cache_data(t=[None, ('nearest', 1)][step % 2]) for k in keys]))
            if data is None:
                break
            files.append((t, want, data))
        else:
            fresh = bool(rng.random() < .6)
            if fresh:                               # a new run of the program
                A = ctx.sub('restored', lambda: Ada(m, p, keys))
                if A is None or ctx.sub('restored', lambda: A.ms.initialize(ts=ts) or True) is None:
                    continue
            for i in rng.permutation(3):
                t, want, data = files[i]
                ctx.event('restored')

                def read():
                    for k, v in zip(keys, pickle.loads(data)):
                        A.T[k]._read_cache_data(v)
                    return True
                if ctx.sub('restored', read) is None:
                    break
                d = A.now()
                gd = geometry(d)
                for k in keys:
                    if ctx.eq(sorted(gd.values()), sorted(want[k]), 'restored|mesh', f'{tag} generation {i} fresh={fresh}'):
                        c = d.get(k, t)
                        ctx.true(all(np.array_equal(c[e], want[k][g]) for e, g in gd.items()), 'restored|cochain', f'{tag} generation {i} {k}')
                        ctx.true(abs(max(A.T[k].current.cochain.times) - t) < 1e-7 or t in A.T[k].current.cochain.times, 'restored|time', tag)


# ---------------------------------------------------------------- multi-grid
class Grids:
    """the levels of a multi-grid set-up"""
    def __init__(self, n, args, kw, p, keys, mgc):
        manifold, mesh = S.fresh(n)
        fs = {(k, o): ph.space.new('Lambda', k, orientation=o).make_form(rf'f_{k}^{o}', f'form{k}{o}') for k, o in keys}
        ph.space.finite(p)
        self.ms, self.obj = ph.fem.apply('msehtt-smg', dict(manifold=manifold, mesh=mesh))
        self.ms.config('tgm')(*args, mgc=mgc, **kw)
        self.tgm = self.ms.tgm()
        self.ms.config(self.obj['mesh'])(self.tgm, 'all')
        self.n, self.p = n, p
        self.F = {k: self.ms.base['forms'][v._pure_lin_repr] for k, v in fs.items()}

    def at(self, lvl):
        d = S.Disc('msehtt', self.n)
        d.F = {k: F.get_level(lvl) for k, F in self.F.items()}
        d.tgm = self.tgm.get_level(lvl)
        d.ms, d.obj, d.p = self.ms, self.obj, self.p
        return d


def grid_args(rng, n, plain=False):
    if n == 3:
        return ('crazy',), dict(element_layout=[int(v) for v in rng.integers(1, 3, 3)], c=0., bounds=[[0., float(b)] for b in rng.uniform(.5, 2, 3)], periodic=False), '3d'
    if rng.random() < .3:
        lo = rng.uniform(-1, 1, 2)
        return ('crazy',), dict(element_layout=[int(v) for v in rng.integers(1, 4, 2)], c=0., bounds=[[float(a), float(a + b)] for a, b in zip(lo, rng.uniform(.5, 2, 2))], periodic=False), 'rect'
    K = [int(v) for v in rng.integers(1, 4, 2)]
    how = {} if plain or rng.random() < .4 else dict(rotate=True, flip=True)
    return (C.random_quads(rng, *K, **how),), {}, f'quads {how}'


def centres(d):
    X = [np.array([0.])] * d.n
    return {e: d.mapping(e, *X).ravel() for e in d.elements}


def levels(ctx, reps, n=2):
    rng = ctx.rng
    keys_all = S.SPACES[n]
    for r in range(reps):
        args, kw, what = grid_args(rng, n)
        p = int(rng.integers(1, 4 if n == 2 else 3))
        mgc = int(rng.integers(2, 4 if n == 2 else 3))
        keys = [keys_all[int(i)] for i in rng.permutation(len(keys_all))[:3]]
        tag = f'{what} {len(args[0]["element_type_dict"]) if n == 2 and len(what) > 5 else kw.get("element_layout")} p={p} {mgc} levels'
        ctx.case(tag, r)
        A = ctx.sub('levels', lambda: Grids(n, args, kw, p, keys, mgc))
        if A is None:
            continue
        ctx.eq(list(A.tgm.level_range), list(range(mgc)), 'levels|range', tag)
        ctx.eq(A.tgm.max_level, mgc - 1, 'levels|range', tag)
        D = {}
        for l in [int(v) for v in rng.permutation(mgc)]:
            d = ctx.sub('levels', lambda: A.at(l))
            if d is None:
                break
            for k in keys:
                ctx.true(d.F[k].tgm is d.tgm and A.tgm.find_level(d.F[k]) == l, 'levels|form', f'{tag} level {l}')
            D[l] = d
        if len(D) < mgc:
            continue
        G0 = {}
        for l, d in D.items():
            ctx.event('levels')
            X = [a.ravel() for a in np.meshgrid(*[np.linspace(-1, 1, 3)] * n, indexing='ij')]
            geo = lambda d_: {e: tuple(map(tuple, np.round(d_.mapping(e, *X), 8).T + 0.)) for e in d_.elements}
            G0[l] = geo(d)
            snap = {k: (d.gm(k), d.E(k) if k[0] < n else None) for k in keys}
            s = ctx.sub('levels|static', lambda: S.make_msehtt(n, args, dict(kw, **(dict(ts=l, renumbering=True) if l else {})), p, keys))
            if s is None:
                continue
            gs = geo(s)
            if ctx.eq(sorted(G0[l].values()), sorted(gs.values()), 'levels|elements', f'{tag} level {l}'):
                ctx.eq(len(gs), len(D[0].elements) * 2 ** (n * l), 'levels|number of elements', f'{tag} level {l}')
                at = {g: e for e, g in gs.items()}
                for k in keys:
                    ctx.true(relabel({G0[l][e]: v for e, v in snap[k][0].items()}) == relabel({gs[e]: v for e, v in s.gm(k).items()}), 'levels|numbering', f'{tag} level {l} {k}')
                    if k[0] < n:
                        Es = s.E(k)
                        ctx.true(all(np.array_equal(snap[k][1][e], Es[at[g]]) for e, g in G0[l].items()), 'levels|incidence', f'{tag} level {l} {k}')
        # each element of a level consists of its children
        H = ctx.sub('hierarchy', lambda: A.tgm.hierarchy()) if n == 2 else None
        if H is not None:
            ctx.event('hierarchy')
            ctx.eq(sorted(H), list(range(mgc - 1)), 'hierarchy|levels', tag)
            for l in H:
                ctx.eq(sorted(H[l]), sorted(D[l].elements), 'hierarchy|elements', tag)
                kids = [k_ for v in H[l].values() for k_ in v[1]]
                ctx.eq(sorted(kids), sorted(D[l + 1].elements), 'hierarchy|children', tag)
                for e, (ind, ch) in H[l].items():
                    want = {tuple(v) for v in G0[l][e]}
                    corners = {v for c in ch for v in (G0[l + 1][c][i] for i in (0, 2, 6, 8))}
                    near = lambda a, B: min(np.hypot(a[0] - b[0], a[1] - b[1]) for b in B) < 1e-6
                    ctx.true(len(ch) == 4 and all(near(v, corners) for v in want), 'hierarchy|nested', f'{tag} {l} {e}')


def passing(ctx, reps, n=2):
    rng = ctx.rng
    keys_all = S.SPACES[n]
    for r in range(reps):
        args, kw, what = grid_args(rng, n)
        p = [1, 2, 3, 'MG-N3', 'MG-N4'][int(rng.integers(5))] if n == 2 else [1, 1, 2][int(rng.integers(3))]
        if isinstance(p, str) and what != 'rect':
            p = 1 + r % 2
        mgc = 3 if n == 2 and rng.random() < .25 else 2
        keys = [keys_all[int(i)] for i in rng.permutation(len(keys_all))[:2]]
        tag = f'{what} {kw.get("element_layout")} p={p} {mgc} levels'
        ph.config.set_auto_cleaning(False)
        A = ctx.sub('pass', lambda: Grids(n, args, kw, p, keys, mgc))
        if A is None:
            continue
        D = [A.at(l) for l in range(mgc)]
        if n == 2:
            X = np.array([v for d in D[:1] for v in geometry(d).values()]).reshape(-1, 2)
            lo, hi = X.min(0), X.max(0)
        else:
            lo, hi = np.zeros(3), np.array([b for _, b in kw['bounds']])
        for k in keys:
            comps = 1 if k[0] in (0, n) else n
            w = [(rng.uniform(-1, 1, n) / (hi - lo).max(), float(rng.uniform(0, 6))) for _ in range(comps)]
            fs = [(lambda t, *x, w_=w_, s_=s_: np.sin(sum(a * b for a, b in zip(w_, x)) + s_ + t) + 1.5) for w_, s_ in w]
            F = A.F[k]
            t, t1 = 0.25, 1.5
            cf = D[0].cfun(k, *fs)
            F.cf = cf
            if ctx.sub('pass', lambda: F[t].reduce() or True) is None:
                continue
            # another field than the one of the form, and the degrees of freedom of each level
            gs = [(lambda t, *x, i=i: np.cos(sum(x) * (i + 1) + t) - .4) for i in range(comps)]
            at = D[0].cfun(k, *gs)[.7]
            if ctx.sub('pass|reduce', lambda: F[.7].reduce(at) or True) is not None:
                for l, d in enumerate(D):
                    ctx.event('other field')
                    g = d.F[k].reduce(at)
                    h = d.get(k, .7)
                    ctx.true(all(np.array_equal(g[e], h[e]) for e in d.elements), 'pass|reduce', f'{tag} {k} level {l}')
                    u = d.F[k].reduce(cf[t])
                    h = d.get(k, t)
                    ctx.true(all(np.array_equal(u[e], h[e]) for e in d.elements), 'pass|reduce', f'{tag} {k} level {l} own field')
                F.cf = cf
                if 'flip' not in what:
                    ctx.close(F[.7].error(), D[-1].F[k][.7].error(), 'pass|error', 1e-12, tag)
                    ctx.close(F[t].norm(), D[-1].F[k][t].norm(), 'pass|error', 1e-12, tag)
                e0 = sorted(set(D[0].elements) & set.intersection(*[set(d.elements) for d in D]), key=str)
                g0 = int(D[0].gm(k)[next(iter(D[0].elements))][0])
                got = ctx.sub('pass|dofs', lambda: F[t].cochain.of_dof(g0))
                if got is not None:
                    ctx.eq(sorted(got), list(range(mgc)), 'pass|dofs', tag)
                    for l, d in enumerate(D):
                        e, i = next((e, i) for e, v in d.gm(k).items() for i, q in enumerate(v) if int(q) == g0)
                        ctx.close(got[l], d.get(k, t)[e][i], 'pass|dofs', 1e-12, f'{tag} {k} level {l}')
                if e0:
                    got = ctx.sub('pass|dofs', lambda: F[t].cochain.of_local_dof(e0[0], 0))
                    if got is not None:
                        for l, d in enumerate(D):
                            ctx.close(got[l], d.get(k, t)[e0[0]][0], 'pass|dofs', 1e-12, f'{tag} {k} level {l}')
            for a in range(mgc):
                for b in range(mgc):
                    if a == b:
                        continue
                    where = f'{tag} {k} level {a} from {b}'
                    ctx.case(where)
                    f0, f1 = D[a].F[k], D[b].F[k]
                    cor = ctx.sub('pass|correspondence', lambda: A.tgm.dof_correspondence.global_correspondence(f0, f1))
                    if cor is None:
                        continue
                    want = {e: np.array(f0[t].cochain[e]) for e in D[a].elements}
                    # the field, and the constant 1 at another time
                    if ctx.sub('pass|cochain', lambda: A.tgm.pass_cochain(f1, t, f0, t1) or True) is None:
                        continue
                    got = {e: np.array(f0[t1].cochain[e]) for e in D[a].elements}
                    big = max(np.abs(v).max() for v in want.values())
                    dev = max(np.abs(got[e] - want[e]).max() for e in want)
                    if a < b and p in (1, 2, 'MG-N3', 'MG-N4'):
                        ctx.eq(cor[0], 'complete', 'pass|complete', where)
                    if a > b:
                        ctx.eq(cor[0], 'empty', 'pass|empty', where)
                    if cor[0] == 'complete':
                        ctx.event('complete')
                        # sums of exactly the parts
                        ctx.true(dev <= 1e-7 * big, 'pass|exact', f'{where}: {dev:.2e} of {big:.2e}')
                        gm0, gm1 = D[a].gm(k), D[b].gm(k)
                        used = [v for c in cor[1].values() for v in c]
                        ctx.true(len(used) == len(set(used)), 'pass|used once', where)
                        D[b].random_global(k, 3., rng)
                        v = {int(g): x for e in D[b].elements for g, x in zip(gm1[e], D[b].get(k, 3.)[e])}
                        if ctx.sub('pass|cochain', lambda: A.tgm.pass_cochain(f1, 3., f0, 4.) or True) is not None:
                            c = D[a].get(k, 4.)
                            ctx.true(all(abs(c[e][i] - sum(v[q] for q in cor[1][int(g)])) < 1e-12 for e in c for i, g in enumerate(gm0[e])), 'pass|sum', where)
                            vec = ctx.sub('pass|vector', lambda: A.tgm.pass_vector(f1[3.].cochain.gathered_global_vector, f1, f0))
                            if vec is not None:
                                ctx.true(all(abs(c[e][i] - vec.V[int(g)]) < 1e-12 for e in c for i, g in enumerate(gm0[e])), 'pass|vector', where)
                    else:
                        ctx.event('interpolated')
                        src = err(D[b], k, t, fs) / 2.5
                        ctx.true(dev <= (.03 + 3 * src) * big, 'pass|accuracy', f'{where}: {dev:.2e} of {big:.2e}, accuracy of the source {src:.2e}')
                        before = list(f0.cochain.times), list(f1.cochain.times)
                        vec = ctx.sub('pass|vector', lambda: A.tgm.pass_vector(f1[t].cochain.gathered_global_vector, f1, f0))
                        if vec is not None:
                            gm0 = D[a].gm(k)
                            ctx.true(max(abs(got[e][i] - vec.V[int(g)]) for e in got for i, g in enumerate(gm0[e])) <= .03 * big, 'pass|vector', where)
                            ctx.eq((list(f0.cochain.times), list(f1.cochain.times)), before, 'pass|times left alone', where)


def schemes(ctx, reps):
    """the order of levels of each scheme, and which steps form a cycle"""
    rng = ctx.rng
    kinds = lambda sc: [(type(sc[i]).__name__[0], sc[i]._layer) for i in sc]
    for r in range(reps):
        n = int(rng.integers(2, 7))
        kind = ['V', 'N', 'W', 'FMG'][r % 4]
        if kind in 'VN':
            path = {'V': [*range(n - 1, -1, -1), *range(1, n)], 'N': [*range(n), *range(n - 2, -1, -1), *range(1, n)]}[kind]
            kw = {}
        else:
            lvl, up, seq = (n - 1, False, []) if kind == 'W' else (0, True, [])
            path = [lvl]
            for _ in range(2 * int(rng.integers(1, 4)) - (kind == 'FMG')):
                m = int(rng.integers(1, (n - lvl) if up else lvl + 1)) if (n - 1 - lvl if up else lvl) > 0 else 0
                last = _ == 99
                if m == 0:
                    break
                seq.append(m)
                path += [lvl + (i + 1 if up else -i - 1) for i in range(m)]
                lvl, up = path[-1], not up
            # finish at the top
            if up and lvl < n - 1:
                seq.append(n - 1 - lvl)
                path += range(lvl + 1, n)
            elif not up and lvl < n - 1:
                more = n - 1 - lvl
                seq[-1] += more
                path += range(lvl + 1, n)
            kw = dict(sequences='-'.join(map(str, seq)))
        ctx.case(kind, n, str(kw))
        sc = ctx.sub('scheme', lambda: ph.mgs(kind, n, **kw))
        if sc is None:
            continue
        ctx.event('scheme')
        want = [('R' if b < a else 'I', a) for a, b in zip(path, path[1:])]
        got = kinds(sc)
        if not ctx.eq(got, want, 'scheme|steps', f'{kind} {n} {kw}'):
            continue
        # each restriction belongs to the interpolation which first comes back to its level
        pair = {i: None for i, s in enumerate(want) if s[0] == 'I'}
        for i, (s, l) in enumerate(want):
            if s == 'R':
                for j in range(i + 1, len(want)):
                    if want[j] == ('I', l - 1):
                        pair[j] = i
                        break
        P = ctx.sub('scheme', lambda: dict(sc.pairs))
        if P is not None:
            ctx.eq(sorted(P.items()), sorted(pair.items()), 'scheme|pairs', f'{kind} {n} {kw}')


class MgPoisson:
    def __init__(self, args, kw, p, o, secs, cfs, mgc):
        ls, mp = ph.samples.wf_div_grad(n=2, degree=p, orientation=o)
        self.ms, self.obj = ph.fem.apply('msehtt-smg', dict(ls=ls))
        ms, B = self.ms, self.ms.base
        by = {x.abstract.manifold._sym_repr: x for x in B['meshes'].values()}
        mesh, gu, gp = by[r'\mathcal{M}'], by[r'\Gamma_u'], by[r'\Gamma_\phi']
        ms.config('tgm')(*args, mgc=mgc, **kw)
        self.tgm = ms.tgm()
        ms.config(mesh)(self.tgm, 'all')
        ms.config(by[r'\partial\mathcal{M}'])(self.tgm, mesh)
        for g, s in ((gu, secs[0]), (gp, secs[1])):
            ms.config(g)(self.tgm, {'type': 'boundary_section', 'partial elements': mesh, 'ounv': s})
        self.phi, self.u, self.f = (B['forms'][x] for x in ('potential', 'velocity', 'source'))
        self.phi.cf, self.u.cf, self.f.cf = cfs
        L = self.L = self.obj['ls']
        eu = o == 'outer'
        L.config(('essential bc' if eu else 'natural bc', 1), gu, cfs[1], root_form=self.u)
        L.config(('natural bc' if eu else 'essential bc', 1), gp, cfs[0], root_form=self.phi)


def cycle(ctx, reps):
    from vm.checks import c14
    rng = ctx.rng
    for r in range(reps):
        m = base_mesh(rng, 'rect')
        p, mgc = int(rng.integers(1, 3)), 2 + int(rng.random() < .25 and len(m['element_type_dict']) < 4)
        o = ['outer', 'inner'][int(rng.integers(2))]
        lo, hi = box(m)
        F, g, lap = c14.trig(rng, 2, [[float(a), float(b)] for a, b in zip(lo, hi)], False)
        cfs = ph.vc.scalar(S.pyfun(F, 2)), ph.vc.vector(*[S.pyfun(v, 2) for v in g]), ph.vc.scalar(S.pyfun(lambda t_, *x: -lap(t_, *x), 2))
        secs = sections(rng)
        how = ['direct', 'V', 'N', 'W', 'FMG', 'spsolve'][r % 6]
        sch = how if how in ('direct', 'spsolve') else ph.mgs(how, mgc, **({'W': dict(sequences=['1-1', '1-1-1-1'][r % 2] if mgc == 2 else '2-1-1-2'), 'FMG': dict(sequences='1-1-1' if mgc == 2 else '1-1-2')}.get(how, {})))
        tag = f'{len(m["element_type_dict"])} elements p={p} {mgc} levels {o} {secs[0]} {how}'
        ph.config.set_auto_cleaning(False)
        A = ctx.sub('cycle', lambda: MgPoisson((m,), {}, p, o, secs, cfs, mgc))
        if A is None:
            continue
        order = [int(v) for v in rng.permutation(mgc)]
        ts_ = [float(v) for v in np.round(rng.uniform(-1, 1, 2), 3)]
        res, well = {}, {}
        watched, unk = [], []
        for t in ts_:
            where = f'{tag} t={t}'
            ctx.case(where)

            def go():
                A.f[t].reduce()
                sls = A.L(t)
                out = {}
                for l in order:
                    s = sls.get_level(l)
                    d = S.Disc('msehtt', 2)
                    d.F, d.tgm = dict(u=A.u.get_level(l)), A.tgm.get_level(l)
                    d.ms, d.obj = A.ms, A.obj
                    geo = geometry(d)
                    out[l] = geo, blocks(d, s, geo)
                als = sls.assemble()
                kw = dict(restart=150, maxiter=40) if rng.random() < .5 and how != 'V' else dict(inner_m=150, outer_k=5, maxiter=40) if how != 'V' else dict(inner_m=int(rng.integers(4, 9)), outer_k=2, maxiter=300)
                with watch(watched):
                    x, msg, info = als.solve(sch, x0=0, atol=1e-10, **kw)
                sls.x.update(x)
                unk[:] = [[q._f for q in sls.get_level(l).x._x] for l in (0, 1)]
                top = als.get_level()
                M, b = top.A._M.toarray(), top.b._V if hasattr(top.b, '_V') else top.b.V
                coarse = {}
                for l in range(mgc):
                    coarse[l] = {(k, gg): np.array(f.get_level(l)[t].cochain[e]) for k, f in (('phi', A.phi), ('u', A.u)) for e, gg in out[l][0].items()}
                return out, (np.array(x), M, np.array(b), info), coarse
            got = ctx.sub('cycle', go)
            if got is None:
                break
            out, (x, M, b, info), co = got
            ctx.event('cycle')
            dense = np.linalg.solve(M, b)
            rr, inv = np.linalg.norm(M @ x - b), np.linalg.norm(np.linalg.inv(M), 2)
            done = how in ('direct', 'spsolve') or info == 0
            if done:
                ctx.event('converged')
                ctx.true(rr <= 1e-7 * (1 + np.linalg.norm(b)), 'cycle|solution', f'{where}: residual {rr:.1e} info={info}')
            ctx.true(np.abs(x - dense).max() <= 2 * inv * rr + 1e-9 * (1 + np.abs(dense).max()), 'cycle|solution', f'{where}: {np.abs(x - dense).max():.1e} info={info}')
            # what the finest level found is handed to all others
            for l in range(mgc - 1):
                for k, f in (('phi', A.phi), ('u', A.u)):
                    ind, cor = A.tgm.dof_correspondence.global_correspondence(f.get_level(l), f.get_level(l + 1))
                    if ind == 'complete':
                        gm0, gm1 = f.get_level(l).cochain.gathering_matrix, f.get_level(l + 1).cochain.gathering_matrix
                        d1 = {gg: e for e, gg in out[l + 1][0].items()}
                        v = {int(i): y for (kk, gg), c in co[l + 1].items() if kk == k for i, y in zip(gm1[d1[gg]], c)}
                        for e, gg in out[l][0].items():
                            ctx.close(co[l][k, gg], np.array([sum(v[q] for q in cor[int(i)]) for i in gm0[e]]), 'cycle|coarse levels', 1e-9, f'{where} level {l} {k}', scale=max(map(abs, v.values())) + 1e-6)
            res[t], well[t] = (out, co), done
        for fine, coarse, start in watched if how == 'V' and mgc == 2 else []:
            ctx.event('correction')
            from phyem.msehtt.tools.vector.static.global_gathered import MseHttGlobalVectorGathered as Vec
            (Af, bf, xf), (Ac, bc, xc) = fine, coarse
            f0, f1 = unk
            ctx.close(Ac._M @ xc, bc, 'cycle|coarse equation', 1e-8, tag, scale=np.abs(bc).max() + 1e-6)
            down = Ac._gm_col.merge(*[A.tgm.pass_vector(v, a, b_) for v, a, b_ in zip(Vec(Af._M @ xf - bf, gm=Af._gm_col).split(), f1, f0)])
            ctx.close(bc, down.V, 'cycle|restriction', 1e-9, tag, scale=np.abs(bf).max() + 1e-6)
            up = Af._gm_col.merge(*[A.tgm.pass_vector(v, a, b_) for v, a, b_ in zip(Vec(xc, gm=Ac._gm_col).split(), f0, f1)])
            ctx.close(start, xf - up.V, 'cycle|correction', 1e-8, tag, scale=np.abs(xf).max() + 1e-6)
        for t in res:                               # the same levels set up on their own
            for l in range(mgc):
                where = f'{tag} t={t} level {l}'

                def fresh():
                    s = Poisson(m, p, o, secs, cfs, False, 0, l, **(dict(renumbering=True) if l else {}))
                    s.config()
                    return s.solve(t)
                s = ctx.sub('cycle|static', fresh)
                if s is None:
                    break
                ds, ss, as_, xs = s
                gs = geometry(ds)
                bs = blocks(ds, ss, gs)
                geo, ba = res[t][0][l]
                if not ctx.eq(sorted(ba), sorted(bs), 'cycle|elements', where):
                    continue
                ctx.event('level system')
                for g_ in ba:
                    (M1, v1), (M2, v2) = ba[g_], bs[g_]
                    for i in range(2):
                        for X, Y, w in [(M1[i][j], M2[i][j], 'matrix') for j in range(2)] + [(v1[i], v2[i], 'vector')]:
                            if ctx.eq(X is None, Y is None, 'cycle|blocks', where) and X is not None:
                                ctx.close(X, Y, f'cycle|level {w}', 1e-11, where, scale=np.abs(Y).max() + 1e-3)
                if l == mgc - 1 and well[t]:
                    for k in ('phi', 'u'):
                        big = max(np.abs(v).max() for (kk, _), v in res[t][1][l].items() if kk == k)
                        for e, g_ in gs.items():
                            ctx.close(res[t][1][l][k, g_], ds.F[k][t].cochain[e], 'cycle|top', 1e-5, where, scale=big + 1e-3)


def method2(ctx):
    """the base-element-wise renewal (unfinished code)"""
    rng = ctx.rng
    m = base_mesh(rng, 'rect')
    ctx.case('method 2')
    A = Ada(m, 2, [(0, 'inner')])
    A.ms.initialize(ts=1)
    d = A.now()
    d.random_global((0, 'inner'), 0., rng)
    if ctx.sub('method 2', lambda: A.ms.renew(1, ts=1, use_method=2) or True):
        ctx.eq(list(A.now().F[(0, 'inner')].cochain.times), [0.], 'method 2|times')


class watch:
    """what the coarse levels are asked and what is done with their answers (two-level cycles)"""
    def __init__(self, log):
        self.log = log

    def __enter__(self):
        from phyem.msehtt.multigrid.tools.linear_system.static.solvers import multigrid as M
        from phyem.msehtt.tools.linear_system.static.global_.solvers import mpi_py as I
        self.M, self.keep = M, {k: getattr(M, k, None) for k in ('lgmres', 'spsolve')}
        self.I, self.first = I, I.lgmres
        see = {}

        def sp(A, b):
            x = self.keep['spsolve'](A, b)
            see['coarse'] = A, np.array(b.V, dtype=float), np.array(x[0], dtype=float)
            return x

        def run(A, b, x0, **kw):
            key = kw.get('beta_cache_key')
            start = np.array(x0.V, dtype=float) if hasattr(x0, 'V') else None
            x = self.keep['lgmres'](A, b, x0, **kw)
            if key == 'S0':
                see['fine'] = A, np.array(b.V, dtype=float), np.array(x[0], dtype=float)
            if key == 'SEND' and start is not None and 'fine' in see and 'coarse' in see:
                self.log.append((see['fine'], see['coarse'], start))
            return x
        if all(v is not None for v in self.keep.values()):
            M.spsolve, M.lgmres, I.lgmres = sp, run, run
        return self

    def __exit__(self, *a):
        for k, v in self.keep.items():
            if v is not None:
                setattr(self.M, k, v)
        self.I.lgmres = self.first


def UNITS(tier):
    q = tier == 'quick'
    u = []
    for which in ('rect', 'quad'):
        for i in range(2 if q else 6):
            u.append((f'history/{which}/{i}', history, dict(which=which, reps=3 if q else 8, steps=5 if q else 8)))
    u.append(('levels', levels, dict(reps=4 if q else 12)))
    u.append(('levels3', levels, dict(reps=1 if q else 4, n=3)))
    u.append(('passing', passing, dict(reps=4 if q else 14)))
    u.append(('passing3', passing, dict(reps=1 if q else 4, n=3)))
    u.append(('schemes', schemes, dict(reps=80 if q else 400)))
    u.append(('cycle/0', cycle, dict(reps=6 if q else 18)))
    u.append(('system', system, dict(reps=3 if q else 10, steps=3)))
    u.append(('stepped', stepped, dict(reps=4 if q else 12, steps=4)))
    u.append(('restored', restored, dict(reps=3 if q else 8)))
    u.append(('method2', method2, {}))
    u.append(('history/m1', history, dict(which='quad', reps=2 if q else 6, steps=3, method=1)))
    return u
