"""C19: the number of processes changes nothing."""
import numpy as np
from vm import configs as C
from vm import mpi
from vm.child import ChildFailed
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (number of processes, mesh configuration or problem, degree, queries)',
    assumptions=['msehtt only: msepy does not run on several processes',
                 'the number of processes is at most the number of elements (fewer elements than processes are refused)',
                 'all ranks run on one machine with Open MPI; 2 to 5 ranks are compared with one'],
    note='Every job is run by mpiexec on 1 and on several ranks with the same inputs. Local results (per element) must form a partition and '
         'agree with those of one rank, collective results must be the same on every rank and agree with one rank, sums over ranks '
         '(distributed matrices and vectors) must agree. A job which does not come back on several ranks twice is a deadlock.',
    must_observe=['mesh_job', 'poisson_job', 'files_job', 'nonlinear_job', 'generations_job', 'adaptive_job', 'grids_job', 'steps_job', 'refused', 'parts'])
KEYS2, KEYS3 = S.SPACES[2], S.SPACES[3]


class Out(dict):
    """what one rank saw: 'each' per element, 'all' collective results, 'sum' parts of a sum"""
    def __init__(self):
        super().__init__(each={}, all={}, sum={}, dofs={}, signs={})

    def each(self, name, d):
        self['each'][name] = dict(d)

    def all(self, name, v):
        self['all'][name] = v

    def dofs(self, name, numbering, v):
        """a part (the parts add up) of a vector or square matrix over the global dofs of a numbering"""
        self['dofs'][name] = numbering, np.asarray(v)

    def sum(self, name, v):
        self['sum'][name] = v


def fields(rng, n, comps, periodic=False):
    out = []
    for _ in range(comps):
        w, s = rng.uniform(-2, 2, n), rng.uniform(0, 6)
        if periodic:
            w = 2 * np.pi * np.array([1] + [int(v) for v in rng.integers(2, size=n - 1)])
        out.append(lambda t, *x, w=w, s=s: np.sin(sum(a * b for a, b in zip(w, x)) + s + t) + .3)
    return out


def everywhere(d):
    """all elements of all ranks, in an order common to all"""
    from mpi4py import MPI
    return sorted((e for part in MPI.COMM_WORLD.allgather(list(d.elements)) for e in part), key=str)


def directions(d, k, p, e):
    """which degrees of freedom take a minus in this element (a choice between two neighbours)"""
    n = d.F[k].cochain.gathering_matrix.num_local_dofs(e) if hasattr(d.F[k].cochain.gathering_matrix, 'num_local_dofs') else len(d.F[k].cochain.gathering_matrix[e])
    s = np.ones(n)
    el = d.tgm.elements[e]
    for f in el.dof_reverse_info.get(f'm{d.n}n{d.n}k{k[0]}_{k[1]}', []):
        s[el.find_local_dofs_on_face(f'm{d.n}n{d.n}k{k[0]}_{k[1]}', p, f)] = -1
    return s


def batch(jobs):
    return [globals()[job](**kw) for job, kw in jobs]


def mesh_job(conf, p, keys, seed):
    import random
    random.seed(seed), np.random.seed(seed)
    rng = np.random.default_rng(seed)
    d = C.build(conf, p, keys, rng=rng)
    rng = np.random.default_rng(seed + 1)
    o = Out()
    n, c = d.n, d.conf
    x = [a.ravel() for a in np.meshgrid(*[np.linspace(-1, 1, 3)] * n, indexing='ij')]
    o.each('places', {e: d.mapping(e, *x) for e in d.elements})
    o.each('types', {e: str(d.etype(e)) for e in d.elements})
    o.each('numbering of nodes', {e: [int(v) for v in d.tgm.elements.map_(e)] for e in d.elements})
    E = everywhere(d)
    o.all('names', [str(e) for e in E])
    bm = d.obj.get('bm')
    if bm is not None:
        o.each('boundary', {f: bm.composition[f].ct.mapping(*[np.linspace(-1, 1, 3)] * (n - 1)) if n == 2 else 0 for f in bm.composition})
        o.sum('boundary size', len(bm.composition))
    for k in keys:
        F = d.F[k]
        cf = d.cfun(k, *fields(rng, n, d.ncomp(k), c.get('periodic')))
        sg = lambda k: {e: directions(d, k, p, e) for e in d.elements}
        s0 = sg(k)
        gm = F.cochain.gathering_matrix
        o.each(f'numbering {k}', {e: [int(v) for v in gm[e]] for e in d.elements})
        o.all(f'dofs {k}', gm.num_global_dofs)
        o.all(f'size {k}', gm.num_global_elements)
        o.sum(f'rank elements {k}', gm.num_rank_elements)
        d.F[k].cf = cf
        d.F[k][.3].reduce()
        plain = lambda c: {e: s0[e] * c[e] for e in d.elements}
        o.each(f'cochain {k}', plain(d.get(k, .3)))
        t = F[.3]
        if k[0] < n:
            s1 = sg((k[0] + 1, k[1]))
            o.each(f'incidence {k}', {e: s1[e][:, None] * M * s0[e] for e, M in d.E(k).items()})
            D = t.coboundary()
            o.each(f'coboundary {k}', {e: s1[e] * np.array(D[e]) for e in d.elements})
        o.all(f'error {k}', t.error())
        if k[0] < n and not c.get('tri'):
            o.all(f'd error {k}', t.error(error_type='d_L2'))
        if not c.get('nomass'):
            o.each(f'mass {k}', {e: s0[e][:, None] * M * s0[e] for e, M in d.M(k).items()})
            o.all(f'norm {k}', t.norm())
            if k[0] in (0, n):
                o.all(f'total {k}', t.mass())
        if n == 2 or c.get('ortho'):
            R = d.recon(k, .3, *[np.array([-.7, .2, .9])] * n)
            o.each(f'values {k}', {e: v[1] for e, v in R.items()})
        if bm is not None and n == 2 and k == (1, 'outer') and not c.get('tri'):
            o.all(f'flux {k}', t.flux_over_boundary_section(bm))
        if bm is not None and k[0] < n and hasattr(bm.composition, 'find_dofs'):
            try:
                f = bm.composition.find_dofs(F, local=True)
                o.each(f'boundary dofs {k}', {e: sorted(int(v) for v in f[e]) for e in f})
            except NotImplementedError:
                pass
        # single degrees of freedom, the same on every rank
        some = [E[int(v)] for v in rng.integers(len(E), size=3)]
        o.all(f'dof {k}', [abs(float(t.cochain.of_local_dof(e, 0))) for e in some])
        g = t.cochain.gathered_global_vector
        o.each(f'gathered {k}', plain({e: g.V[gm[e]] for e in d.elements}))
        from mpi4py import MPI
        first = MPI.COMM_WORLD.bcast(next(iter(int(gm[e][-1]) for e in d.elements)))
        o.all(f'dof of {k}', float(t.cochain.of_dof(first)) - float(g.V[first]))
        t.cochain.homogenous()
        o.each(f'homogenous {k}', plain(d.get(k, .3)))
    return o


def share(v):
    from mpi4py import MPI
    return MPI.COMM_WORLD.bcast(v)


def disc(conf, p, keys, seed):
    import random
    random.seed(seed), np.random.seed(seed)
    d = C.build(conf, p, keys, rng=np.random.default_rng(seed))
    return d, np.random.default_rng(seed + 1)


def files_job(conf, p, keys, seed, path):
    """values written to files and what is read from them; exports; samples at points"""
    import contextlib
    import os
    from vm.checks import c15
    o = Out()
    ph.config.set_auto_cleaning(False)
    d, rng = disc(conf, p, keys, seed)
    cfs = {k: d.cfun(k, *fields(rng, d.n, d.ncomp(k), d.conf.get('periodic'))) for k in keys}
    T = (.1, .4)
    for k in keys:
        d.F[k].cf = cfs[k]
        for t in T:
            d.F[k][t].reduce()
    name = {k: f'{path}_{k[0]}{k[1]}' for k in keys}
    S_ = {k: {e: directions(d, k, p, e) for e in d.elements} for k in keys}
    for k in keys:
        d.F[k].saveto(name[k])
    for k in keys:
        d.F[k].cochain.clean('all')
        d.F[k].read(name[k])
        o.all(f'times {k}', [float(v) for v in sorted(d.F[k].cochain.times)])
        for t in T:
            o.each(f'read {k} {t}', {e: S_[k][e] * v for e, v in d.get(k, t).items()})
    g = [np.linspace(-.9, .9, 3)] * d.n
    for k in keys:
        D = d.F[k].numeric.rws(T[1], ddf=.02)
        o.all(f'samples {k}', share(None if D is None else [{str(e): np.asarray(v) for e, v in q.items()} for q in list(D._coo_dict_list) + list(D._val_dict_list)]))
        D = d.F[k].numeric.rws(T[1], ddf=.02, data_only=True)
        o.all(f'samples only {k}', share(None if D is None or D[0] is None else [{str(e): np.asarray(v) for e, v in q.items()} for q in list(D[0]) + list(D[1])]))
        f = f'{path}_rws{k[0]}{k[1]}'
        d.F[k][T[0]].export.rws(f, ddf=.02)
        B = ph.read(f)
        o.all(f'file of samples {k}', share(None if B is None else [{str(e): np.asarray(v) for e, v in q.items()} for q in list(B._coo_dict_list) + list(B._val_dict_list)]))
        _, itp = d.F[k].numeric._interpolate_(T[0], ddf=.05)
        _, coo, val = d.F[k].numeric._interpolate_(T[0], ddf=.05, data_only=True)
        rows = np.array([np.ravel(v) for v in list(coo) + list(val)]).T
        rows = rows[np.lexsort(np.round(rows[:, ::-1], 7).T)]
        o.sum(f'neighbours {k}', 0 * rows.shape[0])
        o.each(f'sampled {k}', {tuple(np.round(r[:d.n], 7) + 0.): r for r in rows})
    if conf in VTK:
        f = path + '_vtk'
        d.F[keys[0]][T[0]].export.vtk(f, ddf=.5)
        from mpi4py import MPI
        MPI.COMM_WORLD.Barrier()
        pts, cells, data, num = c15.parse_vtu(f + '.vtu')
        o.all('vtk numbers', [int(v) for v in num])
        v = next(iter(data.values())).reshape(len(pts), -1)
        rows = np.hstack([pts, v])
        if keys[0][0] == 0:
            o.all('vtk values', rows[np.lexsort(np.round(rows[:, ::-1], 6).T)])
        o.all('vtk points', np.sort(np.round(pts, 6), axis=0))
    return o



def nonlinear_job(seed, p, prob, scheme, on):
    """a nonlinear system: integrals, residual, iterations and solution"""
    from vm.checks import c17
    rng = np.random.default_rng(seed)
    o = Out()
    ph.config.set_auto_cleaning(False)
    M, mesh = S.fresh(2, on == 'periodic')
    fm, deg, nls = c17.abstract(2, prob, p)
    ms, obj = ph.fem.apply('msehtt', dict(nls=nls, M=M, mesh=mesh))
    if on == 'periodic':
        ms.config('tgm')('crazy', element_layout=[3, 3], c=float(rng.uniform(0, .1)), bounds=[[0., 1.], [0., 1.5]], periodic=True)
    else:
        ms.config('tgm')(C.rankwise(C.random_quads(rng, 2, 3, amp=.2)))
    d = S.Disc('msehtt', 2)
    d.tgm, d.ms, d.obj, d.p = ms.base['the_great_mesh'], ms, obj, p
    ms.config(obj['mesh'])(d.tgm, 'all')
    F = {x: ms.base['forms'][fm[x]._pure_lin_repr] for x in fm}
    UNK, SRC = c17.names(prob)
    t = .5
    for x in F:
        cs = [(lambda t_, *y, f=f: .2 * f(t_, *y)) for f in fields(rng, 2, 2 if deg[x][0] == 1 else 1, on == 'periodic')]
        F[x].cf = (ph.vc.scalar if len(cs) == 1 else ph.vc.vector)(*[S.pyfun(f, 2) for f in cs])
        F[x][t].reduce()
    s = obj['nls'].apply()(t)
    d.F = {deg[x]: F[x] for x in F}
    sg = {x: {e: directions(d, deg[x], p, e) for e in d.elements} for x in F}
    for x in F:
        gm = F[x].cochain.gathering_matrix
        o.each(f'numbering {x}', {e: [int(v) for v in gm[e]] for e in d.elements})
    R = s.evaluate_f([F[x].cochain.static_vec(t) for x in UNK])
    for x, v in zip(UNK, R):
        o.each(f'residual {x}', {e: sg[x][e] * np.ravel(v[e].toarray() if hasattr(v[e], 'toarray') else v[e]) for e in d.elements})
    E = everywhere(d)
    if int(rng.integers(2)):
        # one dof inside an element has the same place whatever the numbering
        x = UNK[0] if deg[UNK[0]][0] else UNK[-1]
        e = E[int(rng.integers(len(E)))]
        from mpi4py import MPI
        gm = F[x].cochain.gathering_matrix
        q = [v for v in MPI.COMM_WORLD.allgather(int(gm[e][-1]) if e in gm else None) if v is not None][0]
        if deg[x][0] == 2 or p > 1:
            if scheme == 'Picard':
                s.customize.set_global_dofs_for_unknown(UNK.index(x), [q], [.1])
            else:
                s.customize.fixed_global_dofs_for_unknown(UNK.index(x), [q])
                s.customize.set_x0_for_unknown(UNK.index(x), [q], [.1])
    try:
        X, msg, info = s.solve([F[x] for x in UNK], atol=1e-9, maxiter=6, scheme=scheme)
    except NotImplementedError as ex:
        if 'signatures' not in str(ex):
            raise
        o.all('refused', True)
        return o
    o.all('steps', len(info['residuals']))
    o.all('convergence', info['convergence info'])
    o.all('log of residuals', [float(np.log10(v + 1e-8)) for v in info['residuals']][:3])
    for x in UNK:
        c = F[x].cochain[t]
        o.each(f'solution {x}', {e: sg[x][e] * np.asarray(c[e]) for e in d.elements})
    return o


def big(rng, which):
    """enough elements for all ranks"""
    from vm.checks import c25
    while True:
        m = c25.base_mesh(rng, which)
        if len(m['element_type_dict']) >= 4:
            return m


def generations_job(seed, p, keys, which, ts, steps):
    """meshes renewed while the cochains are carried over"""
    from vm.checks import c25
    rng = np.random.default_rng(seed)
    o = Out()
    ph.config.set_auto_cleaning(False)
    m = big(rng, which)
    A = c25.Ada(m, p, keys)
    A.ms.initialize(ts=ts)
    fs = {k: c25.trig_fields(rng, m, 2 if k[0] == 1 else 1)[0] for k in keys}
    before = []
    for i in range(steps):
        if i:
            before.append(c25.pick(rng, m, before))
            A.ms.renew(before[-1][1], ts=ts)
        d = A.now()
        geo = c25.geometry(d)
        o.each(f'places {i}', {geo[e]: np.array(geo[e]) for e in d.elements})
        for k in keys:
            sg = {e: directions(d, k, p, e) for e in d.elements}
            gm = d.F[k].cochain.gathering_matrix
            o.each(f'numbering {i} {k}', {geo[e]: [int(v) for v in gm[e]] for e in d.elements})
            F = d.F[k]
            if i:
                for t in sorted(F.cochain.times):
                    o.each(f'carried {i} {k} {t}', {geo[e]: np.abs(d.get(k, t)[e]) for e in d.elements})
            F.cf = d.cfun(k, *fs[k])
            F[float(i)].reduce()
            o.each(f'reduced {i} {k}', {geo[e]: sg[e] * d.get(k, float(i))[e] for e in d.elements})
            if not ts:
                o.all(f'error {i} {k}', F[float(i)].error())
        bm = A.ms.base['meshes']
    return o


def adaptive_job(seed, p, o, steps):
    """a linear system on a mesh which is renewed after each solution"""
    from vm.checks import c14, c25
    rng = np.random.default_rng(seed)
    out = Out()
    ph.config.set_auto_cleaning(False)
    m = big(rng, 'quad')
    lo, hi = c25.box(m)
    F, g, lap = c14.trig(rng, 2, [[float(a), float(b)] for a, b in zip(lo, hi)], False)
    cfs = ph.vc.scalar(S.pyfun(F, 2)), ph.vc.vector(*[S.pyfun(v, 2) for v in g]), ph.vc.scalar(S.pyfun(lambda t_, *x: -lap(t_, *x), 2))
    A = c25.Poisson(C.rankwise(m), p, o, c25.sections(rng), cfs, True, 0, 1)
    A.config()
    before = []
    for i in range(steps):
        if i:
            before.append(c25.pick(rng, m, before))
            A.ms.renew(before[-1][1], ts=1)
        t = .5 * i
        d, sls, als, x = A.solve(t)
        geo = c25.geometry(d)
        out.all(f'size {i}', [int(v) for v in als.shape])
        for nm, f in (('phi', A.phi.current), ('u', A.u.current)):
            out.each(f'solution {i} {nm}', {geo[e]: np.abs(np.asarray(f[t].cochain[e])) for e in d.elements})
            out.all(f'error {i} {nm}', f[t].error())
    return out


def grids_job(seed, p, o, how, mgc):
    """the levels of a multi-grid problem and its solution by a cycle"""
    from vm.checks import c14, c25
    rng = np.random.default_rng(seed)
    out = Out()
    ph.config.set_auto_cleaning(False)
    m = big(rng, 'rect')
    lo, hi = c25.box(m)
    F, g, lap = c14.trig(rng, 2, [[float(a), float(b)] for a, b in zip(lo, hi)], False)
    cfs = ph.vc.scalar(S.pyfun(F, 2)), ph.vc.vector(*[S.pyfun(v, 2) for v in g]), ph.vc.scalar(S.pyfun(lambda t_, *x: -lap(t_, *x), 2))
    A = c25.MgPoisson((C.rankwise(m),), {}, p, o, c25.sections(rng), cfs, mgc)
    t = .25
    A.f[t].reduce()
    sls = A.L(t)
    sch = how if how in ('direct', 'spsolve') else ph.mgs(how, mgc, **({'W': dict(sequences='1-1'), 'FMG': dict(sequences='1-1-1')}.get(how, {})))
    geo = {}
    for l in range(mgc):
        d = S.Disc('msehtt', 2)
        d.F, d.tgm = dict(u=A.u.get_level(l)), A.tgm.get_level(l)
        geo[l] = c25.geometry(d)
        gm = A.phi.get_level(l).cochain.gathering_matrix
        out.each(f'numbering {l}', {geo[l][e]: [int(v) for v in gm[e]] for e in geo[l]})
        out.each(f'source {l}', {geo[l][e]: np.abs(np.asarray(A.f.get_level(l)[t].cochain[e])) for e in geo[l]})
    als = sls.assemble()
    x, msg, info = als.solve(sch, x0=0, atol=1e-11, **(dict(restart=150, maxiter=40) if how != 'V' else dict(inner_m=150, outer_k=5, maxiter=40)))
    sls.x.update(x)
    out.all('converged', how in ('direct', 'spsolve') or info == 0)
    for l in range(mgc):
        for nm, f in (('phi', A.phi), ('u', A.u)):
            out.each(f'solution {l} {nm}', {geo[l][e]: np.abs(np.asarray(f.get_level(l)[t].cochain[e])) for e in geo[l]})
            out.all(f'error {l} {nm}', f.get_level(l)[t].error())
    # hand a cochain to another level
    for nm, f in (('phi', A.phi), ('u', A.u), ('f', A.f)):
        for a, b in ((0, 1), (1, 0)):
            fa, fb = f.get_level(a), f.get_level(b)
            t2 = float(9 + 2 * a + b)
            A.tgm.pass_cochain(fa, t, fb, t2)
            ind, _ = A.tgm.dof_correspondence.global_correspondence(fb, fa)
            out.each(f'{"handed" if ind == "complete" else "projected"} {nm} {a} {b}', {geo[b][e]: np.abs(np.asarray(fb[t2].cochain[e])) for e in geo[b]})
    return out


class Stop(Exception):
    pass


def steps_job(seed, p, path):
    """an iteration in time with monitoring and caching, interrupted and run again, with forms"""
    from vm.checks.c16 import Clock, make_solver, patched
    rng = np.random.default_rng(seed)
    o = Out()
    key = (1, 'outer')
    d = C.build('ht2o', p, [key], rng=rng)
    F = d.F[key]
    cf = d.cfun(key, *fields(rng, 2, 2))
    N, w, last = 6, float(rng.uniform(.5, .9)), int(rng.integers(3, 9))
    F.cf = cf
    sg = {e: directions(d, key, p, e) for e in d.elements}
    clock, stop, calls = Clock(), [None], []

    def fn(x):
        if stop[0] is not None and len(calls) >= stop[0]:
            raise Stop
        calls.append(x[0])
        clock.t += 1.
        k = float(x[0])
        old = F[k - 1].cochain
        F[k].cochain = {e: w * np.asarray(old[e]) for e in d.elements}
        return [int(x[0] >= last), f'step {x[0]}', F[k].error(), F[k].norm()]

    def fresh(name, cache=False):
        it = ph.iterator(make_solver(fn, 1, ['e', 'n']), None, name=path + name)
        if cache:
            it.cache(F, time=1e-3)
        return it

    def table(it):
        R = it.RDF
        return share(None if R is None else [[float(v) for v in row] for row in R.to_numpy(dtype=float)])
    with patched(clock):
        F.cochain.clean('all')
        F[0.].reduce()
        it = fresh('ref')
        it.run(range(1, N + 1), pbar=False)
        o.all('table', table(it))
        o.all('calls', list(calls))
        for session in range(6):
            calls.clear()
            F.cochain.clean('all')
            F[0.].reduce()
            stop[0] = int(rng.integers(1, 3)) if session < 5 else None
            it = fresh('c', True)
            try:
                it.run(range(1, N + 1), pbar=False)
                break
            except Stop:
                pass
        o.all('sessions', session)
        o.all('calls of the last', list(calls))
        o.all('table after interruptions', table(it))
        t = max(F.cochain.times)
        o.all('newest', float(t))
        o.each('final', {e: sg[e] * np.asarray(F[t].cochain[e]) for e in d.elements})
    return o


def poisson_job(seed, p, o, how, K):
    from vm.checks import c14, c25
    rng = np.random.default_rng(seed)
    m = C.random_quads(rng, *K, amp=.2, stretch=tuple(rng.uniform(.5, 2, 2)))
    lo, hi = c25.box(m)
    F, g, lap = c14.trig(rng, 2, [[float(a), float(b)] for a, b in zip(lo, hi)], False)
    cfs = ph.vc.scalar(S.pyfun(F, 2)), ph.vc.vector(*[S.pyfun(v, 2) for v in g]), ph.vc.scalar(S.pyfun(lambda t_, *x: -lap(t_, *x), 2))
    secs = c25.sections(rng)
    A = c25.Poisson(m, p, o, secs, cfs, False, 0, 0)
    A.config()
    out = Out()
    t = .25
    A.f[t].reduce()
    sls = A.ls(t)
    fix = int(rng.integers(3))
    E = sorted(m['element_type_dict'])
    if fix == 1:
        sls.customize.set_local_dof(1 if o == 'outer' else 0, E[int(rng.integers(len(E)))], 0, .4)
    d = S.Disc('msehtt', 2)
    d.F, d.tgm = dict(phi=A.phi, u=A.u, f=A.f), A.u.tgm
    d.ms, d.obj = A.ms, A.obj
    for nm, sec in (('u', A.gu), ('phi', A.gp)):
        out.each(f'section {nm}', {f: np.array(sec.composition[f].ct.mapping(np.linspace(-1, 1, 3))) for f in sec.composition})
    als = sls.assemble()
    gm = sls.global_gathering_matrices[0]
    out.each('numbering', {e: [int(v) for v in gm[e]] for e in d.elements})
    ku, kp = ((1, 'outer'), (2, 'outer')) if o == 'outer' else ((1, 'inner'), (0, 'inner'))
    d.F.update({ku: A.u, kp: A.phi})
    su = {e: directions(d, ku, p, e) for e in d.elements}
    sp = {e: directions(d, kp, p, e) for e in d.elements}
    uk = [x._f for x in sls.x._x]
    sg = out['signs']['numbering'] = {e: np.concatenate([su[e] if f is A.u else sp[e] for f in uk]) for e in d.elements}
    out.all('shape', [int(v) for v in als.shape])
    out.all('rank', int(als.rank))
    out.all('singularities', int(als.num_singularities))
    out.all('condition', float(np.log10(als.condition_number)))
    out.dofs('matrix', 'numbering', als.A._M.toarray())
    out.dofs('right side', 'numbering', als.b.V)
    G = als.A.gather()
    out.sum('entries', 0. if G is None else float(np.abs(G.toarray()).sum()))
    out.all('value', float(als.A.value_at(0, 0)) - float(als.A.value_at(0, 0)))
    out.sum('stored', 0)
    out.all('nnz of rows', sorted(int(als.A.nnz_of_row(i)) for i in range(als.shape[0])))
    out.all('nnz of columns', sorted(int(als.A.nnz_of_col(i)) for i in range(als.shape[0])))
    diag = als.A.diagonal()
    diag = diag.diagonal() if hasattr(diag, 'diagonal') and np.ndim(diag) != 1 else diag
    out.each('diagonal', {e: diag[gm[e]] for e in d.elements} if np.ndim(diag) else {})
    out.all('trace', float(diag.sum()))
    if how == 'spsolve':
        x = als.solve('spsolve')
    else:
        x = als.solve(how, x0=0, atol=1e-11, maxiter=300, **(dict(inner_m=60, outer_k=6) if how == 'lgmres' else dict(restart=60)))
        out.all('converged', x[2] == 0)
    sls.x.update(x[0])
    out.each('solution', {e: np.concatenate([sp[e] * np.array(A.phi[t].cochain[e]), su[e] * np.array(A.u[t].cochain[e])]) for e in d.elements})
    out.each('vector', {e: sg[e] * np.array(x[0])[gm[e]] for e in d.elements})
    out.all('error', [A.phi[t].error(), A.u[t].error()])
    out.all('flux', [A.u[t].flux_over_boundary_section(s) for s in (A.gu, A.gp)] if o == 'outer' else [])
    for nm, f, sec in (('u', A.u, A.gu), ('phi', A.phi, A.gp)):
        try:
            q = sec.composition.find_dofs(f, local=True)
            out.each(f'section dofs {nm}', {e: sorted(int(v) for v in q[e]) for e in q})
        except NotImplementedError:
            pass
    return out


def shape(v):
    if isinstance(v, dict):
        return {k: shape(w) for k, w in v.items()}
    return v


def agree(ctx, a, b, key, where, tol=1e-9):
    """a: several ranks, b: one rank"""
    if isinstance(b, dict):
        if ctx.eq(sorted(map(str, a)) if isinstance(a, dict) else type(a), sorted(map(str, b)), key, where):
            for k in b:
                agree(ctx, a[k], b[k], key, f'{where} [{k}]', tol)
    elif isinstance(b, (str, bool, int, type(None))):
        ctx.eq(a, b, key, where)
    elif isinstance(b, (list, tuple)) and not all(np.isscalar(v) for v in b):
        if ctx.eq(len(a), len(b), key, where):
            for u, v in zip(a, b):
                agree(ctx, u, v, key, where, tol)
    else:
        b = np.asarray(b)
        if b.dtype.kind in 'US':
            ctx.eq(list(a), list(b), key, where)
            return
        if b.dtype.kind == 'f' and np.isnan(b).any() and np.shape(a) == b.shape:
            a = np.asarray(a, float)
            if not ctx.eq(np.isnan(a).tolist(), np.isnan(b).tolist(), key, where):
                return
            a, b = np.nan_to_num(a), np.nan_to_num(b)
        ctx.close(a, b, key, tol, where, scale=max(1e-6, np.abs(b).max()) if b.size else None)


def relabel(gm):
    seen, out = {}, {}
    for g in sorted(gm, key=str):
        out[g] = [seen.setdefault(int(v), len(seen)) for v in gm[g]]
    return out


def run(ctx, jobs, n, timeout):
    """the results of each job, rank by rank; None where it failed"""
    try:
        r = mpi.call('vm.checks.c19', 'batch', n, timeout=timeout, jobs=[(j, kw) for j, _, kw in jobs])
        return [[rank[i] for rank in r] for i in range(len(jobs))]
    except (ChildFailed, mpi.NoAnswer) as ex:
        if len(jobs) > 1:
            return [run(ctx, [j], n, timeout)[0] for j in jobs]
        job, tag, _ = jobs[0]
        if isinstance(ex, mpi.NoAnswer):
            ctx.fail(f'{job}|no answer', f'{tag} on {n} ranks: {ex}')
        elif n > 3 and any(w in str(ex) for w in ('lower than SIZE', 'is distributed no element', 'have no elements')):
            ctx.event('too few elements')
        elif not ex.in_repo:
            raise RuntimeError(str(ex))
        else:
            ctx.fail(f'{job}|raised', f'{tag} on {n} ranks: {ex}')
        return [None]


def compare(ctx, jobs, ranks, tol=1e-9, timeout=200):
    """run the jobs on one rank and on several and compare everything they saw"""
    res = {n: run(ctx, jobs, n, timeout) for n in [1] + list(ranks)}
    for i, (job, tag, _) in enumerate(jobs):
        for n in ranks:
            if res[1][i] is not None and res[n][i] is not None:
                ctx.case(job, tag, n)
                ctx.event(job)
                judge(ctx, job, f'{tag} on {n} ranks', res[1][i][0], res[n][i], tol)
    return res


def judge(ctx, job, tag, one, many, tol):
    for name in one['each']:
        where = f'{tag}: {name}'
        got = {}
        for r, m in enumerate(many):
            for e, v in m['each'][name].items():
                ctx.true(e not in got, f'{job}|each element on one rank', f'{where} {e}')
                got[e] = v
        want = one['each'][name]
        if not ctx.eq(sorted(map(str, got)), sorted(map(str, want)), f'{job}|elements', where):
            continue
        if name.startswith('numbering'):
            ctx.true(relabel(got) == relabel(want), f'{job}|numbering', where)
            continue
        for e in want:
            agree(ctx, got[e], want[e], f'{job}|{name.split()[0]}', f'{where} {e}', LOOSE.get(name.split()[0], tol))
    for name, want in one['all'].items():
        for r, m in enumerate(many):
            agree(ctx, m['all'][name], want, f'{job}|{name.split()[0]}', f'{tag}: {name} on rank {r}', tol)
    for name, (by, want) in one['dofs'].items():
        new, old = ({}, {})
        for m in many:
            new.update(m['each'][by])
        old = one['each'][by]
        if relabel(new) != relabel(old):
            continue
        ds_, da = {}, one['signs'][by]
        for m in many:
            ds_.update(m['signs'][by])
        at = {int(v): (int(w), a * b) for e in old for v, w, a, b in zip(old[e], new[e], da[e], ds_[e])}
        sg = np.array([at[i][1] for i in range(len(at))])
        at = [at[i][0] for i in range(len(at))]
        got = np.zeros(np.shape(want)) + sum(m['dofs'][name][1] for m in many)
        back = np.argsort(at)
        got = got * (np.outer(sg[back], sg[back]) if got.ndim == 2 else sg[back])
        agree(ctx, got[np.ix_(at, at)] if got.ndim == 2 else got[at], want, f'{job}|{name.split()[0]}', f'{tag}: {name}', tol)
    for name, want in one['sum'].items():
        agree(ctx, sum(m['sum'][name] for m in many), want, f'{job}|{name.split()[0]}', f'{tag}: {name}', tol)


VTK = ['ht2', 'ht2o', 'ht2m', 'ht2q', 'ht3o']
# nearest neighbours are not unique
LOOSE = dict(projected=.3, carried=.02)
HT = [c for c in C.CONF if C.CONF[c]['impl'] == 'msehtt' and c != 'ht2cht']


def meshes(ctx, names, ranks):
    rng = ctx.rng
    jobs = []
    for name in names:
        n = C.CONF[name]['n']
        p = int(rng.integers(1, 4 if n == 2 else 3))
        jobs.append(('mesh_job', f'{name} p={p}', dict(conf=name, p=p, keys=list(S.SPACES[n]), seed=ctx.seed)))
    compare(ctx, jobs, ranks)


def poisson(ctx, reps, ranks):
    rng = ctx.rng
    jobs = []
    for r in range(reps):
        how = ['spsolve', 'gmres', 'lgmres'][r % 3]
        o = ['outer', 'inner'][int(rng.integers(2))]
        K = [int(v) for v in rng.integers(2, 4, 2)]
        p = int(rng.integers(1, 4))
        jobs.append(('poisson_job', f'{K} p={p} {o} {how}', dict(seed=int(rng.integers(10 ** 6)), p=p, o=o, how=how, K=K)))
    compare(ctx, jobs, ranks, tol=1e-7)


def files(ctx, names, ranks):
    import os
    rng = ctx.rng
    jobs = []
    for i, name in enumerate(names):
        n = C.CONF[name]['n']
        p = int(rng.integers(1, 3))
        keys = [S.SPACES[n][int(v)] for v in rng.permutation(len(S.SPACES[n]))[:3]]
        jobs.append(('files_job', f'{name} p={p} {keys}', dict(conf=name, p=p, keys=keys, seed=ctx.seed, path=f'f{i}')))
    compare(ctx, jobs, ranks, tol=1e-8)


def nonlinear(ctx, reps, ranks):
    rng = ctx.rng
    jobs = []
    probs = ['wxu', 'known', 'cd_wxu', 'cd_PQ', 'cd_wu', 'all', 'ab', 'kb', 'cd_kdb', 'kdb', 'adm']
    for r, i in enumerate(rng.permutation(len(probs))[:reps]):
        q, on = probs[int(i)], ['periodic', 'quads'][int(rng.integers(2))]
        if on == 'quads' and q in ('cd_wxu', 'cd_PQ', 'cd_wu', 'all', 'cd_kdb'):
            on = 'periodic'
        p, sch = int(rng.integers(1, 3)), ['Newton-Raphson', 'Picard'][int(rng.integers(2))]
        jobs.append(('nonlinear_job', f'{q} p={p} {sch} {on}', dict(seed=int(rng.integers(10 ** 6)), p=p, prob=q, scheme=sch, on=on)))
    compare(ctx, jobs, ranks, tol=1e-6)


def generations(ctx, reps, ranks):
    from vm.checks import c25
    rng = ctx.rng
    jobs = []
    for r in range(reps):
        keys = [c25.KEYS[int(v)] for v in rng.permutation(6)[:3]]
        which, ts, p = ['rect', 'quad'][int(rng.integers(2))], r % 2, int(rng.integers(1, 4))
        jobs.append(('generations_job', f'{which} ts={ts} p={p} {keys}', dict(seed=int(rng.integers(10 ** 6)), p=p, keys=keys, which=which, ts=ts, steps=3)))
        p, o = int(rng.integers(1, 3)), ['outer', 'inner'][int(rng.integers(2))]
        jobs.append(('adaptive_job', f'p={p} {o}', dict(seed=int(rng.integers(10 ** 6)), p=p, o=o, steps=3)))
    compare(ctx, jobs, ranks, tol=1e-6)


def grids(ctx, reps, ranks):
    rng = ctx.rng
    jobs = []
    for r in range(reps):
        p, o = int(rng.integers(1, 3)), ['outer', 'inner'][int(rng.integers(2))]
        how = ['direct', 'V', 'N', 'W', 'FMG', 'spsolve'][(r + ctx.seed) % 6]
        jobs.append(('grids_job', f'p={p} {o} {how}', dict(seed=int(rng.integers(10 ** 6)), p=p, o=o, how=how, mgc=2)))
    compare(ctx, jobs, ranks, tol=1e-5)


def steps(ctx, reps, ranks):
    rng = ctx.rng
    jobs = [('steps_job', f'{r}', dict(seed=int(rng.integers(10 ** 6)), p=int(rng.integers(1, 4)), path=f'it{r}')) for r in range(reps)]
    compare(ctx, jobs, ranks)


def few_job(which):
    """more ranks than elements"""
    m = C.random_quads(np.random.default_rng(3), 2, 1)
    if which == 'vtu':
        from phyem.msehtt.static.mesh.great.config.vtu import MseHttVtuInterface
        coo = {v: tuple(xy) for e, vs in m['element_map_dict'].items() for v, xy in zip(vs, m['element_parameter_dict'][e])}
        a, kw = (MseHttVtuInterface(coo, m['element_map_dict'], m['element_type_dict']),), {}
    elif which == 'dict':
        a, kw = (C.rankwise(m),), {}
    else:
        a, kw = ('crazy',), dict(element_layout=[2, 1], c=0., bounds=[[0., 1.], [0., 1.]], periodic=False)
    S.make_msehtt(2, a, kw, 1, [(0, 'outer')])
    return True


def few(ctx, ranks):
    """fewer elements than ranks: refused with a reason"""
    for n in ranks:
        for which in ('vtu', 'dict', 'crazy'):
            ctx.case('few', which, n)
            ctx.event('refused')
            try:
                mpi.call('vm.checks.c19', 'few_job', n, timeout=60, which=which)
                ctx.fail('refused|accepted', f'{which}: 2 elements on {n} ranks')
            except ChildFailed as ex:
                ctx.true('exceptions must derive' not in str(ex) and any(w in str(ex) for w in ('SIZE', 'ranks', 'RANK')), 'refused|reason', f'{which} {n}: {ex}')
            except mpi.NoAnswer as ex:
                ctx.fail('refused|no answer', f'{which} on {n} ranks: {ex}')


def parts_job(seed, tri, p, keys, how):
    """a mesh given in parts: each rank hands in its own cells"""
    from mpi4py import MPI
    from phyem.msehtt.static.mesh.great.config.vtu import MseHttVtuInterface
    comm = MPI.COMM_WORLD
    rng = np.random.default_rng(seed)
    m = C.random_quads(rng, 3, 3, tri=tri, amp=.2)
    E = list(m['element_map_dict'])
    mine = [e for i, e in enumerate(E) if (i % comm.size if how == 'cyclic' else i * comm.size // len(E)) == comm.rank]
    coo = {v: tuple(xy) for e in mine for v, xy in zip(m['element_map_dict'][e], m['element_parameter_dict'][e])}
    itf = MseHttVtuInterface(coo, {e: m['element_map_dict'][e] for e in mine}, {e: m['element_type_dict'][e] for e in mine})
    o = Out()
    d = S.make_msehtt(2, (itf,), {}, p, keys)
    report(o, d, p, keys, rng)
    return o


def report(o, d, p, keys, rng):
    n = d.n
    x = [a.ravel() for a in np.meshgrid(*[np.linspace(-1, 1, 3)] * n, indexing='ij')]
    o.each('places', {e: d.mapping(e, *x) for e in d.elements})
    o.each('types', {e: str(d.etype(e)) for e in d.elements})
    for k in keys:
        F = d.F[k]
        F.cf = d.cfun(k, *fields(rng, n, d.ncomp(k)))
        F[.3].reduce()
        gm = F.cochain.gathering_matrix
        sg = {e: directions(d, k, p, e) for e in d.elements}
        o.each(f'numbering {k}', {e: [int(v) for v in gm[e]] for e in d.elements})
        o.all(f'dofs {k}', gm.num_global_dofs)
        o.each(f'cochain {k}', {e: sg[e] * v for e, v in d.get(k, .3).items()})
        o.all(f'error {k}', F[.3].error())
        g = F[.3].cochain.gathered_global_vector
        o.each(f'gathered {k}', {e: sg[e] * g.V[gm[e]] for e in d.elements})


def parts(ctx, reps, ranks):
    rng = ctx.rng
    jobs = []
    for r in range(reps):
        keys = [KEYS2[int(v)] for v in rng.permutation(6)[:3]]
        p, tri, how = int(rng.integers(1, 4)), [0., .5, 1.][r % 3], ['cyclic', 'blocks'][int(rng.integers(2))]
        jobs.append(('parts_job', f'triangles {tri} p={p} {how} {keys}', dict(seed=int(rng.integers(10 ** 6)), tri=tri, p=p, keys=keys, how=how)))
    ctx.event('parts')
    compare(ctx, jobs, ranks)


def UNITS(tier):
    q = tier == 'quick'
    u = []
    for i in range(4):
        u.append((f'meshes/{i}', meshes, dict(names=HT[i::4], ranks=[3] if q else [2, 3, 4])))
    R = [3] if q else [2, 3, 4]
    fs = [c for c in HT if C.CONF[c]['n'] == 2 or C.CONF[c].get('ortho')]
    for i in range(1 if q else 4):
        u.append((f'poisson/{i}', poisson, dict(reps=6, ranks=R)))
        u.append((f'nonlinear/{i}', nonlinear, dict(reps=5, ranks=R)))
        u.append((f'generations/{i}', generations, dict(reps=3, ranks=R)))
        u.append((f'grids/{i}', grids, dict(reps=3, ranks=R)))
        u.append((f'parts/{i}', parts, dict(reps=6, ranks=R)))
        u.append((f'steps/{i}', steps, dict(reps=3, ranks=R)))
        u.append((f'files/{i}', files, dict(names=fs[i::5 if q else 4], ranks=R)))
    u.append(('few', few, dict(ranks=[3] if q else [3, 5])))
    return u
