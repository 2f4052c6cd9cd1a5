"""C10: linear solvers: residual and convergence report of every solver on random systems; distribution of x to the unknowns."""
import warnings
import numpy as np
from scipy.sparse import csr_matrix, csc_matrix
from vm import configs as C
from vm.lazy import ph  # noqa: F401

META = dict(
    rule='one distinct case per (system kind, size, format, solver, options, starting guess) or (configuration, block layout, solver)',
    assumptions=['numpy.linalg.solve on the dense system is the reference solution',
                 'reported convergence (info 0) must imply the stated residual bound; convergence itself is only demanded for '
                 'well-conditioned systems whose size does not exceed the restart length, or symmetric positive definite ones'],
    note='Random and assembled systems; dense reference solution; residual against the reported convergence; cochains against x[gm].',
    must_observe=['ht-krylov', 'ht-direct', 'ht-system', 'ht-x', 'ht-local', 'py-system', 'py-x', 'py-solver', 'truthful', 'operands', 'finite'])


def system(rng, kind, n):
    if kind == 'general':
        A = rng.standard_normal((n, n)) / n ** .5 + 2.5 * np.eye(n)
    elif kind == 'diagonal':
        A = np.diag(rng.uniform(1, 3, n) * rng.choice([-1, 1], n))
    elif kind == 'identity':
        A = np.eye(n)
    elif kind == 'multiple-identity':
        A = -2.5 * np.eye(n)
    elif kind == 'spd':
        B = rng.standard_normal((n, n))
        A = B @ B.T / n + np.eye(n)
    elif kind == 'few-eigenvalues':
        Q = np.linalg.qr(rng.standard_normal((n, n)))[0]
        A = Q @ np.diag(rng.choice([1., 2., 5.], n)) @ Q.T
    elif kind == 'permutation':
        A = np.eye(n)[rng.permutation(n)]
    elif kind == 'saddle':
        m = n // 3
        B = rng.standard_normal((n - m, n - m))
        D = rng.standard_normal((m, n - m))
        A = np.block([[B @ B.T / n + np.eye(n - m), D.T], [D, np.zeros((m, m))]])
    elif kind == 'essential-rows':
        A = rng.standard_normal((n, n)) / n ** .5 + 2.5 * np.eye(n)
        r = rng.choice(n, size=n // 3, replace=False)
        A[r] = 0
        A[r, r] = 1
    else:
        raise Exception(kind)
    return A


KINDS = ['general', 'diagonal', 'identity', 'multiple-identity', 'spd', 'few-eigenvalues', 'permutation', 'saddle', 'essential-rows']


def krylov(ctx, rounds):
    from phyem.msehtt.tools.matrix.static.global_ import MseHttGlobalMatrix as GM
    from phyem.msehtt.tools.vector.static.global_distributed import MseHttGlobalVectorDistributed as GV
    from phyem.msehtt.tools.vector.static.global_gathered import MseHttGlobalVectorGathered as GG
    from phyem.msehtt.tools.linear_system.static.global_.main import MseHttLinearSystem as LS
    rng = ctx.rng
    warnings.simplefilter('ignore')
    for r in range(rounds):
        kind = KINDS[r % len(KINDS)]
        n = int(rng.choice([1, 2, 3, 7, 19, 33, 60, 61, 80, 130]))
        A = system(rng, kind, n)
        if np.linalg.cond(A) > 1e4:
            continue
        b = rng.standard_normal(n) * 10. ** rng.integers(-1, 3)
        if rng.random() < .1:
            b[:] = 0
        ref = np.linalg.solve(A, b)
        fmt = csr_matrix if rng.random() < .5 else csc_matrix
        for scheme in ('spsolve', 'direct', 'gmres', 'lgmres'):
            M, V = fmt(A), b.copy()
            S, W = GM(M), GV(V)
            ls = LS(S, W)
            if scheme in ('spsolve', 'direct'):
                clean = bool(rng.random() < .5)
                ctx.case(kind, n, fmt.__name__, scheme, clean)
                x, msg, info = ls.solve(scheme, clean=clean)
                ctx.close(x, ref, 'ht-direct', 1e-9)
                ctx.true(clean or np.array_equal(S.M.toarray(), A), 'operands', 'A changed by a direct solve')
                continue
            atol = float(10. ** rng.integers(-9, -3))
            full = rng.random() < .5
            if scheme == 'gmres':
                restart = int(max(n, 2) if full else rng.choice([3, 10, 40, 75]))
                kw = dict(restart=restart)
            else:
                inner, outer = (n + 1, int(rng.integers(0, 4))) if full else (int(rng.choice([5, 20, 75])), int(rng.choice([0, 2, 15])))
                kw = dict(inner_m=inner, outer_k=outer)
                restart = inner
            maxiter = int(rng.choice([1, 2, 30, 60]))
            if rng.random() < .1:
                maxiter = str(maxiter % 7 + 1)
            kw.update(atol=atol, maxiter=maxiter)
            g = ['zero', 'zero', 'random', 'exact', 'near'][int(rng.integers(5))]
            x0 = dict(zero=0, random=rng.standard_normal(n), exact=ref.copy(), near=ref + 1e-3 * rng.standard_normal(n))[g]
            ctx.case(kind, n, fmt.__name__, scheme, kw, f'x0={g}')
            x0_ = np.array(x0)
            res = ctx.sub("ht-krylov", lambda: ls.solve(scheme, x0=x0 if g == 'zero' else GG(x0), **kw))
            ctx.true(np.array_equal(x0, x0_), 'operands', f'{scheme}: initial guess changed')
            if res is None:
                continue
            x, msg, info = res
            x = np.array(x)
            ctx.true(x.shape == (n,) and bool(np.all(np.isfinite(x))), 'finite', lambda: f'{x.shape} info={info} {x[:6]}')
            if not np.all(np.isfinite(x)):
                continue
            rr = float(np.linalg.norm(A @ x - b))
            floor = 1e-13 * n * (np.abs(A).max() * np.abs(x).max(initial=0) + np.abs(b).max(initial=0)) * 10
            if info == 0:
                ctx.true(rr <= atol * 1.000001 + floor, 'truthful', lambda: f'reports convergence to {atol} with residual {rr}')
            elif not isinstance(maxiter, str):
                ctx.true(rr >= atol * .999999 - floor, 'truthful', lambda: f'info={info} but residual {rr} <= {atol}')
            rank_ok = (full and maxiter not in (1, 2)) or (kind in ('spd', 'identity', 'multiple-identity') and restart >= 10
                                                            and maxiter not in (1, 2))
            if rank_ok and not isinstance(maxiter, str) and atol > floor * 10:
                ctx.true(info == 0 and rr <= atol * 1.000001, 'ht-krylov', lambda: f'not converged: info={info} residual={rr}')
                ctx.close(x, ref, 'ht-krylov', 3 * atol * np.linalg.norm(np.linalg.inv(A), 2) + 1e-10)
            # the residual never grows against the starting guess
            x00 = np.zeros(n) if g == 'zero' else None
            if x00 is not None:
                ctx.true(rr <= np.linalg.norm(b) * 1.000001 + floor, 'ht-krylov', lambda: f'residual grew: {rr} from {np.linalg.norm(b)}')
            ctx.true(np.array_equal(S.M.toarray(), A) and np.array_equal(W.V, b), 'operands', 'A or b changed by a solve')


def py_solvers(ctx, rounds):
    from phyem.msepy.tools.linear_system.static.assembled.solvers._scipy import _PackageScipy
    rng = ctx.rng
    warnings.simplefilter('ignore')
    P = _PackageScipy()

    class Sh:
        pass

    for r in range(rounds):
        kind = KINDS[r % len(KINDS)]
        n = int(rng.choice([2, 3, 7, 19, 60, 110]))
        A = system(rng, kind, n)
        if np.linalg.cond(A) > 1e4:
            continue
        b = rng.standard_normal(n)
        ref = np.linalg.solve(A, b)
        one_round(ctx, rng, P, Sh, kind, n, A, b, ref)


def one_round(ctx, rng, P, Sh, kind, n, A, b, ref):
    for scheme in ('spsolve', 'lsqr', 'gmres', 'lgmres'):
        a, v = Sh(), Sh()
        a._M, a.shape = (csr_matrix if rng.random() < .5 else csc_matrix)(A), (n, n)
        v._v = b.copy()
        x0 = np.zeros(n) if rng.random() < .5 else ref + .1 * rng.standard_normal(n)
        kw = {}
        if scheme == 'lsqr':
            kw = dict(atol=1e-12, btol=1e-12, conlim=0, iter_lim=20 * n)
        if scheme in ('gmres', 'lgmres'):
            kw = dict(rtol=1e-10, atol=0., maxiter=int(rng.choice([2, 400])))
            if scheme == 'gmres':
                kw['restart'] = n
            pc = int(rng.integers(4))
            if pc == 1:
                kw['preconditioner'] = True
            if pc == 2:
                kw['preconditioner'] = dict(name='spilu', drop_tol=1e-3, fill_factor=12)
            if pc == 3:
                kw['preconditioner'] = None
        ctx.case('py', kind, n, scheme, kw)
        f = getattr(P, scheme)
        res = ctx.sub('py-solver', lambda: f(a, v) if scheme == 'spsolve' else f(a, v, x0, **kw))
        if res is None:
            continue
        x, msg, info = res
        c = info.get('convergence info', 0)
        if c == 0:
            ctx.close(x, ref, 'py-solver', 1e-5 if scheme != 'spsolve' else 1e-9, scheme)
            ctx.true(np.linalg.norm(A @ x - b) <= 1e-6 * (1 + np.linalg.norm(b)), 'truthful', lambda: f'{scheme} residual')
        elif kw.get('maxiter') == 400 and kind != 'permutation':
            ctx.fail('py-solver', f'{scheme} did not converge: {info}')
        ctx.true(np.array_equal(a._M.toarray(), A) and np.array_equal(v._v, b), 'operands', 'py operands')


# ------------------------------------------------------------------ assembled systems
def blocks(ctx, d, rng):
    """a random non-singular block system on real gathering matrices"""
    n = d.n
    ht = d.impl == 'msehtt'
    o = 'outer' if rng.random() < .5 else 'inner'
    keys = [(k, o) for k in range(n + 1)]
    rng.shuffle(keys)
    keys = [(int(k), str(q)) for k, q in keys][:int(rng.integers(1, len(keys) + 1))]
    E = d.elements
    g = {k: d.gm(k) for k in keys}
    nl = {k: {e: len(g[k][e]) for e in E} for k in keys}
    if ht:
        from phyem.msehtt.tools.matrix.static.local import MseHttStaticLocalMatrix as MAT
        from phyem.msehtt.tools.vector.static.local import MseHttStaticLocalVector as VEC
    else:
        from phyem.msepy.tools.matrix.static.local import MsePyStaticLocalMatrix as MAT
        from phyem.msepy.tools.vector.static.local import MsePyStaticLocalVector as VEC
    G = {k: d.F[k].cochain.gathering_matrix for k in keys}
    A, ref, b, bref = [], [], [], []
    for i, ki in enumerate(keys):
        A.append([]), ref.append([])
        for j, kj in enumerate(keys):
            if i != j and rng.random() < .35:
                A[i].append(None), ref[i].append({e: np.zeros((nl[ki][e], nl[kj][e])) for e in E})
                continue
            R = {}
            for e in E:
                B = rng.standard_normal((nl[ki][e], nl[kj][e])) * (rng.random((nl[ki][e], nl[kj][e])) < .5)
                if i == j:
                    B = B / np.sqrt(B.shape[0]) + 3 * np.eye(B.shape[0])
                else:
                    B = B * .5 / np.sqrt(B.shape[0])
                R[e] = B
            A[i].append(MAT({e: csr_matrix(B) for e, B in R.items()}, G[ki], G[kj])), ref[i].append(R)
        if rng.random() < .2 and i:
            b.append(None), bref.append({e: np.zeros(nl[ki][e]) for e in E})
        else:
            R = {e: rng.standard_normal(nl[ki][e]) for e in E}
            if ht:
                b.append(VEC({e: v.copy() for e, v in R.items()}, G[ki]))
            else:
                b.append(VEC(np.array([R[e] for e in E]), G[ki]))
            bref.append(R)
    return keys, g, G, A, ref, b, bref


def scatter_blocks(keys, g, ref, bref, E, N):
    off = np.cumsum([0] + [N[k] for k in keys])
    D, v = np.zeros((off[-1], off[-1])), np.zeros(off[-1])
    for i, ki in enumerate(keys):
        for e in E:
            np.add.at(v, off[i] + np.asarray(g[ki][e]), bref[i][e])
        for j, kj in enumerate(keys):
            for e in E:
                np.add.at(D, (off[i] + np.asarray(g[ki][e])[:, None], off[j] + np.asarray(g[kj][e])[None]), ref[i][j][e])
    return off, D, v


def compare_x(ctx, d, keys, g, off, xref, t, tol, key):
    for i, k in enumerate(keys):
        c = d.F[k].cochain[t]
        want = {e: xref[off[i] + np.asarray(g[k][e])] for e in d.elements}
        got = {e: (c[e] if d.impl == 'msehtt' else c.local[e]) for e in d.elements}
        for e in d.elements:
            if not ctx.close(np.asarray(got[e]).ravel(), want[e], key, tol, f'unknown {i} of {keys} element {e}'):
                return


def assembled(ctx, conf, p, rounds):
    rng = ctx.rng
    warnings.simplefilter('ignore')
    for r in range(rounds):
        d = C.build(conf, p, rng=np.random.default_rng([ctx.seed, r]))
        ht = d.impl == 'msehtt'
        tag = 'ht' if ht else 'py'
        E = d.elements
        keys, g, G, A, ref, b, bref = blocks(ctx, d, rng)
        N = {k: d.ndofs(k) for k in keys}
        off, D, v = scatter_blocks(keys, g, ref, bref, E, N)
        t = float(rng.integers(0, 9)) / 4
        if ht:
            from phyem.msehtt.tools.linear_system.static.local.main import MseHttStaticLocalLinearSystem as LLS
        else:
            from phyem.msepy.tools.linear_system.static.local.main import MsePyStaticLocalLinearSystem as LLS
        for k in keys:
            d.set(k, t + 1, {e: rng.standard_normal(len(g[k][e])) for e in E}) if ht else None
        xs = [d.F[k].cochain.static_vec(t) for k in keys]
        sls = LLS(A, xs, b)
        txt = []
        fixed = {}
        # customisations known from the documentation: the solution at a dof
        for _ in range(int(rng.integers(0, 4))):
            i = int(rng.integers(len(keys)))
            e = E[int(rng.integers(len(E)))]
            j = int(rng.integers(len(g[keys[i]][e])))
            dof = int(off[i] + g[keys[i]][e][j])
            if dof in fixed:
                continue
            val = float(rng.standard_normal())
            fixed[dof] = val
            if not ht and rng.random() < .5:
                if rng.random() < .4:
                    sls.customize.set_local_dof_ij_of_unknown_k_to_value(e - len(E), j - len(g[keys[i]][e]), i, val)
                    txt.append(f'set_ij(-,{i},{e},{j})')
                else:
                    sls.customize.set_local_dof_ij_of_unknown_k_to_value(e, j, i, val)
                    txt.append(f'set_ij({i},{e},{j})')
            else:
                sls.customize.set_local_dof(i, e, j, val)
                txt.append(f'set({i},{e},{j})')
            D[dof] = 0
            D[dof, dof] = 1
            v[dof] = val
        if not np.isfinite(D).all() or np.linalg.cond(D) > 1e6:
            ctx.event('skipped-ill-conditioned')
            continue
        ref_x = np.linalg.solve(D, v)
        jac = ht and rng.random() < .5
        akw = dict(preconditioner='Jacobian') if jac else {}
        cus = ht and rng.random() < .3
        if cus:
            iu = int(rng.integers(len(keys)))
            dof = int(rng.integers(N[keys[iu]]))
            akw['customizations'] = [dict(A=('new_EndZeroRowCol_with_a_one_for_global_dof', iu, dof), b=('add_a_value_at_the_end', 0))]
        rcache = rng.random() < .4
        if rcache:
            akw['cache'] = f'c10-{ctx.seed}-{ctx.unit}-{r}'
        als = sls.assemble(**akw)
        if cus:      # x[dof] = 0 with a Lagrange multiplier
            D1 = np.zeros((len(D) + 1,) * 2)
            D1[:-1, :-1] = D
            D1[-1, off[iu] + dof] = D1[off[iu] + dof, -1] = 1
            if np.linalg.cond(D1) > 1e6:
                continue
            ref_x = np.linalg.solve(D1, np.append(v, 0.))
        schemes = ['spsolve', 'gmres', 'lgmres'] if ht else ['spsolve', 'lsqr', 'gmres', 'lgmres']
        for scheme in schemes:
            ctx.case(conf, p, keys, txt, scheme, {k: v_ for k, v_ in akw.items()})
            if ht:
                if scheme == 'spsolve':
                    res = ctx.sub('ht-system', lambda: als.solve('spsolve'))
                elif cus:
                    continue
                else:
                    guess = int(rng.integers(3))
                    x0 = [0, [d.F[k] for k in keys], 0][guess]
                    if guess == 1 and len(keys) == 1 and rng.random() < .5:
                        x0 = d.F[keys[0]]
                    kw = dict(restart=150) if scheme == 'gmres' else dict(inner_m=150, outer_k=3)
                    res = ctx.sub('ht-system', lambda: als.solve(scheme, x0=x0, atol=1e-9, maxiter=60, **kw))
            else:
                als.solve.scheme = scheme
                if scheme == 'spsolve':
                    als.solve._x0 = None
                    res = ctx.sub('py-system', lambda: als.solve())
                else:
                    guess = int(rng.integers(2))
                    if guess:
                        for k in keys:
                            if d.F[k].cochain.newest is None:
                                d.set(k, t, {e: rng.standard_normal(len(g[k][e])) for e in E})
                    ctx.sub('py-system|x0', lambda: setattr(als.solve, 'x0', [d.F[k] for k in keys] if guess else 0))
                    kw = dict(lsqr=dict(atol=1e-13, btol=1e-13, conlim=0, iter_lim=4000), gmres=dict(rtol=1e-11, atol=0., restart=100),
                              lgmres=dict(rtol=1e-11, atol=0.))[scheme]
                    if scheme != 'lsqr' and rng.random() < .4:
                        kw['preconditioner'] = True
                    res = ctx.sub('py-system', lambda: als.solve(**kw))
            if res is None:
                continue
            x, msg, info = res
            tol = 1e-8 if scheme == 'spsolve' else 1e-5
            xg = np.array(x)
            order = chained_order(sls, keys, g, off, E, ht)
            if cus:
                order = np.append(order, len(order))
            ctx.close(xg[order] if xg.shape == order.shape else xg, ref_x, f'{tag}-system', tol, f'{scheme} {txt}')
            if cus:
                xg = xg[:-1]
            ctx.sub(f'{tag}-x', lambda: sls.x.update(xg))
            compare_x(ctx, d, keys, g, off, ref_x, t, tol, f'{tag}-x')
        # x distributed exactly
        y = rng.standard_normal(off[-1])
        order = chained_order(sls, keys, g, off, E, ht)
        z = np.zeros_like(y)
        z[order] = y
        sls.x.update(z)
        ctx.case(conf, p, keys, 'distribution')
        compare_x(ctx, d, keys, g, off, y, t, 1e-14, f'{tag}-x')


def chained_order(sls, keys, g, off, E, ht):
    """order[i] = number in the assembled system of entry i of the block-wise numbering"""
    gm = sls.global_gathering_matrices[0]
    o = np.full(off[-1], -1, dtype=int)
    for e in E:
        loc = np.concatenate([off[i] + np.asarray(g[k][e]) for i, k in enumerate(keys)])
        o[loc] = np.asarray(gm[e])
    return o


def local_solve(ctx, conf, p, rounds):
    rng = ctx.rng
    from phyem.msehtt.tools.linear_system.static.local.main import MseHttStaticLocalLinearSystem as LLS
    for r in range(rounds):
        d = C.build(conf, p, rng=np.random.default_rng([ctx.seed, r]))
        E = d.elements
        # an element-wise system: only element-private unknowns (the top forms)
        keys = [(d.n, 'outer'), (d.n, 'inner')][:int(rng.integers(1, 3))]
        from phyem.msehtt.tools.matrix.static.local import MseHttStaticLocalMatrix as MAT
        from phyem.msehtt.tools.vector.static.local import MseHttStaticLocalVector as VEC
        G = {k: d.F[k].cochain.gathering_matrix for k in keys}
        g = {k: d.gm(k) for k in keys}
        N = {e: [len(g[k][e]) for k in keys] for e in E}
        ref = {e: rng.standard_normal((sum(N[e]),) * 2) + 9 * np.eye(sum(N[e])) for e in E}
        rhs = {e: rng.standard_normal(sum(N[e])) for e in E}
        cut = {e: np.cumsum([0] + N[e]) for e in E}
        A = [[MAT({e: csr_matrix(ref[e][cut[e][i]:cut[e][i + 1], cut[e][j]:cut[e][j + 1]]) for e in E}, G[ki], G[kj])
              for j, kj in enumerate(keys)] for i, ki in enumerate(keys)]
        b = [VEC({e: rhs[e][cut[e][i]:cut[e][i + 1]].copy() for e in E}, G[k]) for i, k in enumerate(keys)]
        sls = LLS(A, [d.F[k].cochain.static_vec(1.5) for k in keys], b)
        for _ in range(int(rng.integers(0, 3))):
            e = E[int(rng.integers(len(E)))]
            j = int(rng.integers(sum(N[e])))
            val = float(rng.standard_normal())
            sls.customize.set_element_only_local_dof(e, j, val)
            ref[e][j] = 0
            ref[e][j, j] = 1
            rhs[e][j] = val
        ctx.case(conf, p, keys, 'local', r)
        x, msg, info = sls.solve('spsolve')
        for e in E:
            ctx.close(np.asarray(x[e]).ravel(), np.linalg.solve(ref[e], rhs[e]), 'ht-local', 1e-9, f'element {e}')
        sls.x.update(x)
        for i, k in enumerate(keys):
            for e in E:
                ctx.close(d.F[k].cochain[1.5][e], np.linalg.solve(ref[e], rhs[e])[cut[e][i]:cut[e][i + 1]], 'ht-local', 1e-9, f'x of {k} element {e}')


def UNITS(tier):
    q = tier == 'quick'
    u = [(f'krylov-{i}', krylov, dict(rounds=150 if q else 1500)) for i in range(2 if q else 6)]
    u += [(f'py-solvers-{i}', py_solvers, dict(rounds=120 if q else 800)) for i in range(1 if q else 4)]
    for conf, p in ([('ht2', 2), ('ht2p', 1), ('rqt', 1), ('rq', 2), ('ht2ts', 1), ('ht3o', 1), ('py2', 2), ('py1', 3), ('py3', 1), ('py2mp', 1)] if q else
                    [(c, p) for c in C.CONF for p in (1, 2) if not (C.CONF[c]['n'] == 3 and p == 2) and c != 'ht2cht']):
        u.append((f'assembled-{conf}-{p}', assembled, dict(conf=conf, p=p, rounds=14 if q else 30)))
    for conf in ('ht2', 'rqt', 'ht3o'):
        u.append((f'local-{conf}', local_solve, dict(conf=conf, p=2 if conf != 'ht3o' else 1, rounds=3 if q else 20)))
    return u
