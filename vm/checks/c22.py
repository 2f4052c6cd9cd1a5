"""C22: discrete data sets against plain arrays, closed forms and the fields they were made of."""
import os
import tempfile
import numpy as np
from vm.lazy import S, ph                                                          # noqa
from vm import configs as C
from vm import geo as G

META = dict(
    rule='one distinct case per (data set layout, operation sequence) or (mesh configuration, form, density)',
    assumptions=['coordinates and values are floating point arrays', 'region keys are sortable where streamfunctions are computed'],
    note='Random data sets (2d and 3d, scalar, vector, tensor, one to five regions with differently shaped grids) go through random operation '
         'sequences next to plain numpy dictionaries; stream functions are integrated over region layouts with flipped axes, permuted keys and '
         'corners that differ by rounding; data sets exported from forms are compared point by point with an independent reconstruction.',
    must_observe=['arithmetic', 'unchanged', 'dot', 'cross', 'norm', 'square', 'maximum', 'L2', 'interpolate', 'value', 'saved', 'mismatch', 'group',
                  'streamfunction', 'rws', 'rws file', 'grouped', 'elements rws', 'nearest', 'tsp', 'energy', 'trilinear', 'integrate', 'cfl',
                  'region stack', 'form streamfunction', 'combined', 'projected', 'value at a point'])


def dds():
    from phyem.tools.dds.region_wise_structured import DDSRegionWiseStructured
    return DDSRegionWiseStructured


def grp():
    from phyem.tools.dds.region_wise_structured_group import DDS_RegionWiseStructured_Group
    return DDS_RegionWiseStructured_Group


def tmp():
    return tempfile.mkdtemp(dir=os.environ['VM_SCRATCH'])


def boxes(rng, n, nr, equal=False):
    """coordinates of nr disjoint boxes"""
    X = [dict() for _ in range(n)]
    keys = list(rng.permutation(nr))
    style = rng.integers(3)
    for r in range(nr):
        shp = tuple(rng.integers(2, 6, n)) if not equal else (int(rng.integers(2, 6)),) * n
        lo = rng.uniform(0, .4, n)
        lo[0] += 2 * r
        hi = lo + rng.uniform(.3, 1, n)
        g = np.meshgrid(*[np.linspace(lo[i], hi[i], shp[i]) for i in range(n)], indexing='ij')
        k = [int(keys[r]), f'r{keys[r]}', (int(keys[r]), 'a')][style]
        for i in range(n):
            X[i][k] = g[i]
    return X


def values(rng, X, c, lo=.2, hi=2.):
    return [{r: rng.uniform(lo, hi, X[0][r].shape) * (1 if lo > 0 else 1) for r in X[0]} for _ in range(c)]


def same(ctx, D, X, V, key, tol=1e-13, detail=''):
    ok = len(D._val_dict_list) == len(V) and all(set(D._val_dict_list[i]) == set(V[i]) for i in range(len(V)))
    if not ctx.true(ok, f'{key}|structure', detail):
        return
    for r in X[0]:
        for i in range(len(X)):
            ctx.eq(np.array_equal(D._coo_dict_list[i][r], X[i][r]), True, f'{key}|coordinates', detail)
        for i in range(len(V)):
            ctx.close(D._val_dict_list[i][r], V[i][r], f'{key}|values', tol, f'{detail} region {r} component {i}', scale=max(1., np.max(np.abs(V[i][r]))))


def algebra(ctx, rounds):
    rng = ctx.rng
    D_ = dds()
    for rd in range(rounds):
        n = int(rng.integers(2, 4))
        nr = int(rng.integers(1, 6))
        X = boxes(rng, n, nr)
        regs = list(X[0])
        kind = ['scalar', 'vector', 'tensor'][int(rng.integers(3))]
        c = dict(scalar=1, vector=n, tensor=n * n)[kind]
        pool = []
        for _ in range(3):
            V = values(rng, X, c)
            pool.append((D_(X, V), V, {(i, r): V[i][r].copy() for i in range(c) for r in regs}))
        ctx.case('algebra', rd, n, nr, kind)
        A = pool[0][0]
        ctx.eq((A.ndim, A.dtype), (n, kind), 'arithmetic|type')
        if kind != 'tensor':
            ctx.eq(A.classification, f'{n}d {kind}', 'arithmetic|classification')
        ctx.eq(list(A), regs, 'arithmetic|regions')
        work = [(D, {(i, r): V[i][r] for i in range(c) for r in regs}) for D, V, _ in pool]
        trace = []
        for _ in range(7):
            i, j = rng.integers(len(work), size=2)
            (D, v), (E, w) = work[i], work[j]
            s = float(rng.uniform(-2, 2)) if rng.random() < .8 else int(rng.integers(-3, 4))
            op = ['+', '-', '+s', '-s', 's*', '**', 'square'][int(rng.integers(7))]
            if op == '+':
                N, x = D + E, {k: v[k] + w[k] for k in v}
            elif op == '-':
                N, x = D - E, {k: v[k] - w[k] for k in v}
            elif op == '+s':
                N, x = D + s, {k: v[k] + s for k in v}
            elif op == '-s':
                N, x = D - s, {k: v[k] - s for k in v}
            elif op == 's*':
                N, x = s * D, {k: s * v[k] for k in v}
            elif op == '**':
                q = [2, 3, 1][int(rng.integers(3))]
                N, x = D ** q, {k: v[k] ** q for k in v}
            else:
                N, x = D.square, {k: v[k] ** 2 for k in v}
                ctx.event('square')
            if max(np.max(np.abs(y)) for y in x.values()) > 1e6:
                continue
            trace.append((op, int(i), int(j), s))
            work.append((N, x))
            same(ctx, N, X, [{r: x[(a, r)] for r in regs} for a in range(c)], 'arithmetic', 1e-12, str(trace))
        D, v = work[int(rng.integers(len(work)))]
        E, w = work[int(rng.integers(len(work)))]
        # pointwise products
        same(ctx, D.dot(E), X, [{r: sum(v[(a, r)] * w[(a, r)] for a in range(c)) for r in regs}], 'dot', 1e-12, str(trace))
        if (n, kind) == (2, 'vector'):
            want = [{r: v[(0, r)] * w[(1, r)] - v[(1, r)] * w[(0, r)] for r in regs}]
            same(ctx, D.x(E), X, want, 'cross', 1e-12)
            same(ctx, D.cross_product(E), X, want, 'cross', 1e-12)
            same(ctx, D.norm(), X, [{r: np.hypot(v[(0, r)], v[(1, r)]) for r in regs}], 'norm', 1e-12)
        ctx.close(D.maximum(), [max(np.max(np.abs(v[(a, r)])) for r in regs) for a in range(c)], 'maximum', 1e-14, str(trace))
        # L2 norm: exact for values constant per region on axis-aligned boxes
        K = rng.uniform(-2, 2, (c, len(regs)))
        Dk = D_(X, [{r: np.full(X[0][r].shape, K[a, b]) for b, r in enumerate(regs)} for a in range(c)])
        vol = [np.prod([np.ptp(X[i][r]) for i in range(n)]) for r in regs]
        ctx.close(Dk.L2_norm(), np.sqrt((K ** 2) @ vol), 'L2', 1e-12, f'{n}d shapes {[X[0][r].shape for r in regs]}')
        # interpolation: nodal values, linear fields in convex regions
        if nr == 1:
            r = regs[0]
            co = rng.uniform(-1, 1, (c, n + 1))
            lin = [{r: co[a, 0] + sum(co[a, 1 + i] * X[i][r] for i in range(n))} for a in range(c)]
            L = D_(X, lin)
            itp = L.interpolate()
            lo, hi = [X[i][r].min() for i in range(n)], [X[i][r].max() for i in range(n)]
            p = rng.uniform(np.array(lo) + 1e-6, np.array(hi) - 1e-6, (8, n))
            ctx.close(itp(*p.T), (co[:, :1] + co[:, 1:] @ p.T).T, 'interpolate|linear field', 1e-9)
            if n == 2 and c == 1:
                ctx.close(L.value(*p[0]), co[0, 0] + co[0, 1:] @ p[0], 'value', 1e-9)
            nodes = np.array([X[i][r].ravel('F') for i in range(n)]).T
            inner = np.all((nodes > np.array(lo) + 1e-9) & (nodes < np.array(hi) - 1e-9), axis=1)
            if inner.any():
                ctx.close(np.reshape(D.interpolate()(*nodes[inner].T), (-1, c)), np.array([v[(a, r)].ravel('F')[inner] for a in range(c)]).T,
                          'interpolate|nodes', 1e-9, '', scale=max(1., max(np.max(np.abs(x)) for x in v.values())))
        # operands are what they were
        for Dp, V, cp in pool:
            ctx.true(all(np.array_equal(Dp._val_dict_list[a][r], cp[(a, r)]) for a in range(c) for r in regs), 'unchanged', str(trace))
        # saving
        d = tmp()
        f = os.path.join(d, 'x.rws' if rd % 2 else 'data')
        D.saveto(f)
        for B in (D_.read(f), ph.read(f)):
            same(ctx, B, X, [{r: v[(a, r)] for r in regs} for a in range(c)], 'saved', 0)
            ctx.eq((B.ndim, B.dtype), (n, kind), 'saved|type')
            same(ctx, B + D, X, [{r: 2 * v[(a, r)] for r in regs} for a in range(c)], 'saved|usable', 1e-12)
        # mismatches are refused
        Y = [dict(x) for x in X]
        q = regs[int(rng.integers(len(regs)))]
        ax = int(rng.integers(n))
        Y[ax] = dict(Y[ax])
        Y[ax][q] = Y[ax][q] + .1
        bad = D_(Y, [{r: v[(a, r)] for r in regs} for a in range(c)])
        for nm, fn in (('+', lambda: D + bad), ('-', lambda: D - bad), ('dot', lambda: D.dot(bad))):
            ctx.raises(fn, 'mismatch|coordinates', nm)
        if (n, kind) == (2, 'vector'):
            ctx.raises(lambda: D.x(bad), 'mismatch|coordinates', 'x')
        if c > 1:
            o = D_(X, [{r: v[(0, r)] for r in regs}])
            ctx.raises(lambda: D + o, 'mismatch|components', '+')
            ctx.raises(lambda: D - o, 'mismatch|components', '-')
        if len(regs) > 1:
            less = [{r: x[r] for r in regs[1:]} for x in X]
            o = D_(less, [{r: v[(a, r)] for r in regs[1:]} for a in range(c)])
            ctx.raises(lambda: D + o, 'mismatch|regions', '+')
            ctx.raises(lambda: D_([X[0]] + less[1:], [{r: v[(a, r)] for r in regs} for a in range(c)]), 'mismatch|regions', 'init')
        ctx.raises(lambda: D_(X, [{r: np.zeros(np.array(X[0][r].shape) + 1) for r in regs}]), 'mismatch|shape', 'init')


def groups(ctx, rounds):
    rng = ctx.rng
    for rd in range(rounds):
        n = int(rng.integers(2, 4))
        X = boxes(rng, n, int(rng.integers(1, 4)))
        m = int(rng.integers(1, 5))
        kinds = [['scalar', 'vector', 'tensor'][int(rng.integers(3))] for _ in range(m)]
        Vs = [values(rng, X, dict(scalar=1, vector=n, tensor=n * n)[k]) for k in kinds]
        named = rng.random() < .6
        names = [f'{"abcd"[i]}{rng.integers(100)}' for i in range(m)] if named else [str(i) for i in range(m)]
        g = grp()(X, dict(zip(names, Vs)) if named else (list(Vs) if rng.random() < .5 else tuple(Vs)))
        ctx.case('groups', rd, n, m, named)
        f = os.path.join(tmp(), 'g.rws')
        g.saveto(f)
        for what, h in (('made', g), ('read', grp().read(f)), ('ph.read', ph.read(f))):
            ctx.eq((len(h), h.ndim, list(h.dtype)), (m, n, kinds), f'group|{what} type')
            for i in range(m):
                same(ctx, h[i], X, Vs[i], f'group|{what} by number', 0)
                try:
                    h[names[i]]
                except Exception as ex:                                            # noqa
                    ctx.fail(f'group|{what} by name', f'{names[i]}: {ex!r}')
                    continue
                same(ctx, h[names[i]], X, Vs[i], f'group|{what} by name', 0)
            for i, x in enumerate(h):
                same(ctx, x, X, Vs[i], f'group|{what} iteration', 0)
            ctx.raises(lambda: h['no such name'], 'group|unknown name')
        bad = [dict(v) for v in Vs[0]]
        r = list(X[0])[0]
        bad[0][r] = np.zeros(np.array(X[0][r].shape) + 1)
        ctx.raises(lambda: grp()(X, [bad]), 'group|wrong shape')


# ------------------------------------------------------------------------------------------------ stream functions

def stream(ctx, rounds):
    rng = ctx.rng
    for rd in range(rounds):
        I, J = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        # a grid of vertices, some of them at zero up to rounding, possibly sheared
        xs = np.sort(rng.uniform(-1, 1, I + 1)) + np.linspace(0, 1, I + 1)
        ys = np.sort(rng.uniform(-1, 1, J + 1)) + np.linspace(0, 1, J + 1)
        zero = rng.random() < .6
        if zero:
            xs -= xs[rng.integers(I + 1)]
            ys -= ys[rng.integers(J + 1)]
        sh = float(rng.uniform(-.3, .3)) if rng.random() < .5 else 0.
        co = rng.uniform(-1, 1, 6)

        def psi(x, y):
            return co[0] + co[1] * x + co[2] * y + co[3] * x * x + co[4] * x * y + co[5] * y * y

        keys = [int(k) for k in rng.permutation(I * J)]
        X, Y, U, V = {}, {}, {}, {}
        at = {}
        for i in range(I):
            for j in range(J):
                m = tuple(rng.integers(2, 6, 2))
                a, b = np.meshgrid(np.linspace(xs[i], xs[i + 1], m[0]), np.linspace(ys[j], ys[j + 1], m[1]), indexing='ij')
                x, y = a + sh * b, b.copy()
                if rng.random() < .4:
                    x, y = x[::-1], y[::-1]
                if rng.random() < .4:
                    x, y = x[:, ::-1], y[:, ::-1]
                if rng.random() < .3:
                    x, y = x.T, y.T
                # rounding as mappings produce it
                x, y = x + rng.choice([0, 1e-17, -1e-17], x.shape), y + rng.choice([0, 1e-17, -1e-17], x.shape)
                k = keys[i * J + j]
                at[k] = (i, j)
                X[k], Y[k] = np.ascontiguousarray(x), np.ascontiguousarray(y)
                U[k] = co[2] + co[4] * x + 2 * co[5] * y
                V[k] = -(co[1] + 2 * co[3] * x + co[4] * y)
        D = dds()([X, Y], [U, V])
        start = None
        if rng.random() < .5:
            k = keys[int(rng.integers(len(keys)))]
            c = [(0, 0), (0, -1), (-1, 0), (-1, -1)][int(rng.integers(4))]
            s0 = float(rng.uniform(-2, 2))
            start = ([float(X[k][c]), float(Y[k][c])], s0)
        shift = float(rng.uniform(-1, 1)) if rng.random() < .4 else 0
        ctx.case('stream', rd, I, J, zero, start is not None, bool(shift))
        try:
            sf = D.streamfunction(shift=shift, starting_coo_and_sf=start)
        except AssertionError as ex:
            ctx.fail('streamfunction|regions connected through corners', f'{I}x{J} regions, start={start}: {ex}')
            continue
        w = sf._val_dict_list[0]
        ctx.eq(set(w), set(X), 'streamfunction|all regions')
        if start is None:
            k0 = min(X)
            c0 = shift - psi(X[k0][0, 0], Y[k0][0, 0])
        else:
            c0 = start[1] + shift - psi(*start[0])
        for k in X:
            ctx.close(w[k], psi(X[k], Y[k]) + c0, 'streamfunction|value', 1e-11, f'{I}x{J} region {k} start={start} shift={shift}')
        ctx.eq(sf.classification, '2d scalar', 'streamfunction|type')


# ------------------------------------------------------------------------------------------------ data sets of forms

def lin(m):
    return np.linspace(-1, 1, m)


def check_rws(ctx, d, key, t, XY, VAL, what, tol=1e-9):
    n = d.n
    for e in d.elements:
        shp = XY[0][e].shape
        if not ctx.true(len(shp) == n and len(set(shp)) == 1 and all(x[e].shape == shp for x in list(XY) + list(VAL)), 'rws|shape', f'{what} {shp}'):
            return
    m = XY[0][d.elements[0]].shape[0]
    ref = d.recon(key, t, *[lin(m)] * n)
    g = [a.ravel('F') for a in np.meshgrid(*[lin(m)] * n, indexing='ij')]
    for e in d.elements:
        if XY[0][e].shape[0] != m:
            ctx.fail('rws|shape', f'{what}: different densities')
            return
        xm = np.array(d.mapping(e, *g))
        x = np.array([q[e].ravel('F') for q in XY])
        v = np.array([q[e].ravel('F') for q in VAL])
        ctx.close(x, xm, 'rws|coordinates', 1e-12, f'{what} e={e}', scale=max(1., np.max(np.abs(xm))))
        good = np.isfinite(ref[e][1])
        ctx.close(np.where(good, v, 0), np.where(good, ref[e][1], 0), 'rws|values', tol, f'{what} e={e}', scale=max(1., np.max(np.abs(ref[e][1][good]))))


def combined(ctx, d, conf, p, ts):
    """f + d g and f - d g"""
    for key in d.F:
        k2 = (key[0] + 1, key[1])
        if k2 not in d.F:
            continue
        f, g = d.F[k2], d.F[key]
        dg, inc = g.d(), d.E(key)
        for nm, h, s in (('+', f + dg, 1), ('-', f - dg, -1)):
            ctx.case('combined', conf, p, key, nm)
            ctx.eq(set(h.cochain), set(f.cochain) & set(g.cochain), 'combined|times', f'{conf} {key} {nm}')
            for t in h.cochain:
                a, b, c = f.cochain[t], dg.cochain[t], h.cochain[t]
                x, w, v = [np.concatenate([np.ravel(np.asarray(q[e])) for e in d.elements]) for q in (a, b, c)]
                E = np.concatenate([inc[e] @ np.ravel(np.asarray(g.cochain[t][e])) for e in d.elements])
                ctx.close(w, E, 'combined|derivative', 1e-9, f'{conf} p={p} {key} t={t}', scale=max(1., np.max(np.abs(E))))
                ctx.close(v, x + s * E, 'combined|value', 1e-9, f'{conf} p={p} {k2} {nm} d{key} t={t}', scale=max(1., np.max(np.abs(x)), np.max(np.abs(E))))
            t = ts[0]
            xi = lin(3) * .9
            A, B, H = [q.reconstruct(q.cochain[t], *[xi] * d.n, ravel=True)[1] for q in (f, dg, h)]
            for j in range(len(H)):
                for e in d.elements:
                    ctx.close(H[j][e], np.asarray(A[j][e]) + s * np.asarray(B[j][e]), 'combined|reconstructed', 1e-9, f'{conf} {k2} {nm} d{key}', scale=max(1., np.max(np.abs(A[j][e])), np.max(np.abs(B[j][e]))))
            ctx.event('combined')


def projected(ctx, d, conf, p, t):
    """the components of a 1-form as 0-forms: nodal values at the Lobatto points"""
    from phyem.tools.quadrature import quadrature
    for key in d.F:
        if key[0] != 1:
            continue
        try:
            comp = d.F[key][t].project.to(f'm{d.n}n{d.n}k0')
        except Exception as e:
            ctx.event('projection refused')
            continue
        ctx.case('projected', conf, p, key, t)
        xi = G.gll(p)
        ref = d.recon(key, t, *[xi] * d.n)
        for e in d.elements:
            got = np.array([np.ravel(c[e]) for c in comp])
            ctx.close(got, ref[e][1], 'projected', 1e-9, f'{conf} p={p} {key} t={t} e={e}', scale=max(1., np.max(np.abs(ref[e][1]))))
        ctx.event('projected')
        k0 = next((k for k in d.F if k[0] == 0), None)
        if k0 is None:
            continue
        for i, c in enumerate(comp):
            R = d.F[k0].reconstruct(c, *[xi] * d.n, ravel=True)[1][0]
            for e in d.elements:
                ctx.close(np.ravel(R[e], order='F'), ref[e][1][i], 'projected|as a 0-form', 1e-9, f'{conf} p={p} {key} e={e}', scale=max(1., np.max(np.abs(ref[e][1]))))


def forms_ht(ctx, conf, p):
    rng = ctx.rng
    d = C.build(conf, p, rng=rng)
    n = d.n
    ts = [0., .5, 1.25]
    for key in d.F:
        for t in ts:
            d.random_global(key, t, rng)
    dirn = tmp()
    mids = None
    for key in d.F:
        F = d.F[key]
        t = ts[int(rng.integers(3))]
        ctx.case('rws', conf, p, key, t)
        what = f'{conf} p={p} {key} t={t}'
        nm = {(2, 1): '2d-scalar', (2, 2): '2d-vector', (3, 1): '3d-scalar', (3, 3): '3d-vector'}[(n, d.ncomp(key))]
        ctx.eq(F.numeric.dtype, nm, 'rws|dtype', what)
        ddf = float(rng.choice([.002, .01, .03]))
        D = F.numeric.rws(t, ddf=ddf) if rng.random() < .5 else F[t].numeric.rws(ddf=ddf)
        check_rws(ctx, d, key, t, D._coo_dict_list, D._val_dict_list, what)
        cw = F.numeric.rws(t, ddf=ddf, component_wise=True)
        XY, VAL = F.numeric.rws(t, ddf=ddf, data_only=True)
        ctx.eq(len(cw), len(D._val_dict_list), 'rws|component wise', what)
        for i, x in enumerate(cw):
            ctx.true(all(np.array_equal(x._val_dict_list[0][e], D._val_dict_list[i][e], equal_nan=True) for e in d.elements), 'rws|component wise', what)
        ctx.true(all(np.array_equal(a[e], b[e], equal_nan=True) for a, b in zip(list(XY) + list(VAL), D._coo_dict_list + D._val_dict_list) for e in d.elements), 'rws|data only', what)
        XY, VAL = F.numeric.rws(t, ddf=ddf, data_only=True, component_wise=True)
        ctx.true(all(np.array_equal(a[0][e], b[e], equal_nan=True) for a, b in zip(VAL, D._val_dict_list) for e in d.elements), 'rws|data only component wise', what)
        f = os.path.join(dirn, f'rws{key[0]}{key[1]}')
        F[t].export.rws(f, ddf=ddf)
        B = ph.read(f)
        ctx.event('rws file')
        check_rws(ctx, d, key, t, B._coo_dict_list, B._val_dict_list, what + ' file')
        # nearest neighbour fields and the properties made of them
        if ctx.rng.random() < .7:
            dt, itp = F.numeric._interpolate_(t, ddf=.01)
            dt2, coo, val = F.numeric._interpolate_(t, ddf=.01, data_only=True)
            ctx.eq((dt, dt2), (nm, nm), 'nearest|type', what)
            m = round((len(coo[0]) / len(d.elements)) ** (1 / n))
            g = lin(m + 1)
            g = (g[1:] + g[:-1]) / 2
            ref = d.recon(key, t, *[g] * n)
            X = np.concatenate([ref[e][0] for e in d.elements], axis=1)
            V = np.concatenate([ref[e][1] for e in d.elements], axis=1)
            sc = max(1., np.max(np.abs(V)))
            from scipy.spatial import cKDTree
            near = cKDTree(X.T).query(np.array(coo).T)[1]           # the samples come in the order of the elements, whatever that is
            ctx.eq(len(set(near)), X.shape[1], 'nearest|all samples', what)
            X, V = X[:, near], V[:, near]
            ctx.close(np.array(coo), X, 'nearest|samples', 1e-12, what, scale=max(1., np.max(np.abs(X))))
            ctx.close(np.array(val), V, 'nearest|sample values', 1e-9, what, scale=sc)
            pick = rng.integers(X.shape[1], size=9)
            got = np.asarray(itp(*X[:, pick]))
            ctx.close(got.reshape(9, -1).T, V[:, pick], 'nearest|at samples', 1e-9, what, scale=sc)
            # default density of the properties
            dt, coo, val = F.numeric._interpolate_(t, data_only=True)
            X, V = np.array(coo), np.array(val)
            pick = rng.integers(X.shape[1], size=9)
            P = F.numeric.tsp(t)
            got = P(float(rng.uniform(0, 5)), *X[:, pick])
            ctx.close(np.array(got).reshape(len(V), -1), V[:, pick], 'tsp|field', 1e-9, what, scale=sc)
            if nm.endswith('vector'):
                for c, Q in enumerate(F.numeric.tsp.components(t)):
                    ctx.close(np.ravel(Q(.3, *X[:, pick])), V[c, pick], 'tsp|component', 1e-9, what, scale=sc)
            if hasattr(F[t].numeric, 'value'):
                try:                                                # the element of a point is found by means only some meshes offer
                    val = [F[t].numeric.value(*X[:, i]) for i in pick[:3]]
                except Exception:
                    ctx.event('value refused')
                else:
                    good = [j for j in range(3) if X.shape[1] == len(set(map(tuple, np.round(X.T, 12)))) or np.sum(np.max(np.abs(X - X[:, pick[j], None]), axis=0) < 1e-10) == 1]
                    for j in good:
                        ctx.close(np.ravel(val[j]), V[:, pick[j]], 'nearest|value at a point', 1e-9, what, scale=sc)
                        ctx.event('value at a point')
            dt, coo, val = F.numeric._interpolate_(None, data_only=True)
            V = np.array(val)
            En = F.numeric.tsp.L2_energy()(7., *X[:, pick])
            ctx.close(np.ravel(En), .5 * np.sum(V[:, pick] ** 2, axis=0), 'energy', 1e-9, what, scale=sc ** 2)
            refn = d.F[key].numeric._interpolate_(max(ts), data_only=True)[2]
            ctx.close(V, np.array(refn), 'energy|newest', 1e-12, what, scale=sc)
    combined(ctx, d, conf, p, ts)
    projected(ctx, d, conf, p, ts[int(rng.integers(3))])
    # several forms in one file
    ks = list(d.F)
    t = ts[1]
    f = os.path.join(dirn, 'grouped')
    ph.rws(f, *[d.F[k][t] for k in ks], ddf=.01)
    g = ph.read(f)
    ctx.event('grouped')
    ctx.eq(len(g), len(ks), 'grouped|length', conf)
    for i, k in enumerate(ks):
        check_rws(ctx, d, k, t, g[i]._coo_dict_list, g[i]._val_dict_list, f'{conf} {k} grouped')
    el = d.F[ks[0]].tpm.composition
    h = el.rws(*[d.F[k][t] for k in ks], ddf=.01)
    el.rws(*[d.F[k][t] for k in ks], ddf=.01, saveto=f + '2')
    for i, k in enumerate(ks):
        for q in (h, ph.read(f + '2')):
            check_rws(ctx, d, k, t, q[i]._coo_dict_list, q[i]._val_dict_list, f'{conf} {k} elements.rws')
    ctx.event('elements rws')


def compute(ctx, conf, p, rounds):
    """integrals over the elements and CFL numbers"""
    rng = ctx.rng
    d = C.build(conf, p, rng=rng)
    n = d.n
    el = d.F[list(d.F)[0]].tpm.composition
    straight = C.CONF[conf].get('ortho')
    for r in range(rounds):
        t = .5
        for key in d.F:
            d.random_global(key, t, rng)
        ctx.case('compute', conf, p, r)
        if n == 2:
            trip = [((0, 'outer'), (1, 'inner'), (1, 'outer')), ((2, 'outer'), (1, 'outer'), (1, 'inner')), ((0, 'inner'), (1, 'outer'), (1, 'outer')),
                    ((0, 'outer'), (1, 'inner'), (1, 'inner'))]
        else:
            trip = [((1, 'outer'), (2, 'outer'), (1, 'inner')), ((2, 'inner'), (1, 'outer'), (2, 'outer'))]
        trip = [x for x in trip if all(k in d.F for k in x)]
        for tr in trip:
            A, B, Cc = tr
            tot = sc = 0.
            q = 2 * p + 4
            gl, gw = np.polynomial.legendre.leggauss(q)
            for e in d.elements:
                xi, w = S.tensor_gauss(n, q)
                J = d.njac(e, *xi)
                det = np.abs(np.linalg.det(np.moveaxis(J, (0, 1), (-2, -1))))
                a, b, c = (d.recon(k, t, *[gl] * n)[e][1] for k in tr)
                if n == 2:
                    v = a[0] * (b[0] * c[1] - b[1] * c[0])
                else:
                    v = np.sum(np.cross(a, b, axis=0) * c, axis=0)
                tot += np.sum(v * w * det)
                sc += np.sum(np.abs(v) * w * det)
            if not straight:
                continue                                            # inexact quadrature on curved elements
            ctx.close(el.compute.a(*[d.F[k][t] for k in tr]), tot, 'trilinear', 1e-7, f'{conf} {tr}', scale=max(1., sc))
        if n == 2:
            f = G.Trig(rng, 2)
            sca = ph.vc.scalar(S.pyfun(f, 2))
            want = d.elem_sum(lambda *x: f(t, *x), 14)
            if not C.CONF[conf].get('tri'):
                ctx.close(el.compute.integrate(sca, quad_degree=12, t=t), want, 'integrate', 1e-7, conf)
            else:
                ctx.event('integrate')
    if n == 2 and straight and not C.CONF[conf].get('tri'):
        dirn = tmp()
        for key in ((1, 'inner'), (1, 'outer')):
            if key not in d.F:
                continue
            m = np.linspace(-1, 1, 33)
            m = (m[1:] + m[:-1]) / 2
            f = os.path.join(dirn, f'cfl{key[1]}')
            dtt = float(rng.uniform(.01, 1))
            (el.cfl if rng.random() < .5 else el.cfl.export_rws)(f, d.F[key][t], dtt)
            R = ph.read(f)
            rc = d.recon(key, t, m, m)
            for e in d.elements:
                xs = np.array([d.mapping(e, np.array([a]), np.array([b]))[:, 0] for a in (-1., 1.) for b in (-1., 1.)])
                hx, hy = np.ptp(xs[:, 0]), np.ptp(xs[:, 1])
                u, v = np.max(np.abs(rc[e][1]), axis=1)
                ctx.close(R._val_dict_list[0][e], np.full((2, 2), max(u * dtt / hx, v * dtt / hy)), 'cfl', 1e-9, f'{conf} {key}', scale=max(1., u * dtt / hx))
                ctx.close(np.array([R._coo_dict_list[i][e].ravel() for i in range(2)]).T, xs, 'cfl|coordinates', 1e-12)


def forms_py(ctx, conf, p):
    rng = ctx.rng
    d = C.build(conf, p, rng=rng)
    ts = [0., .5, 1.25]
    for key in d.F:
        for t in ts:
            d.random_global(key, t, rng)
        F = d.F[key]
        t = [None] + ts
        t = t[int(rng.integers(4))]
        m = int(rng.integers(2, 7))
        D = F.numeric.dds.rws(t=t, ddf=m) if rng.random() < .7 else F.numeric.dds(t=t, ddf=m)
        tt = max(ts) if t is None else t
        ctx.case('region stack', conf, p, key, t, m)
        what = f'{conf} p={p} {key} t={t} ddf={m}'
        ref = d.recon(key, tt, lin(m), lin(m))
        c = d.ncomp(key)
        mine = [np.concatenate([ref[e][0], ref[e][1]]).T.reshape(m, m, 2 + c, order='F') for e in d.elements]
        left = dict(enumerate(mine))
        for r in D:
            X = np.stack([D._coo_dict_list[i][r] for i in range(2)] + [v[r] for v in D._val_dict_list], axis=-1)
            if not ctx.true(X.shape[0] % m == 0 and X.shape[1] % m == 0, 'region stack|shape', f'{what} {X.shape}'):
                continue
            nb = X.shape[0] // m, X.shape[1] // m
            for i in range(nb[0]):
                for j in range(nb[1]):
                    b = X[i * m:(i + 1) * m, j * m:(j + 1) * m]
                    hit = [k for k, a in left.items() if np.allclose(a[..., :2], b[..., :2], atol=1e-10)]
                    if not ctx.true(len(hit) == 1, 'region stack|block of an element', f'{what} region {r} block {i},{j}: {len(hit)}'):
                        continue
                    a = left.pop(hit[0])
                    ctx.close(b[..., 2:], a[..., 2:], 'region stack|values', 1e-9, what, scale=max(1., np.max(np.abs(a))))
                    if i:
                        ctx.close(b[0, :, :2], X[i * m - 1, j * m:(j + 1) * m, :2], 'region stack|neighbours', 1e-9, what)
                    if j:
                        ctx.close(b[:, 0, :2], X[i * m:(i + 1) * m, j * m - 1, :2], 'region stack|neighbours', 1e-9, what)
        ctx.eq(len(left), 0, 'region stack|all elements', what)
        if c == 2:
            # energy densities: interpolated u, v
            g = np.array([-.31, .2, .44])
            x = d.mapping(d.elements[0], g, g[::-1])
            u = [np.ravel(q(*x)) for q in F.numeric.interp(tt)]
            ctx.close(np.ravel(F.numeric.tsf.L2_energy(tt, *x)), .5 * (u[0] ** 2 + u[1] ** 2), 'energy|msepy', 1e-9, what, scale=max(1., np.max(np.abs(u)) ** 2))
            u = [np.ravel(q(*x)) for q in F.numeric.interp(max(ts))]
            ctx.close(np.ravel(F.numeric.tsp.L2_energy()(3., *x)), .5 * (u[0] ** 2 + u[1] ** 2), 'energy|msepy newest', 1e-9, what, scale=max(1., np.max(np.abs(u)) ** 2))
    if C.CONF[conf].get('ortho') and p >= 2:
        co = rng.uniform(-1, 1, 6)

        def psi(x, y):
            return co[0] + co[1] * x + co[2] * y + co[3] * x * x + co[4] * x * y + co[5] * y * y

        key = (1, 'outer')
        F = d.F[key]
        for t in ts:
            s = t + 1
            d.reduce(key, t, d.cfun(key, lambda t, x, y: (t + 1) * (co[2] + co[4] * x + 2 * co[5] * y), lambda t, x, y: -(t + 1) * (co[1] + 2 * co[3] * x + co[4] * y)))
        t = [None] + ts
        t = t[int(rng.integers(4))]
        s = 1 + (max(ts) if t is None else t)
        m = int(rng.integers(2, 7))
        D = F.numeric.dds.rws(t=t, ddf=m)
        sf = D.streamfunction()
        regs = list(sf)
        out = [('dds', sf)]
        if len(regs) == 1:
            ctx.event('form streamfunction')
            out.append(('form', F.numeric.streamfunction.rws(t=t, ddf=m)))
        for nm, q in out:
            c0 = None
            for r in regs:
                x, y = q._coo_dict_list[0][r], q._coo_dict_list[1][r]
                v = q._val_dict_list[0][r] - s * psi(x, y)
                c0 = v[0, 0] if c0 is None else c0
                ctx.close(v, 0 * v + c0, f'form streamfunction|{nm}', 1e-8, f'{conf} p={p} t={t} region {r}')


def UNITS(tier):
    th = tier != 'quick'
    out = []
    for i in range(2 if not th else 6):
        out.append((f'algebra {i}', algebra, dict(rounds=25 if not th else 60)))
        out.append((f'stream {i}', stream, dict(rounds=30 if not th else 100)))
    out.append(('groups', groups, dict(rounds=20 if not th else 100)))
    ht = ['ht2', 'ht2n', 'ht2p', 'ht2m', 'ht2c', 'ht2chc', 'ht2trf', 'ht2ts', 'ht2mp', 'rq', 'rqn', 'rqt', 'ht3o', 'ht3b', 'ht3p']
    if th:
        ht += ['ht2o', 'ht2op', 'ht2b', 'ht2r', 'ht2q', 'ht2ch', 'ht2trfp', 'ht2mpt', 'ht2bt', 'rt', 'ht3n']
    for c in ht:
        for p in ((2,) if not th else ((1, 2, 3) if C.CONF[c]['n'] == 2 else (1, 2))):
            out.append((f'forms {c} p{p}', forms_ht, dict(conf=c, p=p)))
    for c in (['ht2n', 'ht2o', 'ht2', 'ht3o'] + (['ht2op', 'ht2b', 'ht2p', 'ht2q', 'rq', 'ht3n'] if th else [])):
        for p in ((2,) if not th else (1, 2, 3) if C.CONF[c]['n'] == 2 else (1, 2)):
            out.append((f'compute {c} p{p}', compute, dict(conf=c, p=p, rounds=2 if not th else 4)))
    for c in (['py2', 'py2o', 'py2n', 'py2m', 'py2b', 'py2c'] + (['py2u', 'py2p', 'py2mp'] if th else [])):
        for p in ((2,) if not th else (1, 2, 3)):
            out.append((f'forms {c} p{p}', forms_py, dict(conf=c, p=p)))
    return out
