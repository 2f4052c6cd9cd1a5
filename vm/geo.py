"""Independent description of the degrees of freedom of an element, and analytic fields.

dof_cells says for every local dof of a space the axis-aligned box of the reference element it stands for, in the
documented local numbering (components one after the other, first axis fastest).
"""
import itertools
import numpy as np
from numpy.polynomial import legendre as L


def gll(p):
    """Gauss-Lobatto-Legendre nodes by Newton on (1-x^2) P_p'."""
    if p == 1:
        return np.array([-1., 1.])
    c = np.zeros(p + 1)
    c[p] = 1
    r = np.sort(np.real(L.legroots(L.legder(c))))
    d1, d2 = L.legder(c), L.legder(c, 2)
    for _ in range(3):
        r = r - L.legval(r, d1) / L.legval(r, d2)
    return np.concatenate([[-1.], r, [1.]])


def nodes_of(p, n):
    """p: int, tuple of ints or tuple of lists of relative segment lengths."""
    if isinstance(p, (int, np.integer)):
        p = (p,) * n
    out = []
    for q in p:
        if isinstance(q, (list, tuple)):
            out.append(-1 + 2 * np.concatenate([[0.], np.cumsum(q) / np.sum(q)]))
        else:
            out.append(gll(q))
    return out


def _grid(ranges):
    """index tuples, first axis fastest"""
    return [tuple(reversed(i)) for i in itertools.product(*[range(r) for r in reversed(ranges)])]


def dof_cells(nodes, k, o, n, tri=False):
    """list of (lo, hi, along): box [lo, hi] in the reference element; along = axes in which it extends."""
    p = [len(x) - 1 for x in nodes]
    out = []

    def box(idx, along):
        lo = [nodes[a][i] for a, i in enumerate(idx)]
        hi = [nodes[a][i + 1] if a in along else nodes[a][i] for a, i in enumerate(idx)]
        out.append((np.array(lo), np.array(hi), along))

    if tri:
        assert n == 2
        if k == 0:
            box((0, 0), ())
            for i, j in _grid((p[0], p[1] + 1)):
                box((i + 1, j), ())
        elif k == 1:
            first = lambda: [box((i, j), (0,)) for i, j in _grid((p[0], p[1] + 1))]
            second = lambda: [box((i + 1, j), (1,)) for i, j in _grid((p[0], p[1]))]
            (first(), second()) if o == 'inner' else (second(), first())
        else:
            [box(i, (0, 1)) for i in _grid(p)]
        return out
    if k == 0:
        [box(i, ()) for i in _grid([q + 1 for q in p])]
    elif k == n:
        [box(i, tuple(range(n))) for i in _grid(p)]
    else:
        for c in range(n):
            along = {(2, 1, 'inner'): (c,), (2, 1, 'outer'): (1 - c,)}.get((n, k, o))
            if n == 3:
                along = (c,) if k == 1 else tuple(a for a in range(3) if a != c)
            [box(i, along) for i in _grid([p[a] if a in along else p[a] + 1 for a in range(n)])]
    return out


def dof_values(d, e, nodes, k, o, fn, q=12, tri=False):
    """The integrals of the field fn (callable x,... -> list of components) over the dof's cells of element e, oriented
    along increasing reference coordinates."""
    n = d.n
    cells = dof_cells(nodes, k, o, n, tri)
    out = np.zeros(len(cells))
    gx, gw = np.polynomial.legendre.leggauss(q)
    by = {}
    for m, (lo, hi, al) in enumerate(cells):
        by.setdefault(al, []).append(m)
    for al, ms in by.items():
        g = np.meshgrid(*[gx] * len(al), indexing='ij') if al else []
        W = np.prod(np.meshgrid(*[gw] * len(al), indexing='ij'), axis=0).ravel() if al else np.ones(1)
        lo = np.array([cells[m][0] for m in ms])
        hi = np.array([cells[m][1] for m in ms])
        N = len(W)
        xi = [np.repeat(lo[:, [a]], N, axis=1) for a in range(n)]
        fac = np.ones(len(ms))
        for b, a in enumerate(al):
            h = (hi[:, a] - lo[:, a]) / 2
            xi[a] = lo[:, [a]] + h[:, None] * (g[b].ravel()[None, :] + 1)
            fac = fac * h
        shp = xi[0].shape
        xi = [x.ravel() for x in xi]
        X = d.mapping(e, *xi)
        F = np.array([np.asarray(f, float) + 0 * X[0] for f in fn(*X)])
        if k == 0:
            out[ms] = F[0].reshape(shp)[:, 0]
            continue
        J = d.njac(e, *xi)
        Jm = np.moveaxis(J, (0, 1), (-2, -1))
        if k == n:
            v = F[0] * np.abs(np.linalg.det(Jm))
        elif len(al) == 1 and (n == 3 or o == 'inner'):
            v = np.sum(F * J[:, al[0]], axis=0)
        elif n == 2:
            t = J[:, al[0]]
            v = F[0] * t[1] - F[1] * t[0] if al[0] == 1 else -F[0] * t[1] + F[1] * t[0]
        else:
            c = ({0, 1, 2} - set(al)).pop()
            a, b = [(1, 2), (2, 0), (0, 1)][c]
            v = np.sum(F * np.cross(J[:, a], J[:, b], axis=0), axis=0)
        out[ms] = (v * np.tile(W, len(ms))).reshape(shp).sum(axis=1) * fac
    return out


class Trig:
    """scalar sum_i A_i sin(k_i.x + ph_i + w_i t) with analytic derivatives; everything random."""

    def __init__(self, rng, n, periodic=False, terms=2, kmax=1.5):
        self.n = n
        self.A = rng.uniform(.5, 1.5, terms) * rng.choice([-1, 1], terms)
        self.k = 2 * np.pi * rng.integers(-1, 2, (terms, n)) if periodic else rng.uniform(-kmax, kmax, (terms, n))
        if periodic:
            self.k[0] = 2 * np.pi * np.eye(n)[rng.integers(n)]
        self.ph = rng.uniform(0, 6, terms)
        self.w = rng.uniform(-1, 1, terms)

    def __call__(self, t, *x, d=()):
        """d: sequence of axes to differentiate by ('t' for time)"""
        s = 0.
        for A, k, ph, w in zip(self.A, self.k, self.ph, self.w):
            arg = sum(ki * xi for ki, xi in zip(k, x)) + ph + w * t
            c = A
            for a in d:
                c = c * (w if a == 't' else k[a])
            s = s + c * [np.sin, np.cos, lambda z: -np.sin(z), lambda z: -np.cos(z)][len(d) % 4](arg)
        return s

    def der(self, *d):
        return lambda t, *x: self(t, *x, d=d)


class Poly:
    """scalar polynomial of total or coordinate degree <= deg, linear in t."""

    def __init__(self, rng, n, deg):
        deg = (deg,) * n if np.isscalar(deg) else deg
        self.c = rng.uniform(-1, 1, [q + 1 for q in deg])
        self.c1 = rng.uniform(-1, 1, [q + 1 for q in deg])
        self.n = n

    def __call__(self, t, *x, d=()):
        c = self.c + self.c1 * t
        for a in d:
            c = self.c1 if a == 't' else np.polynomial.polynomial.polyder(c, axis=a)
        f = [np.polynomial.polynomial.polyval, np.polynomial.polynomial.polyval2d,
             np.polynomial.polynomial.polyval3d][self.n - 1]
        return f(*x, c) if c.size else 0 * x[0]

    der = Trig.der


def derivative(n, k, o, f):
    """components of the exterior derivative's proxy of a field with component objects f."""
    if k == 0:
        if n == 2 and o == 'outer':
            g = f[0]
            return [g.der(1), lambda t, *x: -g(t, *x, d=(0,))]
        return [f[0].der(a) for a in range(n)]
    if n == 2:
        if o == 'inner':
            return [lambda t, *x: f[1](t, *x, d=(0,)) - f[0](t, *x, d=(1,))]
        return [lambda t, *x: f[0](t, *x, d=(0,)) + f[1](t, *x, d=(1,))]
    if k == 1:
        return [lambda t, *x, a=a, b=b: f[b](t, *x, d=(a,)) - f[a](t, *x, d=(b,)) for a, b in ((1, 2), (2, 0), (0, 1))]
    return [lambda t, *x: f[0](t, *x, d=(0,)) + f[1](t, *x, d=(1,)) + f[2](t, *x, d=(2,))]


# ---------------------------------------------------------------- bases and reconstruction
def lagrange(nodes, x):
    """(p+1, N) by barycentric-free products"""
    x = np.asarray(x, float)
    out = np.ones((len(nodes), x.size))
    for i, a in enumerate(nodes):
        for j, b in enumerate(nodes):
            if j != i:
                out[i] *= (x - b) / (a - b)
    return out


def dlagrange(nodes, x):
    x = np.asarray(x, float)
    p = len(nodes)
    out = np.zeros((p, x.size))
    for i in range(p):
        for m in range(p):
            if m == i:
                continue
            t = np.ones(x.size) / (nodes[i] - nodes[m])
            for j in range(p):
                if j not in (i, m):
                    t = t * (x - nodes[j]) / (nodes[i] - nodes[j])
            out[i] += t
    return out


def edgebasis(nodes, x):
    """(p, N): integrates to 1 over its own segment and to 0 over the others"""
    d = dlagrange(nodes, x)
    return -np.cumsum(d, axis=0)[:-1]


def basis(nodes, k, o, n, tri, *grid):
    """list over components of (ndofs of the component, N) reference basis values on the tensor grid, F order, plus the
    reference coordinates"""
    l = [lagrange(a, g) for a, g in zip(nodes, grid)]
    e = [edgebasis(a, g) for a, g in zip(nodes, grid)]
    XI = [a.ravel('F') for a in np.meshgrid(*grid, indexing='ij')]

    def tensor(fs):
        """fs: per axis (nb, N); dof first axis fastest, points first axis fastest"""
        out = fs[0]
        for f in fs[1:]:
            out = np.einsum('ap,bq->baqp', out, f).reshape(out.shape[0] * f.shape[0], out.shape[1] * f.shape[1])
        return out

    if tri:
        if k == 0:
            b = tensor([l[0][1:], l[1]])
            first = np.tile(l[0][0], len(grid[1]))[None]
            return [np.vstack([first, b])], XI
        if k == 2:
            return [tensor(e)], XI
        a, b = tensor([e[0], l[1]]), tensor([l[0][1:], e[1]])
        return ([a, b] if o == 'inner' else [b, a]), XI
    if k == 0:
        return [tensor(l)], XI
    if k == n:
        return [tensor(e)], XI
    comps = []
    for c in range(n):
        if n == 2:
            al = (c,) if o == 'inner' else (1 - c,)
        else:
            al = (c,) if k == 1 else tuple(a for a in range(3) if a != c)
        comps.append(tensor([e[a] if a in al else l[a] for a in range(n)]))
    return comps, XI


def recon(d, e, nodes, key, coeff, tri, *grid):
    """physical coordinates (n, N) and components (c, N) of the field whose (orientation-corrected) dofs are coeff"""
    k, o = key
    n = d.n
    comps, XI = basis(nodes, k, o, n, tri, *grid)
    X = d.mapping(e, *XI)
    vals, i = [], 0
    for b in comps:
        vals.append(coeff[i:i + len(b)] @ b)
        i += len(b)
    if i != len(coeff):
        raise ValueError(f'{len(coeff)} local dofs, expected {i}')
    vals = np.array(vals)
    if k == 0:
        return X, vals
    J = np.moveaxis(d.njac(e, *XI), (0, 1), (-2, -1))
    det = np.linalg.det(J)
    if k == n:
        return X, vals / np.abs(det)
    if k == 1 and (n == 3 or o == 'inner'):
        return X, np.einsum('pji,jp->ip', np.linalg.inv(J), vals)
    return X, np.einsum('pij,jp->ip', J, vals) / det


def signs(d, key, nodes, tris, rng, reps=3):
    """per element: the orientation (+1/-1) of every local dof relative to the reference coordinates, observed by
    reducing random fields"""
    best = None
    for _ in range(reps):
        comps = [Trig(rng, d.n, kmax=4.) for _ in range(d.ncomp(key))]
        c = d.reduce(key, 0.125, d.cfun(key, *comps))
        val = lambda *x: [f(0.125, *x) for f in comps]
        r = {e: dof_values(d, e, nodes, *key, val, tri=tris[e], q=8) for e in d.elements}
        best = best or {e: np.zeros((2, len(r[e]))) for e in d.elements}
        for e in d.elements:
            s = np.abs(r[e]) > best[e][0]
            best[e][0][s] = np.abs(r[e])[s]
            best[e][1][s] = np.sign(r[e] * c[e])[s]
    return {e: b[1] for e, b in best.items()}


def is_tri(d, e):
    return d.etype(e) in (5, 'unique msepy curvilinear triangle', 'unique curvilinear triangle')


def has_reversal(d):
    return d.impl == 'msehtt' and any(is_tri(d, e) or d.etype(e) in (9, 'unique curvilinear quad') for e in d.elements)


def faces_2d(d):
    """[(element, axis, side)] of all element faces (triangles have no face at xi=-1)."""
    out = []
    for e in d.elements:
        for a in range(d.n):
            for s in (-1., 1.):
                if is_tri(d, e) and (a, s) == (0, -1.):
                    continue
                out.append((e, a, s))
    return out


def pair_faces(d):
    """interior faces as pairs found by the physical position of their mid and quarter points (own mapping evaluation);
    returns (pairs, boundary faces)"""
    mid = {}
    for f in faces_2d(d):
        e, a, s = f
        xi = [np.zeros(1) for _ in range(d.n)]
        xi[a] = np.array([s])
        mid.setdefault(tuple(np.round(d.mapping(e, *xi)[:, 0], 7) + 0.), []).append(f)
    return [v for v in mid.values() if len(v) == 2], [v[0] for v in mid.values() if len(v) == 1], \
        [v for v in mid.values() if len(v) > 2]


def phys_basis(d, e, nodes, key, tri, *grid):
    """coordinates (n, N), basis functions (components, ndofs, N) pushed forward, |det J| (N,)"""
    k, o = key
    n = d.n
    comps, XI = basis(nodes, k, o, n, tri, *grid)
    J = np.moveaxis(d.njac(e, *XI), (0, 1), (-2, -1))
    det = np.linalg.det(J)
    X = d.mapping(e, *XI)
    if k == 0:
        return X, comps[0][None], np.abs(det)
    if k == n:
        return X, comps[0][None] / np.abs(det), np.abs(det)
    R = np.zeros((n, sum(len(b) for b in comps), len(det)))
    i = 0
    for c, b in enumerate(comps):
        R[c, i:i + len(b)] = b
        i += len(b)
    if k == 1 and (n == 3 or o == 'inner'):
        return X, np.einsum('pji,jap->iap', np.linalg.inv(J), R), np.abs(det)
    return X, np.einsum('pij,jap->iap', J, R) / det, np.abs(det)


def rule(cand, nodes):
    """(kind, extra): per-axis (points, weights); 'G': p+extra Gauss points, 'L': p+1+extra Lobatto points, 'F': fixed"""
    out = []
    for a in nodes:
        p = len(a) - 1
        kind, j = cand
        if kind == 'L':
            x = gll(p + j)
            c = np.zeros(p + j + 1)
            c[-1] = 1
            w = 2. / ((p + j) * (p + j + 1) * L.legval(x, c) ** 2)
        else:
            x, w = L.leggauss(p + j if kind == 'G' else j)
        out.append((x, w))
    return out


def flat(rules):
    W = np.meshgrid(*[w for _, w in rules], indexing='ij')
    return [x for x, _ in rules], np.prod([a.ravel('F') for a in W], axis=0)
