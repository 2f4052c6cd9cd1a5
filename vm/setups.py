"""Uniform access to a discretisation (msepy or msehtt): Disc.

Only documented/observable entry points are used: forms, cochains, gathering matrices, incidence and mass
matrices, reconstruction, element mappings.
"""
import itertools
import numpy as np
from vm.lazy import ph

EXTRA = {}          # name -> ((k, orientation), degree or index expression): further forms of the next discretisations built
TS = []             # the time sequence of the extra forms at abstract instants

SPACES = {n: [(k, o) for k in range(n + 1) for o in ('inner', 'outer')] for n in (1, 2, 3)}


def fresh(n, periodic=False):
    ph.config.set_embedding_space_dim(n)
    manifold = ph.manifold(n, periodic=periodic)
    mesh = ph.mesh(manifold)
    return manifold, mesh


class Disc:
    """impl: 'msepy'|'msehtt'; F[(k, o)] -> form"""

    def __init__(self, impl, n):
        self.impl, self.n = impl, n
        self.F = {}
        self.sections = {}

    # ---- elements and geometry --------------------------------------------------------------
    @property
    def elements(self):
        if self.impl == 'msepy':
            return list(range(len(self.obj['mesh'].elements)))
        es = list(self.tgm.elements)
        return sorted(es, key=repr) if len({type(e) for e in es}) > 1 else sorted(es)

    def ct(self, e):
        if self.impl == 'msepy':
            return self.obj['mesh'].elements[e].ct
        return self.tgm.elements[e].ct

    def mapping(self, e, *xi):
        return np.array([np.asarray(c, dtype=float) + 0 * xi[0] for c in self.ct(e).mapping(*xi)])

    def jac(self, e, *xi):
        J = self.ct(e).Jacobian_matrix(*xi)
        if self.n == 1 and not isinstance(J, (list, tuple)):
            J = [[J]]
        return np.array([[np.asarray(c, dtype=float) + 0 * xi[0] for c in row] for row in J])

    def etype(self, e):
        return 'msepy' if self.impl == 'msepy' else self.tgm.elements[e].etype

    def elem_sum(self, fn, q=14):
        """integral over the domain of fn(*x) by our own tensor Gauss quadrature and numerical Jacobian"""
        tot = 0.
        for e in self.elements:
            xs, w, J = self.quad(e, q)
            tot += np.sum(fn(*xs) * w * np.abs(np.linalg.det(np.moveaxis(J, (0, 1), (-2, -1)))))
        return tot

    def quad(self, e, q=14):
        xi, w = tensor_gauss(self.n, q)
        return self.mapping(e, *xi), w, self.njac(e, *xi)

    def njac(self, e, *xi, h=1e-3):
        """Jacobian matrix of the mapping by 4th order differences (independent of the code's Jacobian)."""
        n = self.n
        J = np.zeros((n, n) + xi[0].shape)
        nodes = np.arange(-2., 3.)
        for j in range(n):
            x0 = np.clip(xi[j], -1 + 2 * h, 1 - 2 * h)
            r = (xi[j] - x0) / h
            for a in nodes:
                # derivative of the Lagrange polynomial of node a at r
                w = 0.
                for m in nodes:
                    if m == a:
                        continue
                    t = 1. / (a - m)
                    for q in nodes:
                        if q not in (a, m):
                            t = t * (r - q) / (a - q)
                    w = w + t
                at = list(xi)
                at[j] = x0 + a * h
                J[:, j] += w / h * self.mapping(e, *at)
        return J

    # ---- forms ------------------------------------------------------------------------------
    def gm(self, key):
        """global numbering of a form: dict element -> 1d int array"""
        gm = self.F[key].cochain.gathering_matrix
        return {e: np.array(gm[e]) for e in self.elements}

    def ndofs(self, key):
        gm = self.F[key].cochain.gathering_matrix
        return gm.num_dofs if self.impl == 'msepy' else gm.num_global_dofs

    def E(self, key):
        f = self.F[key]
        E = f.coboundary.incidence_matrix if self.impl == 'msepy' else f.incidence_matrix
        return {e: E[e].toarray() for e in self.elements}

    def M(self, key):
        f = self.F[key]
        M = f.matrix.mass if self.impl == 'msepy' else self.ms.array('mass matrix', f)[0]
        return {e: M[e].toarray() for e in self.elements}

    def set(self, key, t, cochain):
        """cochain: dict element -> vector"""
        if self.impl == 'msepy':
            self.F[key][t].cochain = np.array([cochain[e] for e in self.elements])
        else:
            self.F[key][t].cochain = {e: np.array(cochain[e]) for e in self.elements}

    def get(self, key, t):
        c = self.F[key][t].cochain
        if self.impl == 'msepy':
            return {e: np.array(c.local[e]) for e in self.elements}
        return {e: np.array(c[e]) for e in self.elements}

    def random_global(self, key, t, rng):
        """A random cochain that is single-valued per global dof."""
        g = rng.standard_normal(self.ndofs(key))
        gm = self.gm(key)
        self.set(key, t, {e: g[gm[e]] for e in self.elements})
        return g

    def reduce(self, key, t, fn):
        f = self.F[key]
        f.cf = fn
        f[t].reduce()
        return self.get(key, t)

    def recon(self, key, t, *grids):
        """reconstruct on the tensor product of 1d grids: dict e -> (coords array (n,N), values array (c,N)),
        N in F-order"""
        out = self.F[key][t].reconstruct(*grids, ravel=True) if self.n > 1 else self.F[key][t].reconstruct(*grids)
        if self.impl == 'msepy':
            xs, vs = out
            return {e: (np.array([x[e] for x in xs]), np.array([v[e] for v in vs])) for e in self.elements}
        X, V = out
        return {e: (np.array([np.ravel(x[e], order='F') for x in X]),
                    np.array([np.ravel(v[e], order='F') for v in V])) for e in self.elements}

    def ncomp(self, key):
        return 1 if key[0] in (0, self.n) else self.n

    def cfun(self, key, *fns):
        fns = [pyfun(f, self.n) for f in fns]
        return ph.vc.scalar(fns[0]) if self.ncomp(key) == 1 else ph.vc.vector(*fns)


def pyfun(f, n):
    """plain python function of (t, x, ...) around any callable"""
    if n == 1:
        return lambda t, x: f(t, x)
    if n == 2:
        return lambda t, x, y: f(t, x, y)
    return lambda t, x, y, z: f(t, x, y, z)


def tensor_gauss(n, q):
    x, w = np.polynomial.legendre.leggauss(q)
    g = np.meshgrid(*[x] * n, indexing='ij')
    W = np.meshgrid(*[w] * n, indexing='ij')
    return [a.ravel('F') for a in g], np.prod([a.ravel('F') for a in W], axis=0)


def extra_forms(fs):
    xs = {}
    TS.clear()
    for name, (key, degree) in EXTRA.items():
        if isinstance(degree, str):            # the form at an abstract time instant
            TS.append(TS[0] if TS else ph.time_sequence())
            xs[name] = fs[key] @ TS[0][degree]
            continue
        sp = fs[key].space
        xs[name] = sp.make_form(rf'x_{name}', f'extra{name}')
        if degree is not None:
            sp.finite.specify_form(xs[name], degree)
    return xs


def make_msepy(n, K, p=2, dom='crazy', domkw=None, keys=None, periodic=False, extra=None,
               gamma=None):
    manifold, mesh = fresh(n, periodic=periodic)
    d = Disc('msepy', n)
    if gamma is not None:
        mesh.boundary_partition(r'\Gamma_a', r'\Gamma_b')
    fs = {}
    for (k, o) in keys or SPACES[n]:
        s = ph.space.new('Lambda', k, orientation=o)
        fs[(k, o)] = s.make_form(rf'f_{k}^{o}', f'form{k}{o}')
    xs = extra_forms(fs)
    if extra:
        extra()
    ph.space.finite(p)
    ms, obj = ph.fem.apply('msepy', dict(manifold=manifold, mesh=mesh))
    ms.config(obj['manifold'])(dom, **(domkw or {}))
    if gamma is not None:
        B = ms.base['manifolds']
        ms.config(B[r'\Gamma_a'])(obj['manifold'], gamma)
    ms.config(obj['mesh'])(K)
    if gamma is not None:
        for m in ms.base['meshes'].values():
            for tag, r in (('a', r'\Gamma_a'), ('b', r'\Gamma_b'), ('all', r'\partial\mathcal{M}')):
                if m.manifold is B.get(r):
                    d.sections[tag] = m
    d.ms, d.obj, d.tgm = ms, obj, None
    d.F = {k: ms.base['forms'][v._pure_lin_repr] for k, v in fs.items()}
    d.X = {k: ms.base['forms'][v._pure_lin_repr] for k, v in xs.items()}
    d.p = p
    return d


def make_msehtt(n, args, kw, p=2, keys=None, mperiodic=None, boundary=True, tgm_only=False):
    per = kw.get('periodic', False) if mperiodic is None else mperiodic
    manifold, mesh = fresh(n, periodic=per)
    d = Disc('msehtt', n)
    bm = mesh.boundary() if boundary and not per else None
    fs = {}
    for (k, o) in keys or SPACES[n]:
        s = ph.space.new('Lambda', k, orientation=o)
        fs[(k, o)] = s.make_form(rf'f_{k}^{o}', f'form{k}{o}')
    xs = extra_forms(fs)
    ph.space.finite(p)
    od = dict(manifold=manifold, mesh=mesh)
    if bm is not None:
        od['bm'] = bm
    ms, obj = ph.fem.apply('msehtt', od)
    tgm = ms.base['the_great_mesh']
    ms.config('tgm')(*args, **kw)
    ms.config(obj['mesh'])(tgm, 'all')
    if bm is not None:
        ms.config(obj['bm'])(tgm, obj['mesh'])
    d.ms, d.obj, d.tgm = ms, obj, tgm
    d.F = {k: ms.base['forms'][v._pure_lin_repr] for k, v in fs.items()}
    d.X = {k: ms.base['forms'][v._pure_lin_repr] for k, v in xs.items()}
    d.p = p
    return d
