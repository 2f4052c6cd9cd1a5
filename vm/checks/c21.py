"""C21: the manufactured solutions and initial or boundary conditions in ph.samples satisfy their stated equations."""
import math
import numpy as np
from vm.lazy import S, ph                                                          # noqa

META = dict(
    rule='one distinct case per (sample, drawn parameters, drawn time)',
    assumptions=['the base fields are smooth away from the documented kinks, from which the drawn points keep a distance',
                 'derived fields obtained by numerical differentiation in the code are compared with the tolerance of that differentiation: '
                 '2e-6, 3e-4 and 5e-3 (relative) for one, two and three nested derivatives'],
    note='The equations are evaluated on the base callables of every sample with sixth-order central differences written for this check, at '
         'random points, times and parameters; boundary values, periodicity, initial values and closed forms are checked as stated in the docs.',
    must_observe=['eigen', 'singular', 'mhd2', 'ns2', 'ns3', 'mhd3', 'hall', 'hall initial', 'helicity', 'pnpns', 'pnpns initial', 'orszag tang',
                  'orszag tang 3d', 'shear layer', 'loop', 'dipole', 'cavity', 'cylinder', 'piecewise'])

H = 2e-3
CO = ((1, 3 / 4), (2, -3 / 20), (3, 1 / 60))


class Fld:
    """(t, *x) -> array (components, points)"""

    def __init__(self, f, n):
        self.f, self.n = f, n                       # n: spatial dimension

    def __call__(self, t, *x):
        return self.f(t, *x)

    def part(self, i):
        """derivative along t (0) or x_i (1..n)"""
        def g(*a):
            r = 0
            for k, c in CO:
                p, m = list(a), list(a)
                p[i], m[i] = a[i] + k * H, a[i] - k * H
                r = r + c * (self.f(*p) - self.f(*m))
            return r / H
        return Fld(g, self.n)

    @property
    def dt(self):
        return self.part(0)

    def comp(self, k):
        return Fld(lambda *a: self.f(*a)[k:k + 1], self.n)

    def __add__(self, o):
        return Fld(lambda *a: self.f(*a) + o.f(*a), self.n)

    def __sub__(self, o):
        return Fld(lambda *a: self.f(*a) - o.f(*a), self.n)

    def __rmul__(self, c):
        return Fld(lambda *a: c * self.f(*a), self.n)

    def __mul__(self, o):                           # scalar field times field
        return Fld(lambda *a: self.f(*a) * o.f(*a), self.n)

    @property
    def grad(self):
        return stack(*[self.part(i + 1) for i in range(self.n)])

    @property
    def div(self):
        ds = [self.comp(i).part(i + 1) for i in range(self.n)]
        return Fld(lambda *a: sum(d.f(*a) for d in ds), self.n)

    @property
    def curl(self):
        if self.n == 2:                             # of a scalar
            return stack(self.part(2), -1.0 * self.part(1))
        c = self.comp
        return stack(c(2).part(2) - c(1).part(3), c(0).part(3) - c(2).part(1), c(1).part(1) - c(0).part(2))

    @property
    def rot(self):
        return self.comp(1).part(1) - self.comp(0).part(2)

    @property
    def lap(self):
        return self.grad.div

    def dot(self, o):
        return Fld(lambda *a: np.sum(self.f(*a) * o.f(*a), axis=0, keepdims=True), self.n)

    def map(self, g):
        return Fld(lambda *a: g(self.f(*a)), self.n)


def stack(*fs):
    return Fld(lambda *a: np.concatenate([f.f(*a) for f in fs]), fs[0].n)


def cross3(a, b):
    return Fld(lambda *x: np.cross(a.f(*x), b.f(*x), axis=0), 3)


def cross_vv(a, b):                                 # 2d vectors -> scalar
    def g(*x):
        p, q = a.f(*x), b.f(*x)
        return (p[0] * q[1] - p[1] * q[0])[None]
    return Fld(g, 2)


def cross_sv(s, v):                                 # 2d scalar (out of plane) x vector
    def g(*x):
        w, p = s.f(*x), v.f(*x)
        return np.stack([-w[0] * p[1], w[0] * p[0]])
    return Fld(g, 2)


def arr(F, t, x):
    """evaluate a field of the code as (components, points)"""
    v = F(t, *x)
    v = list(v) if isinstance(v, (list, tuple)) else [v]
    n = np.broadcast(*x).shape
    return np.stack([np.broadcast_to(np.asarray(c, float), n) for c in v])


def base(F, n):
    return Fld(lambda *a: arr(F, a[0], a[1:]), n)


TOL = {0: 1e-12, 1: 2e-6, 2: 3e-4, 3: 5e-3}


class Cmp:
    def __init__(self, ctx, key, t, x, what):
        self.ctx, self.key, self.t, self.x, self.what = ctx, key, t, x, what

    def same(self, F, ref, order, nm, scale=None):
        """a field the code derives against a reference"""
        r = ref(self.t, *self.x)
        v = arr(F, self.t, self.x)
        sc = max(1.0, float(np.max(np.abs(r))), scale or 0)
        self.ctx.close(v, r, f'{self.key}|{nm}', TOL[order], f'{self.what} t={self.t}', scale=sc)

    def zero(self, ref, nm, scale=1.0, tol=1e-8):
        r = ref(self.t, *self.x)
        self.ctx.close(r, 0 * r, f'{self.key}|{nm}', tol, f'{self.what} t={self.t}', scale=max(1.0, scale))

    def ref(self, a, b, nm, tol=1e-8):
        a, b = a(self.t, *self.x), b(self.t, *self.x)
        self.ctx.close(a, b, f'{self.key}|{nm}', tol, f'{self.what} t={self.t}', scale=max(1.0, float(np.max(np.abs(b)))))

    def periodic(self, F, L, nm, n):
        a = arr(F, self.t, self.x)
        for i in range(n):
            y = list(self.x)
            y[i] = y[i] + L
            self.ctx.close(arr(F, self.t, y), a, f'{self.key}|periodic {nm}', 1e-10, f'{self.what} direction {i}', scale=max(1., np.max(np.abs(a))))


def pts(rng, n, lo, hi, m=7):
    return [rng.uniform(lo, hi, m) for _ in range(n)]


def params(rng, k):
    return [float(np.round(rng.uniform(.3, 4), 3)) for _ in range(k)]


def faces(rng, n, lo, hi, m=5):
    """points on every face of the box with the outward normal axis"""
    for i in range(n):
        for v in (lo, hi):
            x = pts(rng, n, lo, hi, m)
            x[i] = np.full(m, float(v))
            yield i, x


# ------------------------------------------------------------------------------------------------ two dimensions

def two(ctx, rounds):
    rng = ctx.rng
    for r in range(rounds):
        t = float(rng.uniform(-1, 1))
        # eigen solution
        om, phi = tuple(rng.uniform(.5, 3, 2)), tuple(rng.uniform(-2, 2, 3))
        s = ph.samples.Eigen2(om, phi) if r else ph.samples.Eigen2()
        if r:
            ctx.case('eigen', r, om, phi)
        c = Cmp(ctx, 'eigen', t, pts(rng, 2, -1, 1), f'OM={om} PHI={phi}')
        a, b = base(s.a, 2), base(s.b, 2)
        tl = 1e-8 if r else 1e-6
        c.ref(a.dt, b.div, 'a_t = div b', tl)
        c.ref(b.dt, a.grad, 'b_t = grad a', tl)
        c.same(s.scalar, a, 0, 'scalar')
        c.same(s.vector, b, 0, 'vector')
        ctx.true(np.max(np.abs(arr(s.a, t, c.x))) > 1e-8, 'eigen|trivial', '')
        # L singularity: outside of the third quadrant, away from the corner
        s = ph.samples.ManufacturedSolutionLSingularity()
        R, th = rng.uniform(.1, 1, 9), rng.uniform(-np.pi / 2 + .1, np.pi - .1, 9)
        c = Cmp(ctx, 'singular', t, [R * np.cos(th), R * np.sin(th)], '')
        p = base(s.potential, 2)
        ctx.case('singular', r, t)
        c.zero(p.lap, 'harmonic', 1., 1e-4)
        ctx.close(arr(s.potential, t, c.x)[0], R ** (2 / 3) * np.sin(2 / 3 * (th + np.pi / 2)), 'singular|closed form', 1e-12)
        z = np.zeros(9)
        ctx.close(arr(s.potential, t, [z, -R])[0], z, 'singular|re-entrant edge', 1e-14, 'x = 0')
        ctx.close(arr(s.potential, t, [-R, z])[0], z, 'singular|re-entrant edge', 1e-14, 'y = 0')
        # MHD
        cc, Rm, Rf = params(rng, 3)
        s = ph.samples.ManufacturedSolutionMHD2Ideal1(cc, Rm, Rf)
        ctx.case('mhd2', r, cc, Rm, Rf)
        ctx.eq((s.c, s.Rm, s.Rf), (cc, Rm, Rf), 'mhd2|parameters')
        c = Cmp(ctx, 'mhd2', t, pts(rng, 2, 0, 2 * np.pi), f'c={cc} Rm={Rm} Rf={Rf}')
        sf, E, B, Pr = (base(f, 2) for f in (s.streamfunction, s.E, s.B, s.P))
        u = sf.curl
        om, j = u.rot, B.rot
        c.same(s.u, u, 1, 'u')
        c.zero(B.div, 'div B')
        c.ref(B.dt, -1.0 * E.curl, 'B_t = -curl E')
        c.same(s.divB, B.div, 1, 'divB')
        c.same(s.omega, om, 2, 'omega')
        c.same(s.j, j, 1, 'j')
        c.same(s.m, (1 / Rm) * j - E - cross_vv(u, B), 1, 'm', 3)
        c.same(s.f, u.dt + cross_sv(om, u) + (1 / Rf) * om.curl - cc * cross_sv(j, B) + Pr.grad, 3, 'f', 3)
        for nm in ('u', 'B', 'E', 'P', 'm'):
            c.periodic(getattr(s, nm), 2 * np.pi, nm, 2) if nm not in ('u', 'm') else None
        c.periodic(s.streamfunction, 2 * np.pi, 'streamfunction', 2)
        # Navier-Stokes
        Re = float(rng.uniform(5, 200))
        s = ph.samples.ManufacturedSolutionNS2TGV(Re)
        ctx.case('ns2', r, Re)
        ctx.eq(s.Re, Re, 'ns2|parameter')
        c = Cmp(ctx, 'ns2', t, pts(rng, 2, 0, 2), f'Re={Re}')
        u, p = base(s.u, 2), base(s.p, 2)
        om, Pt = u.rot, p + 0.5 * u.dot(u)
        c.zero(u.div, 'div u')
        c.same(s.div_u, u.div, 1, 'div_u')
        c.same(s.omega, om, 1, 'omega', 5)
        c.same(s.P, Pt, 0, 'total pressure')
        f = u.dt + cross_sv(om, u) + (1 / Re) * om.curl + Pt.grad
        c.zero(f, 'body force vanishes', 10., 1e-7)
        c.same(s.f, f, 2, 'f', 20)
        c.periodic(s.u, 2, 'u', 2)
        c.periodic(s.p, 2, 'p', 2)
        # Poisson-Nernst-Planck-Navier-Stokes
        eps, sh = float(rng.uniform(.2, 1)), float(rng.uniform(3, 5))
        s = ph.samples.Manufactured_Solution_PNPNS_2D_PeriodicDomain1(eps, sh)
        ctx.case('pnpns', r, eps, sh)
        c = Cmp(ctx, 'pnpns', t, pts(rng, 2, 0, 2 * np.pi), f'epsilon={eps} shift={sh}')
        u, p, psi, sp = (base(f, 2) for f in (s.u, s.p, s.psi, s.static_pressure))
        c.zero(u.div, 'div u')
        c.same(s.div_u, u.div, 1, 'div_u')
        c.same(s.u.rot, u.rot, 1, 'rot u')
        c.same(s.omega, u.rot, 1, 'omega')
        for nm, X in (('p', p), ('psi', psi), ('static_pressure', sp)):
            c.same(getattr(s, nm).gradient, X.grad, 1, f'grad {nm}')
            c.same(getattr(s, nm).time_derivative, X.dt, 1, f'{nm}_t')
        c.same(s.u.time_derivative, u.dt, 1, 'u_t')
        n = p + eps * psi.lap
        c.same(s.n, n, 1, 'n', sh)
        mu, nu = p.map(np.log) + psi, n.map(np.log) - psi
        c.same(s.mu, mu, 1, 'mu')
        c.same(s.nu, nu, 1, 'nu')
        c.same(s.delta, p.map(np.log), 1, 'delta')
        c.same(s.theta, n.map(np.log), 1, 'theta')
        c.same(s.tau, mu.grad, 1, 'tau', 3)
        c.same(s.chi, nu.grad, 2, 'chi', 3)
        c.same(s.pTau, p * mu.grad, 1, 'pTau', 10)
        c.same(s.nChi, n * nu.grad, 2, 'nChi', 10)
        tp = sp + 0.5 * u.dot(u)
        c.same(s.total_pressure, tp, 0, 'total pressure')
        c.same(s.phi, tp - p - n, 1, 'phi', 10)
        conv = stack(*[u.dot(u.comp(i).grad) for i in range(2)])
        vlap = stack(u.comp(0).lap, u.comp(1).lap)
        c.same(s.source_f, u.dt + conv - vlap + sp.grad + (p - n) * psi.grad, 2, 'source_f', 20)
        c.same(s.source_p, p.dt + u.dot(p.grad) - (p.grad + p * psi.grad).div, 2, 'source_p', 20)
        c.same(s.source_n, n.dt + u.dot(n.grad) - (n.grad - n * psi.grad).div, 3, 'source_n', 20)
        for nm in ('u', 'p', 'psi', 'static_pressure', 'n', 'mu', 'nu', 'source_f', 'source_p'):
            v = getattr(s, nm)
            a = arr(v, t, c.x)
            for i in range(2):
                y = list(c.x)
                y[i] = y[i] + 2 * np.pi
                ctx.close(arr(v, t, y), a, f'pnpns|periodic {nm}', 1e-4, f'direction {i}', scale=max(1., np.max(np.abs(a))))
        # discontinuous concentrations
        s = ph.samples.Manufactured_Solution_PNPNS_2D_InitialDiscontinuousConcentrations()
        ctx.case('pnpns initial', r)
        x = np.concatenate([rng.uniform(0, 1, 40), [.75, .75, .75, .8, .8]])
        y = np.concatenate([rng.uniform(0, 1, 40), [.5, .55, .45, .55, .45]])
        ctx.eq(arr(s.p, t, (x, y))[0].tolist(), np.where((x >= .75) & (y >= 11 / 20), 1., 1e-6).tolist(), 'pnpns initial|p')
        ctx.eq(arr(s.n, t, (x, y))[0].tolist(), np.where((x >= .75) & (y <= 9 / 20), 1., 1e-6).tolist(), 'pnpns initial|n')
        ctx.close(arr(s.u, t, (x, y)), 0 * np.array([x, y]), 'pnpns initial|u')
        ctx.close(arr(s.omega, t, (x, y)), 0 * x[None], 'pnpns initial|omega')
        # Orszag-Tang
        Rm = np.inf if r == 0 else params(rng, 1)[0]
        s = ph.samples.InitialConditionOrszagTangVortex(Rm) if r else ph.samples.InitialConditionOrszagTangVortex()
        ctx.case('orszag tang', r, Rm)
        c = Cmp(ctx, 'orszag tang', t, pts(rng, 2, 0, 2 * np.pi), f'Rm={Rm}')
        x, y = c.x
        u = Fld(lambda t, x, y: np.stack([2 * np.cos(y), -2 * np.sin(x)]), 2)
        B = Fld(lambda t, x, y: np.stack([-2 * np.sin(2 * y), -2 * np.sin(x)]), 2)
        A = Fld(lambda t, x, y: (np.cos(2 * y) - 2 * np.cos(x))[None], 2)
        c.same(s.u, u, 1, 'u')
        c.same(s.magnetic_potential, A, 0, 'potential')
        c.same(s.B, B, 1, 'B')
        c.same(s.H, B, 1, 'H')
        c.same(s.j, B.rot, 2, 'j', 4)
        c.same(s.omega, u.rot, 2, 'omega', 4)
        c.same(s.E, (1 / Rm) * B.rot - cross_vv(u, B), 2, 'E', 4)
        ctx.close(arr(s.f, t, c.x), 0 * np.array(c.x), 'orszag tang|f')
        # shear layer
        de, ep = float(rng.uniform(.1, .6)), float(rng.uniform(.01, .5))
        s = ph.samples.InitialConditionShearLayerRollUp(de, ep) if r else ph.samples.InitialConditionShearLayerRollUp()
        if not r:
            de, ep = np.pi / 15, 0.05
        ctx.case('shear layer', r, de, ep)
        x = rng.uniform(0, 2 * np.pi, 30)
        y = np.concatenate([rng.uniform(0, np.pi - .05, 15), rng.uniform(np.pi + .05, 2 * np.pi, 15)])
        ctx.eq((s.delta, s.epsilon), (de, ep), 'shear layer|parameters')
        a1, a2 = (y - np.pi / 2) / de, (1.5 * np.pi - y) / de
        ctx.close(arr(s.velocity, t, (x, y)), np.stack([np.where(y <= np.pi, np.tanh(a1), np.tanh(a2)), ep * np.sin(x)]), 'shear layer|velocity', 1e-13)
        uy = np.where(y <= np.pi, 1 / np.cosh(a1) ** 2, -1 / np.cosh(a2) ** 2) / de
        ctx.close(arr(s.vorticity, t, (x, y))[0], ep * np.cos(x) - uy, 'shear layer|vorticity', 3e-6, '', scale=1 / de)
        # loop advection
        Lx, Ly, A0, R = params(rng, 2) + [float(rng.uniform(.001, 1)), float(rng.uniform(.2, .6))]
        s = ph.samples.InitialCondition_LoopAdvection(Lx, Ly, A0, R) if r else ph.samples.InitialCondition_LoopAdvection()
        if not r:
            Lx, Ly, A0, R = 2, 1, 1e-3, .3
        ctx.case('loop', r, Lx, Ly, A0, R)
        d = np.concatenate([rng.uniform(.05, R - .02, 15), rng.uniform(R + .02, 1.5, 15)])
        th = rng.uniform(-np.pi, np.pi, 30)
        x, y = d * np.cos(th), d * np.sin(th)
        o = np.ones_like(x)
        ctx.close(arr(s.u, t, (x, y)), np.stack([Lx * o, Ly * o]), 'loop|u', 1e-12)
        ins = d < R
        ctx.close(arr(s._potential, t, (x, y))[0], np.where(ins, A0 * (R - d), 0), 'loop|potential', 1e-12, '', scale=A0)
        Bx, By = np.where(ins, -A0 * y / d, 0), np.where(ins, A0 * x / d, 0)
        ctx.close(arr(s.B, t, (x, y)), np.stack([Bx, By]), 'loop|B', 1e-5, '', scale=A0)
        ctx.close(arr(s.H, t, (x, y)), np.stack([Bx, By]), 'loop|H', 1e-5, '', scale=A0)
        ctx.close(arr(s.j, t, (x, y))[0], np.where(ins, A0 / d, 0), 'loop|j', 1e-3, '', scale=A0 / .05)
        ctx.close(arr(s.omega, t, (x, y))[0], 0 * x, 'loop|omega', 1e-8)
        # cavity
        lid = float(rng.uniform(-3, 3))
        x, y, z = rng.uniform(0, 1, (3, 12))
        y[:3] = 0, .5, 1
        for nm, n, X in (('ConditionsLidDrivenCavity2', 2, (x, y)), ('ConditionsLidDrivenCavity3', 3, (x, y, z)),
                         ('ConditionsLidDrivenCavity_2dMHD_1', 2, (x, y))):
            s = getattr(ph.samples, nm)(lid) if r else getattr(ph.samples, nm)()
            sp_ = lid if r else -1
            ctx.case('cavity', r, nm, sp_)
            want = np.zeros((n, 12))
            want[n - 1 if n == 3 else 0] = np.where(y > .5, sp_, 0)
            ctx.close(arr(s.velocity_boundary_condition_tangential, t, X), want, 'cavity|lid', 1e-15, nm)
            ctx.close(arr(s.velocity_initial_condition, t, X), 0 * want, 'cavity|initial velocity', 1e-15, nm)
            ctx.close(arr(s.vorticity_initial_condition, t, X), np.zeros((3 if n == 3 else 1, 12)), 'cavity|initial vorticity', 1e-15, nm)
            if 'MHD' in nm:
                ctx.close(arr(s.B_initial_condition, t, X), np.stack([0 * x, 0 * x + 1]), 'cavity|B', 1e-15)
                ctx.close(arr(s.j_initial_condition, t, X), 0 * x[None], 'cavity|j', 1e-10)


def dipole(ctx, rounds):
    rng = ctx.rng
    g, w = np.polynomial.legendre.leggauss(150)
    X, Y = np.meshgrid(g, g, indexing='ij')
    W = np.outer(w, w)
    for r in range(rounds):
        if r == 0:
            x1, y1, x2, y2, r0, we, K = 0, .1, 0, -.1, .1, 320, 2
            s = ph.samples.ConditionsNormalDipoleCollision2()
        else:
            x1, y1, x2, y2 = rng.uniform(-.4, .4, 4)
            r0, we, K = float(rng.uniform(.1, .3)), float(rng.uniform(10, 400)), float(rng.uniform(.5, 5))
            s = ph.samples.ConditionsNormalDipoleCollision2(x1, y1, x2, y2, r0, we, -we, K)
        ctx.case('dipole', r, x1, y1, x2, y2, r0, we, K)
        t = float(rng.uniform(0, 1))
        u = arr(s.velocity_initial_condition, t, (X.ravel(), Y.ravel())).reshape(2, *X.shape)
        ctx.close(0.5 * np.sum(W * (u ** 2).sum(0)), K, 'dipole|kinetic energy', 1e-7, '', scale=K)
        # direction: two opposite monopoles 0.5|w| e^{-r^2/r0^2} (-(y - y_i), x - x_i), up to the common scale
        e1, e2 = np.exp(-((X - x1) ** 2 + (Y - y1) ** 2) / r0 ** 2), np.exp(-((X - x2) ** 2 + (Y - y2) ** 2) / r0 ** 2)
        ref = np.stack([-(Y - y1) * e1 + (Y - y2) * e2, (X - x1) * e1 - (X - x2) * e2])
        ref *= math.sqrt(K / (0.5 * np.sum(W * (ref ** 2).sum(0))))
        ctx.close(u, ref, 'dipole|velocity', 1e-7, '', scale=np.max(np.abs(ref)))
        c = Cmp(ctx, 'dipole', t, [v + rng.uniform(-.1, .1, 5) for v in (x1, y1)], '')
        b = base(s.velocity_initial_condition, 2)
        c.zero(b.div, 'div', 100, 1e-6)
        c.same(s.vorticity_initial_condition, b.rot, 1, 'vorticity', 500)
        for nm, v in (('zero_scalar', 0), ('one_scalar', 1), ('half_scalar', .5), ('minus_one_scalar', -1),
                      ('normal_velocity_boundary_condition', 0), ('tangential_velocity_boundary_condition', 0)):
            ctx.eq(arr(getattr(s, nm), t, c.x)[0].tolist(), [float(v)] * 5, f'dipole|{nm}')
        for nm in ('zero_vector', 'velocity_boundary_condition'):
            ctx.true(np.all(arr(getattr(s, nm), t, c.x) == 0), f'dipole|{nm}')


def cylinder(ctx, rounds):
    rng = ctx.rng
    for r in range(rounds):
        kw = {} if r == 0 else dict(r=float(rng.uniform(.3, 1)), dl=float(rng.uniform(4, 8)), dr=float(rng.uniform(6, 20)), h=float(rng.uniform(3, 5)))
        ph.config.set_embedding_space_dim(2)
        m = ph.manifold(2)
        me = ph.mesh(m)
        ms, _ = ph.fem.apply('msepy', dict(locals()))
        try:
            ms.config(ms.base['manifolds'][m._sym_repr] if 'manifolds' in ms.base else None)('cylinder_channel', **kw)
        except TypeError as e:
            ctx.fail('cylinder|manifold', repr(e))
            continue
        mesh = ms.base['meshes'][me._sym_repr]
        ms.config(mesh)(1)
        s = ph.samples.ConditionsFlowAroundCylinder2(mesh)
        dl = kw.get('dl', mesh.manifold._configuration._dl)
        lim = -.9 * dl
        ctx.case('cylinder', r, dl)
        x, y = rng.uniform(-dl, 5, 30), rng.uniform(-1, 1, 30)
        x[:3] = -dl, lim - 1e-6, lim + 1e-6
        t = float(rng.uniform(0, 2))
        ctx.close(arr(s.velocity_boundary_condition, t, (x, y)), np.stack([np.where(x < lim, 1., 0.), 0 * x]), 'cylinder|inflow', 1e-15)
        ctx.true(np.all(arr(s.velocity_initial_condition, t, (x, y)) == 0), 'cylinder|initial velocity')
        ctx.true(np.all(arr(s.vorticity_initial_condition, t, (x, y)) == 0), 'cylinder|initial vorticity')


# ------------------------------------------------------------------------------------------------ three dimensions

def normal_cross_zero(ctx, F, t, rng, lo, hi, key, nm, tol=1e-6):
    for i, x in faces(rng, 3, lo, hi):
        v = arr(F, t, x)
        tang = np.delete(v, i, axis=0)
        ctx.close(tang, 0 * tang, f'{key}|{nm} x n = 0', tol, f'axis {i} at {x[i][0]}', scale=max(1., np.max(np.abs(v))))


def normal_zero(ctx, F, t, rng, lo, hi, key, nm, tol=1e-10):
    for i, x in faces(rng, 3, lo, hi):
        v = arr(F, t, x)[i]
        ctx.close(v, 0 * v, f'{key}|{nm} . n = 0', tol, f'axis {i} at {x[i][0]}')


def scalar_zero(ctx, F, t, rng, lo, hi, key, nm):
    for i, x in faces(rng, 3, lo, hi):
        v = arr(F, t, x)[0]
        ctx.close(v, 0 * v, f'{key}|{nm} = 0 on the boundary', 1e-10, f'axis {i} at {x[i][0]}')


def mhd_common(ctx, s, key, t, rng, lo, hi, c_, Rm, Rf, eta, what):
    ctx.eq((s.c, s.Rm, s.Rf), (c_, Rm, Rf), f'{key}|parameters')
    c = Cmp(ctx, key, t, pts(rng, 3, lo, hi), what)
    u, B, E, Pr = (base(f, 3) for f in (s.u, s.B, s.E, s.P))
    om, j = u.curl, B.curl
    if 'MHD3_3' not in what:                        # its velocity is not solenoidal: div_u is a given field of the problem
        c.zero(u.div, 'div u')
    c.zero(B.div, 'div B')
    c.same(s.divB, B.div, 1, 'divB')
    c.ref(B.dt, -1.0 * E.curl, 'B_t = -curl E')
    z = arr(s.B, 0.0, c.x)
    ctx.close(z, 0 * z, f'{key}|B vanishes initially', 1e-14, what)
    c.same(s.omega, om, 1, 'omega')
    c.same(s.j, j, 1, 'j')
    m = (1 / Rm) * j - E - cross3(u, B)
    if eta is not None:
        m = m + eta * cross3(j, B)
        ctx.eq(s.eta, eta, f'{key}|eta')
        c.same(s.div_u, u.div, 1, 'div_u')
        c.same(s.H, B, 0, 'H')
    c.same(s.m, m, 1, 'm', 10)
    f = u.dt + cross3(om, u) + (1 / Rf) * om.curl - c_ * cross3(j, B) + Pr.grad
    c.same(s.f, f, 2, 'f', 20)
    ctx.true(min(np.max(np.abs(arr(q, t, c.x))) for q in (s.u, s.B, s.E, s.P)) > 1e-6, f'{key}|trivial', what)
    return c, f


def three(ctx, rounds):
    rng = ctx.rng
    pi2 = 2 * np.pi
    for r in range(rounds):
        t = float(rng.uniform(.1, 1)) * (1 if rng.random() < .5 else -1)
        c_, Rm, Rf, eta = params(rng, 4)
        what = f'c={c_} Rm={Rm} Rf={Rf} eta={eta}'
        Re = float(rng.uniform(1, 50))
        s = ph.samples.ManufacturedSolutionNS3Conservation1(Re)
        ctx.case('ns3', r)
        ctx.eq(s.Re, Re, 'ns3|parameter')
        c = Cmp(ctx, 'ns3', t, pts(rng, 3, 0, 1), '')
        u = base(s.u, 3)
        x, y, z = c.x
        ctx.close(arr(s.u, t, c.x), np.stack([np.cos(pi2 * z), np.sin(pi2 * z), np.sin(pi2 * x)]), 'ns3|u', 1e-12)
        c.zero(u.div, 'div u')
        c.same(s.div_u, u.div, 1, 'div_u')
        c.same(s.omega, u.curl, 1, 'omega', 7)
        c.periodic(s.u, 1, 'u', 3)
        for k, nm in enumerate(('ManufacturedSolutionMHD3_0', 'ManufacturedSolutionMHD3_1')):
            s = getattr(ph.samples, nm)(c_, Rm, Rf) if r else getattr(ph.samples, nm)()
            a, b, d = (c_, Rm, Rf) if r else (1, 1, 1)
            ctx.case('mhd3', r, nm, a, b, d)
            c, f = mhd_common(ctx, s, 'mhd3', t, rng, 0, pi2, a, b, d, None, f'{nm} {what}')
            if k == 0:
                ctx.true(np.all(arr(s.g, t, c.x) == 0), 'mhd3|g')
            else:
                for q in ('u', 'B', 'E', 'P'):
                    c.periodic(getattr(s, q), pi2, q, 3)
                c.same(s.curl_f, f.curl, 3, 'curl f', 50)
        for k in range(5):
            nm = 'ManufacturedSolution_Hall_MHD3_' + (str(k) if k < 4 else '4_TemporalAccuracy')
            s = getattr(ph.samples, nm)(c_, Rm, Rf, eta) if r else getattr(ph.samples, nm)()
            a, b, d, e = (c_, Rm, Rf, eta) if r else (1, 1, 1, 1)
            ctx.case('hall', r, nm, a, b, d, e)
            hi = 1 if k == 4 else pi2
            c, f = mhd_common(ctx, s, 'hall', t, rng, 0, hi, a, b, d, e, f'{nm} {what}')
            if k == 0:
                for q in ('u', 'B', 'E', 'P'):
                    c.periodic(getattr(s, q), pi2, q, 3)
            else:
                scalar_zero(ctx, s.P, t, rng, 0, hi, 'hall', f'{nm} P')
                if k in (1, 2, 4):
                    normal_cross_zero(ctx, s.u, t, rng, 0, hi, 'hall', f'{nm} u')
                if k in (1, 3, 4):
                    normal_cross_zero(ctx, s.B, t, rng, 0, hi, 'hall', f'{nm} B')
                if k == 2:
                    normal_cross_zero(ctx, s.E, t, rng, 0, hi, 'hall', f'{nm} E')
                if k == 3:
                    normal_cross_zero(ctx, s.omega, t, rng, 0, hi, 'hall', f'{nm} omega')
        # initial conditions
        for k, nm in enumerate(('ManufacturedSolution_Hall_MHD3_Conservation0', 'ManufacturedSolution_Hall_MHD3_NullPoints')):
            s = getattr(ph.samples, nm)(c_, Rm, Rf, eta)
            ctx.case('hall initial', r, nm, what)
            lo = 0 if k == 0 else -1
            c = Cmp(ctx, 'hall initial', 0.0, pts(rng, 3, lo, 1), f'{nm} {what}')
            x, y, z = c.x
            u, B = base(s.u_initial_condition, 3), base(s.B_initial_condition, 3)
            c.zero(u.div, 'div u')
            c.zero(B.div, 'div B')
            j = B.curl
            c.same(s.w_initial_condition, u.curl, 1, 'w')
            c.same(s.j_initial_condition, j, 1, 'j', 8)
            E = (1 / Rm) * j - cross3(u, B) + eta * cross3(j, B)
            c.same(s.E_initial_condition, E, 1, 'E', 20)
            for q in (s.f, s.m, s.g):
                ctx.true(np.all(arr(q, t, c.x) == 0), 'hall initial|sources vanish', nm)
            pi = np.pi
            if k == 0:
                q = z * (z - 1)
                ctx.close(arr(s.u_initial_condition, 0, c.x), np.stack([-np.sin(pi * (x - .5)) * np.cos(pi * (y - .5)) * q,
                          np.cos(pi * (x - .5)) * np.sin(pi * (y - .5)) * q, 0 * x]), 'hall initial|u', 1e-13, nm)
                ctx.true(np.all(arr(s.P_boundary_condition, t, c.x) == 0), 'hall initial|P')
                normal_cross_zero(ctx, s.u_initial_condition, 0, rng, 0, 1, 'hall initial', 'u', 1e-12)
                normal_cross_zero(ctx, s.B_initial_condition, 0, rng, 0, 1, 'hall initial', 'B', 1e-12)
                ctx.true(np.max(np.abs(arr(s.B_initial_condition, 0, c.x))) > 1e-6, 'hall initial|trivial', nm)
            else:
                ctx.true(np.all(arr(s.u_initial_condition, 0, c.x) == 0), 'hall initial|u', nm)
                ctx.close(arr(s.B_initial_condition, 0, c.x), np.stack([0 * x, 0 * x, -2.5 * np.sin(pi * x)]), 'hall initial|B', 1e-13, nm)
                Pr = base(s.P_initial_condition, 3)
                ctx.true(np.max(np.abs(arr(s.P_initial_condition, 0, c.x))) > 1e-3, 'hall initial|P', nm)
                s1 = ph.samples.ManufacturedSolution_Hall_MHD3_NullPoints(1, Rm, Rf, eta)
                bal = Pr.grad - cross3(j, B)
                c.zero(bal, 'pressure balances the Lorentz force', 30, 1e-7)
                v = arr(s1._f_init_, 0, c.x)
                ctx.close(v, 0 * v, 'hall initial|f_init', 3e-5, nm, scale=30)
        # helicity
        s = ph.samples.MHD3_Helicity_Conservation_test1()
        ctx.case('helicity', r)
        c = Cmp(ctx, 'helicity', 0.0, pts(rng, 3, 0, 1), '')
        x, y, z = c.x
        u, B = base(s.u_initial_condition, 3), base(s.B_initial_condition, 3)
        c.zero(u.div, 'div u')
        c.zero(B.div, 'div B')
        c.same(s.w_initial_condition, u.curl, 1, 'w')
        c.same(s.j_initial_condition, B.curl, 1, 'j')
        normal_cross_zero(ctx, s.u_initial_condition, 0, rng, 0, 1, 'helicity', 'u', 1e-12)
        normal_zero(ctx, s.B_initial_condition, 0, rng, 0, 1, 'helicity', 'B', 1e-12)
        ctx.true(min(np.max(np.abs(arr(q, 0, c.x))) for q in (s.u_initial_condition, s.B_initial_condition)) > 1e-6, 'helicity|trivial')
        for q in (s.f, s.m, s.g):
            ctx.true(np.all(arr(q, t, c.x) == 0), 'helicity|sources vanish')
        # Orszag-Tang
        s = ph.samples.InitialConditionOrszagTangVortex_3D(Rm, eta) if r else ph.samples.InitialConditionOrszagTangVortex_3D()
        a, e = (Rm, eta) if r else (np.inf, 1)
        ctx.case('orszag tang 3d', r, a, e)
        c = Cmp(ctx, 'orszag tang 3d', t, pts(rng, 3, 0, pi2), f'Rm={a} eta={e}')
        u = Fld(lambda t, x, y, z: np.stack([2 * np.cos(y), -2 * np.sin(x), 0 * x]), 3)
        B = Fld(lambda t, x, y, z: np.stack([-2 * np.sin(2 * y), -2 * np.sin(x), 0 * x]), 3)
        A = Fld(lambda t, x, y, z: np.stack([0 * x, 0 * x, np.cos(2 * y) - 2 * np.cos(x)]), 3)
        c.same(s.u, u, 0, 'u')
        c.same(s.magnetic_potential, A, 0, 'potential')
        c.same(s.B, B, 0, 'B')
        c.same(s.H, B, 0, 'H')
        j = B.curl
        c.same(s.j, j, 1, 'j', 4)
        c.same(s.omega, u.curl, 1, 'omega', 4)
        c.same(s.E, (1 / a) * j - cross3(u, B) + e * cross3(j, B), 1, 'E', 10)
        for q in (s.f, s.zero):
            ctx.true(np.all(arr(q, t, c.x) == 0), 'orszag tang 3d|zero')


def piecewise(ctx, rounds):
    from phyem.tools.gen_piece_wise import genpiecewise
    rng = ctx.rng
    for r in range(rounds):
        n = int(rng.integers(1, 5))
        d = int(rng.integers(1, 4))
        shp = tuple(rng.integers(1, 6, int(rng.integers(1, 4))))
        xs = [rng.uniform(-1, 1, shp) for _ in range(d)]
        cuts = np.sort(rng.uniform(-1, 1, n - 1))
        which = np.searchsorted(cuts, xs[0])
        conds = [which == k for k in range(n)]
        cs = rng.uniform(-2, 2, (n, d + 1))

        def mk(k, extra):
            def f(*a, **kw):
                v = cs[k][0] + sum(c * np.sin(x) for c, x in zip(cs[k][1:], a[:d]))
                if extra:
                    v = v + a[d] * kw['w']
                return v
            return f

        extra = rng.random() < .3
        consts = [rng.random() < .3 for _ in range(n)]
        fl = [float(cs[k][0]) if consts[k] else mk(k, extra) for k in range(n)]
        args, kw = ((0.5,), dict(w=2.0)) if extra else ((), {})
        ref = np.zeros(shp)
        for k in range(n):
            v = np.full(shp, cs[k][0]) if consts[k] else fl[k](*xs, *args, **kw)
            ref = np.where(conds[k], v, ref)
        ctx.case('piecewise', r, n, d, shp, extra)
        xi = xs[0] if d == 1 and rng.random() < .5 else (list(xs) if rng.random() < .5 else tuple(xs))
        ctx.close(genpiecewise(xi, conds, fl, args=args, **kw), ref, 'piecewise|all conditions', 1e-14)
        if n > 1:
            ctx.close(genpiecewise(xi, conds[:-1], fl, args=args, **kw), ref, 'piecewise|default function', 1e-14)
            # a region no condition covers gets the fill value
            k = int(rng.integers(n))
            fv = float(rng.uniform(5, 6))
            v = genpiecewise(xi, [c for i, c in enumerate(conds) if i != k], [f for i, f in enumerate(fl) if i != k], args=args, **kw)
            ctx.close(v, np.where(conds[k], 0., ref), 'piecewise|uncovered', 1e-14)
        ctx.raises(lambda: genpiecewise(xi, conds, fl + fl + fl), 'piecewise|length mismatch', '', ValueError)


def UNITS(tier):
    k = 1 if tier == 'quick' else 6
    out = []
    for i in range(2 if tier == 'quick' else 4):
        out.append((f'two {i}', two, dict(rounds=3 * k)))
        out.append((f'three {i}', three, dict(rounds=3 * k)))
    out.append(('dipole', dipole, dict(rounds=3 * k)))
    out.append(('cylinder', cylinder, dict(rounds=3 * k)))
    out.append(('piecewise', piecewise, dict(rounds=40 * k)))
    return out
