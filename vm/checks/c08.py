"""C08: vector calculus of scalar, vector and tensor fields.

Oracle: an expression algebra with exact derivatives (sums and products of sines of affine arguments, Leibniz rule)
evaluated pointwise next to the wrappers under test.
"""
import numpy as np
from vm import configs as C
from vm import geo as G
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (dimension, operation or composed expression, way derivatives are provided)',
    assumptions=['numerical differentiation: first derivatives to 1e-6, second to 3e-5 (2d) or 5e-3 (3d, step 1e-6) relative'],
    note='Observes values of operator results on fields with known exact derivatives, random operator compositions, '
         'fields with provided derivatives, region-wise fields and the continuous forms of both implementations.',
    must_observe=['scalar', 'vector', 'tensor', 'compose', 'identity', 'provided', 'guard', 'lines', 'regionwise', 'cf', 'integral',
                  'numeric', 'constant', 'call'])


# ------------------------------------------------------------------ exact expressions
class Ex:
    def __add__(self, o):
        return Lin(((1, self), (1, o)))

    def __sub__(self, o):
        return Lin(((1, self), (-1, o)))

    def __neg__(self):
        return Lin(((-1, self),))

    def __mul__(self, o):
        return Lin(((o, self),)) if isinstance(o, (int, float)) else Prod(self, o)

    __rmul__ = __mul__


class Leaf(Ex):
    def __init__(self, tr, d=()):
        self.tr, self.ds = tr, d

    def d(self, a):
        return Leaf(self.tr, self.ds + (a,))

    def __call__(self, t, *x):
        return self.tr(t, *x, d=self.ds)


class Lin(Ex):
    def __init__(self, ts):
        self.ts = ts

    def d(self, a):
        return Lin(tuple((c, e.d(a)) for c, e in self.ts))

    def __call__(self, t, *x):
        return sum(c * e(t, *x) for c, e in self.ts)


class Prod(Ex):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def d(self, k):
        return Lin(((1, Prod(self.a.d(k), self.b)), (1, Prod(self.a, self.b.d(k)))))

    def __call__(self, t, *x):
        return self.a(t, *x) * self.b(t, *x)


class Fn(Ex):
    """f(e) with derivative f'(e) e'"""
    def __init__(self, f, df, e):
        self.f, self.df, self.e = f, df, e

    def d(self, k):
        return Prod(Fn(self.df, None, self.e), self.e.d(k))

    def __call__(self, t, *x):
        return self.f(self.e(t, *x))


# reference operators, kind in s(calar), v(ector), T(ensor); fields are nested lists of expressions
def grad(s, n):
    return [s.d(i) for i in range(n)]


def div(v, n):
    r = v[0].d(0)
    for i in range(1, n):
        r = r + v[i].d(i)
    return r


def dot(u, v):
    r = u[0] * v[0]
    for a, b in zip(u[1:], v[1:]):
        r = r + a * b
    return r


def curl2(s):
    return [s.d(1), -s.d(0)]


def rot2(v):
    return v[1].d(0) - v[0].d(1)


def curl3(v):
    return [v[2].d(1) - v[1].d(2), v[0].d(2) - v[2].d(0), v[1].d(0) - v[0].d(1)]


def conv(u, s, n):
    return dot(u, grad(s, n))


class Sp:
    def __init__(self, ctx, n, rng):
        self.ctx, self.n, self.rng = ctx, n, rng
        self.pts()

    def pts(self):
        shape = [(5,), (2, 3), (2, 1, 2), ()][int(self.rng.integers(4))] if self.n > 1 else [(5,), (2, 3)][int(self.rng.integers(2))]
        self.x = [self.rng.uniform(-1, 1, shape) if shape else float(self.rng.uniform(-1, 1)) for _ in range(self.n)]
        self.t = [float(self.rng.uniform(-2, 2)), int(self.rng.integers(-2, 3))][int(self.rng.integers(2))]

    def leaf(self):
        return Leaf(G.Trig(self.rng, self.n))

    def s(self, e=None, **kw):
        e = e or self.leaf()
        f = S.pyfun(e, self.n)
        if not kw:
            return ph.vc.scalar(f), e
        from phyem.tools import vector_calculus as V
        return (V._2dt_scalar if self.n == 2 else V._3dt_scalar)(f, **kw), e

    def v(self, es=None, **kw):
        es = es or [self.leaf() for _ in range(self.n)]
        fs = [S.pyfun(e, self.n) for e in es]
        if not kw:
            return ph.vc.vector(*fs), es
        from phyem.tools import vector_calculus as V
        return (V._2dt_vector if self.n == 2 else V._3dt_vector)(*fs, **kw), es

    def T(self):
        es = [[self.leaf() for _ in range(self.n)] for _ in range(self.n)]
        return ph.vc.tensor(*[S.pyfun(e, self.n) for r in es for e in r]), es

    def cmp(self, kind, got, exp, key, order, tag):
        """got: field under test, exp: (nested) expressions, order: number of numerical differentiations"""
        ctx, n = self.ctx, self.n
        tol = {0: 1e-12, 1: 2e-6, 2: 1e-4 if n < 3 else 2e-2}[order]
        ctx.case(n, key, tag)
        for rep in range(2):
            self.pts()
            t, x = self.t, self.x
            if kind == 's':
                out, ref = got(t, *x)[0], exp(t, *x)
                ctx.true(len(got(t, *x)) == 1, key, f'{tag} length')
            elif kind == 'v':
                out, ref = got(t, *x), [e(t, *x) for e in exp]
                ctx.eq(len(out), len(ref), key)
                out = np.array([np.asarray(o, dtype=float) + 0 * x[0] for o in out])
            else:
                out = got(t, *x)
                out = np.array([[np.asarray(o, dtype=float) + 0 * x[0] for o in r] for r in out])
                ref = [[e(t, *x) for e in r] for r in exp]
            ctx.close(np.asarray(out) + 0 * x[0], np.asarray(ref) + 0 * x[0], key, tol, f'{tag} {n}d')
            if n > 1 and rep == 0:
                a = got[t](*x)
                b = np.array(a, dtype=float)
                ctx.close(b.reshape(np.asarray(out).shape) if kind == 's' else b, out, 'call', 1e-14, tag)
                if n > 1 and isinstance(t, (int, float)):
                    ctx.close(np.array((got @ t)(*x), dtype=float), b, 'call', 0, tag)
        if got.ndim != n or tuple(got.shape) != {'s': (1,), 'v': (n,), 'T': (n, n)}[kind]:
            ctx.fail('call|shape', f'{tag} {got.ndim} {got.shape}')


def elementary(ctx, n, rep):
    sp = Sp(ctx, n, ctx.rng)
    rng = ctx.rng
    c = lambda kind, g, e, key, order, tag: sp.cmp(kind, g, e, key, order, tag)
    a, ea = sp.s()
    b, eb = sp.s()
    k = float(rng.uniform(-3, 3))
    if n == 1:
        c('s', a, ea, 'scalar', 0, 'value')
        c('s', a.time_derivative, ea.d('t'), 'scalar', 1, 'time_derivative')
        c('s', a.derivative, ea.d(0), 'scalar', 1, 'derivative')
        c('s', -a, -ea, 'scalar', 0, 'neg')
        c('s', (-a).derivative, (-ea).d(0), 'scalar', 1, 'neg derivative')
        c('s', a.derivative.time_derivative, ea.d(0).d('t'), 'scalar', 2, 'xt')
        return
    u, eu = sp.v()
    w, ew = sp.v()
    T, eT = sp.T()
    td = lambda e: [x.d('t') for x in e]
    add = lambda x, y: [p + q for p, q in zip(x, y)]
    sub = lambda x, y: [p - q for p, q in zip(x, y)]
    neg = lambda x: [-p for p in x]
    c('s', a, ea, 'scalar', 0, 'value')
    c('v', u, eu, 'vector', 0, 'value')
    c('T', T, eT, 'tensor', 0, 'value')
    for got, exp, order, tag in (
            (a.time_derivative, ea.d('t'), 1, 'time_derivative'), (a + b, ea + eb, 0, '+'), (a - b, ea - eb, 0, '-'),
            (-a, -ea, 0, 'neg'), (a * b, ea * eb, 0, '*'), ((a * b).time_derivative, (ea * eb).d('t'), 1, 'td *'),
            (a.convection_by(u), conv(eu, ea, n), 1, 'convection_by'),
            (u.divergence, div(eu, n), 1, 'divergence'), (u.dot(w), dot(eu, ew), 0, 'dot'),
            (a.gradient.divergence, div(grad(ea, n), n), 2, 'div grad')):
        c('s', got, exp, 'scalar', order, tag)
    for got, exp, order, tag in (
            (a.gradient, grad(ea, n), 1, 'gradient'), (u.time_derivative, td(eu), 1, 'time_derivative'),
            (u + w, add(eu, ew), 0, '+'), (u - w, sub(eu, ew), 0, '-'), (-u, neg(eu), 0, 'neg'), (u * k, [k * e for e in eu], 0, '*k'),
            (k * u, [k * e for e in eu], 0, 'k*'), (3 * u, [3 * e for e in eu], 0, '3*'),
            (u.convection_by(w), [conv(ew, e, n) for e in eu], 1, 'convection_by'),
            (u.divergence.gradient, grad(div(eu, n), n), 2, 'grad div')):
        c('v', got, exp, 'vector', order, tag)
    c('T', T.time_derivative, [td(r) for r in eT], 'tensor', 1, 'time_derivative')
    if n == 2:
        for got, exp, order, tag in (
                (a * k, k * ea, 0, '*k'), (k * a, k * ea, 0, 'k*'), (a.abs, Fn(np.abs, None, ea), 0, 'abs'),
                (a.exp, Fn(np.exp, np.exp, ea), 0, 'exp'), (a.exp.time_derivative, Fn(np.exp, np.exp, ea).d('t'), 1, 'exp td'),
                (a.exp.log(), ea, 0, 'log exp'), (a.Laplacian, div(grad(ea, 2), 2), 2, 'Laplacian'),
                (u.rot, rot2(eu), 1, 'rot'), (u.cross_product(w), eu[0] * ew[1] - eu[1] * ew[0], 0, 'vxv'),
                (u.x(w), eu[0] * ew[1] - eu[1] * ew[0], 0, 'x'),
                (u.norm, Fn(np.sqrt, None, dot(eu, eu)), 0, 'norm')):
            c('s', got, exp, 'scalar', order, tag)
        axv = [-(ea * eu[1]), ea * eu[0]]
        for got, exp, order, tag in (
                (a.curl, curl2(ea), 1, 'curl'), (a * u, [ea * e for e in eu], 0, 's*v'),
                (a.cross_product(u), axv, 0, 'sxv'), (u.cross_product(a), neg(axv), 0, 'vxs'), (u.x(a), neg(axv), 0, 'vxs x'),
                (u.Laplacian, [div(grad(e, 2), 2) for e in eu], 2, 'Laplacian'),
                (T.divergence, [div(r, 2) for r in eT], 1, 'T div'), (T.rot, [rot2(r) for r in eT], 1, 'T rot'),
                (u.rot.curl, curl2(rot2(eu)), 2, 'curl rot')):
            c('v', got, exp, 'vector', order, tag)
        for got, exp, order, tag in (
                (u.gradient, [grad(e, 2) for e in eu], 1, 'grad'), (u.curl, [curl2(e) for e in eu], 1, 'curl'),
                (u.tensor_product(w), [[p * q for q in ew] for p in eu], 0, 'tensor product')):
            c('T', got, exp, 'tensor', order, tag)
        # repeated queries (results are cached in the field)
        c('s', u.rot, rot2(eu), 'scalar', 1, 'rot again')
        c('s', u.divergence, div(eu, n), 'scalar', 1, 'divergence again')
        c('v', u.time_derivative, td(eu), 'vector', 1, 'time_derivative again')
    else:
        for got, exp, order, tag in (
                (u.curl, curl3(eu), 1, 'curl'), (u.curl.curl, curl3(curl3(eu)), 2, 'curl curl'),
                (u.cross_product(w), [eu[1] * ew[2] - eu[2] * ew[1], eu[2] * ew[0] - eu[0] * ew[2], eu[0] * ew[1] - eu[1] * ew[0]], 0, 'vxv')):
            c('v', got, exp, 'vector', order, tag)
    # identities, without any reference
    sp.pts()
    t, x = sp.t, sp.x
    z = [0 * xi for xi in x]
    tol = 1e-4 if n == 2 else 5e-2
    ctx.case(n, 'identities')
    if n == 2:
        ctx.close(a.gradient.rot(t, *x)[0], z[0], 'identity', tol, 'rot grad')
        ctx.close(a.curl.divergence(t, *x)[0], z[0], 'identity', tol, 'div curl')
        ctx.close(u.dot(w)(t, *x)[0], w.dot(u)(t, *x)[0], 'identity', 1e-13, 'dot symmetric')
        ctx.close((a * u).divergence(t, *x)[0], (a * u.divergence + u.dot(a.gradient))(t, *x)[0], 'identity', 1e-5, 'product rule')
    else:
        ctx.close(np.array(a.gradient.curl(t, *x)), np.array(z), 'identity', tol, 'curl grad')
        ctx.close(u.curl.divergence(t, *x)[0], z[0], 'identity', tol, 'div curl')
        ctx.close(u.cross_product(w).dot(u)(t, *x)[0], z[0], 'identity', 1e-12, 'cross orthogonal')


def compose(ctx, n, rep):
    """random operator compositions with at most two numerical differentiations"""
    sp = Sp(ctx, n, ctx.rng)
    rng = ctx.rng

    def make(kind, depth, budget):
        """-> (field, expr, order, description)"""
        if depth == 0:
            f, e = (sp.s if kind == 's' else sp.v)()
            return f, e, 0, kind
        ops = []
        if kind == 's':
            ops = ['+', '-', 'neg', '*', 'dot', 'k']
            if budget:
                ops += ['div', 'td', 'convs'] + (['rot'] if n == 2 else [])
            if n == 2:
                ops += ['vxv']
            else:
                ops.remove('k')
        else:
            ops = ['+', '-', 'neg', 'k']
            if budget:
                ops += ['grad', 'td', 'convv', 'curl']
            if n == 2:
                ops += ['sv', 'sxv', 'vxs']
            else:
                ops += ['vxv']
        op = ops[int(rng.integers(len(ops)))]
        mk = lambda k, b=None: make(k, depth - 1, budget if b is None else b)
        if op in ('+', '-'):
            f, ef, o1, d1 = mk(kind)
            g, eg, o2, d2 = mk(kind)
            r = f + g if op == '+' else f - g
            z = (lambda p, q: p + q) if op == '+' else (lambda p, q: p - q)
            e = z(ef, eg) if kind == 's' else [z(p, q) for p, q in zip(ef, eg)]
            return r, e, max(o1, o2), f'({d1}{op}{d2})'
        if op in ('neg', 'k'):
            f, ef, o, d = mk(kind)
            k = -1 if op == 'neg' else float(rng.uniform(-2, 2))
            r = -f if op == 'neg' else (k * f if rng.random() < .5 else f * k)
            return r, (k * ef if kind == 's' else [k * p for p in ef]), o, f'{op}{d}'
        if op == '*':
            f, ef, o1, d1 = mk('s')
            g, eg, o2, d2 = mk('s')
            return f * g, ef * eg, max(o1, o2), f'({d1}*{d2})'
        if op == 'dot':
            f, ef, o1, d1 = mk('v')
            g, eg, o2, d2 = mk('v')
            return f.dot(g), dot(ef, eg), max(o1, o2), f'({d1}.{d2})'
        if op == 'vxv':
            f, ef, o1, d1 = mk('v')
            g, eg, o2, d2 = mk('v')
            if n == 2:
                e = ef[0] * eg[1] - ef[1] * eg[0]
            else:
                e = [ef[(i + 1) % 3] * eg[(i + 2) % 3] - ef[(i + 2) % 3] * eg[(i + 1) % 3] for i in range(3)]
            return f.cross_product(g), e, max(o1, o2), f'({d1}x{d2})'
        if op in ('sv', 'sxv', 'vxs'):
            f, ef, o1, d1 = mk('s')
            g, eg, o2, d2 = mk('v')
            o = max(o1, o2)
            if op == 'sv':
                return f * g, [ef * q for q in eg], o, f'({d1}*{d2})'
            if op == 'sxv':
                return f.cross_product(g), [-(ef * eg[1]), ef * eg[0]], o, f'({d1}x{d2})'
            return g.cross_product(f), [ef * eg[1], -(ef * eg[0])], o, f'({d2}x{d1})'
        b = budget - 1
        if op == 'div':
            f, e, o, d = mk('v', b)
            return f.divergence, div(e, n), o + 1, f'div{d}'
        if op == 'rot':
            f, e, o, d = mk('v', b)
            return f.rot, rot2(e), o + 1, f'rot{d}'
        if op == 'td':
            f, e, o, d = mk(kind, b)
            return f.time_derivative, (e.d('t') if kind == 's' else [q.d('t') for q in e]), o + 1, f'dt{d}'
        if op == 'grad':
            f, e, o, d = mk('s', b)
            return f.gradient, grad(e, n), o + 1, f'grad{d}'
        if op == 'curl':
            f, e, o, d = mk('s' if n == 2 else 'v', b)
            return f.curl, (curl2(e) if n == 2 else curl3(e)), o + 1, f'curl{d}'
        f, ef, o1, d1 = mk('v')
        g, eg, o2, d2 = mk(kind, b)
        e = conv(ef, eg, n) if kind == 's' else [conv(ef, q, n) for q in eg]
        return g.convection_by(f), e, max(o1, o2 + 1), f'conv({d1},{d2})'
    for i in range(10 if ctx.quick else 60):
        kind = 'sv'[int(rng.integers(2))]
        f, e, o, d = ctx.sub('compose', lambda: make(kind, int(rng.integers(2, 4)), 2)) or (None,) * 4
        if f is not None:
            if o == 2:                       # products may be large: scale by a smoother bound
                sp.cmp(kind, f, e, 'compose', 2, d)
            else:
                sp.cmp(kind, f, e, 'compose', o, d)


def provided(ctx, n, rep):
    """derivatives provided by the caller are the ones used, each in its own place; wrong ones are refused with a mesh"""
    sp = Sp(ctx, n, ctx.rng)
    rng = ctx.rng
    names = ['t', 0, 1, 2][:n + 1]
    d = C.build('ht2' if n == 2 else 'ht3o', 1, [(0, 'outer')], rng=np.random.default_rng(0))
    mesh = d.obj['mesh']
    py = lambda e: S.pyfun(e, n)
    a, ea = sp.s()
    der = [py(ea.d(i)) if rng.random() < .7 else None for i in names]
    tag = 'given ' + ''.join(str(i) for i, q in zip(names, der) if q is not None)
    s, _ = sp.s(ea, derivative=der)
    sp.cmp('s', s.time_derivative, ea.d('t'), 'provided', 1, tag)
    sp.cmp('v', s.gradient, grad(ea, n), 'provided', 1, tag)
    sp.cmp('s', s + a, ea + ea, 'provided', 0, tag)
    full = [py(ea.d(i)) for i in names]
    s, _ = sp.s(ea, derivative=full)
    sp.cmp('s', s.time_derivative, ea.d('t'), 'provided', 0, 'all')
    sp.cmp('v', s.gradient, grad(ea, n), 'provided', 0, 'all')
    u, eu = sp.v()
    sp.cmp('s', s.convection_by(u), conv(eu, ea, n), 'provided', 0, 'all')
    if n == 2:
        sp.cmp('v', s.curl, curl2(ea), 'provided', 0, 'all')
        dd = [ea.d('t').d('t'), ea.d(0).d(0), ea.d(0).d(1), ea.d(1).d(0), ea.d(1).d(1)]
        s2, _ = sp.s(ea, derivative=full, second_derivative=[py(q) for q in dd])
        sp.cmp('s', s2.Laplacian, div(grad(ea, 2), 2), 'provided', 0, 'second')
        ctx.case(n, 'guard second')
        s2.mesh = mesh                      # correct ones are accepted
        ctx.true(s2.mesh is mesh, 'guard')
        bad = [py(q) for q in dd]
        i = int(rng.integers(5))
        bad[i] = py(Lin(((1, dd[i]), (.1, ea))))
        s3, _ = sp.s(ea, second_derivative=bad)
        ctx.raises(lambda: setattr(s3, 'mesh', mesh), 'guard', f'wrong second derivative {i}')
    ctx.case(n, 'guard')
    s.mesh = mesh
    ctx.true(s.mesh is mesh, 'guard')
    for i in range(n + 1):
        bad = list(full)
        bad[i] = py(Lin(((1, ea.d(names[i])), (.1, ea))))
        b, _ = sp.s(ea, derivative=bad)
        ctx.raises(lambda: setattr(b, 'mesh', mesh), 'guard', f'wrong derivative {i}')
    JM = [[py(e.d(j)) for j in range(n)] for e in eu]
    TD = [py(e.d('t')) for e in eu]
    part = [[q if rng.random() < .7 else None for q in r] for r in JM]
    for jm, td, order, tag in ((part, TD, 1, 'part'), (JM, TD, 0, 'all'), (JM, [TD[0]] + [None] * (n - 1), 1, 'td part')):
        v, _ = sp.v(eu, Jacobian_matrix=jm, time_derivative=td)
        sp.cmp('v', v.time_derivative, [e.d('t') for e in eu], 'provided', order, tag)
        sp.cmp('s', v.divergence, div(eu, n), 'provided', order, tag)
        w, ew = sp.v()
        sp.cmp('v', v.convection_by(w), [conv(ew, e, n) for e in eu], 'provided', order, tag)
        if n == 2:
            sp.cmp('s', v.rot, rot2(eu), 'provided', order, tag)
            sp.cmp('T', v.gradient, [grad(e, 2) for e in eu], 'provided', order, tag)
            sp.cmp('T', v.curl, [curl2(e) for e in eu], 'provided', order, tag)
        else:
            sp.cmp('v', v.curl, curl3(eu), 'provided', order, tag)
    v, _ = sp.v(eu, Jacobian_matrix=JM, time_derivative=TD)
    v.mesh = mesh
    ctx.true(v.mesh is mesh, 'guard')
    for i in range(n):
        for j in range(n):
            bad = [list(r) for r in JM]
            bad[i][j] = py(Lin(((1, eu[i].d(j)), (.1, eu[i]))))
            v, _ = sp.v(eu, Jacobian_matrix=bad)
            ctx.raises(lambda: setattr(v, 'mesh', mesh), 'guard', f'wrong Jacobian {i}{j}')
        bad = list(TD)
        bad[i] = py(Lin(((1, eu[i].d('t')), (.1, eu[i]))))
        v, _ = sp.v(eu, time_derivative=bad)
        ctx.raises(lambda: setattr(v, 'mesh', mesh), 'guard', f'wrong time derivative {i}')
    # steady fields and zeros
    es = Leaf(Steady(ea.tr))
    s, _ = sp.s(es, steady=True)
    sp.cmp('s', s.time_derivative, es.d('t'), 'provided', 0, 'steady')
    sp.cmp('v', s.gradient, grad(es, n), 'provided', 1, 'steady')
    ev = [Leaf(Steady(e.tr)) for e in eu]
    v, _ = sp.v(ev, steady=True)
    sp.cmp('v', v.time_derivative, [e.d('t') for e in ev], 'provided', 0, 'steady')
    # components that do not depend on some of the coordinates: their derivatives may be given as the number 0
    def sparse_field():
        keep = [j for j in range(n) if rng.random() < .5]
        e = Leaf(Along(G.Trig(rng, n), keep, bool(rng.random() < .3)))
        return e, keep
    flds = [sparse_field() for _ in range(n)]
    ez = [f[0] for f in flds]
    JZ = [[None if rng.random() < .3 else (py(ez[i].d(j)) if j in flds[i][1] else 0) for j in range(n)] for i in range(n)]
    tag = 'zeros ' + str([[q if q == 0 else '' for q in r] for r in JZ])
    v, _ = sp.v(ez, Jacobian_matrix=JZ)
    sp.cmp('s', v.divergence, div(ez, n), 'provided', 1, tag)
    w, ew = sp.v()
    sp.cmp('v', v.convection_by(w), [conv(ew, e, n) for e in ez], 'provided', 1, tag)
    if n == 2:
        sp.cmp('s', v.rot, rot2(ez), 'provided', 1, tag)
        sp.cmp('T', v.gradient, [grad(e, 2) for e in ez], 'provided', 1, tag)
    else:
        sp.cmp('v', v.curl, curl3(ez), 'provided', 1, tag)
    e0, keep0 = flds[0]
    s, _ = sp.s(e0, derivative=[None] + [0 if j not in keep0 else py(e0.d(j)) for j in range(n)])
    sp.cmp('v', s.gradient, grad(e0, n), 'provided', 0, tag)
    sp.cmp('s', s.time_derivative, e0.d('t'), 'provided', 1, tag)
    zero = Lin(())
    z = ph.vc.scalar(0) if n == ph_dim(n) else None
    sp.cmp('s', z, Lin(((0, ea),)), 'constant', 0, 'zero scalar')
    if n == 2:
        sp.cmp('v', ph.vc.vector(py(eu[0]), 0), [eu[0], Lin(((0, ea),))], 'constant', 0, 'zero component')
    k = float(rng.uniform(-3, 3))
    if n == 2:
        from phyem.tools.functions.time_space._2d.constant import CFGt, cfg_t
        from phyem.tools.functions.time_space._2d._0_ import _0t_
        fs = [cfg_t(k), CFGt(k)(), cfg_t(k)]
        sp.pts()
        ctx.close(_0t_(sp.t, *sp.x), 0 * sp.x[0], 'constant', 0)
    else:
        from phyem.tools.functions.time_space._3d.constant import CFG
        fs = [CFG(k)()]
    for f in fs:
        sp.pts()
        ctx.close(f(sp.t, *sp.x), k + 0 * sp.x[0], 'constant', 1e-15)


class Along:
    """depends on the coordinates in keep (and on t unless steady) only"""

    def __init__(self, tr, keep, steady):
        self.tr, self.keep, self.steady = tr, keep, steady

    def __call__(self, t, *x, d=()):
        if any(a != 't' and a not in self.keep for a in d) or ('t' in d and self.steady):
            return 0. * x[0]
        return self.tr(0.3 if self.steady else t, *[c if j in self.keep else 0. * c + .37 for j, c in enumerate(x)], d=d)


class Steady:
    def __init__(self, tr):
        self.tr = tr

    def __call__(self, t, *x, d=()):
        if 't' in d:
            return 0. * x[0]
        return self.tr(0., *x, d=d)


def ph_dim(n):
    ph.config.set_embedding_space_dim(n)
    return n


def numeric(ctx, rep):
    """the numerical differentiation helpers"""
    from phyem.tools.numerical.derivative import derivative
    rng = ctx.rng
    for n in (1, 2, 3):
        sp = Sp(ctx, n, rng)
        e = sp.leaf()
        f = S.pyfun(e, n)
        sp.pts()
        t, x = sp.t, sp.x
        import importlib
        nm = {1: 'NumericalPartialDerivativeTx', 2: 'NumericalPartialDerivativeTxy', 3: 'NumericalPartialDerivativeTxyz'}[n]
        cls = getattr(importlib.import_module(f'phyem.tools.numerical.time_space._{n}d.partial_derivative'), nm)
        o = cls(f, t, *x)
        ax = ['t', 0, 1, 2][:n + 1]
        ctx.case('numeric', n)
        for q, a in zip('txyz', ax):
            ctx.close(o.partial(q), e.d(a)(t, *x), 'numeric', 2e-6, f'{n} {q}')
            ctx.true(getattr(o, 'check_partial_' + q)(S.pyfun(e.d(a), n)), 'numeric', 'accepts')
            ctx.true(not getattr(o, 'check_partial_' + q)(S.pyfun(Lin(((1, e.d(a)), (.1, e))), n)), 'numeric', 'refuses')
        for got, a in zip(o.total_partial, ax):
            ctx.close(got, e.d(a)(t, *x), 'numeric', 2e-6, f'{n} total')
        ds = [S.pyfun(e.d(a), n) for a in ax]
        ctx.eq(tuple(o.check_total(*ds)), (True,) * (n + 1), 'numeric')
        bad = list(ds)
        i = int(rng.integers(n + 1))
        bad[i] = S.pyfun(Lin(((1, e.d(ax[i])), (.1, e))), n)
        ctx.eq(tuple(o.check_total(*bad)), tuple(j != i for j in range(n + 1)), 'numeric')
        # static functions of space
        if n > 1:
            g2 = [Leaf(Steady(sp.leaf().tr)) for _ in range(n)]
            st = lambda k: (lambda x, y: k(0, x, y)) if n == 2 else (lambda x, y, z: k(0, x, y, z))
            sp.pts()
            x = sp.x
            nm = 'NumericalPartialDerivativeXY' + 'Z' * (n == 3)
            P = getattr(importlib.import_module(f'phyem.tools.numerical.space._{n}d.partial_derivative'), nm)
            o = P(st(g2[0]), *x)
            for i, got in enumerate(o.total_derivative):
                ctx.close(got, g2[0].d(i)(0, *x), 'numeric', 1e-5, nm)
                ctx.close(o.partial('xyz'[i]), g2[0].d(i)(0, *x), 'numeric', 1e-5, nm)
            if n == 2:
                J = importlib.import_module('phyem.tools.numerical.space._2d.Jacobian_22').NumericalJacobianXYrs22
                got = J(lambda r, s: (g2[0](0, r, s), g2[1](0, r, s))).Jacobian_matrix(*x)
            else:
                J = importlib.import_module('phyem.tools.numerical.space._3d.Jacobian_33').NumericalJacobianXYZrst33
                ob = J(lambda r, s, q: tuple(g(0, r, s, q) for g in g2))
                got = (getattr(ob, 'Jacobian_matrix', None) or ob.scipy_derivative)(*x)
            ctx.close(np.array([[np.asarray(q) + 0 * x[0] for q in r] for r in got]),
                      np.array([[g.d(j)(0, *x) + 0 * x[0] for j in range(n)] for g in g2]), 'numeric', 1e-5, 'Jacobian')
    e = Leaf(G.Trig(rng, 1))
    x = rng.uniform(-1, 1, 4)
    for m, tol in (('central', 1e-6), ('forward', 1e-4), ('backward', 1e-4)):
        ctx.close(derivative(lambda z: e(0, z), x, method=m), e.d(0)(0, x), 'numeric', tol, m)
    h = 1e-2
    ctx.close(derivative(lambda z: z ** 2, x, 'forward', h), 2 * x + h, 'numeric', 1e-10, 'forward is forward')
    ctx.close(derivative(lambda z: z ** 2, x, 'backward', h), 2 * x - h, 'numeric', 1e-10, 'backward is backward')
    ctx.close(derivative(lambda z: z ** 2, x, 'central', h), 2 * x, 'numeric', 1e-10, 'central is central')


def integral(ctx, rep):
    rng = ctx.rng
    sp = Sp(ctx, 2, rng)
    u, eu = sp.v()
    t0, t1 = rng.uniform(-.2, .2, 2)
    g, w = np.polynomial.legendre.leggauss(12)
    for h, tol in ((1e-3, 1e-6), (2e-2, 1e-4)):
        I = u.integral(float(t0), h=h)
        for a, b in ((t0, t1), (t0, t0), (t0, t0 - .1)):
            sp.pts()
            x = sp.x
            ref = [sum(wi * e((a + b) / 2 + (b - a) / 2 * gi, *x) for gi, wi in zip(g, w)) * (b - a) / 2 for e in eu]
            ctx.case('integral', h, round(b - a, 3))
            ctx.close(np.array(I(float(b), *x)), np.array(ref), 'integral', tol, f'{a} {b}')


def lines(ctx, rep):
    from phyem.tools.miscellaneous.geometries.m2n2 import StraightSegment2, Point2
    rng = ctx.rng
    sp = Sp(ctx, 2, rng)
    # a random polygon's sides, each with its own field
    m = int(rng.integers(3, 6))
    ang = np.sort(rng.uniform(0, 2 * np.pi, m)) + np.arange(m)*.3
    P = [(float(np.cos(q) + .1 * k), float(np.sin(q))) for k, q in enumerate(ang)]
    segs = [(P[i], P[(i + 1) % m]) for i in range(m)]
    use = list(range(m))[:-1]
    S2 = [StraightSegment2(*([Point2(*q) for q in segs[i]] if i % 2 else segs[i])) for i in use]
    es = [sp.leaf() for _ in use]
    fs = [S.pyfun(e, 2) if i % 2 else ph.vc.scalar(S.pyfun(e, 2)) for i, e in enumerate(es)]
    k = float(rng.uniform(1, 2))
    fs[-1] = k
    sol = ph.vc.m2n2_scalar_on_lines(*zip(S2, fs))
    ev = [[sp.leaf(), sp.leaf()] for _ in use]
    vs = [tuple(S.pyfun(q, 2) for q in e) if i % 2 else ph.vc.vector(*[S.pyfun(q, 2) for q in e]) for i, e in enumerate(ev)]
    vs[0] = (S.pyfun(ev[0][0], 2), k)
    vol = ph.vc.m2n2_vector_on_lines(*zip(S2, vs))
    ctx.case('lines', m)
    t = sp.t
    pts, ref, rv = [], [], []
    for i in range(m):
        for lam in rng.uniform(.05, .95, 3):
            (x0, y0), (x1, y1) = segs[i]
            x, y = x0 + lam * (x1 - x0), y0 + lam * (y1 - y0)
            pts.append((x, y))
            if i in use:
                ref.append(k if i == use[-1] else es[i](t, x, y))
                rv.append((ev[i][0](t, x, y), k if i == 0 else ev[i][1](t, x, y)))
            else:
                ref.append(0.)
                rv.append((0., 0.))
            # a point off the line
            pts.append((x * 1.0 + .5 * (1 + lam) * (y1 - y0), y - .5 * (1 + lam) * (x1 - x0)))
            ref.append(0.)
            rv.append((0., 0.))
    X, Y = np.array(pts).T
    ref, rv = np.array(ref), np.array(rv).T
    keep = np.ones(len(X), bool)
    for shape in ((-1,), (2, -1)):
        ctx.close(np.array(sol(t, X.reshape(shape), Y.reshape(shape))[0]).ravel(), ref, 'lines', 1e-12, 'scalar')
        out = vol(t, X.reshape(shape), Y.reshape(shape))
        ctx.close(np.array(out).reshape(2, -1), rv, 'lines', 1e-12, 'vector')
    for j in range(0, len(X), 5):
        ctx.close(sol(t, float(X[j]), float(Y[j]))[0], ref[j], 'lines', 1e-12, 'scalar point')
        ctx.close(np.array(vol(t, float(X[j]), float(Y[j]))), rv[:, j], 'lines', 1e-12, 'vector point')
        ctx.close(vol._v0_(t, X[:j + 1], Y[:j + 1]), rv[0, :j + 1], 'lines', 1e-12, 'first component')
    s2 = vol + vol
    ctx.close(np.array(s2(t, X, Y)), 2 * rv, 'lines', 1e-12, 'sum')


def cfs(ctx, conf, rep):
    """continuous forms: exterior derivative, codifferential, time derivative"""
    d = C.build(conf, 1, rng=np.random.default_rng(0))
    n = d.n
    rng = ctx.rng
    sp = Sp(ctx, n, rng)
    for (k, o), f in d.F.items():
        nc = d.ncomp((k, o))
        es = [sp.leaf() for _ in range(nc)]
        f.cf = d.cfun((k, o), *es)
        D = CD = None
        if n == 1:
            D = {0: ('s', es[0].d(0))}.get(k)
            CD = {1: ('s', -es[0].d(0))}.get(k)
        elif n == 2:
            if k == 0:
                D = ('v', grad(es[0], 2) if o == 'inner' else curl2(es[0]))
            elif k == 1:
                D = ('s', rot2(es) if o == 'inner' else div(es, 2))
                CD = ('s', -div(es, 2) if o == 'inner' else rot2(es))
            else:
                CD = ('v', curl2(es[0]) if o == 'inner' else [-q for q in grad(es[0], 2)])
        else:
            D = {0: lambda: ('v', grad(es[0], 3)), 1: lambda: ('v', curl3(es)), 2: lambda: ('s', div(es, 3)), 3: lambda: None}[k]()
            CD = {0: lambda: None, 1: lambda: ('s', -div(es, 3)), 2: lambda: ('v', curl3(es)),
                  3: lambda: ('v', [-q for q in grad(es[0], 3)])}[k]()
        td = ('s', es[0].d('t')) if nc == 1 else ('v', [e.d('t') for e in es])
        own = ('s', es[0]) if nc == 1 else ('v', es)
        for name, exp in (('exterior_derivative', D), ('coboundary', D), ('codifferential', CD), ('time_derivative', td), (None, own)):
            if exp is None:
                continue
            got = getattr(f.cf, name)() if name else f.cf.field
            for r, g in (got.items() if isinstance(got, dict) else [(0, got)]):
                sp.cmp(exp[0], g, exp[1], 'cf', 1 if name else 0, f'{conf} {k}{o} {name}')
        # the form's own derivative knows its field
        if D is not None:
            df = f.d()
            got = df.cf
            got = got.field if hasattr(got, 'field') else got
            if got is not None:
                for r, g in (got.items() if isinstance(got, dict) else [(0, got)]):
                    sp.cmp(D[0], g, D[1], 'cf', 1, f'{conf} {k}{o} d().cf')
    if d.impl == 'msehtt' and n == 2:
        for key, f in d.F.items():
            f.cf = 0
            z = Lin(((0, sp.leaf()),))
            sp.cmp('s' if d.ncomp(key) == 1 else 'v', f.cf.field, z if d.ncomp(key) == 1 else [z, z], 'cf', 0, 'zero')


def regionwise(ctx, rep):
    """region-wise fields: arithmetic, and every element sees the field of its own region"""
    from phyem.tools.functions.region_wise_wrapper import RegionWiseFunctionWrapper as R
    rng = ctx.rng
    sp = Sp(ctx, 2, rng)
    d = C.build('py2m', 2, [(0, 'outer'), (1, 'outer'), (2, 'outer'), (1, 'inner')], rng=np.random.default_rng(0))
    mesh = d.obj['mesh']
    regions = list(mesh.manifold.regions)
    A = {r: sp.v() for r in regions}
    B = {r: sp.v() for r in regions}
    a, b = R({r: A[r][0] for r in regions}), R({r: B[r][0] for r in regions})
    ctx.case('regionwise', len(regions))
    for r in regions:
        sp.cmp('v', (-a)[r], [-q for q in A[r][1]], 'regionwise', 0, 'neg')
        sp.cmp('v', (a - b)[r], [p - q for p, q in zip(A[r][1], B[r][1])], 'regionwise', 0, '-')
        sp.cmp('v', (a + b)[r], [p + q for p, q in zip(A[r][1], B[r][1])], 'regionwise', 0, '+')
    f = d.F[(1, 'outer')]
    f.cf = dict(a)
    g = f.cf.exterior_derivative()
    for r in regions:
        sp.cmp('s', g[r], div(A[r][1], 2), 'regionwise', 1, 'd')
        sp.cmp('s', f.cf.codifferential()[r], rot2(A[r][1]), 'regionwise', 1, 'd*')
    xi = np.linspace(-.9, .9, 3)
    XI, ET = np.meshgrid(xi, xi, indexing='ij')
    co = mesh.elements.ct.mapping(XI, ET)          # (..., element) or list of arrays
    co = [np.asarray(c) for c in co]
    t = 0.3
    ne = len(d.elements)
    for axis in {i for i in range(co[0].ndim) if co[0].shape[i] == ne}:
        val = f.cf[t](*co, axis=axis)
        for e in d.elements:
            x = d.mapping(e, XI.ravel('F'), ET.ravel('F'))
            r = element_region(mesh, e)
            for c in range(2):
                got = np.take(val[c], e, axis=axis).ravel('F')
                ctx.close(got, A[r][1][c](t, *x), 'regionwise', 1e-10, f'element {e} region {r}')
    ctx.raises(lambda: setattr(f, 'cf', {regions[0]: A[regions[0]][0]}), 'regionwise', 'missing regions accepted')


def element_region(mesh, e):
    for r in mesh.manifold.regions:
        lo, hi = mesh.elements._elements_in_region(r)
        if lo <= e < hi:
            return r


def UNITS(tier):
    quick = tier == 'quick'
    U = []
    R = 2 if quick else 10
    for n in (1, 2, 3):
        for r in range(R):
            U.append((f'elementary:{n}:{r}', elementary, dict(n=n, rep=r)))
            if n > 1:
                U.append((f'compose:{n}:{r}', compose, dict(n=n, rep=r)))
                U.append((f'provided:{n}:{r}', provided, dict(n=n, rep=r)))
    for r in range(R):
        U.append((f'numeric:{r}', numeric, dict(rep=r)))
        U.append((f'integral:{r}', integral, dict(rep=r)))
        U.append((f'lines:{r}', lines, dict(rep=r)))
        U.append((f'regionwise:{r}', regionwise, dict(rep=r)))
        for c in ('py1', 'py2', 'py2m', 'py3', 'ht2', 'ht3'):
            U.append((f'cf:{c}:{r}', cfs, dict(conf=c, rep=r)))
    return U
