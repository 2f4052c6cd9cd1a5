"""C12: time sequences, instants and intervals against exact rational arithmetic; the instants a discretized system really uses."""
from fractions import Fraction as Q
import math
import numpy as np
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (sequence parameters, step index or index expression and values of its variables)',
    assumptions=['exact rational arithmetic on the given numbers is the reference; times agree to 1e-9 of the length of the sequence',
                 'between the steps of a function sequence the time is interpolated linearly (what the code documents by its use)'],
    note='Constant, function and abstract sequences over random parameters, index expressions with every operator and value sign; '
         'time-discretized systems solved with random instants, compared with the update computed from the exact instants.',
    must_observe=['constant', 'function', 'abstract', 'interval', 'system', 'refused'])


def TS():
    from phyem.src import time_sequence
    return time_sequence


def constant(ctx, rounds):
    T = TS()
    rng = ctx.rng
    for r in range(rounds):
        f = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 12]))
        K = int(rng.integers(1, 40))
        n = K * f
        t0 = float(rng.choice([0., -1.5, 1e-3, 3., rng.uniform(-5, 5)]))
        L = float(rng.choice([1., .1, 5., 1e-3, 100., rng.uniform(.1, 20)]))
        if rng.random() < .3:
            t0, L = int(t0), int(L) + 1
        t1 = t0 + L
        ts = T.ConstantTimeSequence([t0, t1, n], f)
        Q0, QL = Q(t0), Q(t1) - Q(t0)
        dt = QL / K
        sc = max(abs(t0), abs(t1), 1e-3)
        tol = 1e-12 * sc
        ctx.event('constant')
        ctx.true(abs(ts.dt - dt) <= tol and ts.k_max == K and ts.t_0 == t0 and ts.t_max == t1, 'constant|parameters',
                 f'{t0, t1, n, f}: dt={ts.dt} k_max={ts.k_max}')
        ctx.case('constant', t0, t1, n, f)
        last = None
        for i in range(n + 1):                     # the whole grid, in order
            k = Q(i, f)
            kk = i // f if i % f == 0 and rng.random() < .5 else float(k)
            t = ctx.sub('constant', lambda: ts[kk]())
            if t is None:
                break
            ctx.true(abs(Q(t) - (Q0 + k * dt)) <= tol, 'constant|time', lambda: f'{t0, t1, n, f} k={k}: {t} instead of {float(Q0 + k * dt)}')
            if last is not None:
                ctx.true(t > last, 'constant|increasing', f'{t0, t1, n, f} k={k}')
            last = t
        # the same step reached through floating point arithmetic
        for _ in range(12):
            i = int(rng.integers(0, n + 1))
            q, m = divmod(i, f)
            forms = [float(q) + m / f, (q + 1) - (f - m) / f, i / f, i * (1 / f), sum([1 / f] * i) if i < 60 else i / f,
                     q + 1e-12 * rng.uniform(-1, 1) + m / f, (q - 1) + (f + m) / f]
            for kk in forms:
                t = ctx.sub('constant', lambda: ts[kk]())
                if t is not None:
                    ctx.true(abs(Q(t) - (Q0 + Q(i, f) * dt)) <= 1e-10 * sc + Q(1, 10 ** 11) * dt, 'constant|time rounding', lambda: f'{kk!r} {t}')
        # instants that do not exist
        for _ in range(6):
            while True:
                k = float(rng.uniform(0, K))
                if abs(k * f - round(k * f)) > 1e-3:
                    break
            ctx.raises(lambda: ts[k], 'constant|between instants', f'{t0, t1, n, f} k={k}', T.TimeInstantError)
        for k in (-2, -1 - 1 / f - .5, K + 2, K + 100, -50.):
            ctx.raises(lambda: ts[k], 'constant|outside', f'{t0, t1, n, f} k={k}', T.TimeInstantError)
        a, b = sorted(rng.choice(n + 1, 2, replace=False))
        ta, tb = ts[a / f], ts[b / f]
        ctx.event('interval')
        I = T.TimeInterval(ta, tb)
        ctx.true(abs(Q(I()) - Q(int(b - a), f) * dt) <= tol and I.start == ta and I.end == tb, 'interval|length', f'{I()}')
        ctx.raises(lambda: T.TimeInterval(tb, ta), 'interval|reversed')
        ctx.raises(lambda: T.TimeInterval(ta, ta), 'interval|empty')
        ctx.true(ts[a / f] == ts[a / f] and not ts[a / f] == ts[b / f] and not ts[a / f] == 3, 'instant|equality')
        s = sum(T.TimeInterval(ts[i / f], ts[(i + 1) / f])() for i in range(n))
        ctx.true(abs(s - float(QL)) <= 1e-11 * sc * n, 'interval|sum', f'{s} {float(QL)}')
    for bad in (([0, 1, 0], 1), ([1, 1, 2], 1), ([1, 0, 2], 1), ([0, 1, 3], 2), ([0, 1, 2.5], 1), ([0, 1, 4], 0), ([0, 1, 4], -2), ([0, 1, 4], 1.5),
                ([0, 1, -4], 2)):
        ctx.event('refused')
        ctx.raises(lambda: T.ConstantTimeSequence(*bad), 'constant|bad parameters', str(bad))


def function(ctx, rounds):
    T = TS()
    rng = ctx.rng
    for r in range(rounds):
        si = [1, .5, 2, .25, .1, 1 / 3][int(rng.integers(6))]
        t0 = float(rng.uniform(-2, 2))
        fail = {'next': None}
        steps = []

        def func():
            if fail['next'] == 'raise':
                raise ValueError('c12')
            if fail['next'] == 'bad':
                return -1.
            steps.append(float(rng.uniform(1e-3, 1)))
            return steps[-1]
        ts = T.FunctionTimeSequence(t0, func, step_interval=si)
        ctx.event('function')
        ctx.case('function', r, si)
        known = lambda: [t0 + sum(steps[:i]) for i in range(len(steps) + 1)]
        for _ in range(40):
            op = rng.integers(6)
            m = len(steps)
            if op <= 1:                            # the next step
                k = (m + 1) * si
                t = ctx.sub('function', lambda: ts[k]())
                ctx.eq(len(steps), m + 1, 'function|one new step', f'{k}')
                if t is not None:
                    ctx.close(t, known()[-1], 'function|time', 1e-12)
            elif op == 2 and m:                    # an earlier step: nothing new is made
                i = int(rng.integers(m + 1))
                t = ctx.sub('function', lambda: ts[i * si]())
                if t is not None:
                    ctx.close(t, known()[i], 'function|time', 1e-12)
                ctx.eq(len(steps), m, 'function|known step')
            elif op == 3 and m:                    # between two steps
                x = float(rng.uniform(0, m))
                if abs(x - round(x)) < 1e-4:
                    continue
                t = ctx.sub('function', lambda: ts[x * si]())
                i = int(x)
                kn = known()
                if t is not None:
                    ctx.close(t, kn[i] + (x - i) * (kn[i + 1] - kn[i]), 'function|between', 1e-6)
                ctx.eq(len(steps), m, 'function|known step')
            elif op == 4:                          # a step that cannot be made leaves no trace
                fail['next'] = ['raise', 'bad'][int(rng.integers(2))]
                ctx.event('refused')
                ctx.raises(lambda: ts[(m + 1) * si], 'function|failing step')
                fail['next'] = None
                ctx.eq(len(steps), m, 'function|failing step made a step')
            else:
                ctx.event('refused')
                ctx.raises(lambda: ts[-si * float(rng.uniform(.1, 3))], 'function|before the start', '', T.TimeInstantError)
                ctx.eq(len(steps), m, 'function|known step')
        for i, t in enumerate(known()):
            got = ctx.sub('function', lambda: ts[i * si]())
            if got is not None:
                ctx.close(got, t, 'function|history', 1e-12, f'step {i}')


# ------------------------------------------------------------------ index expressions
def expression(rng, vs, depth=0):
    """random expression: (text, function of the values as Fractions)"""
    if depth > 2 or rng.random() < .3:
        if vs and rng.random() < .6:
            v = vs[int(rng.integers(len(vs)))]
            return v, lambda env, v=v: env[v]
        c = ['1', '2', '0.5', '3', '10', '0.25', '1.5'][int(rng.integers(7))]
        return c, lambda env, c=c: Q(c)
    op = '+-*/^n('[int(rng.integers(7))]
    a, fa = expression(rng, vs, depth + 1)
    if op == 'n':
        return f'(-{paren(a)})', lambda env: -fa(env)
    if op == '(':
        return f'({a})', fa
    if op == '^':
        e = int(rng.integers(1, 4))
        return f'{paren(a)}**{e}', lambda env: fa(env) ** e
    if op == '/':
        d = int(rng.integers(1, 6))
        return f'{paren(a)}/{d}', lambda env: fa(env) / d
    b, fb = expression(rng, vs, depth + 1)
    if op == '+':
        return f'{a}+{paren(b)}', lambda env: fa(env) + fb(env)
    if op == '-':
        return f'{a}-{paren(b)}', lambda env: fa(env) - fb(env)
    return f'{paren(a)}*{paren(b)}', lambda env: fa(env) * fb(env)


def paren(s):
    return s if len(s) == 1 or s.replace('.', '').isdigit() else f'({s})'


def abstract(ctx, rounds):
    T = TS()
    rng = ctx.rng
    for r in range(rounds):
        at = T.abstract_time_sequence()
        t0, L = float(rng.uniform(-3, 3)), float(rng.uniform(.1, 5))
        late = rng.random() < .5

        def specify():
            at.specify('constant', [t0, t0 + L, 2 * 10 ** 6], 2 * 10 ** 3)      # k in 0..1000, fractions of 1/2000
        if not late:
            specify()
        names = ''.join(rng.choice(list('kijmneabxzKE'), int(rng.integers(1, 4)), replace=False))
        todo = []
        for _ in range(12):
            s, f = expression(rng, names)
            ati = ctx.sub('abstract', lambda: at[s])
            if ati is None:
                continue
            ctx.true(at[s] is ati and ati.k == s and ati.time_sequence is at, 'abstract|same instant', s)
            todo.append((s, f, ati))
        if late:
            if todo and not any(c in todo[0][0] for c in names):
                ctx.raises(lambda: todo[0][2](), 'abstract|not specified')
            specify()
        ctx.raises(specify, 'abstract|specified twice')
        dt = Q(L) / 1000
        for s, f, ati in todo:
            used = [v for v in names if v in s]
            for _ in range(4):
                env = {}
                for v in used:
                    c = int(rng.integers(5))
                    env[v] = [int(rng.integers(0, 9)), -int(rng.integers(1, 5)), int(rng.integers(0, 12)) / 2, -.5 * int(rng.integers(1, 7)),
                              float(rng.choice([1e-5, 5e-5, -1e-5, 12345e-8]))][c]
                if rng.random() < .2:
                    env = {v: (np.int64(w) if isinstance(w, int) else np.float64(w)) for v, w in env.items()}
                w = f({v: Q(float(x)) for v, x in env.items()})
                exact = w * 2000
                ctx.case(s, sorted(env.items()))
                ctx.event('abstract')
                if not 0 <= w <= 1000 or abs(exact - round(exact)) > Q(1, 10 ** 7):
                    near = abs(exact - round(exact)) < Q(1, 10 ** 3) or not -Q(2) < w < 1002
                    if not near or w < -2 or w > 1002:
                        ctx.raises(lambda: ati(**env), 'abstract|no such instant', f'{s} {env} -> {float(w)}', T.TimeInstantError)
                    continue
                t = ctx.sub('abstract', lambda: ati(**env)())
                if t is not None:
                    ctx.true(abs(Q(t) - (Q(t0) + w * dt)) <= 1e-9 * max(1, L), 'abstract|time', f'{s} {env}: {t} instead of {float(t0 + w * dt)}')
            other = [c for c in 'klp' if c not in s]
            ctx.raises(lambda: ati(**{v: 1 for v in used}, **{other[0]: 1}), 'abstract|unknown variable', s)
        for bad in ('kk', 'k+ab', 'k + 1', 3, 'cos'):
            ctx.event('refused')
            ctx.raises(lambda: at[bad], 'abstract|bad expression', str(bad))
        # intervals
        for _ in range(4):
            a, b = sorted(float(v) / 2 for v in rng.choice(np.arange(-6, 7), 2, replace=False))
            sa, sb = (f'k{v:+g}' if rng.random() < .5 else f'k+{v:g}'.replace('+-', '-') for v in (a, b))
            if rng.random() < .3:
                sa, sb = f'2*k{a:+g}', f'2*k{b:+g}'
            I = ctx.sub('interval', lambda: at.make_time_interval(sa, sb) if rng.random() < .5 else at.make_time_interval(at[sa], at[sb]))
            if I is None:
                continue
            ctx.event('interval')
            ctx.true(at.make_time_interval(sa, sb) is I and I.start is at[sa] and I.end is at[sb], 'interval|same')
            for k in (5, 17.5, 300):
                J = ctx.sub('interval', lambda: I(k=k))
                if J is not None:
                    m = 2 * k if sa[0] == '2' else k
                    ctx.close([J(), J.start(), J.end()], [(b - a) * float(dt), t0 + (m + a) * float(dt), t0 + (m + b) * float(dt)], 'interval|abstract', 1e-9, f'{sa} {sb} {k}')
                    ctx.close(I._as_scalar()._value(k=k)(), (b - a) * float(dt), 'interval|as scalar', 1e-9)
            R = ctx.sub('interval', lambda: at.make_time_interval(sb, sa))
            if R is not None:
                ctx.raises(lambda: R(k=7), 'interval|reversed', f'{sb} {sa}')
        a2 = T.abstract_time_sequence()
        ctx.true(not at == a2 and not at['k'] == a2['k'] and at['k'] == at['k'], 'abstract|equality')
        ctx.raises(lambda: at.make_time_interval(at['k'], a2['k+1']), 'interval|two sequences')


# ------------------------------------------------------------------ instants of a discretized system
def system(ctx, impl, kind, rounds):
    """da/dt = g discretized between two random instants; the solution must land at the exact instant with the exact width"""
    rng = ctx.rng
    for r in range(rounds):
        ph.config.set_embedding_space_dim(2)
        manifold = ph.manifold(2, periodic=True)
        mesh = ph.mesh(manifold)
        k = int(rng.integers(3))
        o = ['outer', 'inner'][int(rng.integers(2))]
        sp = ph.space.new('Lambda', k, orientation=o)
        a, g = sp.make_form('a', 'c12a'), sp.make_form('g', 'c12g')
        da = a.time_derivative()
        pde = ph.pde(['da = g'], dict(da=da, g=g))
        pde.unknowns = [a]
        wf = pde.test_with([sp], sym_repr=['w'])
        frac = int(rng.choice([1, 2, 4]))
        s, e = [('k-1', 'k'), ('k', 'k+1'), ('k-1/2', 'k+1/2'), ('k+1/2', 'k+1'), ('2*k', '2*k+2'), ('k-1', 'k+1'), ('3*k-2', '3*k-1/2')][
            int(rng.integers(7 if kind == 'constant' else 2))]
        if '/' in s + e:
            frac = 4
        inst = [[s, e], [e], [s], [s, e, s.replace('-2', '-1') if s == '3*k-2' else s]][int(rng.integers(3))]
        ts = ph.time_sequence()
        td = wf.td
        td.set_time_sequence(ts)
        td.define_abstract_time_instants(s, e)
        td.differentiate('0-0', s, e)
        td.average('0-1', g, inst)
        wf = td()
        wf.unknowns = [a @ ts[e]]
        dt = ts.make_time_interval(s, e)
        wf = wf.derive.split('0-0', 'f0', [a @ ts[e], a @ ts[s]], ['+', '-'], factors=[1 / dt, 1 / dt])
        if len(inst) > 1:
            wf = wf.derive.split('0-2', 'f0', [g @ ts[i] for i in inst], ['+'] * len(inst), factors=[1 / len(inst)] * len(inst))
            wf = wf.derive.rearrange({0: '0 = 1, 2, 3'})
        else:
            wf = wf.derive.rearrange({0: '0 = 1, 2'})
        ph.space.finite(2)
        ls = wf.mp().ls()
        fem, obj = ph.fem.apply(impl, dict(manifold=manifold, mesh=mesh, ls=ls))
        if impl == 'msepy':
            fem.config(obj['manifold'])('crazy', c=0., periodic=True, bounds=[[0., 1.], [0., 1.]])
            fem.config(obj['mesh'])([2, 2])
        else:
            tgm = fem.base['the_great_mesh']
            fem.config('tgm')('crazy', element_layout=3, c=0., bounds=[[0., 1.], [0., 1.]], periodic=True)
            fem.config(obj['mesh'])(tgm, 'all')
        F = fem.base['forms']
        A, Gf = F[a._pure_lin_repr], F[g._pure_lin_repr]
        t0, L, K = float(rng.uniform(-1, 1)), float(rng.uniform(.5, 3)), 12
        steps = rng.uniform(.05, .5, 50)
        it = iter(steps)
        if kind == 'constant':
            ts.specify('constant', [t0, t0 + L, K * frac], frac)
            at = lambda x: t0 + float(x) * L / K
        else:
            ts.specify('function', t0, lambda: float(next(it)))
            cum = np.concatenate([[t0], t0 + np.cumsum(steps)])
            at = lambda x: cum[int(x)]
        comps = [S.pyfun(lambda t, x, y, i=i: np.cos(3 * t + i) * (1 + np.sin(2 * np.pi * (x - y))), 2) for i in range(2 if k == 1 else 1)]
        Gf.cf = cf = ph.vc.vector(*comps) if k == 1 else ph.vc.scalar(comps[0])
        A.cf = cf
        solver = obj['ls'].apply()
        ks = list(range(1, 5)) if kind == 'function' or s[0] == 'k' else [1, 2, 3]
        val = lambda x, kk: eval(x, {}, dict(k=Q(kk)))
        get = lambda f, t: {q: np.array(v) for q, v in (
            enumerate(f.cochain[t].local) if impl == 'msepy' else ((q, f[t].cochain[q]) for q in f.tgm.elements))}
        for kk in ks:
            ts_, te_ = at(val(s, kk)), at(val(e, kk))
            # ask the sequence for the instants first, as an iteration does
            got = ctx.sub('system', lambda: (ts[s](k=kk)(), ts[e](k=kk)()))
            if got is None:
                break
            ctx.close(got, [ts_, te_], 'system|instants', 1e-9, f'{s} {e} k={kk}')
            for i in set(inst + [s, e]):
                Gf[at(val(i, kk))].reduce()
            if impl == 'msepy':
                if ts_ not in A.cochain:
                    A[ts_].reduce()
            elif not any(abs(x - ts_) < 1e-8 for x in A.cochain.times):
                A[ts_].reduce()
            ctx.case(impl, kind, k, o, s, e, tuple(inst), kk)
            ctx.event('system')

            def solve():
                l = solver(k=kk)
                als = l.assemble()
                x = als.solve('spsolve') if impl == 'msehtt' else als.solve()
                l.x.update(x[0])
                return True
            if ctx.sub('system', solve) is None:
                break
            old = get(A, ts_)
            new = ctx.sub('system', lambda: get(A, te_))
            if new is None:
                break
            gs = [get(Gf, at(val(i, kk))) for i in inst]
            for q in old:
                w = old[q] + (te_ - ts_) * sum(v[q] for v in gs) / len(inst)
                ctx.close(new[q], w, f'system|{impl} update', 1e-8, f'{s}->{e} average {inst} k={kk} element {q}', scale=max(1e-2, np.abs(w).max()))


def UNITS(tier):
    q = tier == 'quick'
    U = [(f'constant:{i}', constant, dict(rounds=10 if q else 60)) for i in range(4)]
    U += [(f'function:{i}', function, dict(rounds=30 if q else 200)) for i in range(3)]
    U += [(f'abstract:{i}', abstract, dict(rounds=12 if q else 80)) for i in range(5)]
    for impl in ('msepy', 'msehtt'):
        for kind in ('constant', 'function'):
            for i in range(2 if q else 6):
                U.append((f'system:{impl}:{kind}:{i}', system, dict(impl=impl, kind=kind, rounds=3 if q else 8)))
    return U
