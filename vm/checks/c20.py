"""C20: random histories of cochain operations against a plain dictionary of times; interpolation; forms at abstract instants."""
import numpy as np
from vm import configs as C
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (configuration, form, history, operation, stored instants, time)',
    assumptions=['automatic cleaning may drop older instants only: the newest ones it promises to keep (and the one just set) must stay',
                 'times are identified after rounding to 8 decimals, as the code documents'],
    note='Random histories of set (every accepted kind of cochain), reduce, overwrite, add, clean, interpolation and query, with and '
         'without automatic cleaning, driven through base forms and forms at abstract instants; after every operation all stored '
         'instants are compared with a model.',
    must_observe=['set', 'overwrite', 'reduce', 'clean', 'interpolate', 'abstract', 'auto', 'numeric', 'iadd', 'missing', 'derived'])

KEEP = dict(msepy=10, msehtt=3)


class Model:
    def __init__(self, impl, auto):
        self.impl, self.auto, self.c = impl, auto, {}

    def put(self, t, v):
        self.c[round(t, 8)] = {e: np.array(x, dtype=float) for e, x in v.items()}

    def newest(self):
        return max(self.c) if self.c else None


def history(ctx, conf, p, rounds, length):
    rng = ctx.rng
    for r in range(rounds):
        auto = [False, True, 2, 5][int(rng.integers(4))]
        ph.config.set_auto_cleaning(auto)
        try:
            one(ctx, conf, p, r, length, auto)
        finally:
            ph.config.set_auto_cleaning(True)


def one(ctx, conf, p, r, length, auto):
    rng = ctx.rng
    n = C.CONF[conf]['n']
    keys = S.SPACES[n]
    key = keys[int(rng.integers(len(keys)))]
    d = C.build(conf, p, [key] + ([k for k in keys if k == (key[0] + 1, key[1])]), rng=rng,
                extra=dict(now=(key, 'k'), half=(key, 'k-1/2'), prev=(key, 'k-1'), twin=(key, p)))
    ts = S.TS[0]
    t0, dt = float(rng.uniform(-1, 1)), float(rng.uniform(.1, 1))
    ts.specify('constant', [t0, t0 + 20 * dt, 40], 2)
    F = d.F[key]
    ht = d.impl == 'msehtt'
    ati = {q: d.X[q] for q in ('now', 'half', 'prev')}
    gm = d.gm(key)
    N = d.ndofs(key)
    M = Model(d.impl, auto)
    ctx.case(conf, p, key, r, length)
    ctx.event('auto', 0 if auto is False else 1)
    at = lambda x: round(t0 + x * dt, 8)

    def rand(single=False):
        if single:
            g = rng.standard_normal(N)
            return {e: g[gm[e]] for e in d.elements}
        return {e: rng.standard_normal(len(gm[e])) for e in d.elements}

    def get(f, t):
        c = f[t].cochain
        return {e: np.array(c.local[e] if not ht else c[e]) for e in d.elements}

    def same(a, b, what, tol=1e-13):
        for e in d.elements:
            if not ctx.close(a[e], b[e], f'{d.impl}|{what}', tol, f'{conf} {key} element {e}', scale=1.):
                return False
        return True

    def before_set(t):
        """model of the cleaning: what must survive; the rest follows the code"""
        if auto is False:
            return None
        keep = KEEP[d.impl] if auto is True else auto
        old = sorted(M.c)
        return set(old[-(keep - 1 if ht else keep):])

    def after_set(t, must):
        t = round(t, 8)
        have = {x for x in M.c if x in F.cochain}
        if must is None:
            must = set(M.c)
        ctx.true(t in have and must <= have, f'{d.impl}|kept instants', lambda: f'set {t}: stored {sorted(have)}, must keep {sorted(must)}')
        for x in set(M.c) - have:
            del M.c[x]

    def do_set(f, t, exact=None):
        form = rng.integers(6)
        v = rand(True) if form in (3, 4) else rand()
        must = before_set(t)
        ctx.event('overwrite' if round(t, 8) in M.c else 'set')
        if not ht:
            if form <= 2:
                f[t].cochain = np.array([v[e] for e in d.elements])
            elif form == 3:
                w = np.array([v[e] for e in d.elements])
                from phyem.msepy.form.cochain.vector.static import MsePyRootFormStaticCochainVector as V
                V(F, t, w, F.cochain.gathering_matrix).override()
            else:
                w = np.array([v[e] for e in d.elements])
                f[t].cochain = lambda t_, w=w: w.copy()
        else:
            from phyem.msehtt.tools.vector.static.local import MseHttStaticLocalVector as LV
            from phyem.msehtt.tools.vector.static.global_gathered import MseHttGlobalVectorGathered as GG
            g = F.cochain.gathering_matrix
            if form <= 1:
                f[t].cochain = {e: x.copy() for e, x in v.items()}
            elif form == 2:
                f[t].cochain = LV({e: x.copy() for e, x in v.items()}, g)
            elif form == 3:
                V = np.zeros(N)
                for e in d.elements:
                    V[gm[e]] = v[e]
                f[t].cochain = GG(V, gm=g)
            elif form == 4:
                from phyem.msehtt.static.form.cochain.vector.static import MseHttStaticCochainVector as SV
                SV(F, t, {e: x.copy() for e, x in v.items()}, g).override()
            else:
                f[t].cochain = lambda e, v=v: v[e].copy()
        M.put(t, v)
        after_set(t, must)

    def pick():
        return sorted(M.c)[int(rng.integers(len(M.c)))] if M.c else None

    fns = [S.pyfun(lambda t, *x, i=i: np.sin(t + i) + sum(np.cos(i + a + q) for a, q in enumerate(x)), n) for i in range(d.ncomp(key))]
    F.cf = d.cfun(key, *fns)
    for step in range(length):
        op = ['set', 'set', 'set', 'set', 'ati', 'reduce', 'copy', 'iadd', 'clean', 'clean1', 'interp', 'interp', 'numeric', 'missing', 'derived',
              'str', 'homog'][int(rng.integers(17))]
        t = at(int(rng.integers(0, 41)) / 2)
        if rng.random() < .2:
            t = t + 3e-9 * float(rng.choice([-1, 1]))          # within the rounding of time
        if rng.random() < .1:
            t = float(rng.uniform(-50, 50))

        def act():
            nonlocal t
            if op == 'set':
                do_set(F, t)
            elif op == 'ati':
                w = list(ati)[int(rng.integers(3))]
                k = int(rng.integers(1, 20))
                tt = at(k - dict(now=0, half=.5, prev=1)[w])
                f = ati[w]
                ctx.event('abstract')
                if rng.random() < .5:
                    do_set(f, tt)
                ctx.close(f.cochain._ati_time_caller(k=k), tt, f'{d.impl}|instant', 1e-7)
                if tt in M.c:
                    v = f.cochain.dynamic_vec(k=k)
                    got = {e: np.array(v[e]) for e in d.elements}
                    same(got, M.c[tt], 'dynamic vector')
                    same(get(f, tt), M.c[tt], 'instant form')
                    if not ht:
                        same({e: f(k=k).cochain.local[e] for e in d.elements}, M.c[tt], 'instant call')
                ctx.eq(f.cochain.newest, M.newest(), f'{d.impl}|newest', 'form at an instant')
                ctx.eq(len(f.cochain), len(M.c), f'{d.impl}|length', 'form at an instant')
            elif op == 'reduce':
                must = before_set(t)
                F[t].reduce()
                ctx.event('reduce')
                ref = F.reduce(round(t, 8), update_cochain=False) if not ht else F.reduce(F.cf[round(t, 8)])
                M.put(t, {e: np.array(ref[e]) for e in d.elements})
                after_set(t, must)
            elif op == 'copy' and M.c:
                s = pick()
                must = before_set(t)
                if ht and rng.random() < .5:
                    F[t].cochain = 2. * F[s].cochain
                    v = {e: 2. * x for e, x in M.c[s].items()}
                elif ht:
                    b = pick()
                    F[t].cochain = F[s].cochain + F[b].cochain
                    v = {e: x + M.c[b][e] for e, x in M.c[s].items()}
                else:
                    F[t].cochain = -F[s].cochain.local
                    v = {e: -x for e, x in M.c[s].items()}
                M.put(t, v)
                after_set(t, must)
            elif op == 'iadd' and M.c:
                s, b = pick(), pick()
                ctx.event('iadd')
                if ht:
                    if rng.random() < .5:
                        w = F[s].cochain
                        w += F.cochain.static_vec(b)
                        v = {e: x + M.c[b][e] for e, x in M.c[s].items()}
                    else:
                        g = rand(True)
                        V = np.zeros(N)
                        for e in d.elements:
                            V[gm[e]] = g[e]
                        from phyem.msehtt.tools.vector.static.global_gathered import MseHttGlobalVectorGathered as GG
                        w = F[s].cochain
                        w += GG(V, gm=F.cochain.gathering_matrix)
                        v = {e: x + g[e] for e, x in M.c[s].items()}
                    M.put(s, v)
                else:
                    w = F.cochain.static_vec(s)
                    z = F.cochain.static_vec(b)
                    q = w + z
                    same({e: np.array(q[e]) for e in d.elements}, {e: x + M.c[b][e] for e, x in M.c[s].items()}, 'vector sum')
            elif op == 'clean':
                ctx.event('clean')
                c = int(rng.integers(4))
                f = F if rng.random() < .7 else ati['half']
                if c == 0:
                    f.cochain.clean()
                    M.c = {M.newest(): M.c[M.newest()]} if M.c else {}
                elif c <= 2:
                    m = int(rng.integers(1, 6))
                    f.cochain.clean(-m)
                    M.c = {x: M.c[x] for x in sorted(M.c)[-m:]}
                elif ht:
                    f.cochain.clean('all')
                    M.c = {}
            elif op == 'clean1' and ht:
                x = pick() if rng.random() < .8 and M.c else t
                ctx.event('clean')
                F.cochain.clean(t=x)
                M.c.pop(round(x, 8), None)
            elif op == 'interp' and len(M.c) > 1:
                times = sorted(M.c)
                i = int(rng.integers(len(times) - 1))
                a, b = times[i], times[i + 1]
                x = [round(float(rng.uniform(a, b)), 8), a, b, times[-1], times[0]][int(rng.integers(5))]
                i = max(0, min(np.searchsorted(times, x, side='right') - 1, len(times) - 2))
                a, b = times[i], times[i + 1]
                ctx.event('interpolate')
                w = (x - a) / (b - a)
                ref = {e: (1 - w) * M.c[a][e] + w * M.c[b][e] for e in d.elements}
                if ht:
                    c = F(x).cochain
                    got = {e: np.array(c[e]) for e in d.elements}
                else:
                    c = (F if rng.random() < .7 else ati['now']).cochain(x)
                    got = {e: np.array(c.local[e]) for e in d.elements}
                same(got, ref, 'interpolation', 1e-6)
                for x in (times[0] - .5, times[-1] + .5):
                    ctx.raises((lambda: F(x).cochain) if ht else (lambda: F.cochain(x)), f'{d.impl}|extrapolation')
            elif op == 'numeric' and M.c and n == 2 and key[0] == 2 and not C.CONF[conf].get('tri'):
                s = pick()
                ctx.event('numeric')
                tw = d.X['twin']
                d.F['twin'] = tw
                d.set('twin', s, M.c[s])
                xs = rng.uniform(.2, .8, (5, 2))
                if ht:
                    a, b = F[s].numeric.interpolate()[1](xs), tw[s].numeric.interpolate()[1](xs)
                else:
                    kw = dict(density=4, factor=2)
                    a, b = F.numeric.interp(s, **kw)(xs), tw.numeric.interp(s, **kw)(xs)
                ctx.close(a, b, f'{d.impl}|numeric', 1e-8, f'{conf} {key} t={s}: interpolation of the stored cochain', scale=1.)
                if ht:
                    tw.cochain.clean('all')
            elif op == 'missing':
                if round(t, 8) not in M.c:
                    ctx.event('missing')
                    ctx.raises(lambda: get(F, t), f'{d.impl}|missing instant', f'{t}')
                if not M.c:
                    ctx.raises(lambda: F[None], f'{d.impl}|newest of nothing')
            elif op == 'derived' and M.c:
                s = pick()
                ctx.event('derived')
                if key[0] < n:
                    E = d.E(key)
                    ref = {e: E[e] @ M.c[s][e] for e in d.elements}
                    if ht:
                        c = F[s].coboundary()
                        same({e: np.array(c[e]) for e in d.elements}, ref, 'coboundary', 1e-11)
                    else:
                        c = F[s].coboundary.cochain.local
                        same({e: np.array(c[e]) for e in d.elements}, ref, 'coboundary', 1e-11)
                        if r % 2:
                            dF = F.d()
                            same({e: np.array(dF.cochain[s].local[e]) for e in d.elements}, ref, 'd', 1e-11)
                if not ht and n == 1:
                    pass                             # sums of 1D fields (F.cf) are not implemented
                elif not ht:
                    H = [F + F, F - F][step % 2]
                    same({e: np.array(H[s].cochain.local[e]) for e in d.elements}, {e: (2 - 2 * (step % 2)) * x for e, x in M.c[s].items()}, 'sum of forms')
                else:
                    v = F.cochain.static_vec(s)
                    w = {e: np.array((v + v)[e]) for e in d.elements}
                    same(w, {e: 2 * x for e, x in M.c[s].items()}, 'vector sum')
            elif op == 'str' and M.c:
                k = int(rng.integers(0, 41)) / 2
                if at(k) in M.c:
                    same(get(F, f'{k}'), M.c[at(k)], 'string instant')
                same({e: np.array((F[None].cochain if ht else F[None].cochain.local)[e]) for e in d.elements}, M.c[M.newest()], 'newest form')
                same({e: np.array((F.cochain[None] if ht else F.cochain[None].local)[e]) for e in d.elements}, M.c[M.newest()], 'newest cochain')
            elif op == 'homog' and ht and M.c:
                s = pick()
                g = rand(True)
                d.F['F'] = F
                must = before_set(s)
                d.set('F', s, g)
                M.put(s, g)
                after_set(s, must)
                F[s].cochain.homogenous()
                V = F[s].cochain.gathered_global_vector.V
                same({e: V[gm[e]] for e in d.elements}, g, 'global vector')
                i = int(rng.integers(N))
                e = next(e for e in d.elements if i in gm[e])
                j = int(np.argmax(gm[e] == i))
                ctx.close([F[s].cochain.of_dof(i), F[s].cochain.of_local_dof(e, j)], [g[e][j]] * 2, f'{d.impl}|of_dof', 1e-12)
            return True
        if ctx.sub(f'{d.impl}|{op}', act) is None:
            break
        ctx.case(conf, key, r, op, len(M.c), round(t, 6))
        # the whole store
        ctx.eq(len(F.cochain), len(M.c), f'{d.impl}|length', f'after {op}')
        ctx.eq(F.cochain.newest, M.newest(), f'{d.impl}|newest', f'after {op}')
        if ht:
            ctx.eq(F.cochain.times, sorted(M.c), f'{d.impl}|times', f'after {op}')
            ctx.eq(sorted(F.cochain), sorted(M.c), f'{d.impl}|iteration', f'after {op}')
        for x in M.c:
            if not ctx.true(x in F.cochain and x + 2e-9 in F.cochain, f'{d.impl}|contains', f'{x} after {op}') or \
                    not same(get(F, x), M.c[x], f'stored after {op}'):
                return


def UNITS(tier):
    q = tier == 'quick'
    U = []
    confs = [('py1', 3), ('py2', 2), ('py2m', (1, 2)), ('py2p', 2), ('py3', 1), ('ht2', 2), ('ht2p', (2, 1)), ('ht2b', 1), ('rq', 2), ('rqt', 1),
             ('ht2trf', 2), ('ht3', 1), ('ht3o', (1, 2, 1))]
    for c, p in confs:
        U.append((f'history:{c}', history, dict(conf=c, p=p, rounds=3 if q else 15, length=60 if q else 120)))
    return U
