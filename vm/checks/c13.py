"""C13: random formulations and derivations next to an independent term algebra; the assembled blocks are the matrices of that algebra."""
import re
import numpy as np
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per formulation and sequence of derivation steps',
    assumptions=['mass and incidence matrices of the forms are taken from the implementation (C01, C04 decide them)',
                 'the terms used: (f, v), (d f, v), (d* f, v), (d* d f, v) and their integrated versions, sums of forms, '
                 'factors that are numbers, parameters and quotients'],
    note='A random PDE is derived step by step, in the code and in an independent list of (sign, factor, operator, forms); both must '
         'give the same blocks and right hand side. After every step each term, as it is written (its representation read back as a linear combination of forms), is the one of the list; terms of several forms are averaged one form after the other. Steps that cannot apply must raise and leave everything as it was. Commuted triple products keep their value for random pointwise vectors, their kind and factor, and the other terms.',
    must_observe=['built', 'step', 'blocks', 'rhs', 'refused', 'time', 'merge', 'direct', 'commuted'])

SIGN = {'+': 1., '-': -1.}
FLIP = {'+': '-', '-': '+'}


class Term:
    """sign * fac * (op(sum of c f@inst), test); form: the abstract left form when it is not resolved yet"""

    def __init__(self, op, comb, form, sign='+', fac=1., facobj=1, state='raw', bdry=False):
        self.op, self.comb, self.form, self.sign, self.fac, self.facobj = op, comb, form, sign, fac, facobj
        self.state, self.bdry = state, bdry
        self.timed, self.dt = False, None                    # discretized in time, over the interval dt

    def copy(self, **kw):
        t = Term(self.op, list(self.comb), self.form, self.sign, self.fac, self.facobj, self.state, self.bdry)
        t.timed, t.dt = self.timed, self.dt
        for k, v in kw.items():
            setattr(t, k, v)
        return t


class Prob:
    def __init__(self, ctx, impl, n, periodic=True, npool=2):
        rng = self.rng = ctx.rng
        self.ctx, self.impl, self.n, self.periodic = ctx, impl, n, periodic
        self.o = ['inner', 'outer'][int(rng.integers(2))]
        self.manifold, self.mesh = S.fresh(n, periodic=periodic)
        self.base, self.pool, self.k = {}, {}, {}
        for k in range(n + 1):
            sp = ph.space.new('Lambda', k, orientation=self.o)
            self.base[k] = sp.make_form(f'f_{k}', f'base{k}')
            for j in range(npool):
                nm = f'{"abcde"[j]}{k}'
                self.pool[nm] = sp.make_form(f'{"abcde"[j]}_{k}', f'pool {nm}')
                self.k[nm] = k
        self.space = {k: f.space for k, f in self.base.items()}
        self.par = {}
        self.ts = None
        self.instants, self.timed, self.tests, self.dtv = [], False, None, None

    def factor(self):
        """a factor the language can put before a form: (object or None, value)"""
        rng = self.rng
        c = rng.integers(5)
        if c <= 1:
            return None, 1.
        if c == 2:
            v = [2, 3, .5, -2, .25, -1.5, 4][int(rng.integers(7))]
            return ph.constant_scalar(v), float(v)
        nm = 'cd'[int(rng.integers(2))]
        return self.parameter(nm)

    def parameter(self, nm):
        if nm not in self.par:
            obj = ph.constant_scalar(rf'\{dict(c="alpha", d="beta", e="gamma")[nm]}', f'factor {nm} c13')
            v = float(np.round(self.rng.uniform(.5, 3), 3)) * (1 if self.rng.random() < .6 else -1)
            obj.value = v
            self.par[nm] = obj, v
        return self.par[nm]

    def names(self, k):
        return [m for m in self.pool if self.k[m] == k]

    def pick(self, k):
        ns = self.names(k)
        return ns[int(self.rng.integers(len(ns)))]

    def raw(self, k, timed=False):
        """a random term of the space k"""
        rng = self.rng
        ops = ['id'] * 2 + (['d'] * 2 if k > 0 else []) + (['cd'] * 2 + ['cdd'] if k < self.n else [])
        op = ops[int(rng.integers(len(ops)))]
        kf = dict(id=k, d=k - 1, cd=k + 1, cdd=k)[op]
        form = None
        ins = lambda: None if not self.instants else self.instants[int(rng.integers(len(self.instants)))]
        if op in ('id', 'd', 'cd') and rng.random() < .25 and not timed:
            a, b = [str(v) for v in rng.choice(self.names(kf), 2, replace=False)]
            i, j = ins(), ins()
            A, B = self.at(a, i), self.at(b, j)
            if rng.random() < .5:
                comb, f = [(1., a, i), (1., b, j)], A + B
            else:
                comb, f = [(1., a, i), (-1., b, j)], A - B
            if rng.random() < .4:
                f, comb = f / 2, [(c / 2, m, i) for c, m, i in comb]
        else:
            a, i = self.pick(kf), ins()
            comb, f = [(1., a, i)], self.at(a, i)
        if timed and op == 'id' and rng.random() < .5:
            op, form = 'pt', f.time_derivative()
        else:
            form = dict(id=lambda: f, d=lambda: ph.d(f), cd=lambda: ph.codifferential(f), cdd=lambda: ph.codifferential(ph.d(f)))[op]()
        fo, fv = self.factor()
        t = Term(op, comb, form, fac=fv, facobj=1 if fo is None else fo)
        t.factored = fo
        return t

    def at(self, nm, inst):
        f = self.pool[nm]
        return f if inst is None else f @ self.ts[inst]

    def pde(self, neq, timed=False):
        """random equations: the model rows [[left], [right]] and the PDE"""
        rng = self.rng
        ks = [int(v) for v in rng.integers(0, self.n + 1, neq)]
        rows, ex, env = [], [], {}
        for i in range(neq):
            nl, nr = int(rng.integers(1, 4)), int(rng.integers(0, 3))
            row, txt = [[], []], ['', '']
            for j, m in ((0, nl), (1, nr)):
                for _ in range(m):
                    t = self.raw(ks[i], timed)
                    t.sign = '+-'[int(rng.integers(2))]
                    nm = f't{len(env)}'
                    env[nm] = t.form if t.factored is None else t.factored * t.form
                    row[j].append(t)
                    sp = ['', ' '][int(rng.integers(2))]
                    txt[j] += (t.sign if txt[j] or t.sign == '-' else '') + sp + nm + sp
            rows.append(row)
            ex.append(f"{txt[0]} = {txt[1] or '0'}")
        return ks, rows, ex, env


def forms_of(rows):
    out = []
    for row in rows:
        for side in row:
            for t in side:
                for c in t.comb:
                    if c[1:] not in out:
                        out.append(c[1:])
    return out


def locate(row, k):
    nl = len(row[0])
    return (0, k) if k < nl else (1, k - nl)


# ------------------------------------------------------------------ steps: each maps (wf, rows) to new ones
def cpy(rows):
    return [[[t.copy() for t in s] for s in row] for row in rows]


def st_rearrange(P, wf, rows, only=None):
    rng = P.rng
    new, how = cpy(rows), {}
    for i, row in enumerate(rows):
        if rng.random() < .25:
            if rng.random() < .5:
                how[i] = [None, ''][int(rng.integers(2))]
            continue
        m = len(row[0]) + len(row[1])
        perm = [int(v) for v in rng.permutation(m)]
        cut = int(rng.integers(m + 1))
        L, R = perm[:cut], perm[cut:]
        sp = lambda v: ['', ' '][int(rng.integers(2))].join([]) + (', ' if rng.random() < .5 else ',').join(map(str, v))
        c = rng.integers(4)
        if c == 0 and 0 < cut < m:                       # the rest goes to the other side, in the old order
            R = sorted(R)
            how[i] = sp(L) + ['', ' ='][int(rng.integers(2))]
        elif c == 1 and 0 < cut < m:
            L = sorted(L)
            how[i] = '= ' + sp(R)
        else:
            if m == 0:
                continue
            how[i] = sp(L) + ' = ' + sp(R)
        out = [[], []]
        for j, ids in ((0, L), (1, R)):
            for k in ids:
                s, q = locate(row, k)
                t = row[s][q].copy()
                if s != j:
                    t.sign = FLIP[t.sign]
                out[j].append(t)
        new[i] = out
    if rng.random() < .3:
        lst = [how.get(i) for i in range(len(rows))]
        return wf.derive.rearrange(lst if rng.random() < .5 else tuple(lst)), new, f'rearrange {lst}'
    return wf.derive.rearrange(how), new, f'rearrange {how}'


def st_switch(P, wf, rows):
    rng = P.rng
    pick = sorted(int(v) for v in rng.choice(len(rows), int(rng.integers(1, len(rows) + 1)), replace=False))
    new = cpy(rows)
    for i in pick:
        for s in new[i]:
            for t in s:
                t.sign = FLIP[t.sign]
    arg = pick[0] if len(pick) == 1 and rng.random() < .5 else pick
    return wf.derive.switch_sign(arg), new, f'switch {arg}'


def indices(rows, cond):
    return [(i, j, q, f'{i}-{q + (len(row[0]) if j else 0)}') for i, row in enumerate(rows) for j in range(2)
            for q, t in enumerate(row[j]) if cond(t)]


def insert(rows, i, j, q, terms):
    new = cpy(rows)
    new[i][j][q:q + 1] = terms
    return new


def st_ibp(P, wf, rows, at=None):
    rng = P.rng
    cand = indices(rows, lambda t: t.op in ('cd', 'cdd') and t.state == 'raw') if at is None else [at]
    if not cand:
        return None
    i, j, q, idx = cand[int(rng.integers(len(cand)))]
    t = rows[i][j][q]
    drop = bool(rng.random() < .6)
    if t.op == 'cdd' and not P.periodic:
        drop = True
    if len(t.comb) > 1 and not P.periodic:
        drop = True
    new = [t.copy(state='ibp')]
    if not P.periodic and not drop:
        new.append(t.copy(state='ibp', bdry=True, sign=FLIP[t.sign]))
    return wf.derive.integration_by_parts(idx, drop_bi_term=drop), insert(rows, i, j, q, new), f'ibp {idx} {drop}'


def wrap(P, op, state, f):
    """the left form of the term of op for the form f"""
    if op == 'd':
        return ph.d(f)
    if op == 'cdd':
        return ph.d(f) if state == 'ibp' else ph.codifferential(ph.d(f))
    if op == 'cd' and state == 'raw':
        return ph.codifferential(f)
    return f


def total(P, t, c):
    """the factor of a part of the term t: its own times c (or over the time step)"""
    own = t.facobj
    real = not hasattr(own, 'is_real') or own.is_real()
    if t.op == 'pt':
        if not hasattr(own, 'is_real'):
            return own / t.dt
        return own / t.dt._as_scalar()
    v = t.fac * c
    if real:
        return int(v) if v % 1 == 0 else v
    return own if c == 1 else own / int(round(1 / c)) if abs(1 / c - round(1 / c)) < 1e-12 else own / (1 / c)


def st_split(P, wf, rows, at=None):
    rng = P.rng
    cand = indices(rows, lambda t: len(t.comb) > 1 and (t.op in ('id', 'd', 'pt') or t.state == 'ibp')) if at is None else [at]
    if not cand:
        return None
    i, j, q, idx = cand[int(rng.integers(len(cand)))]
    t = rows[i][j][q]
    order = [int(v) for v in rng.permutation(len(t.comb))]
    comb = [t.comb[v] for v in order]
    into = [wrap(P, t.op, t.state, P.at(m, s)) for c, m, s in comb]
    signs = ['+' if c > 0 else '-' for c, _, _ in comb]
    facs = [total(P, t, abs(c)) for c, m, s in comb]          # the factors that are given are those of the new terms
    new = [t.copy(comb=[(1., m, s)], sign=t.sign if c > 0 else FLIP[t.sign], fac=t.fac * abs(c), facobj=f) for (c, m, s), f in zip(comb, facs)]
    kw = {} if t.op != 'pt' and all(abs(c) == 1 for c, _, _ in comb) and rng.random() < .6 else dict(factors=facs)
    return wf.derive.split(idx, 'f0', into, signs, **kw), insert(rows, i, j, q, new), f'split {idx} {signs} {comb}'


def st_replace(P, wf, rows):
    rng = P.rng
    cand = indices(rows, lambda t: not t.bdry)
    if not cand:
        return None
    i, j, q, idx = cand[int(rng.integers(len(cand)))]
    old = rows[i][j][q].sign
    terms, signs, new = [], [], []
    for _ in range(int(rng.integers(1, 4))):
        t = P.raw(P.ks[i], P.timed)
        fac = [None, 2, .5][int(rng.integers(3))]
        if t.factored is not None:
            fac = t.factored
        v = P.tests[i]
        term = ph.inner(t.form, v, factor=fac)
        s = '+-'[int(rng.integers(2))]
        terms.append(term)
        signs.append(s)
        if t.factored is None:
            t.fac, t.facobj = float(fac or 1), fac or 1
        t.sign = s if old == '+' else FLIP[s]
        new.append(t)
    if len(terms) == 1 and rng.random() < .5:
        terms, signs = terms[0], signs[0]
    out = insert(rows, i, j, q, new)
    return keep(P, out, lambda: wf.derive.replace(idx, terms, signs)), out, f'replace {idx} {signs}'


def st_delete(P, wf, rows):
    cand = [c for c in indices(rows, lambda t: True) if len(rows[c[0]][0]) + len(rows[c[0]][1]) > 1]
    if len(cand) < 4:
        return None
    i, j, q, idx = cand[int(P.rng.integers(len(cand)))]
    out = insert(rows, i, j, q, [])
    return keep(P, out, lambda: wf.derive.delete(idx)), out, f'delete {idx}'


class Lost(Exception):
    """a step that would lose an unknown raised, as it must"""


def keep(P, rows, f):
    if all(u in forms_of(rows) for u in P.un):
        return f()
    P.ctx.raises(f, 'refused|unknown lost')
    raise Lost


STEPS = [st_rearrange, st_rearrange, st_switch, st_ibp, st_ibp, st_split, st_replace, st_delete]


def snapshot(wf):
    return [(i, wf[i][0], wf[i][1]) for i in wf]


def walk(P, wf, rows, steps, log, un):
    """random steps; earlier formulations must stay what they were"""
    ctx, rng = P.ctx, P.rng
    for _ in range(steps):
        before = snapshot(wf)
        step = STEPS[int(rng.integers(len(STEPS)))]
        P.un, P.lost = un, False
        try:
            r = ctx.sub('step', lambda: step(P, wf, rows))
        except Lost:
            ctx.event('refused')                         # the last term of an unknown cannot go
            ctx.true(snapshot(wf) == before, 'refused|changed the formulation')
            continue
        if r is None:
            continue
        ctx.true(snapshot(wf) == before, 'step|changed the old formulation', r[2])
        wf, rows, txt = r
        log.append(txt)
        ctx.event('step')
        agree(ctx, wf, rows, txt)
        meaning(P, wf, rows, txt)
    return wf, rows


def agree(ctx, wf, rows, txt):
    """the formulation has the terms the model has: their number, sides and signs"""
    want = {}
    for i, row in enumerate(rows):
        for q, t in enumerate(row[0] + row[1]):
            want[f'{i}-{q}'] = t.sign
    got = {i: wf[i][0] for i in wf}
    ctx.eq(got, want, 'step|signs and indices', txt)
    ctx.eq(len(wf), len(rows), 'step|number of equations', txt)


class Unread(Exception):
    """a form that is not written in the language of `read`"""


TOK = re.compile(r"""\s*(?:(\\textsf\{[^{}]*\})|(\\textsc\{[^{}]*\})|(\$\\mathrm\{d\}\^\{\\ast\}\$)|(\$\\mathrm\{d\}\$)|(\$\\partial_\{t\}\$)"""
                 r"""|(\$[+]\$)|(\$-\$)|(\\\{)|(\\\})|(\\emph\{divided by\})|(\\emph\{multiply\}))""")
KIND = ['atom', 'num', 'cd', 'd', 'pt', '+', '-', '(', ')', '/', '*']


def read(P, text, names):
    """the linear combination the text of a form stands for: {(operators, form): coefficient}; scalars are {(): value}"""
    toks, at = [], 0
    while at < len(text.rstrip()):
        m = TOK.match(text, at)
        if m is None:
            raise Unread(text)
        toks.append((KIND[m.lastindex - 1], m.group(m.lastindex)))
        at = m.end()

    def scalar(t):
        t = t[8:-1]
        try:
            return float(t)
        except ValueError:
            pass
        for obj, v in P.par.values():
            if obj._lin_repr == rf'\textsc{{{t}}}':
                return v
        m = re.fullmatch(r'\w+\[([k0-9+/. -]*),([k0-9+/. -]*)\]', t)
        if m:
            return P.dtv * (eval(m[2].replace('k', '0')) - eval(m[1].replace('k', '0')))
        raise Unread(t)

    def peek():
        return toks[0][0] if toks else None

    def one():
        if not toks:
            raise Unread(text)
        k, t = toks.pop(0)
        if k == 'atom':
            if t not in names:
                raise Unread(t)
            return {((), names[t]): 1.}
        if k == 'num':
            return {(): scalar(t)}
        if k in ('cd', 'd', 'pt'):
            return {((k,) + o[0], o[1]): v for o, v in one().items()}
        if k == '(':
            v = many()
            if peek() != ')':
                raise Unread(text)
            toks.pop(0)
            return v
        raise Unread(text)

    def product():
        v = one()
        while peek() in ('*', '/'):
            k, w = toks.pop(0)[0], one()
            if k == '/':
                if set(w) != {()}:
                    raise Unread(text)
                v = {o: c / w[()] for o, c in v.items()}
            else:
                a, b = (v, w) if set(v) == {()} else (w, v)
                if set(a) != {()}:
                    raise Unread(text)
                v = {o: c * a[()] for o, c in b.items()}
        return v

    def many():
        v = product()
        while peek() in ('+', '-'):
            s = SIGN[toks.pop(0)[0]]
            for o, c in product().items():
                v[o] = v.get(o, 0.) + s * c
        return v

    v = many()
    if toks:
        raise Unread(text)
    return v


def meaning(P, wf, rows, txt):
    """every term, as it is written, is the combination of forms of the model"""
    ctx = P.ctx
    if P.tests is None:
        return
    for i, row in enumerate(rows):
        for q, t in enumerate(row[0] + row[1]):
            if t.bdry:
                continue
            term = wf[f'{i}-{q}'][1]
            names = {}
            for nm in P.pool:
                for x in [None] + list(P.instants):
                    names[P.at(nm, x)._lin_repr] = nm, x
            vs = {P.tests[i]._lin_repr: 'test'}
            try:
                got = read(P, term._f0._lin_repr, names)
                right = read(P, term._f1._lin_repr, vs)
                fac = term._factor
                fac = fac if isinstance(fac, (int, float)) else read(P, fac._lin_repr, {})[()]
            except (Unread, AttributeError, KeyError, RecursionError):
                ctx.event('unread')
                continue
            ctx.event('read')
            ops = dict(id=(), pt=() if t.timed else ('pt',), d=('d',), cd=() if t.state == 'ibp' else ('cd',),
                       cdd=('d',) if t.state == 'ibp' else ('cd', 'd'))[t.op]
            want = {}
            for c, nm, x in t.comb:
                want[ops, (nm, x)] = want.get((ops, (nm, x)), 0.) + c * t.fac
            got = {o: c * fac for o, c in got.items()}
            ro = ('d',) if t.op in ('cd', 'cdd') and t.state == 'ibp' else ()
            ctx.eq(right, {(ro, 'test'): 1.}, 'step|test form as written', f'{i}-{q} after {txt}')
            keys = sorted(set(got) | set(want), key=str)
            ctx.true(all(abs(got.get(o, 0.) - want.get(o, 0.)) <= 1e-9 * (1 + abs(want.get(o, 0.))) for o in keys), 'step|term as written',
                     f'{i}-{q} {term._f0._lin_repr} factor {fac}: {got}, expected {want} after {txt}')


def refuse(P, wf, rows):
    """steps that do not apply"""
    ctx, rng = P.ctx, P.rng
    before = snapshot(wf)
    row = rows[0]
    m = len(row[0]) + len(row[1])
    neq = len(rows)
    D = wf.derive
    bad = [('index', lambda: D.delete(f'{neq}-0')), ('index', lambda: D.delete(f'0-{m}')), ('index', lambda: D.integration_by_parts(f'{neq + 1}-0')),
           ('rearrange', lambda: D.rearrange({neq: '0 = '})), ('rearrange', lambda: D.rearrange({0: f'{m} = '})),
           ('rearrange', lambda: D.rearrange(['0 = '] * (neq + 1))), ('rearrange', lambda: D.rearrange({-1: '0'})),
           ('rearrange', lambda: D.rearrange({0: 'a = 0'})),
           ('switch', lambda: D.switch_sign(neq)), ('switch', lambda: D.switch_sign([0, neq])), ('switch', lambda: D.switch_sign(-1))]
    if m >= 2:
        bad += [('rearrange', lambda: D.rearrange({0: '0 = 0' if m == 2 else '0, 0 = 1'})),
                ('rearrange', lambda: D.rearrange({0: ','.join(map(str, range(m))) + '= 0'}))]
    if m >= 3:
        bad += [('rearrange', lambda: D.rearrange({0: '0 = 1'}))]
    if m:
        t = wf['0-0'][1]
        bad += [('replace', lambda: D.replace('0-0', [t, t], ['+'])), ('replace', lambda: D.replace('0-0', [t], ['*'])),
                ('split', lambda: D.split('0-0', 'f0', [], [])), ('split', lambda: D.split('0-0', 'f0', [t._f0], ['+', '-'])),
                ('split', lambda: D.split('0-0', 'f0', [t._f0], ['?'])), ('split', lambda: D.split('0-0', 'f9', [t._f0], ['+']))]
        other = P.pool[P.pick((P.ks[0] + 1) % (P.n + 1))]
        wrong = P.pool[P.pick((t._f1.space.k + 1) % (P.n + 1))]
        bad += [('split', lambda: D.split('0-0', 'f0', [wrong], ['+'])), ('inner', lambda: ph.inner(other, P.tests[0]))]
        if row[0] and row[0][0].op in ('id', 'd') and len(row[0][0].comb) == 1 and row[0][0].state == 'raw':
            bad += [('ibp', lambda: D.integration_by_parts('0-0'))]
    for key, f in [bad[int(v)] for v in rng.choice(len(bad), min(4, len(bad)), replace=False)]:
        ctx.event('refused')
        ctx.raises(f, f'refused|{key}', f'{before}')
        ctx.true(snapshot(wf) == before, 'refused|changed the formulation')


# ------------------------------------------------------------------ towards A x = b
def resolve(P, wf, rows, log):
    """everything that is left: integrate by parts, split the sums"""
    ctx = P.ctx
    for _ in range(60):
        c = indices(rows, lambda t: t.op in ('cd', 'cdd') and t.state == 'raw')
        if c:
            r = st_ibp(P, wf, rows, c[int(P.rng.integers(len(c)))])
        else:
            c = indices(rows, lambda t: len(t.comb) > 1)
            if not c:
                break
            r = st_split(P, wf, rows, c[int(P.rng.integers(len(c)))])
        wf, rows, txt = r
        log.append(txt)
        agree(ctx, wf, rows, txt)
        meaning(P, wf, rows, txt)
    return wf, rows


def to_axb(P, wf, rows, unknowns, log):
    new, how = [], {}
    for i, row in enumerate(rows):
        L, R, out = [], [], [[], []]
        for k in [int(v) for v in P.rng.permutation(len(row[0]) + len(row[1]))]:
            s, q = locate(row, k)
            t = row[s][q].copy()
            j = 0 if t.comb[0][1:] in unknowns and not t.bdry else 1
            (L if j == 0 else R).append(k)
            if s != j:
                t.sign = FLIP[t.sign]
            out[j].append(t)
        how[i] = ','.join(map(str, L)) + ' = ' + ','.join(map(str, R)) if L or R else None
        new.append(out)
    wf = wf.derive.rearrange(how)
    log.append(f'rearrange {how}')
    return wf, new


def configure(P, fem, obj, p):
    rng, n = P.rng, P.n
    d = P.d = S.Disc(P.impl, n)
    d.ms, d.obj, d.tgm, d.p = fem, obj, None, p
    b = [[0., 1.], [0., 1.3], [-1., .2]][:n]
    c = .08 if rng.random() < .4 and n > 1 else 0.
    K = [int(v) for v in rng.integers(1, 4, n)]
    if P.impl == 'msepy':
        if P.periodic:
            K = [max(k, 2) for k in K]
        fem.config(obj['manifold'])('crazy', c=c, periodic=P.periodic, bounds=b)
        fem.config(obj['mesh'])(K)
    else:
        if P.periodic:
            K = [3] * n
        d.tgm = fem.base['the_great_mesh']
        fem.config('tgm')('crazy', element_layout=K, c=c, bounds=b, periodic=P.periodic)
        fem.config(obj['mesh'])(d.tgm, 'all')
    F = fem.base['forms']
    d.F = {(k, P.o): F[f._pure_lin_repr] for k, f in P.base.items()}
    P.F = F
    return d


def blocks(l, impl):
    """local blocks of a static system"""
    A, b = l.A, l.b
    A = A._A if hasattr(A, '_A') else A._AAA._A
    b = b._b if hasattr(b, '_b') else b._Bbb._b
    return A, b


def compare(P, l, rows, unknowns, value, txt):
    """blocks and right hand side of the system against the model; value(name, instant) -> {element: cochain}"""
    ctx, d = P.ctx, P.d
    A, b = blocks(l, P.impl)
    M = {k: d.M((k, P.o)) for k in range(P.n + 1)}
    E = {k: d.E((k, P.o)) for k in range(P.n)}
    els = d.elements
    els = [els[int(v)] for v in P.rng.choice(len(els), min(3, len(els)), replace=False)]
    nd = {k: M[k][els[0]].shape[0] for k in M}

    def mat(op, k, e):
        if op in ('id', 'pt'):
            return M[k][e]
        if op == 'd':
            return M[k][e] @ E[k - 1][e]
        if op == 'cd':
            return E[k][e].T @ M[k + 1][e]
        return E[k][e].T @ M[k + 1][e] @ E[k][e]
    for i, row in enumerate(rows):
        k = P.ks[i]
        for e in els:
            want = {u: 0. for u in unknowns}
            sc = {u: 0. for u in unknowns}
            for t in row[0]:
                q = t.fac * mat(t.op, k, e)
                want[t.comb[0][1:]] = want[t.comb[0][1:]] + SIGN[t.sign] * q
                sc[t.comb[0][1:]] += np.abs(q).max()
            rhs, rs = np.zeros(nd[k]), 1e-3
            for t in row[1]:
                if t.bdry:
                    continue
                q = t.fac * mat(t.op, k, e) @ value(*t.comb[0][1:])[e]
                rhs = rhs + SIGN[t.sign] * q
                rs += np.abs(q).max()
            for j, u in enumerate(unknowns):
                ctx.event('blocks')
                g = A[i][j]
                z = np.zeros((nd[k], nd[P.k[u[0]]]))
                g = z if g is None else g[e]
                g = g.toarray() if hasattr(g, 'toarray') else np.asarray(g)
                ctx.close(g, z + want[u], 'blocks', 1e-9, lambda: f'{txt}: block {i},{j} element {e}', scale=max(sc[u], 1e-3))
            ctx.event('rhs')
            g = b[i]
            g = np.zeros(nd[k]) if g is None else g[e]
            g = g.toarray().ravel() if hasattr(g, 'toarray') else np.asarray(g, float).ravel()
            ctx.close(g, rhs, 'rhs', 1e-9, lambda: f'{txt}: row {i} element {e}', scale=rs)


def finish(P, cases, t, txt, k=None):
    """several formulations of the same forms: apply and compare. cases: [(ls, rows, unknowns)]"""
    ctx, rng = P.ctx, P.rng
    p = int(rng.integers(1, 4)) if P.n < 3 else int(rng.integers(1, 3))
    ph.space.finite(p)
    objs = dict(manifold=P.manifold, mesh=P.mesh)
    for q, (wf, rows, un, tg) in enumerate(cases):
        mp = wf.mp()
        if tg:
            mp.parse(tg)
        objs[f'ls{q}'] = mp.ls()
    fem, obj = ph.fem.apply(P.impl, objs)
    d = configure(P, fem, obj, p)
    vals = {}

    def tm(inst):
        return t if inst is None else P.times[inst]

    def value(nm, inst):
        key = nm, inst
        if key not in vals:
            f = P.F[P.pool[nm]._pure_lin_repr]
            kk = P.k[nm]
            nd = d.M((kk, P.o))[d.elements[0]].shape[0]
            c = {e: rng.standard_normal(nd) for e in d.elements}
            d.F['tmp'] = f
            d.set('tmp', tm(inst), c)
            vals[key] = c
        return vals[key]
    for wf, rows, un, tg in cases:
        for nm, inst in forms_of(rows):
            value(nm, inst)
    for q, (wf, rows, un, tg) in enumerate(cases):
        sol = obj[f'ls{q}'].apply()
        l = sol(t) if k is None else sol(k=k)
        compare(P, l, rows, un, value, f'{txt} [{q}]')


def choose(P, rows, neq):
    cand = [c for c in forms_of(rows)]
    if len(cand) < neq:
        return None
    for _ in range(40):
        un = [cand[int(v)] for v in P.rng.choice(len(cand), neq, replace=False)]
        return un
    return None


def begin(ctx, impl, n, neq, timed=False):
    rng = ctx.rng
    P = Prob(ctx, impl, n, periodic=bool(rng.random() < .5))
    P.timed = timed
    P.ks, rows, ex, env = P.pde(neq, timed)
    un = choose(P, rows, neq)
    if un is None:
        return
    pde = ctx.sub('built', lambda: ph.pde(ex, env))
    if pde is None:
        return
    ctx.event('built')
    pde.unknowns = [P.pool[m] for m, _ in un]
    wf = ctx.sub('built', lambda: pde.test_with([P.space[k] for k in P.ks], sym_repr=[f'v_{i}' for i in range(neq)]))
    if wf is None:
        return
    P.tests = wf.test_forms
    agree(ctx, wf, rows, 'test_with')
    meaning(P, wf, rows, 'test_with')
    return P, wf, rows, un, [str(ex)]


def end(P, wf, rows, un, log):
    """A x = b of the resolved formulation, or None if there is no such system"""
    ctx, rng = P.ctx, P.rng
    present = forms_of(rows)
    if any(u not in present for u in un):
        return
    out = ctx.sub('step', lambda: to_axb(P, wf, rows, un, log))
    if out is None:
        return
    wf, rows = out
    agree(ctx, wf, rows, log[-1])
    if not all(row[0] for row in rows) or any(all(u not in [t.comb[0][1:] for t in row[0]] for row in rows) for u in un):
        return
    for i, j, q, idx in reversed(indices(rows, lambda t: t.bdry)):
        wf, rows = wf.derive.delete(idx), insert(rows, i, j, q, [])
    tg = None
    if rng.random() < .5:
        rest = [f for f in forms_of([[[], row[1]] for row in rows]) if f not in un]
        if rest:
            tg = [P.at(*f) for f in [rest[int(v)] for v in rng.choice(len(rest), int(rng.integers(1, len(rest) + 1)), replace=False)]]
            log.append(f'parse {tg}')
    return wf, rows, un, tg


def static(ctx, impl, n, rounds):
    rng = ctx.rng
    for r in range(rounds):
        neq = int(rng.integers(1, 4))
        P = begin(ctx, impl, n, neq)
        if P is None:
            continue
        P, wf, rows, un, log = P
        wf, rows = walk(P, wf, rows, int(rng.integers(0, 7)), log, un)
        refuse(P, wf, rows)
        cases = []
        for _ in range(2):                               # two ways from the same formulation
            lg = list(log)
            w, rw = resolve(P, wf, rows, lg)
            ctx.case(impl, n, P.o, P.periodic, tuple(lg))
            c = end(P, w, rw, un, lg)
            if c:
                cases.append(c)
        if cases:
            ctx.sub('blocks', lambda: finish(P, cases, float(rng.uniform(0, 2)), f'{impl} {n} {P.o} periodic={P.periodic} {log}'))


def td_apply(P, wf, rows, log):
    """discretize every term in time"""
    rng = P.rng
    new = cpy(rows)
    ts = P.ts = ph.time_sequence()
    s, e = [('k-1', 'k'), ('k', 'k+1'), ('k-1/2', 'k+1/2')][int(rng.integers(3))]
    mid = dict([('k-1', 'k-1/2'), ('k', 'k+1/2'), ('k-1/2', 'k')])[s]
    P.instants = [s, mid, e]
    td = wf.td
    td.set_time_sequence(ts)
    td.define_abstract_time_instants(*P.instants)
    for i, j, q, idx in [indices(rows, lambda t: True)[int(v)] for v in rng.permutation(len(indices(rows, lambda t: True)))]:
        t = new[i][j][q]
        (c, nm, _), = t.comb
        if t.op == 'pt':
            a, b = [(s, e), (s, e), (s, mid), (mid, e)][int(rng.integers(4))]
            td.differentiate(idx, a, b)
            t.dt = ts.make_time_interval(a, b)
            t.comb = [(c, nm, b), (-c, nm, a)]
            t.fac = t.fac / (P.dtv * (eval(b.replace('k', '0')) - eval(a.replace('k', '0'))))
            t.timed = True
        else:
            m = 1 if t.bdry else int(rng.integers(1, 4))
            ins = [P.instants[int(v)] for v in rng.choice(3, m, replace=False)]
            td.average(idx, P.pool[nm], *([ins] if rng.random() < .7 or m == 1 else ins))
            t.comb = [(c / m, nm, x) for x in ins]
        log.append(f'td {idx} {t.op} {t.comb}')
    w = td()
    P.timed = False
    return w, new


def timed(ctx, impl, n, rounds):
    rng = ctx.rng
    for r in range(rounds):
        neq = int(rng.integers(1, 4))
        P = begin(ctx, impl, n, neq, timed=True)
        if P is None:
            continue
        P, wf, rows, un, log = P
        frac, K = 4, 10
        t0, L = float(rng.uniform(-1, 1)), float(rng.uniform(1, 5))
        P.dtv = L / K
        wf, rows = walk(P, wf, rows, int(rng.integers(0, 4)), log, un)
        while indices(rows, lambda t: t.op in ('cd', 'cdd') and t.state == 'raw'):     # before the discretization in time
            wf, rows, txt = st_ibp(P, wf, rows)
            log.append(txt)
        out = ctx.sub('time', lambda: td_apply(P, wf, rows, log))
        if out is None:
            continue
        wf, rows = out
        agree(ctx, wf, rows, 'td')
        meaning(P, wf, rows, 'td')
        ctx.event('time')
        present = forms_of(rows)
        if len(present) < neq:
            continue
        un = [present[int(v)] for v in rng.choice(len(present), neq, replace=False)]
        wf.unknowns = [P.at(*u) for u in un]
        wf, rows = walk(P, wf, rows, int(rng.integers(0, 5)), log, un)
        wf, rows = resolve(P, wf, rows, log)
        ctx.case(impl, n, P.o, P.periodic, tuple(log))
        c = end(P, wf, rows, un, log)
        if c is None:
            continue
        P.ts.specify('constant', [t0, t0 + L, K * frac], frac)
        k = int(rng.integers(1, K - 1))
        P.times = {x: t0 + (k + eval(x.replace('k', '0'))) * L / K for x in P.instants}
        ctx.sub('blocks', lambda: finish(P, [c], None, f'{impl} {n} {P.o} periodic={P.periodic} {log}', k=k))


def averages(ctx, n, rounds):
    """terms of several forms, averaged one form after the other, everywhere or at chosen places"""
    rng = ctx.rng
    for r in range(rounds):
        P = Prob(ctx, 'msepy', n)
        P.dtv = 1.
        k = int(rng.integers(n))
        v = P.space[k].make_form('w', 'test c13')
        P.tests = [v]
        op = 'd' if k > 0 and rng.random() < .5 else 'id'
        names = P.names(k - 1 if op == 'd' else k)
        m = int(rng.integers(1, 5))
        parts = [(1. if q == 0 else [1., -1.][int(rng.integers(2))], names[int(rng.integers(len(names)))], None) for q in range(m)]
        F = P.pool[parts[0][1]]
        for c, nm, _ in parts[1:]:
            F = F + P.pool[nm] if c > 0 else F - P.pool[nm]
        if m > 1 and rng.random() < .5:
            F, parts = F / 2, [(c / 2, nm, x) for c, nm, x in parts]
        fo, fv = P.factor()
        sign = '+-'[int(rng.integers(2))]
        term = ph.inner(ph.d(F) if op == 'd' else F, v, factor=fo)
        other = ph.inner(P.pool[P.names(k)[0]], v)
        wf = ph.wf([v], expression=[f'{sign}x0 = x1'], interpreter=dict(x0=term, x1=other))
        P.ts = ts = ph.time_sequence()
        P.instants = ['k-1', 'k-1/2', 'k']
        td = wf.td
        td.set_time_sequence(ts)
        td.define_abstract_time_instants(*P.instants)
        log = []
        first = True
        for nm in [names[int(q)] for q in rng.permutation(len(names))]:
            for again in range(2):
                at = [q for q, t in enumerate(parts) if t[1:] == (nm, None)]
                if not at:
                    break
                ins = [P.instants[int(q)] for q in rng.choice(3, int(rng.integers(1, 4)), replace=False)]
                kw = {}
                pick = at
                if len(parts) > 1 and not again and rng.random() < .6:   # which of the places, counted in the text (once per form)
                    w = sorted(int(q) for q in rng.choice(len(at), int(rng.integers(1, len(at) + 1)), replace=False))
                    kw = dict(which=([0, 'f0'][int(rng.integers(2))], w[0] if len(w) == 1 and rng.random() < .5 else w))
                    pick = [at[q] for q in w]
                log.append(f'{nm} {ins} {kw}')
                ok = ctx.sub('averages', lambda: (td.average('0-0', P.pool[nm], ins, **kw), True)[1])
                if ok is None:
                    return
                parts = [t for q, (c, m_, x) in enumerate(parts) for t in ([(c / len(ins), m_, i) for i in ins] if q in pick else [(c, m_, x)])]
        if not log:
            continue
        txt = f'{op} {F._lin_repr} {log}'
        w = ctx.sub('averages', lambda: td())
        if w is None:
            continue
        ctx.case('averages', n, op, txt)
        ctx.event('averages')
        rows = [[[Term(op, parts, None, sign, fv)], [Term('id', [(1., P.names(k)[0], None)], None)]]]
        agree(ctx, w, rows, txt)
        meaning(P, w, rows, txt)


def direct(ctx, impl, n, rounds):
    """formulations given term by term, and several formulations put together"""
    rng = ctx.rng
    for r in range(rounds):
        P = Prob(ctx, impl, n, periodic=bool(rng.random() < .5))
        parts = []
        log = []
        P.ks = []
        for part in range(int(rng.integers(1, 4))):
            neq = int(rng.integers(1, 3))
            rows, ex, env, tests = [], [], {}, []
            for i in range(neq):
                k = int(rng.integers(n + 1))
                P.ks.append(k)
                v = P.space[k].make_form(f'w_{len(P.ks)}', f'test {len(P.ks)} c13')
                tests.append(v)
                row, txt = [[], []], ['', '']
                for j, m in ((0, int(rng.integers(1, 4))), (1, int(rng.integers(0, 3)))):
                    for _ in range(m):
                        op = ['id', 'd', 'cd', 'cdd'][int(rng.integers(4))]
                        kf = dict(id=k, d=k - 1, cd=k + 1, cdd=k)[op]
                        if not 0 <= kf <= n or op == 'cdd' and k == n:
                            op, kf = 'id', k
                        nm = P.pick(kf)
                        f = P.pool[nm]
                        fo, fv = P.factor()
                        if fo is None and rng.random() < .3:
                            fo = fv = [2, .5, -3, -.25][int(rng.integers(4))]
                        a, b = dict(id=lambda: (f, v), d=lambda: (ph.d(f), v), cd=lambda: (f, ph.d(v)), cdd=lambda: (ph.d(f), ph.d(v)))[op]()
                        t = Term(op, [(1., nm, None)], f, '+-'[int(rng.integers(2))], fv, 1 if fo is None else fo, 'ibp')
                        key = f'x{len(env)}'
                        env[key] = ph.inner(a, b, factor=fo)
                        row[j].append(t)
                        txt[j] += (t.sign if txt[j] or t.sign == '-' else '') + key
                rows.append(row)
                ex.append(f"{txt[0]} = {txt[1] or '0'}")
            wf = ctx.sub('direct', lambda: ph.wf(tests, expression=ex, interpreter=env))
            if wf is None:
                break
            ctx.event('direct')
            agree(ctx, wf, rows, str(ex))
            log.append(str(ex))
            parts.append((wf, rows, tests))
        else:
            P.tests = [v for _, _, ts in parts for v in ts]
            if len(parts) > 1:
                before = [snapshot(w) for w, _, _ in parts]
                wf = ctx.sub('merge', lambda: ph.wf(None, wfs=[w for w, _, _ in parts]))
                if wf is None:
                    continue
                ctx.event('merge')
                ctx.true([snapshot(w) for w, _, _ in parts] == before, 'merge|changed a part')
            else:
                wf = parts[0][0]
            rows = [row for _, rw, _ in parts for row in rw]
            agree(ctx, wf, rows, f'merge {log}')
            un = choose(P, rows, len(rows))
            if un is None:
                continue
            wf.unknowns = [P.pool[m] for m, _ in un]
            wf, rows = walk(P, wf, rows, int(rng.integers(0, 4)), log, un)
            wf, rows = resolve(P, wf, rows, log)
            ctx.case(impl, n, P.o, P.periodic, tuple(log))
            c = end(P, wf, rows, un, log)
            if c:
                ctx.sub('blocks', lambda: finish(P, [c], .3, f'{impl} {n} {P.o} periodic={P.periodic} {log}'))


def expressions(ctx, rounds):
    """what an expression says and what is not an expression"""
    rng = ctx.rng
    for r in range(rounds):
        P = Prob(ctx, 'msepy', 2)
        k = int(rng.integers(3))
        f = {m: P.pool[m] for m in P.names(k)}
        a, b = f
        v = P.space[k].make_form('w', 'c13 w')
        tm = {m: ph.inner(q, v) for m, q in f.items()}
        for txt in (f'{a} - - {b} = 0', f'{a} - + {b} = 0', f'{a} - = {b}', f'{a} = {b} -', f'{a} + z = 0', f'{a} = -z', f'{a} = {b} = {a}', f'{a} * {b} = 0',
                    f'- - {a} = {b}', f'{a}{b} = 0'):
            ctx.event('refused')
            ctx.raises(lambda: ph.pde([txt], f), 'refused|expression', txt)
            ctx.raises(lambda: ph.wf([v], expression=[txt], interpreter=tm), 'refused|expression', txt)
        for txt, want in ((f'{a}={b}', '++'), (f'-{a}-{b}=0', '--'), (f'0 = {a} - {b}', '+-'), (f'+{a} = +{b}', '++'), (f'0 - {a} = - {b} + 0', '--'), (f'{a} + - {b} = 0', '+-')):
            for w in (ctx.sub('direct', lambda: ph.pde([txt], f)), ctx.sub('direct', lambda: ph.wf([v], expression=[txt], interpreter=tm))):
                if w is None:
                    continue
                d = w._sign_dict[0]
                ctx.eq(''.join(d[0] + d[1]), want, 'direct|signs', txt)
                ctx.eq([len(q) for q in d], [sum(m in h for m in f) for h in txt.split('=')], 'direct|sides', txt)
        p = ctx.sub('built', lambda: ph.pde([f'{a} = {b}'], f))
        if p is None:
            continue
        other = P.pool[P.pick((k + 1) % 3)]
        for u in ([other], [f[a], f[b]], [ph.d(f[a])] if k < 2 else [other], [v]):
            ctx.raises(lambda: setattr(p, 'unknowns', u), 'refused|unknowns', str(u))
        ctx.raises(lambda: p.test_with([P.space[k]]), 'refused|no unknowns')
        p.unknowns = [f[a]]
        ctx.raises(lambda: p.test_with([P.space[(k + 1) % 3]]), 'refused|test space')
        ctx.raises(lambda: p.test_with([P.space[k]] * 2), 'refused|test spaces')
        w = p.test_with([P.space[k]], sym_repr=['v'])
        ctx.raises(lambda: p.test_with([P.space[k]], sym_repr=['v', 'w']), 'refused|names of the test forms')
        ctx.raises(lambda: setattr(w, 'unknowns', [f[b]]), 'refused|unknowns changed')
        nx = w.derive.rearrange({0: '= 0, 1'})
        ph.space.finite(1)
        ctx.raises(lambda: nx.mp().ls(), 'refused|not A x = b')
        ctx.raises(lambda: w.derive.rearrange({0: '0, 1 = '}).mp().ls(), 'refused|not A x = b')
        ctx.raises(lambda: w.derive.rearrange({0: '0 = 1'}).mp().nls(), 'refused|linear')
        ctx.case('expressions', k, P.o)

def commute(ctx, n, rounds):
    """(A, B x C) = (B, C x A) = ...: a term commuted in any way keeps its value for every pointwise choice of A, B, C; the others stay"""
    from phyem.src.wf.term.main import inner, duality_pairing
    from phyem.src.wf.main import WeakFormulation
    rng = ctx.rng
    make = {'in': inner, 'dp': duality_pairing}
    show = {'in': '({},{})', 'dp': '<{}|{}>'}
    for r in range(rounds):
        S.fresh(n, periodic=True)
        pool = []
        for o in ('inner', 'outer'):
            for k in range(n + 1):
                sp = ph.space.new('Lambda', k, orientation=o)
                pool += [sp.make_form(f'{o[0]}_{k}', f'{o}form{k}'), sp.make_form(f'{o[0]}_{k}^s', f'second{o}{k}')]
                for op in ('d', 'codifferential'):
                    try:
                        pool.append(getattr(pool[-2], op)())
                    except Exception:
                        pass
        pool = [f for f in pool if 0 <= f.space.k <= n]

        def build(m, pair):
            try:
                return make[m](*pair, factor=fac)
            except Exception:
                return None
        seen = 0
        for _ in range(400):
            m = ('in', 'dp')[rng.integers(2)]
            three = dict(zip('PQR', [pool[i] for i in rng.choice(len(pool), 3, replace=False)]))
            if len({f._lin_repr for f in three.values()}) < 3:
                continue
            vec = {}
            for c, f in three.items():
                v = rng.normal(size=3)
                if n == 2:
                    v[2 if f.space.k == 1 else slice(0, 2)] = 0
                vec[c] = v
            val, prod = {f._lin_repr: vec[c] for c, f in three.items()}, {}
            for a in 'PQR':
                for b in 'PQR'.replace(a, ''):
                    try:
                        prod[a + 'x' + b] = three[a].cross_product(three[b])
                    except Exception:
                        continue
                    val[prod[a + 'x' + b]._lin_repr] = np.cross(vec[a], vec[b])
            fac = ph.constant_scalar([1., .5, 3., -2.][rng.integers(4)])
            ok = {}
            for x, f in prod.items():
                c = 'PQR'.replace(x[0], '').replace(x[2], '')
                for fmt, pair in ((show[m].format(c, x), (three[c], f)), (show[m].format(x, c), (f, three[c]))):
                    t = build(m, pair)
                    if t is not None:
                        ok[fmt] = t
            if not ok:
                continue
            cur = list(ok)[rng.integers(len(ok))]
            term = ok[cur]
            others = [inner(f, f) for f in [pool[i] for i in rng.choice(len(pool), 4)]]
            left, right = [others[0], term, others[1]], [others[2], others[3]]
            at = int(rng.integers(3))
            left.insert(at, left.pop(1))
            if rng.integers(2):
                left, right, at = right, left, at
                side = 1
            else:
                side = 0
            signs = [['+-'[rng.integers(2)] for _ in x] for x in (left, right)]
            wf = WeakFormulation([three['P']], term_sign_dict=[{0: [left, right]}, {0: signs}])
            where = f'0-{at + (len(left) if side else 0)}'
            for step in range(3):
                names = 'ABC' if rng.integers(2) else 'uvw'
                names = dict(zip('PQR', rng.permutation(list(names))))
                tr = lambda s: ''.join(names.get(c, c) for c in s)
                letters = [c for c in cur if c in 'PQR']
                perm = ''.join(rng.permutation(list('PQR')))
                target = [show[m].format(perm[0], perm[1] + 'x' + perm[2]), show[m].format(perm[1] + 'x' + perm[2], perm[0])][rng.integers(2)]
                s0, t0 = wf[where]
                sp = ' ' if rng.integers(2) else ''
                lab = f'{n}D {m} {cur} -> {target} of {[(f.space.k, f.space.orientation) for f in three.values()]} at {where}'
                try:
                    new = wf.derive.commutation_wrt_inner_and_x(where, tr(cur).replace('x', sp + 'x' + sp), tr(target).replace('x', sp + 'x' + sp))
                except Exception as e:
                    if target in ok:
                        ctx.fail('commute|raised', f'{lab}: {type(e).__name__}: {e}')
                        break
                    ctx.event('commute-refused')
                    ctx.true(wf[where][1] is t0 and wf[where][0] == s0, 'commute|refused', f'{lab}: the formulation changed although the step was refused')
                    continue
                ctx.case(f'{lab}', r, step)
                s1, t1 = new[where]
                a, b = [SIGN[s] * float(np.dot(*[val.get(f._lin_repr, np.full(3, np.nan)) for f in (t._f0, t._f1)])) for s, t in ((s0, t0), (s1, t1))]
                ctx.close(b, a, 'commute|value', 1e-12, lab)
                ctx.true(t1.__class__ is t0.__class__ and t1._factor._lin_repr == t0._factor._lin_repr, 'commute|factor', f'{lab}: kind or factor of the term changed')
                P, x = target.strip('()<>').split(',' if m == 'in' else '|'), [three, prod]
                want = [(x[1] if len(q) == 3 else x[0])[q] for q in P if len(q) == 1 or q in prod]
                ctx.true([f._lin_repr for f in (t1._f0, t1._f1)] == [f._lin_repr for f in want], 'commute|target', f'{lab}: not the requested order')
                same = all(new[i] == wf[i] for i in [f'0-{j}' for j in range(5)] if i != where)
                ctx.true(same, 'commute|others', f'{lab}: another term changed')
                ctx.true(wf[where][1] is t0 and wf[where][0] == s0, 'commute|original', f'{lab}: the original formulation changed')
                ctx.event('commuted')
                wf, cur = new, target
            seen += 1
            if seen >= 12:
                break


def UNITS(tier):
    q = tier == 'quick'
    U = []
    for impl, n in (('msepy', 1), ('msepy', 2), ('msehtt', 2), ('msepy', 3), ('msehtt', 3)):
        for i in range(2 if q else 6):
            U.append((f'static:{impl}{n}:{i}', static, dict(impl=impl, n=n, rounds=6 if q else 30)))
            U.append((f'timed:{impl}{n}:{i}', timed, dict(impl=impl, n=n, rounds=6 if q else 30)))
            U.append((f'direct:{impl}{n}:{i}', direct, dict(impl=impl, n=n, rounds=5 if q else 25)))
    U.append(('expressions', expressions, dict(rounds=3 if q else 10)))
    for n in (1, 2, 3):
        U.append((f'averages:{n}', averages, dict(n=n, rounds=40 if q else 300)))
    for n in (2, 3):
        U.append((f'commute:{n}', commute, dict(n=n, rounds=4 if q else 20)))
    return U
