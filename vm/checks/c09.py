"""C09: algebra, customisation and assembly of element-wise matrices and vectors against dense arrays."""
import numpy as np
from scipy.sparse import csr_matrix, csc_matrix
from vm import configs as C
from vm.lazy import ph  # noqa: F401

META = dict(
    rule='one distinct case per (implementation, mesh, random expression tree / customisation / assembly option)',
    assumptions=['the dense arrays that the leaves give at creation are the operands; the gathering matrices (C05) name the global dofs',
                 'customisations are judged on the assembled operand; derived expressions on the element arrays of the operand'],
    note='Random expression trees over real (mass, incidence) and random element matrices/vectors; dense reference; scatter-add reference.',
    must_observe=['ht-element', 'ht-assemble', 'ht-bmat', 'ht-customize', 'ht-vector', 'ht-operands', 'py-element', 'py-assemble', 'py-bmat',
                  'py-customize', 'py-vector', 'py-operands', 'chained'])


def sparse(rng, A):
    return (csr_matrix if rng.random() < .5 else csc_matrix)(A)


def rand_array(rng, a, b, square=False):
    A = rng.standard_normal((a, b))
    A[rng.random((a, b)) < .3] = 0
    if rng.random() < .3:
        A[np.abs(A) < .8] *= 1e-13
    if square:
        A[np.arange(a), np.arange(a)] += 6 + a
    return A


def scatter(ref, gr, gc, nr, nc):
    A = np.zeros((nr, nc))
    for e in ref:
        for i, r in enumerate(gr[e]):
            for j, c in enumerate(gc[e]):
                A[r, c] += ref[e][i, j]
    return A


def vscatter(ref, g, n):
    v = np.zeros(n)
    for e in ref:
        for i, r in enumerate(g[e]):
            v[r] += ref[e][i]
    return v


class Pool:
    """implementation-neutral: spaces, leaves and derived local matrices with dense references"""

    def __init__(self, ctx, conf, p):
        self.ctx, self.rng = ctx, ctx.rng
        self.d = C.build(conf, p, rng=np.random.default_rng([ctx.seed, 9]))
        d = self.d
        self.ht = d.impl == 'msehtt'
        self.tag = 'ht' if self.ht else 'py'
        n = d.n
        o = 'outer' if self.rng.random() < .5 else 'inner'
        self.keys = [(k, o) for k in range(n + 1)]
        self.G = {k: d.F[k].cochain.gathering_matrix for k in self.keys}
        self.g = {k: d.gm(k) for k in self.keys}
        self.N = {k: d.ndofs(k) for k in self.keys}
        self.E = d.elements
        if self.ht:
            from phyem.msehtt.tools.matrix.static.local import MseHttStaticLocalMatrix as MAT, bmat
            from phyem.msehtt.tools.vector.static.local import MseHttStaticLocalVector as VEC, concatenate
            from phyem.msehtt.tools.gathering_matrix import MseHttGatheringMatrix as GM
        else:
            from phyem.msepy.tools.matrix.static.local import MsePyStaticLocalMatrix as MAT, bmat
            from phyem.msepy.tools.vector.static.local import MsePyStaticLocalVector as VEC, concatenate
            from phyem.msepy.tools.gathering_matrix import RegularGatheringMatrix as GM
        self.MAT, self.VEC, self.bmat, self.concatenate, self.GM = MAT, VEC, bmat, concatenate, GM
        self.t, self.stored = 0., []
        self.leaves = []                       # (matrix, snapshot, name)

    def nloc(self, k, e):
        return len(self.g[k][e])

    # ---- matrices --------------------------------------------------------------------------
    def pick(self):
        return self.keys[int(self.rng.integers(len(self.keys)))]

    def groups(self, a, b):
        """element -> group label; elements of one group have equal shapes"""
        names = ['a', 'aa', 'b', 'ab', '1', '11', 'a.b', 'x']
        out = {}
        for e in self.E:
            out[e] = names[int(self.rng.integers(len(names)))] + f'-{self.nloc(a, e)}-{self.nloc(b, e)}-'[:1]
        shapes = {}
        for e in self.E:
            sh = (self.nloc(a, e), self.nloc(b, e))
            if shapes.setdefault(out[e], sh) != sh:
                out[e] += f'{sh}'
        return out

    def leaf(self, a, b, square=False):
        rng, E = self.rng, self.E
        kind = int(rng.integers(7))
        ga, gb = self.G[a], self.G[b]
        MAT = self.MAT
        if a == b and kind == 0 and not self.d.conf.get('nomass'):
            if self.ht:
                m, name = self.d.ms.array('mass matrix', self.d.F[a])[0], 'mass'
            else:
                m, name = self.d.F[a].matrix.mass, 'mass'
            ref = {e: np.array(m[e].toarray()) for e in E}
        elif b[0] + 1 == a[0] and kind <= 2:
            m = self.d.F[b].incidence_matrix if self.ht else self.d.F[b].coboundary.incidence_matrix
            name = 'incidence'
            ref = {e: np.array(m[e].toarray()) for e in E}
        elif kind == 3 and not square:
            m, name = (MAT(0, ga, gb, cache_key='zero') if self.ht else MAT(0, ga, gb)), 'zero'
            ref = {e: np.zeros((self.nloc(a, e), self.nloc(b, e))) for e in E}
        elif kind == 4 and not self.ht:
            A = rand_array(rng, self.nloc(a, 0), self.nloc(b, 0), square)
            m, name = MAT(sparse(rng, A), ga, gb), 'constant'
            ref = {e: A.copy() for e in E}
        elif kind <= 5:
            grp = self.groups(a, b)
            store = {}
            for e in E:
                if grp[e] not in store:
                    store[grp[e]] = rand_array(rng, self.nloc(a, e), self.nloc(b, e), square)
            ref = {e: store[grp[e]].copy() for e in E}
            sp = {c: sparse(rng, A) for c, A in store.items()}
            if self.ht and rng.random() < .5:
                m, name = MAT({e: sp[grp[e]] for e in E}, ga, gb, cache_key=grp), 'dict+keys'
            else:
                m, name = MAT(lambda e: sp[grp[e]], ga, gb, cache_key=lambda e: grp[e]), 'realtime+keys'
        else:
            ref = {e: rand_array(rng, self.nloc(a, e), self.nloc(b, e), square) for e in E}
            sp = {e: sparse(rng, A) for e, A in ref.items()}
            r = rng.random()
            if r < .5:
                m, name = MAT(sp, ga, gb), 'dict'
            else:
                m, name = MAT(lambda e: sp[e], ga, gb, cache_key='unique'), 'realtime'
        self.leaves.append([m, {e: v.copy() for e, v in ref.items()}, name])
        return m, ref, name

    def tree(self, a, b, depth, square=False):
        """-> (matrix, ref, text); an invertible one when square"""
        rng = self.rng
        if depth == 0 or (square and rng.random() < .3):
            m, ref, nm = self.leaf(a, b, square)
            if not square and self.ht and rng.random() < .25 and a == b and nm not in ('mass', 'incidence'):
                ref = self.customise_ht(m, ref, a)
                nm += '*'
                self.leaves[-1][1] = {e: v.copy() for e, v in ref.items()}
            return m, ref, nm
        op = rng.choice(['neg', 'rmul', 'add', 'sub', 'matmul', 'T', 'inv', 'leaf'])
        if square:
            op = rng.choice(['neg', 'rmul', 'T'])
        if op == 'leaf':
            return self.tree(a, b, 0)
        if op == 'neg':
            m, r, t = self.tree(a, b, depth - 1, square)
            return -m, {e: -v for e, v in r.items()}, f'-{t}'
        if op == 'rmul':
            f = [2, -1.5, np.float64(.25), 1e-3, 0.5, 1 / 3][int(rng.integers(6))]
            m, r, t = self.tree(a, b, depth - 1, square)
            return (int(f) if isinstance(f, int) else float(f)) * m, {e: f * v for e, v in r.items()}, f'{f}*{t}'
        if op in ('add', 'sub'):
            m0, r0, t0 = self.tree(a, b, depth - 1)
            m1, r1, t1 = self.tree(a, b, depth - 1) if rng.random() < .85 else (m0, r0, t0)
            if op == 'sub' and not self.ht:
                return m0 - m1, {e: r0[e] - r1[e] for e in r0}, f'({t0}-{t1})'
            return m0 + m1, {e: r0[e] + r1[e] for e in r0}, f'({t0}+{t1})'
        if op == 'matmul':
            c = self.pick()
            m0, r0, t0 = self.tree(a, c, depth - 1)
            m1, r1, t1 = self.tree(c, b, depth - 1)
            return m0 @ m1, {e: r0[e] @ r1[e] for e in r0}, f'({t0}@{t1})'
        if op == 'T':
            m, r, t = self.tree(b, a, depth - 1, square)
            return m.T, {e: v.T for e, v in r.items()}, f'{t}.T'
        if op == 'inv':
            if a != b or not self.ht:
                return self.tree(a, b, depth - 1)
            m, r, t = self.tree(a, a, depth - 1, square=True)
            return m.inv(), {e: np.linalg.inv(v) for e, v in r.items()}, f'inv({t})'
        raise Exception(op)

    def look(self, m, ref, text, key):
        ctx = self.ctx
        order = list(self.E) * 2
        self.rng.shuffle(order)
        for e in order:
            s = max(1., np.abs(ref[e]).max(initial=0))
            if not ctx.close(m[e], ref[e], f'{self.tag}-{key}', 1e-9, f'element {e}: {text}', scale=s):
                break

    def look_leaves(self):
        for m, snap, name in self.leaves:
            for e in self.E:
                if not self.ctx.true(np.array_equal(m[e].toarray(), snap[e]), f'{self.tag}-operands',
                                     lambda: f'leaf {name} element {e} changed'):
                    break

    # ---- customisation ---------------------------------------------------------------------
    def customise_ht(self, m, ref, a):
        """random customisations of a square leaf; judged on the assembled matrix"""
        ctx, rng, N, g = self.ctx, self.rng, self.N[a], self.g[a]
        A = scatter(ref, g, g, N, N)
        txt = []
        fixed = set()
        for _ in range(int(rng.integers(1, 4))):
            k = int(rng.integers(5))
            dofs = [int(i) for i in rng.choice(N, size=min(N, int(rng.integers(1, 4))), replace=False)]
            dofs = [i for i in dofs if i not in fixed]
            if not dofs:
                continue
            i = dofs[0]
            fixed.update(dofs)
            if k == 0:
                m.customize.identify_row(i if rng.random() < .5 else np.int64(i))
                todo, one = [i], True
            elif k == 1:
                m.customize.identify_rows(dofs if rng.random() < .5 else np.array(dofs))
                todo, one = dofs, True
            elif k == 2:
                m.customize.zero_row(i - N if rng.random() < .3 else i)
                todo, one = [i], False
            elif k == 3:
                m.customize.zero_rows(dofs)
                todo, one = dofs, False
            else:
                e = self.E[int(rng.integers(len(self.E)))]
                j = int(rng.integers(self.nloc(a, e)))
                if int(g[e][j]) in fixed - {i}:
                    continue
                B = np.zeros((N, N))
                fixed.add(int(g[e][j]))
                row = np.array(m[e].toarray())[j]
                m.customize.identify_local_dof(e, j)
                for c, v in zip(g[e], row):
                    A[g[e][j], c] -= v
                A[g[e][j], g[e][j]] += 1
                A += B
                txt.append(f'local({e},{j})')
                continue
            for t in todo:
                A[t] = 0
                if one:
                    A[t, t] = 1
            txt.append(f'{k}{todo}')
        got = m.assemble(format='csr')._M.toarray()
        ctx.close(got, A, 'ht-customize', 1e-9, f'{txt}')
        return {e: np.array(m[e].toarray()) for e in self.E}

    def customise_py(self):
        ctx, rng = self.ctx, self.rng
        a = self.pick()
        N, g = self.N[a], self.g[a]
        m, ref, nm = self.leaf(a, a)
        snap = self.leaves.pop()
        A = scatter(ref, g, g, N, N)
        mult = {}
        for e in self.E:
            for j in g[e]:
                mult[int(j)] = mult.get(int(j), 0) + 1
        single = [i for i in mult if mult[i] == 1]
        txt = []
        for _ in range(int(rng.integers(1, 4))):
            k = int(rng.integers(5))
            dofs = [int(i) for i in rng.choice(N, size=min(N, int(rng.integers(1, 5))), replace=False)]
            if k == 0:
                m.customize.identify_row(dofs[0])
                A[dofs[0]] = 0
                A[dofs[0], dofs[0]] = 1
            elif k == 1:
                m.customize.identify_diagonal(dofs)
                A[dofs] = 0
                A[dofs, dofs] = 1
            elif k == 2:
                m.customize.set_zero(dofs)
                A[dofs] = 0
            elif single:
                e = self.E[int(rng.integers(len(self.E)))]
                loc = [int(i) for i in g[e] if mult[int(i)] == 1]
                if not loc:
                    continue
                q = int(rng.integers(1, 5))
                rows = [loc[int(rng.integers(len(loc)))] for _ in range(q)]
                cols = [loc[int(rng.integers(len(loc)))] for _ in range(q)]
                pairs = {}
                for r, c in zip(rows, cols):
                    pairs[(r, c)] = float(rng.standard_normal())
                vals = list(pairs.values())
                rows, cols = [r for r, _ in pairs], [c for _, c in pairs]
                if k == 3:
                    m.customize.set_values(rows, cols, vals)
                else:
                    m.customize.set_values_and_zero_rest(rows, cols, vals)
                    A[rows] = 0
                for r, c, v in zip(rows, cols, vals):
                    A[r, c] = v
            txt.append(f'{k}:{dofs}')
        ctx.case(self.d.name, 'customize', nm, txt)
        ctx.close(m.assemble(format='csc')._M, A, 'py-customize', 1e-9, f'{nm} {txt}')
        # operations on a customised matrix must not silently use other numbers
        now = {e: np.array(m[e].toarray()) for e in self.E}
        for op, f, h in (('neg', lambda: -m, lambda v: -v), ('T', lambda: m.T, lambda v: v.T),
                         ('rmul', lambda: 2. * m, lambda v: 2 * v), ('add', lambda: m + m, lambda v: v + v),
                         ('matmul', lambda: m @ m, lambda v: v @ v)):
            if len(m.customize) == 0:
                break
            try:
                x = f()
                got = {e: x[e].toarray() for e in self.E}
            except Exception:
                ctx.event('py-customized-op-raises')
                continue
            for e in self.E:
                if not ctx.close(got[e], h(now[e]), 'py-element|customised', 1e-9, f'{op} of a customised matrix'):
                    break
        m.customize.clear()
        ctx.close(m.assemble()._M, scatter(ref, g, g, N, N), 'py-customize|clear', 1e-9, nm)
        for e in self.E:
            if not ctx.true(np.array_equal(m[e].toarray(), snap[1][e]), 'py-operands', f'{nm} after customise+clear'):
                break

    # ---- assembly --------------------------------------------------------------------------
    def assemble(self, m, ref, text, gr, gc, nr, nc, key):
        ctx, rng = self.ctx, self.rng
        A = scatter(ref, gr, gc, nr, nc)
        s = max(1., np.abs(A).max(initial=0))
        for rep in range(2):
            fmt = 'csc' if rng.random() < .5 else 'csr'
            if self.ht and rng.random() < .6:
                th = float(rng.choice([1e-12, .3, 1e-3]))
                T = scatter({e: np.where(np.abs(v) < th, 0, v) for e, v in ref.items()}, gr, gc, nr, nc)
                M = m.assemble(format=fmt, threshold=th)
                near = any(np.any(np.abs(np.abs(v) - th) < 1e-9 * th + 1e-15) for v in ref.values())
                if not near:
                    ctx.close(M._M, T, f'{self.tag}-{key}|threshold', 1e-9, f'{text} {fmt} {th}', scale=s)
            M = m.assemble(format=fmt)
            ctx.close(M._M, A, f'{self.tag}-{key}', 1e-9, f'{text} {fmt}', scale=s)
            ctx.eq(type(M._M).__name__[:3], fmt, f'{self.tag}-format')
            ctx.eq(tuple(M.shape), (nr, nc), f'{self.tag}-shape')
        return M, A

    def chained(self, gm, keys):
        """a chained numbering relabels (block, dof) one to one"""
        lab = {}
        for e in self.E:
            loc = np.concatenate([[(b, int(x)) for x in self.g[k][e]] for b, k in enumerate(keys)])
            row = gm[e]
            self.ctx.true(len(loc) == len(row), 'chained', 'length')
            for (b, x), c in zip(loc, row):
                if not self.ctx.true(lab.setdefault((int(b), int(x)), int(c)) == int(c), 'chained', f'block {b} dof {x}: {c}'):
                    return
        n = sum(self.N[k] for k in keys)
        self.ctx.true(sorted(lab.values()) == list(range(n)), 'chained', 'not a bijection onto 0..N-1')
        if self.ht:
            for _ in range(3):
                b = int(self.rng.integers(len(keys)))
                x = int(self.rng.integers(self.N[keys[b]]))
                self.ctx.eq(gm.find_global_numbering_of_ith_composition_global_dof(b, x), lab[(b, x)], 'chained', f'ith composition {b} {x}')
                e = self.E[int(self.rng.integers(len(self.E)))]
                j = int(self.rng.integers(self.nloc(keys[b], e)))
                self.ctx.eq(gm.find_global_numbering_of_ith_composition_local_dof(b, e, j), lab[(b, int(self.g[keys[b]][e][j]))],
                            'chained', f'local {b} {e} {j}')

    def blocks(self, depth):
        ctx, rng, E = self.ctx, self.rng, self.E
        nr, nc = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        R, K = [self.pick() for _ in range(nr)], [self.pick() for _ in range(nc)]
        A = [[None] * nc for _ in range(nr)]
        ref = [[None] * nc for _ in range(nr)]
        txt = [['None'] * nc for _ in range(nr)]
        for i in range(nr):
            for j in range(nc):
                if rng.random() < .75:
                    A[i][j], ref[i][j], txt[i][j] = self.tree(R[i], K[j], depth)
        for i in range(nr):
            if all(a is None for a in A[i]):
                A[i][0], ref[i][0], txt[i][0] = self.tree(R[i], K[0], 0)
        for j in range(nc):
            if all(A[i][j] is None for i in range(nr)):
                A[0][j], ref[0][j], txt[0][j] = self.tree(R[0], K[j], 0)
        text = f'bmat{txt}'
        ctx.case(self.d.name, text)
        m = self.bmat(A)
        full = {}
        for e in E:
            full[e] = np.block([[ref[i][j][e] if ref[i][j] is not None else np.zeros((self.nloc(R[i], e), self.nloc(K[j], e)))
                                 for j in range(nc)] for i in range(nr)])
        self.look(m, full, text, 'bmat')
        gr, gc = (m._gm_row, m._gm_col) if self.ht else (m._gm0_row, m._gm1_col)
        self.chained(gr, R)
        self.chained(gc, K)
        Nr, Nc = sum(self.N[k] for k in R), sum(self.N[k] for k in K)
        GR, GC = {e: np.array(gr[e]) for e in E}, {e: np.array(gc[e]) for e in E}
        M, D = self.assemble(m, full, text, GR, GC, Nr, Nc, 'bmat')
        if self.ht and R == K:
            b = int(rng.integers(nc))
            dof = int(rng.integers(self.N[K[b]]))
            at = gc.find_global_numbering_of_ith_composition_global_dof(b, dof)
            Dx = np.zeros((Nr + 1, Nc + 1))
            Dx[:-1, :-1] = D
            Dx[-1, at] = Dx[at, -1] = 1
            X = m.assemble(format='csr', customizations=[('new_EndZeroRowCol_with_a_one_for_global_dof', b, dof)])
            ctx.close(X._M, Dx, 'ht-bmat|extra-row', 1e-9, text, scale=max(1, np.abs(D).max()))
            e = E[int(rng.integers(len(E)))]
            j = int(rng.integers(self.nloc(K[b], e)))
            at = gc.find_global_numbering_of_ith_composition_local_dof(b, e, j)
            Dx[-1], Dx[:, -1] = 0, 0
            Dx[-1, at] = Dx[at, -1] = 1
            X = m.assemble(format='csc', customizations=[('new_EndZeroRowCol_with_a_one_for_local_dof', b, e, j)])
            ctx.close(X._M, Dx, 'ht-bmat|extra-row', 1e-9, text, scale=max(1, np.abs(D).max()))
        if self.ht:
            i, j = int(rng.integers(Nr)), int(rng.integers(Nc))
            ctx.close(M.value_at(i, j), D[i, j], 'ht-assemble|value_at', 1e-9, text, scale=max(1, np.abs(D).max()))
        if Nr * Nc < 3e4 and rng.random() < .5:
            sv = np.linalg.svd(D, compute_uv=False)
            s0 = sv[0] if sv.size else 0
            gap = not np.any((sv > s0 * 1e-17) & (sv < s0 * 1e-9))
            if gap and s0:
                ctx.eq(int(M.rank), int(np.sum(sv > s0 * 1e-10)), f'{self.tag}-assemble|rank', text)
                ctx.eq(int(M.num_singularities), Nr - int(M.rank), f'{self.tag}-assemble|rank', text)
                if sv[-1] > s0 * 1e-6:
                    ctx.close(M.condition_number, s0 / sv[-1], f'{self.tag}-assemble|cond', 1e-5, text, scale=s0 / sv[-1])
        return m, full, R, K, GR, GC

    # ---- vectors ---------------------------------------------------------------------------
    def vec(self, k):
        rng, E = self.rng, self.E
        kind = int(rng.integers(5))
        ref = {e: rng.standard_normal(self.nloc(k, e)) for e in E}
        G = self.G[k]
        if kind == 0:
            c = float(rng.choice([0, 2., -1.5]))
            return self.VEC(c if c else 0, G), {e: np.full(self.nloc(k, e), c) for e in E}, f'const{c}'
        if kind == 1:
            self.t += 1
            self.d.set(k, self.t, ref)
            self.stored.append((k, self.t, ref))
            return self.d.F[k].cochain.static_vec(self.t), {e: v.copy() for e, v in ref.items()}, 'cochain'
        if kind == 2:
            return self.VEC(lambda e: ref[e].copy(), G), ref, 'callable'
        if self.ht:
            return self.VEC({e: v.copy() for e, v in ref.items()}, G), ref, 'dict'
        return self.VEC(np.array([ref[e] for e in E]), G), ref, 'array'

    def vexpr(self, k, depth):
        rng = self.rng
        if depth == 0:
            return self.vec(k)
        op = rng.choice(['neg', 'rmul', 'add', 'sub', 'mat'])
        if op == 'neg':
            v, r, t = self.vexpr(k, depth - 1)
            return -v, {e: -x for e, x in r.items()}, f'-{t}'
        if op == 'rmul':
            v, r, t = self.vexpr(k, depth - 1)
            try:
                return 2.5 * v, {e: 2.5 * x for e, x in r.items()}, f'2.5*{t}'
            except NotImplementedError:
                return v, r, t
        if op in ('add', 'sub'):
            v, r, t = self.vexpr(k, depth - 1)
            w, q, u = self.vexpr(k, depth - 1)
            try:
                if op == 'sub' and self.ht:
                    return v - w, {e: r[e] - q[e] for e in r}, f'({t}-{u})'
                return v + w, {e: r[e] + q[e] for e in r}, f'({t}+{u})'
            except NotImplementedError:
                return v, r, t
        a = self.pick()
        v, r, t = self.vexpr(a, depth - 1)
        m, M, u = self.tree(k, a, 1)
        try:
            return m @ v, {e: M[e] @ r[e] for e in r}, f'({u}@{t})'
        except NotImplementedError:
            return (v, r, t) if a == k else self.vec(k)

    def vectors(self):
        ctx, rng, E = self.ctx, self.rng, self.E
        for f in self.d.F.values():
            f.cochain.clean(*(('all',) if self.ht else ()))
        self.stored = []
        k = self.pick()
        v, ref, text = self.vexpr(k, int(rng.integers(3)))
        if ref is None:
            return
        ctx.case(self.d.name, 'vector', text)
        tg = f'{self.tag}-vector'
        s = max(1., max(np.abs(x).max() for x in ref.values()))
        for e in E:
            ctx.close(v[e], ref[e], tg, 1e-9, text, scale=s)
        if rng.random() < .5:
            for m, r, name in self.leaves[-2:]:
                ctx.event('leaf-seen')
        ctx.close(self.asm(v), vscatter(ref, self.g[k], self.N[k]), tg + '|assemble', 1e-9, text, scale=s)
        # customise
        base = {e: np.array(v[e]) for e in E}
        tot = vscatter(ref, self.g[k], self.N[k])
        dofs = [int(i) for i in rng.choice(self.N[k], size=min(self.N[k], int(rng.integers(1, 6))), replace=False)]
        vals = rng.standard_normal(len(dofs))
        if rng.random() < .5:
            v.customize.set_values(dofs, vals)
        else:
            for i, x in zip(dofs, vals):
                v.customize.set_value(i, float(x))
        tot[dofs] = vals
        ctx.close(self.asm(v), tot, f'{self.tag}-customize|vector', 1e-9, f'{text} {dofs}', scale=s)
        for kk, t, orig in self.stored:
            if t in self.d.F[kk].cochain._tcd:
                now = self.d.get(kk, t)
                ctx.true(all(np.array_equal(now[e], orig[e]) for e in E), f'{self.tag}-operands|cochain',
                         'customising a vector changed the cochain of a form')
        if len(v.customize):
            v.customize._customizations = {}
            for e in E:
                if not ctx.close(v[e], base[e], f'{self.tag}-operands|vector', 1e-12, f'{text} after customising', scale=s):
                    break

    def asm(self, v):
        if self.ht:
            x = v.assemble(vtype='distributed', mode='sum')
            return np.array(x.gather())
        return np.array(v.assemble()._v)

    def concat(self):
        ctx, rng, E = self.ctx, self.rng, self.E
        ks = [self.pick() for _ in range(int(rng.integers(1, 4)))]
        parts = [(None, {e: np.zeros(self.nloc(k, e)) for e in E}, 'None') if rng.random() < .2 else self.vec(k) for k in ks]
        gm = self.GM([self.G[k] for k in ks])
        ctx.case(self.d.name, 'concatenate', ks, [t for _, _, t in parts])
        x = self.concatenate([a for a, _, _ in parts], gm)
        # the same cochain instant may have been overwritten by a later leaf of the same space
        ref = {e: np.concatenate([(a[e] if a is not None else r[e]) for a, r, _ in parts]) for e in E}
        for e in E:
            ctx.close(x[e], ref[e], f'{self.tag}-vector|concatenate', 1e-12)
        g = {e: np.array(gm[e]) for e in E}
        ctx.close(self.asm(x), vscatter(ref, g, sum(self.N[k] for k in ks)), f'{self.tag}-vector|concatenate', 1e-10)
        if self.ht:
            got = x.split()
        else:
            got = self.VEC(np.array([ref[e] for e in E]), gm).split()
        ctx.eq(len(got), len(ks), f'{self.tag}-vector|split')
        for b, k in enumerate(ks):
            for e in E:
                n0 = sum(self.nloc(q, e) for q in ks[:b])
                if not ctx.close(got[b][e], ref[e][n0:n0 + self.nloc(k, e)], f'{self.tag}-vector|split', 1e-12, f'block {b} element {e}'):
                    break
        if self.ht:
            glob = [rng.standard_normal(self.N[k]) for k in ks]
            y = self.VEC({e: np.concatenate([w[self.g[k][e]] for w, k in zip(glob, ks)]) for e in E}, gm)
            z = y.assemble(vtype='gathered', mode='replace')
            want = np.zeros(len(z.V))
            for e in E:
                want[g[e]] = np.concatenate([w[self.g[k][e]] for w, k in zip(glob, ks)])
            ctx.close(z.V, want, 'ht-vector|gathered', 1e-12)
            for w, q in zip(glob, z.split()):
                ctx.close(q.V, w, 'ht-vector|gathered-split', 1e-12)
            if len(ks) > 1:
                ctx.close(gm.merge(*z.split()).V, want, 'ht-vector|merge', 1e-12)
            app = x.assemble(vtype='distributed', mode='sum', customizations=[('add_a_value_at_the_end', 0)])
            ctx.close(app.gather(), np.append(vscatter(ref, g, len(want)), 0), 'ht-vector|append', 1e-10)


def algebra(ctx, conf, p, reps):
    P = Pool(ctx, conf, p)
    kept = []
    for r in range(reps):
        a, b = P.pick(), P.pick()
        m, ref, text = P.tree(a, b, int(P.rng.integers(1, 4)))
        ctx.case(conf, p, text)
        P.look(m, ref, text, 'element')
        P.assemble(m, ref, text, P.g[a], P.g[b], P.N[a], P.N[b], 'assemble')
        P.look(m, ref, text, 'element|after-assembly')
        kept.append((m, ref, text))
        if r % 3 == 0:
            P.blocks(1)
        if r % 2 == 0:
            P.vectors()
            P.concat()
        if not P.ht:
            P.customise_py()
        elif r % 3 == 1:
            k = P.pick()
            m, ref, nm = P.leaf(k, k)
            P.leaves.pop()
            if nm == 'mass':
                continue             # one object per form by design
            ctx.case(conf, 'customize', nm, r)
            P.customise_ht(m, ref, k)
            m.customize.clear()
            for e in P.E:
                ctx.close(m[e], ref[e], 'ht-customize|clear', 1e-12, nm)
    for m, ref, text in kept:
        P.look(m, ref, text, 'element|late')
    P.look_leaves()


def ucache(ctx):
    """the `cache` option of assembling returns what was cached under that name and nothing else"""
    P = Pool(ctx, 'ht2', 1)
    k = P.keys[0]
    m, ref, _ = P.tree(k, k, 1)
    m2, ref2, _ = P.tree(k, k, 1)
    A = scatter(ref, P.g[k], P.g[k], P.N[k], P.N[k])
    A2 = scatter(ref2, P.g[k], P.g[k], P.N[k], P.N[k])
    for fmt in ('csc', 'csr'):
        ctx.case('cache', fmt)
        for nm, M, D in (('n1', m, A), ('n2', m2, A2), ('unique', m, A), ('unique', m2, A2), ('n1', m, A), ('n2', m2, A2)):
            X = M.assemble(format=fmt, cache=nm)
            ctx.close(X._M, D, 'ht-assemble|cache', 1e-9, f'{nm} {fmt}', scale=max(1, np.abs(D).max()))
            ctx.eq(type(X._M).__name__[:3], fmt, 'ht-format', 'cached')


def UNITS(tier):
    q = tier == 'quick'
    U = []
    confs = ['ht2', 'ht2p', 'rq', 'rqt', 'ht2trf', 'ht2ts', 'ht3', 'ht2n', 'ht2c', 'py1', 'py1p', 'py1s', 'py2s', 'ht2s', 'py2', 'py2p', 'py2m', 'py2u', 'py3', 'py2b']
    for c in confs:
        for rep in range(1 if q else 6):
            p = 1 if '3' in c or rep % 2 else 2
            U.append((f'{c}:{rep}', algebra, dict(conf=c, p=p, reps=(4 if '3' in c else 10) * (1 if q else 3))))
    U.append(('cache', ucache, {}))
    return U
