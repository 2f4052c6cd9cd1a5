"""C16: iterators and matrix runners, watched call by call, with crashes at every point and continuation from what they saved."""
import contextlib
import io
import math
import os
import pickle
import shutil
import tempfile
import numpy as np
from vm.lazy import S, ph

META = dict(
    rule='one distinct case per (solver outputs, ranges, stop rule, cache schedule and crash history) or (input matrices, history of interruptions)',
    assumptions=['a cached input is identified by its value up to a relative 1e-9',
                 'time is replaced by a clock that the harness advances, so every caching schedule can be provoked',
                 'a killed process is represented by an exception thrown out of the solver, the object coding or the file write'],
    note='Toy state machines and real msehtt forms as cached objects; interruption in the solver, while the cached data is being '
         'written, and of the runner table at every byte of its tail.',
    must_observe=['order', 'record', 'stop', 'csv', 'resume', 'cachefile', 'runner', 'runner restart', 'reader', 'tabular', 'form cache'])


class Crash(BaseException):
    pass


class Clock:
    def __init__(self):
        self.t = 1e6

    def __call__(self):
        return self.t


@contextlib.contextmanager
def patched(clock, graphics=False):
    """The iterator's clock is ours; pauses and (mostly) pictures are skipped."""
    from phyem.tools.iterator import main, monitor
    from phyem.tools.legacy.serialRunners.INSTANCES import matrix3d_input_runner as m3
    keep = (main.time, main.sleep, monitor.IteratorMonitor._graphic_report, m3.sleep, monitor.sleep)
    main.time = clock
    main.sleep = m3.sleep = lambda s: None
    if not graphics:
        monitor.IteratorMonitor._graphic_report = lambda self, over: None
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        main.time, main.sleep, monitor.IteratorMonitor._graphic_report, m3.sleep, monitor.sleep = keep


def make_solver(fn, n_in, names):
    """A solver function with the numpy style docstring the iterator reads."""
    args = ', '.join(f'x{i}' for i in range(n_in))
    f = eval(f'lambda {args}: fn([{args}])', {'fn': fn})
    doc = '\n    Parameters\n    ----------\n' + ''.join(f'    x{i} :\n' for i in range(n_in))
    doc += '\n    Returns\n    -------\n    exit_code :\n    message :\n' + ''.join(f'    {n} :\n' for n in names) + '\n    '

    def s1(x0):
        return fn([x0])

    def s2(x0, x1):
        return fn([x0, x1])

    def s3(x0, x1, x2):
        return fn([x0, x1, x2])
    g = {1: s1, 2: s2, 3: s3}[n_in]
    g.__doc__ = doc
    return g


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return bool(a == b)


def value(rng, mild=False):
    r = rng.random()
    if mild:                     # values that can be drawn in reasonable time
        return float(rng.normal() * 10. ** rng.integers(-6, 3))
    if r < .2:
        return int(rng.integers(-50, 50))
    if r < .3:
        return float('nan')
    if r < .4:
        return float(10. ** rng.integers(-300, 300))
    return float(rng.normal() * 10. ** rng.integers(-6, 6))


def plain(ctx, rounds, graphics=0):
    rng = ctx.rng
    for r in range(rounds):
        d = tempfile.mkdtemp(dir=os.environ['VM_SCRATCH'])
        n_in = int(rng.integers(1, 4))
        n_out = int(rng.integers(1, 5))
        N = int(rng.integers(1, 30))
        if r == 0 and graphics:
            N = 330                      # more steps than the report draws
        ranges = []
        for i in range(n_in):
            k = int(rng.integers(4))
            ranges.append(range(5, 5 + N) if k == 0 else [float(v) for v in rng.normal(size=N)] if k == 1 else
                          np.linspace(0, 1, N) if k == 2 else tuple(['s%d' % j for j in range(N)]))
        stop = int(rng.integers(0, 2 * N))           # may be beyond the end
        outs = [[value(rng, graphics) for _ in range(n_out)] for _ in range(N)]
        calls = []

        def fn(x):
            i = len(calls)
            calls.append(list(x))
            return [1 if i == stop else 0, ['step %d' % i, 'second line ' * 20], *outs[i]]
        names = ['t', 'energy_error', 'L2_u', 'w'][:n_out] if rng.random() < .5 else ['a_b', 'B', 'c1', 'd'][:n_out]
        init = None if rng.random() < .3 else [value(rng, graphics) for _ in range(n_out)]
        name = d + '/rec'
        mf = float(rng.choice([0., .6, 1.])) if not graphics or N < 5 else .6
        ctx.case('plain', n_in, n_out, N, stop, mf, outs[0])
        with patched(Clock() if not graphics else __import__('time').time, graphics=bool(graphics)):
            solver = make_solver(fn, n_in, names)
            it = ph.iterator(solver, None if init is None else list(init), monitoring_factor=mf, name=name)
            for again in range(2):
                calls.clear()
                it.run(*ranges, pbar=bool(rng.random() < .5))
                n = min(N, stop + 1)
                ctx.eq(len(calls), n, 'stop|number of steps', f'{N} steps offered, exit code 1 at {stop}')
                ctx.true(all(all(same(a, b) for a, b in zip(c, x)) for c, x in zip(calls, zip(*ranges))), 'order|inputs', f'{calls[:3]}')
                R = it.RDF
                ctx.eq(list(R.columns), names, 'record|columns')
                ctx.eq(list(R.index), list(range(n + 1)), 'record|rows')
                want = [[float('nan')] * n_out if init is None else init] + outs[:n]
                bad = [(i, list(R.iloc[i]), want[i]) for i in range(min(n + 1, len(R))) if not all(same(float(a), float(b)) for a, b in zip(R.iloc[i], want[i]))]
                ctx.true(not bad, 'record|values', lambda: f'{bad[:2]}')
                ctx.eq(it.exit_code, 1 if stop < N else 0, 'stop|exit code')
                ctx.true(it.message[0] == f'step {n - 1}', 'record|message', str(it.message))
                import pandas as pd
                C = pd.read_csv(name + '.csv', index_col=0)
                ctx.true(list(C.columns) == names and C.shape == R.shape and
                         np.allclose(C.to_numpy(dtype=float), R.to_numpy(dtype=float), rtol=1e-14, atol=0, equal_nan=True), 'csv|values', name)
                if again == 0 and rng.random() < .6:
                    break
        # a trial run reports what the solver returned and leaves the record alone
        calls.clear()
        stop = -1
        if n_in > 1:
            tr = [tuple(float(v) for v in rng.normal(size=n_in)) for _ in range(min(3, N))]
        else:
            tr = [int(rng.integers(100)) for _ in range(min(3, N))]
        before = it.RDF.copy()
        with patched(Clock()):
            res = it.test(tr, show_info=bool(rng.random() < .5))
        ctx.true(len(res) == len(tr) and all(all(same(a, b) for a, b in zip(x[2:], o)) for x, o in zip(res, outs)), 'order|test results')
        ctx.true([tuple(c) if n_in > 1 else c[0] for c in calls] == tr, 'order|test inputs', str(calls))
        ctx.true(before.equals(it.RDF), 'record|kept by a trial run')
        if r % 4 == 0:                               # an exit code without a meaning is refused, and so are unequal ranges
            it2 = None
            with patched(Clock()):
                it2 = ph.iterator(make_solver(lambda x: [7, 'm', 1.], 1, ['u']), [0.], name=name + 'z')
                ctx.raises(lambda: it2.run([1, 2]), 'stop|unknown exit code')
                it3 = ph.iterator(make_solver(lambda x: [0, 'm', 1.], 2, ['u']), [0.], name=name + 'z')
                ctx.raises(lambda: it3.run([1, 2], [1, 2, 3]), 'order|unequal ranges')
                ctx.raises(lambda: ph.iterator(make_solver(lambda x: [0, 'm', 1.], 2, ['u']), [0., 1.], name=name), 'record|number of initial values')
        shutil.rmtree(d)


class Bomb:
    """Interrupts the writing of a cache file in the middle."""
    def __init__(self, armed):
        self.armed = armed

    def __reduce__(self):
        if self.armed and self.armed.pop():
            raise Crash('while writing')
        return int, (0,)


class Toy:
    """A cacheable object with a state."""
    def __init__(self, name, state):
        self.name, self.state, self.reads, self.plan = name, float(state), 0, []

    def _make_cache_data(self, t=None):
        big = list(range(40000)) if self.plan else None      # the file has a part before the fault
        return {'s': self.state, 'big': big, 'z': Bomb(self.plan)}

    def _read_cache_data(self, data):
        self.reads += 1
        self.state = data['s']


def cached(ctx, rounds):
    """Interrupted again and again, the record ends up as that of the run that was never interrupted."""
    rng = ctx.rng
    for r in range(rounds):
        d = tempfile.mkdtemp(dir=os.environ['VM_SCRATCH'])
        N = int(rng.integers(3, 26))
        kind = ['range', 'offset', 'float', 'tiny', 'mixed', 'long'][int(rng.integers(6))]
        X = {'range': range(1, N + 1), 'offset': range(-3, N - 3), 'float': [.1 * (i + 1) for i in range(N)],
             'tiny': [2.5e-7 * (i + 1) for i in range(N)], 'mixed': [i if i % 3 == 0 else i / 2 for i in range(N)],
             'long': [1e5 + i / 16 for i in range(N)]}[kind]
        X = list(X)
        stop = int(rng.integers(N)) if rng.random() < .3 else N + 5
        a, b = float(rng.uniform(.8, 1.2)), float(rng.normal())
        clock = Clock()
        limit = float(rng.choice([4., 50., 2000.]))
        log = []
        crash_at = [None]
        objs = []

        def fn(x):
            if crash_at[0] is not None and len(log) - mark[0] >= crash_at[0]:
                raise Crash('in the solver')
            log.append(x[0])
            clock.t += float(rng.uniform(0, limit))
            o, o2 = objs
            o.state = a * o.state + b * float(x[0]) + .1 * o2.state
            o2.state = math.sin(o.state) + o2.state / 3
            return [1 if x[0] == X[stop % N] and stop < N else 0, 'm', o.state, o2.state, float(x[0])]

        def fresh():
            objs[:] = [Toy('u', 1.), Toy('v', -1.)]

        mark = [0]
        fresh()
        ctx.case('cached', kind, N, stop, limit, a, b)
        with patched(clock):
            it = ph.iterator(make_solver(fn, 1, ['u', 'v', 't']), [0., 0., 0.], name=d + '/ref')
            it.run(X, pbar=False)
        want = it.RDF.to_numpy(dtype=float)
        n = min(N, stop + 1)
        ctx.eq(len(log), n, 'stop|number of steps')
        name = d + '/c'
        done = False
        sessions = 0
        while not done and sessions < 40:
            sessions += 1
            fresh()
            log.clear()
            mark[0] = 0
            crash_at[0] = int(rng.integers(1, max(2, N))) if sessions < 12 else None
            objs[0].plan = [bool(rng.random() < .25) for _ in range(6)] if rng.random() < .5 else []
            saved = _peek(name + '.phc')
            crashed = False
            try:
                with patched(clock):
                    it = ph.iterator(make_solver(fn, 1, ['u', 'v', 't']), [0., 0., 0.], name=name)
                    it.cache(*objs, time=limit, cache_filename=None if rng.random() < .7 else name)
                    clock.t += float(rng.uniform(0, limit))
                    it.run(X, pbar=bool(rng.random() < .5))
                done = True
            except Crash:
                crashed = True
            # whatever happened: no step repeated within a session, steps in order, no recorded step computed again
            k = len(saved) if saved is not None else 0
            ctx.true(log == X[k:k + len(log)], 'resume|steps', lambda: f'{kind}: {k} steps recorded, computed {log[:4]}..., offered {X[:k + 3]}')
            now = _peek(name + '.phc')
            ctx.true(now is not None, 'cachefile|readable after a crash' if crashed else 'cachefile|readable', f'session {sessions}')
            if now is None:
                break
            good = all(np.allclose(np.array(v[1:], dtype=float), want[i + 1], rtol=1e-13, atol=0) for i, v in enumerate(now))
            ctx.true(good and len(now) >= k, 'cachefile|content', f'{len(now)} recorded, before {k}')
            if k and log:
                ctx.true(objs[0].reads == 1 and objs[1].reads == 1, 'resume|objects restored once', f'{objs[0].reads} {objs[1].reads}')
            elif not k:
                ctx.true(objs[0].reads == 0, 'resume|nothing to restore')
        if done:
            R = it.RDF.to_numpy(dtype=float)
            ctx.true(R.shape == want.shape and np.allclose(R, want, rtol=1e-13, atol=0), 'resume|record',
                     lambda: f'{kind} after {sessions} sessions: {R[-2:]} instead of {want[-2:]}')
            ctx.eq(it.exit_code, 1 if stop < N else 0, 'resume|exit code')
            ctx.event('sessions', sessions)
            # a further session finds part or everything recorded; a part of the range is continued correctly too
            with patched(clock):
                from phyem.tools.iterator.cache_reader import cache_reader
                c = cache_reader(name)
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    ph.print_cache_log(name + '.phc')
            if len(_peek(name + '.phc')):
                nums = [int(w.split('th cache')[0]) for w in c['log'].split('CACHE::: ')[1:]]
                ctx.eq(nums, list(range(1, len(nums) + 1)), 'cachefile|log counts the caches')
                ctx.true(c['log'].strip() in out.getvalue(), 'cachefile|log printed')
            m = int(rng.integers(1, n + 1))
            fresh()
            log.clear()
            k = len(_peek(name + '.phc'))
            with patched(clock):
                it = ph.iterator(make_solver(fn, 1, ['u', 'v', 't']), [0., 0., 0.], name=name)
                it.cache(*objs, time=float('inf') if rng.random() < .5 else 1e12)
                it.run(X[:m], pbar=False)
            ctx.true(log == X[:m][k:], 'resume|part of the range', f'{k} recorded, first {m} asked')
            R = it.RDF.to_numpy(dtype=float)
            ctx.true(R.shape == (m + 1, 3) and np.allclose(R, want[:m + 1], rtol=1e-13, atol=0), 'resume|part record')
        with patched(clock):                              # other objects do not match the cache
            o = [Toy('x', 0.), Toy('y', 0.)]
            it = ph.iterator(make_solver(fn, 1, ['u', 'v', 't']), [0., 0., 0.], name=name)
            ctx.raises(lambda: it.cache(*o), 'cachefile|other objects')
        shutil.rmtree(d)


def _peek(f):
    """Recorded results in order of the steps, or None if the file is missing or unreadable."""
    if not os.path.isfile(f):
        return []
    try:
        with open(f, 'rb') as fh:
            return list(pickle.load(fh)['RES'].values())
    except Exception:
        return None


def forms(ctx, confs, rounds):
    """The same with forms as the cached objects."""
    from vm import configs as C, geo as G
    rng = ctx.rng
    for conf in confs:
        for r in range(rounds):
            d = tempfile.mkdtemp(dir=os.environ['VM_SCRATCH'])
            cf = C.CONF[conf]
            keys = [(0, 'outer'), (cf['n'], 'inner' if cf['n'] == 2 else 'outer')]
            p = int(rng.integers(1, 3))
            D = C.build(conf, p, keys, rng=rng)
            N = int(rng.integers(4, 10))
            dt = float(rng.choice([.1, 1., 3e-4]))
            v0 = {k: D.random_global(k, 0, rng) for k in keys}
            start = {k: {e: np.array(v) for e, v in D.get(k, 0).items()} for k in keys}
            calls = []
            crash = [None]
            clock = Clock()

            def fn(x):
                if crash[0] is not None and len(calls) >= crash[0]:
                    raise Crash
                calls.append(x[0])
                clock.t += 1.
                s = []
                for k in keys:
                    old = D.get(k, (x[0] - 1) * dt)
                    new = {e: .9 * np.array(v) + .1 * np.sin(np.array(v) + x[0]) for e, v in old.items()}
                    D.set(k, x[0] * dt, new)
                    s.append(float(sum(np.sum(v) for v in new.values())))
                return [0, 'm', *s]

            def fresh():
                for k in keys:
                    D.F[k].cochain.clean('all')
                    D.set(k, 0, start[k])
            ctx.case('form cache', conf, p, N, dt)
            out = [f's{i}' for i in range(len(keys))]
            with patched(clock):
                it = ph.iterator(make_solver(fn, 1, out), None, name=d + '/ref')
                it.run(range(1, N + 1), pbar=False)
            want = it.RDF.to_numpy(dtype=float)
            final = {k: {e: np.array(v) for e, v in D.get(k, N * dt).items()} for k in keys}
            for session in range(15):
                fresh()
                if session:                                  # a new process would not have this
                    for k in keys:
                        D.F[k].cochain.clean('all')
                        if not _peek(d + '/c.phc'):
                            D.set(k, 0, start[k])
                calls.clear()
                crash[0] = int(rng.integers(1, 4)) if session < 12 else None
                try:
                    with patched(clock):
                        it = ph.iterator(make_solver(fn, 1, out), None, name=d + '/c')
                        it.cache(*[D.F[k] for k in keys], time=float(rng.choice([1e-3, 2.5])), num=None if rng.random() < .5 else 1)
                        it.run(range(1, N + 1), pbar=False)
                    break
                except Crash:
                    ctx.event('sessions')
            R = it.RDF.to_numpy(dtype=float)
            ctx.true(R.shape == want.shape and np.allclose(R[1:], want[1:], rtol=1e-12, atol=1e-13), 'form cache|record', lambda: f'{conf}: {R[-2:]} instead of {want[-2:]}')
            if calls:
                for k in keys:
                    got = D.get(k, N * dt)
                    ctx.true(set(got) == set(final[k]), 'form cache|elements')
                    ctx.close(np.concatenate([got[e] for e in final[k]]), np.concatenate([final[k][e] for e in final[k]]), 'form cache|final cochain', 1e-12, str(k))
            shutil.rmtree(d)


# ---- matrix runner ---------------------------------------------------------------------------------------------------

def matrices(rng):
    rows = int(rng.integers(1, 4))
    i0, i1 = [], []
    ints = rng.random() < .5
    for _ in range(rows):
        n = int(rng.integers(1, 4))
        i0.append([int(v) for v in rng.integers(1, 6, size=n)])
        i1.append([int(v) for v in rng.integers(1, 30, size=n)] if ints else [float(v) for v in np.round(rng.normal(size=n), int(rng.integers(0, 17)))])
        if rng.random() < .2:
            j = int(rng.integers(n))
            i0[-1][j] = None
    i2 = [[0, .15, .2], [0.], [math.pi, math.e, -1e-9], [1 / 3, 2 / 3]][int(rng.integers(4))]
    return i0, i1, i2


def order(i0, i1, i2):
    done, seq = [], []
    for c in i2:
        for i in range(len(i0)):
            for j in range(len(i0[i])):
                x = [i0[i][j], i1[i][j], c]
                if x[0] is not None and x not in done:
                    done.append(x)
                    seq.append(x)
    return seq


def runner(ctx, rounds):
    rng = ctx.rng
    from phyem.tools.legacy.serialRunners.INSTANCES.matrix3d_input_runner import Matrix3dInputRunner
    for r in range(rounds):
        d = tempfile.mkdtemp(dir=os.environ['VM_SCRATCH'])
        i0, i1, i2 = matrices(rng)
        seq = order(i0, i1, i2)
        names = ['d', 'e_L2', 'f'][:int(rng.integers(1, 4))]
        table = {}
        calls = []
        crash = [None]
        factor = float(rng.normal())

        def solve(a, b, c, k=1.):
            calls.append([a, b, c])
            if crash[0] is not None and len(calls) > crash[0]:
                raise Crash
            if (a, b, c) not in table:
                table[(a, b, c)] = [v if isinstance(v, int) else float(v) for v in (value(rng) for _ in names)]
            return [v * k for v in table[(a, b, c)]]
        doc = '\n    Parameters\n    ----------\n    K :\n    N :\n    c :\n\n    Returns\n    -------\n' + ''.join(f'    {n} :\n' for n in names) + '\n    '
        solve.__doc__ = doc
        ctx.case('runner', i0, i1, i2, names, factor)

        def rows(R, upto=None):
            """The table against what the solver returned."""
            want = seq if upto is None else seq[:upto]
            if not ctx.true(len(R) == len(want), 'runner|rows', lambda: f'{len(R)} rows, {len(want)} combinations'):
                return
            bad = []
            for i, x in enumerate(want):
                row = list(R.iloc[i])
                ok = all(same(float(u), float(v)) for u, v in zip(row[:3], x)) and \
                    all(same(float(u), float(v * factor)) for u, v in zip(row[3:3 + len(names)], table[tuple(x)]))
                if not ok:
                    bad.append((i, row, x, table[tuple(x)]))
            ctx.true(not bad, 'runner|table', lambda: f'{bad[:2]}')
            ctx.true(list(R.columns)[:3 + len(names)] == ['K', 'N', 'c', *names] and list(R.index) == list(range(len(want))), 'runner|columns', str(list(R.columns)))

        show = bool(rng.random() < .5)
        with patched(Clock()):
            R = ph.run(solve)
            R.iterate(i0, i1, i2, k=factor, show_progress=show)
            ctx.true(calls == seq, 'runner|order', lambda: f'{calls} instead of {seq}')
            rows(R.results)
            for opn in names:                                   # table by position
                T = R._SR_.tabular.array(opn)
                want = {}
                for k, c in enumerate(i2):
                    A = np.full((len(i0), max(len(_) for _ in i0)), np.nan)
                    for i in range(len(i0)):
                        for j in range(len(i0[i])):
                            if i0[i][j] is not None:
                                A[i, j] = table[(i0[i][j], i1[i][j], c)][names.index(opn)] * factor
                    want[k] = A
                ctx.true(set(T) == set(want) and all(np.array_equal(T[k], want[k], equal_nan=True) for k in want), 'tabular|array', lambda: f'{opn}: {T} instead of {want}')
            if rng.random() < .5:                               # the same runner again
                calls.clear()
                R.iterate(i0, i1, i2, k=factor, show_progress=show)
                rows(R.results)
                ctx.true(calls in (seq, []), 'runner|second call')
            # written to a file, with interruptions
            f = d + '/table.txt'
            for session in range(30):
                calls.clear()
                have = _lines(f)
                crash[0] = int(rng.integers(0, 4)) if session < 25 else None
                R = ph.run(solve)
                try:
                    R.iterate(i0, i1, i2, writeto=f, k=factor, show_progress=show)
                    fin = True
                except Crash:
                    fin = False
                # (the last row may or may not count when its end is missing)
                ctx.true(any(calls == seq[h:h + len(calls)] for h in (have, have - 1) if h >= 0), 'runner restart|steps', lambda: f'{have} rows found, then {calls}, of {seq}')
                if fin:
                    break
                if os.path.isfile(f) and rng.random() < .5:    # the tail of the file is lost
                    data = open(f, 'rb').read()
                    head = data.index(b'<RESULTS> : \n')
                    head = data.index(b'\n', data.index(b'\n', head + 13) + 1) + 1
                    cut = len(data) - int(rng.integers(0, 60 if rng.random() < .5 else 400))
                    if cut >= head:
                        with open(f, 'wb') as fh:
                            fh.write(data[:cut])
                        ctx.event('torn tail')
            crash[0] = None
            ctx.event('runner sessions', session + 1)
            rows(R.results)
            ctx.eq((_lines(f), open(f).read()[-1:]), (len(seq), '\n'), 'runner restart|complete rows in the file')
            RD = ph.rdr(f)
            rows(RD.results)
            ctx.event('reader')
            ctx.raises(lambda: RD.iterate(i0, i1, i2), 'reader|locked')
            want = {}
            K0, K1, K2 = (sorted(set(x[i] for x in seq)) for i in range(3))
            for opn in names:
                T = RD._SR_.tabular.array(opn)
                for k, c in enumerate(K2):
                    A = np.array([[table[(a, b, c)][names.index(opn)] * factor if [a, b, c] in seq else np.nan for b in K1] for a in K0])
                    ctx.true(np.array_equal(T[k], A, equal_nan=True), 'tabular|from file', lambda: f'{opn} {k}: {T[k]} instead of {A}')
            # a file of another task is refused
            def other(a, b, c):
                return 1.
            other.__doc__ = doc.replace('K :', 'Q :').replace(names[0] + ' :', 'zz :')
            before = open(f).read()
            ctx.raises(lambda: ph.run(other).iterate(i0, i1, i2, writeto=f), 'runner restart|other task')
            ctx.eq(open(f).read(), before, 'runner restart|file of another task kept')
            # saved as a whole
            if r % 3 == 0:
                s = Matrix3dInputRunner(TestSolver)
                s.iterate([[1, 2], [3]], [[4, 5], [6.5]], [0, .25], saveto=d + '/whole')
                t = Matrix3dInputRunner.readfrom(d.replace('.', '') + '/whole.m3ir')
                ctx.true(t.rdf.equals(s.rdf) and len(t.rdf) == 6, 'reader|pickled')
        shutil.rmtree(d)


def TestSolver(a, b, c):
    """
    Parameters
    ----------
    a :
    b :
    c :

    Returns
    -------
    d :
    e :

    """
    return a + 5 * b - c, a + b


def _lines(f):
    """Complete rows in a table file."""
    if not os.path.isfile(f):
        return 0
    t = open(f).read()
    t = t[t.index('<RESULTS> : \n'):].split('\n')[3:]
    return sum(1 for s in t if '|' in s and len(s.split('|')[1].split()) == 3)


def UNITS(tier):
    q = tier == 'quick'
    u = [(f'plain/{i}', plain, dict(rounds=8 if q else 40)) for i in range(2 if q else 4)]
    u += [('plain/pictures', plain, dict(rounds=2 if q else 6, graphics=1))]
    u += [(f'cached/{i}', cached, dict(rounds=10 if q else 40)) for i in range(3 if q else 8)]
    u += [(f'forms/{c}', forms, dict(confs=[c], rounds=1 if q else 4)) for c in ['ht2', 'ht2ch', 'ht3', 'ht2p'][:4 if q else 4]]
    u += [(f'runner/{i}', runner, dict(rounds=6 if q else 25)) for i in range(3 if q else 6)]
    return u
