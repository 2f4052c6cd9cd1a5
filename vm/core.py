"""Verdict discipline shared by all checks.

A check module defines  UNITS(tier) -> list of (name, callable(ctx), params)  and META.  Units run in worker
processes; every unit gets a Ctx that records what the monitors observed.
Three verdicts: violated (an oracle disagreed, or the code under test raised on an input for which
the property promises a result), held, inconclusive (harness error, watchdog, nothing observed).
"""
import hashlib
import os
import time
import traceback
import numpy as np


class Ctx:
    def __init__(self, prop, unit, seed, tier):
        self.prop, self.unit, self.seed, self.tier = prop, unit, seed, tier
        h = int(hashlib.sha256(unit.encode()).hexdigest()[:8], 16)
        self.rng = np.random.default_rng([seed, h])
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.events = {}
        self.case_desc = ''
        self.maxdev = {}
        self.t0 = time.time()

    quick = property(lambda self: self.tier == 'quick')

    # -- observation -------------------------------------------------------------------------
    def case(self, *desc, nontrivial=True):
        """Start a new case; desc describes it."""
        self.case_desc = ' '.join(str(d) for d in desc)
        if nontrivial:
            self.distinct.add(self.case_desc)
        if len(self.samples) < 3:
            self.samples.append(self.case_desc[:400])

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    # -- oracles -----------------------------------------------------------------------------
    def fail(self, key, detail=''):
        """key: the mechanism (stable), detail: the witness."""
        if len(self.violations) < 400 and sum(v['key'] == str(key) for v in self.violations) < 40:
            self.violations.append(dict(key=str(key), unit=self.unit, case=self.case_desc[:2000],
                                        detail=str(detail)[:4000]))

    def true(self, cond, key, detail=''):
        self.evals += 1
        self.event(key.split('|')[0])
        if not cond:
            self.fail(key, detail() if callable(detail) else detail)
            return False
        return True

    def eq(self, a, b, key, detail=''):
        return self.true(a == b, key, lambda: f'{detail} got={a!r} expected={b!r}')

    def close(self, a, b, key, tol=1e-9, detail='', scale=None):
        """max|a-b| <= tol * max(1, |b|)."""
        a = np.asarray(_dense(a), dtype=float)
        b = np.asarray(_dense(b), dtype=float)
        if a.shape != b.shape:
            try:
                np.broadcast_shapes(a.shape, b.shape)
                assert a.ndim == 0 or b.ndim == 0
            except Exception:
                return self.true(False, key, f'{detail} shapes {a.shape} vs {b.shape}')
        if a.size == 0:
            return self.true(True, key)
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            return self.true(False, key, f'{detail} non-finite: got={_s(a)} expected={_s(b)}')
        s = max(1.0, float(np.max(np.abs(b)))) if scale is None else scale
        d = float(np.max(np.abs(a - b))) / s
        k = key.split('|')[0]
        if d <= tol:
            self.maxdev[k] = max(self.maxdev.get(k, 0.), d / tol if tol else 0.)
        return self.true(d <= tol, key, lambda: f'{detail() if callable(detail) else detail} dev={d:.3e} tol={tol:.1e} got={_s(a)} expected={_s(b)}')

    def raises(self, fn, key, detail='', exc=Exception):
        try:
            fn()
        except Exception as e:
            return self.true(isinstance(e, exc), key, lambda: f'{detail}: {e!r} instead of {exc.__name__}')
        return self.true(False, key, f'{detail}: no exception')

    def sub(self, key, fn):
        """Run fn; an exception raised inside the code under test is a violation with this key."""
        try:
            return fn()
        except Exception as e:
            if raised_in_repo(e):
                self.evals += 1
                self.fail(key + '|raised', short_tb(e))
                return None
            raise

    def result(self):
        return dict(unit=self.unit, evals=self.evals, distinct=sorted(self.distinct), samples=self.samples,
                    violations=self.violations, events=self.events, maxdev=self.maxdev,
                    wall=time.time() - self.t0)


def _dense(x):
    if hasattr(x, 'toarray'):
        return x.toarray()
    return x


def _s(a):
    a = np.asarray(a)
    s = np.array2string(a.ravel()[:12], precision=6)
    return f'{a.shape}{s}'


def raised_in_repo(e):
    """Is the innermost non-library frame of the traceback inside the tree under test?"""
    root = os.environ['VM_ROOT']
    repo = os.path.realpath(os.path.join(root, 'phyem'))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    last = None
    tb = e.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(here + os.sep):
            last = 'vm'
        elif f.startswith(repo + os.sep):
            last = 'repo'
        tb = tb.tb_next
    return last == 'repo'


def undigestible(e):
    """Data returned by the code under test broke the oracle's arithmetic (shape, missing key, singular system): the
    harness digests every result of the unchanged tree, so this is an observation about the code.  Errors that hint at
    a changed interface (AttributeError, ImportError, TypeError, NameError) stay harness errors."""
    return isinstance(e, (ValueError, IndexError, KeyError, ArithmeticError, np.linalg.LinAlgError))


def short_tb(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
