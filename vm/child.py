"""Run one function in a fresh process:  call('vm.checks.cNN', 'function', **kwargs) -> its (picklable) result."""
import os
import pickle
import subprocess
import sys
import tempfile


class ChildFailed(Exception):
    """The function raised in the fresh process; in_repo tells whether the code under test did."""
    def __init__(self, text, in_repo):
        super().__init__(text)
        self.in_repo = in_repo


def call(module, function, env=None, timeout=300, **kw):
    d = tempfile.mkdtemp(dir=os.environ['VM_SCRATCH'])
    with open(os.path.join(d, 'in'), 'wb') as f:
        pickle.dump((module, function, kw), f)
    last = ''
    for _ in range(3):
        e = dict(os.environ, OMPI_MCA_orte_tmpdir_base=d, **(env or {}))
        r = subprocess.run([sys.executable, '-m', 'vm.child', d], env=e, capture_output=True, text=True, timeout=timeout,
                           cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        out = os.path.join(d, 'out')
        if os.path.exists(out):
            with open(out, 'rb') as f:
                ok, val = pickle.load(f)
            if ok:
                return val
            raise ChildFailed(*val)
        last = r.stderr[-1500:]
        if 'MPI_Init' not in r.stderr:
            break
    raise RuntimeError('the fresh process gave no result: ' + last)


if __name__ == '__main__':
    d = sys.argv[1]
    import contextlib
    import importlib
    import io
    from vm import core
    with open(os.path.join(d, 'in'), 'rb') as f:
        module, function, kw = pickle.load(f)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            from vm import boot                                                     # noqa
            os.chdir(os.environ['VM_SCRATCH'])
            res = (True, getattr(importlib.import_module(module), function)(**kw))
    except BaseException as ex:                                                     # noqa
        res = (False, (core.short_tb(ex), core.raised_in_repo(ex)))
    with open(os.path.join(d, 'tmp'), 'wb') as f:
        pickle.dump(res, f)
    os.replace(os.path.join(d, 'tmp'), os.path.join(d, 'out'))
