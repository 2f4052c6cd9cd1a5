"""Run one function on several processes:  call('vm.checks.cNN', 'function', n, **kwargs) -> the list of results, rank by rank."""
import os
import pickle
import signal
import subprocess
import sys
import tempfile

from vm.child import ChildFailed

SINGLETON = ('OMPI_MCA_ess_singleton_isolated', 'OMPI_MCA_btl', 'OMPI_MCA_orte_tmpdir_base')
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class NoAnswer(Exception):
    """Some rank neither finished nor failed: the ranks wait for each other."""


def once(d, n, timeout):
    e = {k: v for k, v in os.environ.items() if k not in SINGLETON}
    e.update(OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_orte_tmpdir_base=d,
             OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_rmaps_base_oversubscribe='1')
    p = subprocess.Popen(['mpiexec', '--allow-run-as-root', '--oversubscribe', '-n', str(n), sys.executable, '-m', 'vm.mpi', d],
                         env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=TOP, start_new_session=True)
    late = False
    try:
        text = p.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        late = True
        os.killpg(p.pid, signal.SIGTERM)
        try:
            text = p.communicate(timeout=10)[0]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            text = p.communicate()[0]
        # ranks live in process groups of their own
        for r in range(n):
            try:
                os.kill(int(open(os.path.join(d, f'pid{r}')).read()), signal.SIGKILL)
            except (OSError, ValueError):
                pass
    out = []
    for r in range(n):
        f = os.path.join(d, f'out{r}')
        out.append(pickle.load(open(f, 'rb')) if os.path.exists(f) else None)
    return late, out, text


def call(module, function, n, timeout=120, **kw):
    last = ''
    for attempt in range(3):
        d = tempfile.mkdtemp(dir=os.environ['VM_SCRATCH'])
        with open(os.path.join(d, 'in'), 'wb') as f:
            pickle.dump((module, function, kw), f)
        late, out, text = once(d, n, timeout)
        for r, o in enumerate(out):
            if o is not None and not o[0]:
                raise ChildFailed(f'rank {r} of {n}: {o[1][0]}', o[1][1])
        if all(o is not None for o in out):
            return [o[1] for o in out]
        started = all(os.path.exists(os.path.join(d, f'ready{r}')) for r in range(n))
        last = f'ranks {[r for r, o in enumerate(out) if o is None]} of {n} gave no answer{" in time" if late else ""}: {text[-1200:]}'
        if started and attempt:
            raise NoAnswer(last)
    raise RuntimeError(last)


if __name__ == '__main__':
    d = sys.argv[1]
    import contextlib
    import faulthandler
    import importlib
    import io
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    rank = comm.Get_rank()
    faulthandler.enable()
    with open(os.path.join(d, f'pid{rank}'), 'w') as f:
        f.write(str(os.getpid()))
    faulthandler.register(signal.SIGTERM, chain=True)
    from vm import core
    with open(os.path.join(d, 'in'), 'rb') as f:
        module, function, kw = pickle.load(f)
    ok = True
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            from vm import boot                                                     # noqa
            os.chdir(d)
            fn = getattr(importlib.import_module(module), function)
            comm.Barrier()
            open(os.path.join(d, f'ready{rank}'), 'w').close()
            res = (True, fn(**kw))
    except BaseException as ex:                                                     # noqa
        ok = False
        res = (False, (core.short_tb(ex), core.raised_in_repo(ex)))
    with open(os.path.join(d, f'tmp{rank}'), 'wb') as f:
        pickle.dump(res, f)
    os.replace(os.path.join(d, f'tmp{rank}'), os.path.join(d, f'out{rank}'))
    if not ok:
        comm.Abort(1)
