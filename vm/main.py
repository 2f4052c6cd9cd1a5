"""vm.main <PROPERTY> [--unit NAME] [--tier quick|thorough] [--seed N]: dispatch units, collect, give the verdict."""
import argparse
import importlib.util
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--unit', action='append')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VM_WORKERS') or min(8, os.cpu_count() or 2)))
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.prop.upper()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'vm_{prop}_')
    try:
        code = _run(a, prop, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return code


def _run(a, prop, scratch, t0):
    root = os.path.join(scratch, 'root')
    os.makedirs(root)
    os.symlink(os.path.realpath(os.environ.get('VM_REPO', '/repo')), os.path.join(root, 'phyem'))
    env = dict(os.environ, VM_ROOT=root)
    if a.v:
        env['VM_VERBOSE'] = '1'
    sys.path.insert(0, HERE)
    names, meta = list_units(prop, a.tier, env, scratch)
    if a.list:
        print('\n'.join(names))
        return 0
    if a.unit:
        names = [n for n in names if any(u in n for u in a.unit)]
    budget = 840 if a.tier == 'quick' else 6 * 3600
    unit_limit = meta.get('unit_limit', 400 if a.tier == 'quick' else 3600)
    nw = max(1, min(a.workers, len(names)))
    todo = queue.Queue()
    for n in names:
        todo.put(n)
    results, problems = [], []
    lock = threading.Lock()
    tries = {}

    def serve(i):
        while True:
            if todo.empty():
                return
            wdir = os.path.join(scratch, f'w{i}_{time.time_ns()}')
            os.makedirs(wdir)
            outp = os.path.join(wdir, 'out.jsonl')
            open(outp, 'w').close()
            errp = os.path.join(wdir, 'err.txt')
            p = subprocess.Popen([sys.executable, '-m', 'vm.worker', prop, a.tier, str(a.seed), outp],
                                 stdin=subprocess.PIPE, stderr=open(errp, 'w'), stdout=None if a.v else subprocess.DEVNULL,
                                 env=dict(env, VM_SCRATCH=wdir, OMPI_MCA_orte_tmpdir_base=wdir), text=True, cwd=HERE, start_new_session=True)
            pos = 0
            alive = True
            served = 0
            while alive:
                if served >= meta.get('units_per_worker', 10**9):
                    break
                served += 1
                try:
                    n = todo.get_nowait()
                except queue.Empty:
                    break
                try:
                    p.stdin.write(n + '\n')
                    p.stdin.flush()
                except (BrokenPipeError, OSError):
                    pass
                start = time.time()
                while True:
                    with open(outp) as f:
                        f.seek(pos)
                        line = f.readline()
                    if line.endswith('\n'):
                        pos += len(line.encode())
                        r = json.loads(line)
                        with lock:
                            if 'boot_error' in r:
                                problems.append(dict(unit=n, kind='boot', in_repo=r['in_repo'], detail=r['boot_error']))
                                while not todo.empty():
                                    try:
                                        todo.get_nowait()
                                    except queue.Empty:
                                        break
                                alive = False
                            else:
                                results.append(r)
                        break
                    if p.poll() is not None:
                        time.sleep(0.05)
                        with open(outp) as f:
                            f.seek(pos)
                            if f.readline().endswith('\n'):
                                continue
                        if 'MPI_Init' in open(errp).read() and tries.get(n, 0) < 3:
                            tries[n] = tries.get(n, 0) + 1                     # the environment, not the code: try again
                            todo.put(n)
                            time.sleep(.5)
                            alive = False
                            break
                        with lock:
                            problems.append(dict(unit=n, kind='died', detail=f'rc={p.returncode} ' + open(errp).read()[-1500:]))
                        alive = False
                        break
                    lim = unit_limit
                    if time.time() - start > lim or time.time() - t0 > budget:
                        with lock:
                            problems.append(dict(unit=n, kind='timeout', detail=f'{time.time()-start:.0f}s'))
                        alive = False
                        break
                    time.sleep(0.01)
            try:
                p.stdin.close()
            except OSError:
                pass
            if not alive:
                kill(p)
            else:
                try:
                    p.wait(20)
                except subprocess.TimeoutExpired:
                    kill(p)

    ths = [threading.Thread(target=serve, args=(i,)) for i in range(nw)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    return verdict(a, prop, meta, names, results, problems, t0)


def kill(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def list_units(prop, tier, env, scratch):
    """Check modules import phyem lazily at module level, so unit names come from a cheap static file: UNITS needs
    no phyem; modules keep phyem imports in functions or behind vm.lazy."""
    os.environ['VM_ROOT'] = env['VM_ROOT']
    os.environ['VM_LISTING'] = '1'
    import importlib
    mod = importlib.import_module(f'vm.checks.{prop.lower()}')
    del os.environ['VM_LISTING']
    return [u[0] for u in mod.UNITS(tier)], mod.META


def load_known(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))['findings'] if k.get('property') == prop and k.get('status') == 'known']


def verdict(a, prop, meta, names, results, problems, t0):
    evals = sum(r['evals'] for r in results)
    distinct = set()
    events, maxdev = {}, {}
    viol = []
    for r in results:
        distinct |= {(r['unit'], d) for d in r['distinct']}
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['maxdev'].items():
            maxdev[k] = max(maxdev.get(k, 0), v)
        viol += r['violations']
        if r['error']:
            problems.append(dict(unit=r['unit'], kind='harness', detail=r['error']))
    boot = [p for p in problems if p['kind'] == 'boot' and p.get('in_repo')]
    for p in boot:
        viol.append(dict(key='import', unit=p['unit'], case='import phyem', detail=p['detail']))
        problems.remove(p)
    known = load_known(prop)
    new, hit = [], {}
    for v in viol:
        m = next((k for k in known if v['key'].startswith(k['key']) and k.get('unit', '') in v['unit']
                  and k.get('contains', '') in v['detail']), None)
        if m is None:
            new.append(v)
        else:
            hit.setdefault(m['key'], (m, v))
    samples = []
    for r in sorted(results, key=lambda r: r['unit']):
        for s in r['samples'][:1]:
            samples.append(f"[{r['unit']}] {s}")
    step = max(1, len(samples) // 25)
    cov = dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=meta['rule'], samples=samples[::step][:30] or ['none'],
               units_run=len(results), units_planned=len(names), monitor_events=dict(sorted(events.items())),
               largest_deviation_over_tolerance={k: float(f'{v:.3g}') for k, v in sorted(maxdev.items())},
               inconclusive=[dict(unit=p['unit'], kind=p['kind'], detail=p['detail'][-600:]) for p in problems][:20])
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level='exploration', coverage=cov,
              assumptions=meta.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    if not a.unit:
        with open(os.path.join(edir, f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for k, (m, v) in hit.items():
        print(f"KNOWN-FINDING: property={prop} {m['what']}")
    if a.v or os.environ.get('VM_TIMES'):
        for r in sorted(results, key=lambda r: -r['wall'])[:15]:
            print(f"  {r['wall']:7.2f}s {r['evals']:6d} {r['unit']}")
        print('  maxdev', cov['largest_deviation_over_tolerance'])
    if new:
        rdir = os.path.join(edir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}.json')
        count, shown = {}, []
        for v in new:
            count[v['key']] = count.get(v['key'], 0) + 1
            if count[v['key']] <= 8:
                shown.append(v)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, seed=a.seed, tier=a.tier,
                           how=f"cd /verif && VERIF_SEED={a.seed} VERIF_TIER={a.tier} ./run.sh {prop} --unit '{new[0]['unit']}'",
                           violations=shown[:200]), f, indent=1)
        seen = set()
        for v in new:
            if v['key'] not in seen and len(seen) < 12:
                seen.add(v['key'])
                print(f"  violated: {v['key']} unit={v['unit']} case={v['case'][:200]} :: {v['detail'][-600:]}")
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if problems:
        for p in problems[:10]:
            print(f"INCONCLUSIVE property={prop} unit={p['unit']} {p['kind']}: {p['detail'][-1500:]}")
        return 2
    missing = [e for e in meta.get('must_observe', []) if not events.get(e)]
    if not a.unit and (evals == 0 or missing or len(results) != len(names)):
        print(f'INCONCLUSIVE property={prop}: evals={evals} never observed={missing} units {len(results)}/{len(names)}')
        return 2
    print(f'OK property={prop} tier={a.tier} seed={a.seed} units={len(results)} evals={evals} distinct={len(distinct)} '
          f'wall={time.time()-t0:.1f}s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
