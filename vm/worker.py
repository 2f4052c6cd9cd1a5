"""Worker process: run the units named on stdin (JSON list), one JSON result per line to fd 'out'."""
import faulthandler
import importlib
import json
import os
import sys
import time
import io
import contextlib

prop, tier, seed, outpath = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
faulthandler.enable()
from vm import core                                     # noqa: E402


def main():
    with open(outpath, 'a') as out:
        try:
            from vm import boot                          # noqa: F401
            mod = importlib.import_module(f'vm.checks.{prop.lower()}')
            units = {u[0]: u for u in mod.UNITS(tier)}
        except BaseException as e:
            out.write(json.dumps(dict(boot_error=core.short_tb(e), in_repo=core.raised_in_repo(e))) + '\n')
            return
        for line in sys.stdin:                            # dispatcher sends one unit name at a time
            name = line.strip()
            if not name:
                break
            _, fn, kw = units[name]
            ctx = core.Ctx(prop, name, seed, tier)
            import random as _random
            import numpy as _np
            _random.seed(seed * 1000003 + len(name))
            _np.random.seed(seed % 2**31)
            err = None
            buf = io.StringIO()
            try:
                os.chdir(os.environ['VM_SCRATCH'])
                if os.environ.get('VM_VERBOSE'):
                    fn(ctx, **kw)
                else:
                    with contextlib.redirect_stdout(buf):
                        fn(ctx, **kw)
            except Exception as e:
                if core.raised_in_repo(e):
                    ctx.evals += 1
                    ctx.fail('raised', core.short_tb(e))
                elif core.undigestible(e):
                    ctx.evals += 1
                    ctx.fail('undigestible', 'the observed data has a shape the oracle cannot use: ' + core.short_tb(e))
                else:
                    err = core.short_tb(e)
            r = ctx.result()
            r['error'] = err
            out.write(json.dumps(r, default=str) + '\n')
            out.flush()
            sys.stderr.write('\n@@DONE\n')
            sys.stderr.flush()


if __name__ == '__main__':
    t = time.time()
    main()
    sys.stdout.flush()
    os._exit(0)
