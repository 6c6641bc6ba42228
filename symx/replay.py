"""Run harnesses on concrete inputs against the real build: python -m symx.replay JOBS.json OUT.json

JOBS: [{check, fn, cfg, inputs}]. Modes (env SYMX_REPLAY): jit (default: Numba-compiled code),
boundscheck (Numba with NUMBA_BOUNDSCHECK=1), py (interpreted, np.empty poisoned)."""
import os
import sys
import json
import importlib
import traceback
import warnings


def main():
    jobs = json.load(open(sys.argv[1]))
    mode = os.environ.get('SYMX_REPLAY', 'jit')
    repo = os.environ.get('SYMX_REPO', '/repo')
    sys.path.insert(0, repo)
    warnings.filterwarnings('ignore')
    import numpy as np
    np.seterr(all='ignore')
    if mode == 'py':
        os.environ['NUMBA_DISABLE_JIT'] = '1'
    import vectorbt as vbt
    if mode == 'py':
        real_empty = np.empty

        def poisoned(shape, dtype=float, *a, **k):
            r = real_empty(shape, dtype, *a, **k)
            try:
                if r.dtype.names:
                    for n in r.dtype.names:
                        r[n] = -987654 if r.dtype[n].kind in 'iu' else -9.87654e77
                elif r.dtype.kind == 'f':
                    r.fill(-9.87654e77)
                elif r.dtype.kind == 'i':
                    r.fill(-99)
            except Exception:
                pass
            return r
        np.empty = poisoned
        np.empty_like = lambda a, dtype=None, *x, **k: poisoned(np.shape(a), dtype or np.asarray(a).dtype)
    from symx.harness import ConcH, Skip
    out = []
    for j in jobs:
        mod = importlib.import_module('checks.' + j['check'])
        h = ConcH(vbt, j['inputs'])
        r = dict(fail=[], exc=None, skip=False)
        try:
            if getattr(mod, 'conc_setup', None):
                mod.conc_setup(vbt)
            getattr(mod, j['fn'])(h, **j['cfg'])
        except Skip:
            r['skip'] = True
        except Exception as e:
            r['exc'] = '%s: %s' % (type(e).__name__, str(e)[:300])
            r['tb'] = traceback.format_exc()[-1500:]
        r['fail'] = [str(x)[:300] for x in h.fail]
        r['n'] = h.n
        out.append(r)
        json.dump(out, open(sys.argv[2], 'w'))
    return 0


if __name__ == '__main__':
    sys.exit(main())
