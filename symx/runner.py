"""Runs one property's harnesses, replays counterexamples on the real build, writes evidence."""
import os
import sys
import json
import time
import signal
import hashlib
import importlib
import subprocess
import tempfile
import shutil
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NPROC = int(os.environ.get('SYMX_PROCS', '8'))

_G = {}


def _repo_functions_monitor():
    """collect names of functions of the code under test as they start"""
    seen = {}
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, 'symx')
    except ValueError:
        return seen
    repo = os.environ.get('SYMX_REPO', '/repo') + '/vectorbt/'

    def start(code, off):
        f = code.co_filename
        if f.startswith(repo) and not code.co_name.startswith('<'):
            k = f[len(repo):] + ':' + code.co_qualname
            seen[k] = seen.get(k, 0) + 1
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)
    return seen


def _worker(arg):
    i, task, end = arg
    from . import harness, core
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    seen = _G.get('seen')
    if seen is None:
        seen = _G['seen'] = _repo_functions_monitor()
    seen.clear()
    sys.monitoring.restart_events()
    mod = _G['mod']
    deadline = min(end, time.time() + task.get('budget', 1e9))
    try:
        res = harness.explore(_G['vbt'], getattr(mod, task['fn']), task['cfg'], deadline, task.get('opts'))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        import traceback
        res = dict(error='%s: %s' % (type(e).__name__, str(e)[:500]), tb=traceback.format_exc()[-2500:])
    res['functions'] = sorted(seen) + (mod.used_functions() if hasattr(mod, 'used_functions') else [])
    return i, res


def run_replay(jobs, mode, timeout, procs=1):
    """concrete runs in fresh processes; returns a list of results (None where a run gave no answer)"""
    if not jobs:
        return []
    scratch = tempfile.mkdtemp(prefix='symx_')
    try:
        chunks = [list(range(k, len(jobs), procs)) for k in range(procs)]
        chunks = [c for c in chunks if c]
        ps = []
        for k, ch in enumerate(chunks):
            jf, of = os.path.join(scratch, 'j%d.json' % k), os.path.join(scratch, 'o%d.json' % k)
            json.dump([jobs[x] for x in ch], open(jf, 'w'))
            env = dict(os.environ, NUMBA_CACHE_DIR=os.path.join(scratch, 'nb%d' % k), PYTHONDONTWRITEBYTECODE='1',
                       MPLBACKEND='Agg', TZ='UTC', PYTHONHASHSEED='0', SYMX_REPLAY=mode, OMP_NUM_THREADS='1',
                       MPLCONFIGDIR=os.path.join(scratch, 'mpl'), OPENBLAS_NUM_THREADS='1',
                       PYTHONPATH=ROOT)
            env.pop('NUMBA_DISABLE_JIT', None)
            if mode == 'boundscheck':
                env['NUMBA_BOUNDSCHECK'] = '1'
            if mode == 'py':
                env['NUMBA_DISABLE_JIT'] = '1'
            errf = open(os.path.join(scratch, 'e%d' % k), 'w')
            p = subprocess.Popen([PY, '-m', 'symx.replay', jf, of], env=env, cwd=ROOT, stdout=errf,
                                 stderr=subprocess.STDOUT)
            ps.append((p, ch, of, errf))
        end = time.time() + timeout
        out = [None] * len(jobs)
        for p, ch, of, errf in ps:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            errf.close()
            if os.path.exists(of):
                try:
                    rs = json.load(open(of))
                except ValueError:
                    rs = []
                for x, r in zip(ch, rs):
                    out[x] = r
                if p.returncode not in (0, None) and len(rs) < len(ch) and p.returncode != -9:
                    out[ch[len(rs)]] = dict(fail=[], exc='process died with %s' % p.returncode, skip=False, n=0)
            elif os.environ.get('SYMX_DEBUG'):
                print(open(errf.name).read()[-3000:])
        return out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def reproduced(r):
    return r is not None and not r['skip'] and bool(r['fail'] or r['exc'])


def main(argv=None):
    argv = argv if argv is not None else sys.argv[1:]
    check = argv[0]
    only = argv[1] if len(argv) > 1 else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from . import load
    vbt = load.load()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module('checks.' + check)
    prop = mod.PROPERTY
    if getattr(mod, 'sym_setup', None):
        mod.sym_setup(vbt)
    tasks = mod.tasks(tier)
    if only:
        tasks = [t for t in tasks if only in json.dumps(t, default=str)]
    total = getattr(mod, 'BUDGET', {}).get(tier, 150 if tier == 'quick' else 700)
    end = t0 + total
    hard_end = end + 45
    _G.update(mod=mod, vbt=vbt)
    load_s = time.time() - t0
    results = [None] * len(tasks)
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].get('weight', 1))
    ctx = mp.get_context('fork')
    nv = 0
    if NPROC > 1 and len(tasks) > 1:
        pool = ctx.Pool(min(NPROC, len(tasks)), maxtasksperchild=40)
        it = pool.imap_unordered(_worker, [(i, tasks[i], end) for i in order], chunksize=1)
        pending = len(tasks)
        while pending:
            try:
                i, r = it.next(timeout=max(1, hard_end - time.time()))
            except mp.TimeoutError:
                break
            results[i] = r
            pending -= 1
            if r.get('violations'):
                nv += 1
                if os.environ.get('SYMX_FAST'):
                    # campaigns of planted mutants: the first candidate counts, nothing is replayed
                    kn = load_known(prop)
                    vs = [v for v in r['violations'] if not match_known(kn, dict(task=task_name(tasks[i]), label=v['label']))]
                    if vs:
                        print('FAST', task_name(tasks[i]), vs[0]['label'][:200], vs[0]['inputs'])
                        pool.terminate()
                        return 1
                if nv >= 6 and tier == 'quick' and not os.environ.get('SYMX_ALL'):
                    break
        pool.terminate()
        pool.join()
    else:
        for i in order:
            results[i] = _worker((i, tasks[i], end))[1]
    explore_s = time.time() - t0 - load_s
    if os.environ.get('SYMX_FAST') and not any(r and r.get('noenc_inputs') for r in results):
        bad = [task_name(t) for t, r in zip(tasks, results) if r is None or r.get('error') or not r['complete'] or r['undecided']]
        print('FAST held', len(tasks), 'tasks; open:', bad[:6])
        return 0

    # ---- aggregate ----
    agg = dict(paths=0, aborted=0, obligations=0, discharged=0, undecided=0, decisions=0, queries=0, solver_s=0.0,
               feas_unknown=0, complete=0, incomplete=0, errors=0, raised=0)
    noenc, functions, unknown_labels, incomplete = {}, set(), {}, []
    cands, wits, open_, per_task, vacuous = [], [], [], [], []
    for i, (t, r) in enumerate(zip(tasks, results)):
        name = task_name(t)
        if r is None:
            agg['incomplete'] += 1
            incomplete.append(name + ': not started or killed')
            continue
        if r.get('error'):
            agg['errors'] += 1
            incomplete.append(name + ': ' + r['error'])
            if os.environ.get('SYMX_DEBUG'):
                print(r['tb'])
            continue
        for k in ('paths', 'aborted', 'obligations', 'discharged', 'undecided', 'raised'):
            agg[k] += r[k]
        for k in ('decisions', 'queries', 'feas_unknown'):
            agg[k] += r['stats'][k]
        agg['solver_s'] += r['stats']['solver_s']
        if r['complete']:
            agg['complete'] += 1
        else:
            agg['incomplete'] += 1
            incomplete.append(name + ': stopped after %d paths' % r['paths'])
        if r['complete'] and not r['reached'] and not r['violations'] and not r['not_encodable']:
            vacuous.append(name)
        for k, v in r['not_encodable'].items():
            noenc[k] = noenc.get(k, 0) + v
        for k, v in r['unknown_labels'].items():
            kk = name + ' ' + k
            unknown_labels[kk] = unknown_labels.get(kk, 0) + v
        functions.update(r['functions'])
        for v in r['violations']:
            cands.append(dict(check=check, fn=t['fn'], cfg=t['cfg'], inputs=v['inputs'], label=v['label'], tb=v['tb'],
                              task=name))
        for w in r.get('noenc_inputs', []):
            open_.append(dict(check=check, fn=t['fn'], cfg=t['cfg'], inputs=w, task=name, tb='',
                              label='a path the encoding does not follow to its end'))
        for w in r['witnesses']:
            wits.append(dict(check=check, fn=t['fn'], cfg=t['cfg'], inputs=w, task=name))
        per_task.append(dict(task=name, paths=r['paths'], obligations=r['obligations'], undecided=r['undecided'],
                             complete=r['complete'], secs=round(r['secs'], 2)))
    if os.environ.get('SYMX_DEBUG'):
        for p in sorted(per_task, key=lambda p: -p['secs'])[:25]:
            print('  ', p)
        for c in cands[:10 if not os.environ.get('SYMX_ALL') else 400]:
            print('CAND', c['task'], c['label'], c['inputs'])
            if c['tb']:
                print(c['tb'])

    # ---- replay counterexamples on the real build ----
    known = load_known(prop)
    confirmed, knownhits, unreproduced = [], [], []
    if cands:
        # different labels / tasks first
        seen, uniq, rest = set(), [], []
        for c in cands:
            k = (c['task'], c['label'].split('[')[0])
            (rest if k in seen else uniq).append(c)
            seen.add(k)
        todo = (uniq + rest)[:16]
        pending = todo
        for mode in ('jit', 'boundscheck', 'py'):
            if not pending:
                break
            sel = pending if mode == 'jit' else [
                c for c in pending if 'uninit' in c['label'].lower() or 'IndexError' in c['label'] or 'exception' in c['label']]
            rs = run_replay([{k: c[k] for k in ('check', 'fn', 'cfg', 'inputs')} for c in sel], mode, 240,
                            procs=min(4, len(sel)))
            nxt = []
            for c, r in zip(sel, rs):
                if reproduced(r):
                    c['mode'] = mode
                    c['observed'] = r
                    kf = match_known(known, c)
                    (knownhits if kf else confirmed).append((c, kf))
                else:
                    c['observed'] = r
                    nxt.append(c)
            pending = [c for c in pending if c in nxt or c not in sel]
            if confirmed:
                break
        unreproduced = [c for c in pending]
    # ---- paths that left the encodable subset: the solver's inputs for them are run on the real build; only a failure counts ----
    if open_ and not confirmed:
        # one per task first
        first, more, seen = [], [], set()
        for c in open_:
            (more if c['task'] in seen else first).append(c)
            seen.add(c['task'])
        todo = (first + more)[:24]
        rs = run_replay([{k: c[k] for k in ('check', 'fn', 'cfg', 'inputs')} for c in todo], 'jit', 120, procs=min(4, len(todo)))
        for c, r in zip(todo, rs):
            if reproduced(r):
                c.update(mode='jit', observed=r)
                kf = match_known(known, c)
                (knownhits if kf else confirmed).append((c, kf))
    # ---- validate the encoding: witnesses of explored paths on the JIT build ----
    nval = getattr(mod, 'VALIDATE', {}).get(tier, 24 if tier == 'quick' else 80)
    validated, mism, vsamples, val_s = 0, [], [], 0.0
    if not confirmed and wits and nval and not only:
        step = max(1, len(wits) // nval)
        sel = wits[(seed - 1) % step::step][:nval]
        tv = time.time()
        rs = run_replay([{k: c[k] for k in ('check', 'fn', 'cfg', 'inputs')} for c in sel], 'jit',
                        getattr(mod, 'VALIDATE_S', {}).get(tier, 100 if tier == 'quick' else 180), procs=getattr(mod, 'VALIDATE_PROCS', 4))
        val_s = time.time() - tv
        for c, r in zip(sel, rs):
            if r is None or r['skip']:
                continue
            if reproduced(r):
                mism.append(dict(task=c['task'], inputs=c['inputs'], fail=r['fail'][:3], exc=r['exc']))
            else:
                validated += 1
                if len(vsamples) < 6:
                    vsamples.append(dict(task=c['task'], inputs=c['inputs'], result='real build agrees with the specification'))
    wall = time.time() - t0
    agg['undecided'] += len(unreproduced)
    cov = dict(
        states=agg['paths'], transitions=agg['decisions'], traces_validated_against_impl=validated,
        samples=vsamples or [dict(task=w['task'], inputs=w['inputs']) for w in wits[:6]],
        exhaustive=(agg['incomplete'] == 0 and agg['errors'] == 0 and agg['undecided'] == 0 and not noenc),
        explanation='states = feasible symbolic execution paths of the real code, each covering all values that satisfy its path '
                    'condition; transitions = branch decisions put to the solver; every obligation is the negated property on one '
                    'path, decided by z3 (discharged = unsat or identical terms).',
        harness_instances=len(tasks), harness_instances_complete=agg['complete'], harness_instances_incomplete=incomplete[:40],
        obligations=agg['obligations'], obligations_discharged=agg['discharged'], obligations_undecided=agg['undecided'],
        undecided_labels=unknown_labels, not_encodable=noenc, infeasible_paths_pruned=agg['aborted'],
        solver_queries=agg['queries'], solver_s=round(agg['solver_s'], 2), feasibility_unknown=agg['feas_unknown'],
        vacuous_instances=vacuous, encoding_validation_mismatches=mism[:10],
        functions_encoded=sorted(functions), bounds=getattr(mod, 'BOUNDS', {}),
        load_s=round(load_s, 1), explore_s=round(explore_s, 1), validation_s=round(val_s, 1),
        slowest_instances=sorted(per_task, key=lambda p: -p['secs'])[:8],
        counterexamples_not_reproduced=[dict(task=c['task'], label=c['label'], inputs=c['inputs'],
                                             observed=c.get('observed')) for c in unreproduced][:5],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=COMMON_ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2),
              violations=len(confirmed))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s [%s] instances=%d complete=%d paths=%d decisions=%d obligations=%d discharged=%d undecided=%d '
          'queries=%d solver=%.1fs validated=%d wall=%.1fs (load %.1f explore %.1f validate %.1f)' % (
              prop, tier, len(tasks), agg['complete'], agg['paths'], agg['decisions'], agg['obligations'],
              agg['discharged'], agg['undecided'], agg['queries'], agg['solver_s'], validated, wall, load_s, explore_s, val_s))
    for s in incomplete[:8]:
        print('INCOMPLETE', s)
    for k, v in list(noenc.items())[:8]:
        print('NOT-ENCODABLE', v, k)
    for k, v in list(unknown_labels.items())[:8]:
        print('UNDECIDED', v, k)
    for v in vacuous[:8]:
        print('VACUOUS', v)
    for m in mism[:5]:
        print('VALIDATION-MISMATCH', m)
    for kf in known:
        if kf.get('status') == 'known':
            print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    if confirmed:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for c, _ in confirmed[:4]:
            body = json.dumps({k: c[k] for k in ('check', 'fn', 'cfg', 'inputs')}, sort_keys=True)
            name = '%s_%s.json' % (prop, hashlib.sha1(body.encode()).hexdigest()[:10])
            p = os.path.join(ROOT, 'replays', name)
            json.dump(dict(c, property=prop), open(p, 'w'), indent=1, default=str)
            print('  counterexample: task=%s label=%s inputs=%s' % (c['task'], c['label'], c['inputs']))
            print('  on the real build (%s): %s %s' % (c['mode'], c['observed']['fail'][:3], c['observed']['exc'] or ''))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if unreproduced:
        for c in unreproduced[:5]:
            print('UNREPRODUCED counterexample task=%s label=%s inputs=%s observed=%s' % (
                c['task'], c['label'], c['inputs'], c.get('observed')))
            if c['tb']:
                print(c['tb'])
        # the real code does not show it: an encoding artefact, counted as undecided, not as a violation
    if agg['discharged'] == 0:
        print('NO ANSWER: nothing was decided')
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    'floats are modelled as real numbers extended with NaN and +/-inf; rounding error and overflow are outside the claim',
    'the Python source of the kernels is what is executed symbolically (Numba JIT disabled); Numba\'s translation of it is '
    'trusted, and sampled by replaying path witnesses on the compiled code',
    'z3 verdicts are trusted; unknown/timeouts are counted as undecided, never as held',
]


def task_name(t):
    return t['fn'] + '(' + ', '.join('%s=%s' % (k, v) for k, v in t['cfg'].items()) + ')'


def load_known(prop):
    p = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                e = json.loads(line)
                if e.get('property') == prop and e.get('status') == 'known':
                    out.append(e)
    return out


def match_known(known, c):
    import re
    for e in known:
        if re.search(e['task'], c['task']) and re.search(e['label'], c['label']):
            return e
    return None


if __name__ == '__main__':
    sys.exit(main())
