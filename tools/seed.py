"""Plant a bug: python3 tools/seed.py DEFS.py [id...]  (DEFS.py defines SEEDS = [dict(id, property, file, edits=[(old, new)],
demo, needs, breaks)]).  Each one is applied in a scratch copy of /repo; the demonstration must pass without and fail with
it, and the existing stable tests must pass with it; it is then kept under seeded/<id>."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import runpy
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def env(d):
    e = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', NUMBA_CACHE_DIR=os.path.join(d, '.nbc'), MPLBACKEND='Agg',
             OMP_NUM_THREADS='1', TZ='UTC', PYTHONHASHSEED='0', HOME='/root')
    return e


def demo(d, path):
    return subprocess.run(['bash', path], cwd=d, env=env(d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280)


def tests(d):
    xml = os.path.join(d, 'junit.xml')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '-n', os.environ.get('NPROC', '8'),
                    '--timeout=600', '-W', 'ignore', '--tb=short', '-o', 'junit_family=xunit2', '--junitxml=' + xml],
                   cwd=d, env=env(d), stdout=open(os.path.join(d, 'test.log'), 'w'), stderr=subprocess.STDOUT)
    ok = set()
    for c in ET.parse(xml).iter('testcase'):
        if not any(c.find(t) is not None for t in ('failure', 'error', 'skipped')):
            ok.add(c.get('classname') + '::' + c.get('name'))
    return sorted(STABLE - ok)


def main():
    defs = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    for s in defs:
        if want and s['id'] not in want:
            continue
        out = os.path.join(VERIF, 'seeded', s['id'])
        if os.path.exists(os.path.join(out, 'patch.diff')) and not want:
            continue
        d = tempfile.mkdtemp(prefix='sd_')
        repo = os.path.join(d, 'repo')
        try:
            subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
            st = os.path.join(d, 'stage')
            os.makedirs(st)
            with open(os.path.join(st, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\n# run with cwd = the repository\nD="$(cd "$(dirname "$0")" && pwd)"\n'
                        'export NUMBA_CACHE_DIR="$(mktemp -d)" PYTHONDONTWRITEBYTECODE=1\n'
                        'trap \'rm -rf "$NUMBA_CACHE_DIR"\' EXIT\n'
                        'PYTHONPATH="$PWD" /opt/venv/bin/python "$D/demo.py"\n')
            with open(os.path.join(st, 'demo.py'), 'w') as f:
                f.write(s['demo'].lstrip('\n'))
            r0 = demo(repo, os.path.join(st, 'demo.sh'))
            if r0.returncode != 0:
                print(s['id'], 'DEMO FAILS ON CLEAN', r0.stdout[-1500:], flush=True)
                continue
            for ed in s['edits']:
                file, old, new = ed if len(ed) == 3 else (s['file'],) + tuple(ed)
                p = os.path.join(repo, file)
                src = open(p).read()
                n = src.count(old)
                if n != 1:
                    print(s['id'], 'EDIT MATCHES %d TIMES' % n, old[:80], flush=True)
                    raise KeyError
                open(p, 'w').write(src.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
            r1 = demo(repo, os.path.join(st, 'demo.sh'))
            if r1.returncode == 0:
                print(s['id'], 'DEMO PASSES WITH PATCH', flush=True)
                continue
            bad = tests(repo)
            if bad:
                print(s['id'], 'TESTS FAIL', len(bad), bad[:4], flush=True)
                continue
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            for n in ('demo.sh', 'demo.py'):
                shutil.copy(os.path.join(st, n), out)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            print(s['id'], 'KEPT', flush=True)
        except KeyError:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
