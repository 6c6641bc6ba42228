"""Generates MANIFEST.json from checks/ and properties.jsonl: python tools/manifest.py"""
import ast
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(ROOT, 'checks', p['id'].lower() + '.py')
    if os.path.exists(f):
        doc = ast.get_docstring(ast.parse(open(f).read()))
        checks.append(dict(
            property=p['id'], quick_cmd='/opt/venv/bin/python run.py ' + p['id'].lower(),
            thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python run.py ' + p['id'].lower(),
            evidence_file='evidence/%s.json' % p['id'],
            technique=('symbolic interpretation of the parsed Rust sources and symbolic execution of the Python sources on the same inputs, '
                       'equality decided by z3 (SMT); counterexamples replayed against the JIT build') if p['id'] == 'C37' else 'symbolic execution of the real Python source, obligations decided by z3 (SMT); counterexamples replayed on the JIT build',
            level='model_checking',
            level_note='bounded, exhaustive over all values within the bounds listed in the evidence file; floats are modelled as reals '
                       'with NaN/inf; trusts z3, the numpy/pandas model in symx/ and Numba\'s compilation (both sampled by replaying '
                       'path witnesses on the compiled code)'))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')))
json.dump(dict(version=1, setup_cmd='mkdir -p evidence replays', checks=checks, not_applicable=na,
               notes='Run from /verif. SYMX_DEBUG=1 prints per-instance details. See DESIGN.md.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
