"""Writes MANIFEST.json for the properties that have a check."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = ('Exploration: the real library runs on a seeded, stratified workload; every observed result is compared with '
        'an independent numpy float64 model (or the stated invariant) within a running error bound. Trusts numpy, '
        'the model in vt/ref.py and the TensorFlow kernels; inputs outside the generated ranges are not covered.')
checks = []
for p in props:
    f = os.path.join(ROOT, 'props', p['id'].lower() + '.py')
    if not os.path.exists(f):
        continue
    cmd = '/opt/venv/bin/python check.py ' + p['id']
    doc = open(f).read().split('"""')[1].split('\n')[0]
    checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd,
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'runtime monitoring: reference-model and invariant monitors on seeded workloads (%s)'
                                % doc.split(': ', 1)[1].rstrip('.'),
                   'level': 'exploration', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import numpy, tensorflow"', 'checks': checks,
     'not_applicable': [],
     'notes': 'No hooks in /repo are needed: all monitors observe public results, cores, arguments and TensorFlow op '
              'callbacks from outside. Violations write evidence/replay/*.json; re-run with check.py --replay FILE.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
