#!/opt/venv/bin/python
"""Write MANIFEST.json from properties.jsonl and the existing checks."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'

checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if not os.path.exists(os.path.join(HERE, 'checks', f'{p.lower()}.py')):
        missing.append({'property': p, 'reason': 'no check built yet'})
        continue
    mod = importlib.import_module(f'checks.{p.lower()}')
    first = mod.__doc__.strip().splitlines()[0]
    checks.append({
        'property': p,
        'quick_cmd': f'{PY} run.py {p}',
        'thorough_cmd': f'{PY} run.py {p} --tier thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': 'runtime monitoring: ' + getattr(mod, 'TECHNIQUE', 'reference-model monitors'),
        'level': 'exploration',
        'level_note': f'{first} Holds for the generated executions observed by the monitors '
                      f'{", ".join(mod.REQUIRED)}; not a proof for all inputs.'})
manifest = {
    'version': 1,
    'setup_cmd': f'{PY} -c "import jax, sympy, numpy, flax, chex, optax, scipy"',
    'checks': checks, 'not_applicable': missing,
    'notes': 'cyjax is pure Python and is imported from the working tree of /repo by every '
             'check, so nothing has to be built. No hooks in /repo: all observation points are '
             'public functions and callables passed to them.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'not built')
