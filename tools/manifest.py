"""Regenerate MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i + '.py')):
        n = NOTES.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': f'bash run.sh {i} quick',
            'thorough_cmd': f'bash run.sh {i} thorough',
            'technique': 'property-based testing (Hypothesis): ' + n.get(
                'technique', 'generated inputs against an explicit oracle'),
            'level': 'exploration',
            'level_note': n.get('note', '') + (' ' if n.get('note') else '') +
            'Random search with shrinking: no violation on the generated '
            'cases, within rounding-level tolerances unless stated; trusts '
            'numpy/scipy/numba and the oracle in checks/%s.py.' % i})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks: the checks import /repo/wake_t directly (pure Python '
     '+ numba), with the on-disk numba cache disabled.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
