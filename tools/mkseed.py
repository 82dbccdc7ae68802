"""Write seeded/<id>/ from a definition: mkseed(id, property, [(file, old,
new[, count])], needs, breaks, demo python source)."""
import difflib
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
export WAKET_DISABLE_CACHING=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export WAKET_NUM_THREADS=1 NUMBA_NUM_THREADS=1 PYTHONPATH=$PWD
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cd "$W" && "$PY" "$D/demo.py"
'''


def mkseed(sid, prop, edits, needs, breaks, demo):
    out = os.path.join(HERE, 'seeded', sid)
    os.makedirs(out, exist_ok=True)
    patch = ''
    files = {}
    for f, old, new in edits:
        src = files.get(f) or subprocess.check_output(
            ['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True)
        assert src.count(old) == 1, (sid, f, src.count(old))
        orig = subprocess.check_output(
            ['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True)
        files[f] = src.replace(old, new)
    for f, new in files.items():
        orig = subprocess.check_output(
            ['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True)
        patch += ''.join(difflib.unified_diff(
            orig.splitlines(True), new.splitlines(True),
            'a/' + f, 'b/' + f))
    open(out + '/patch.diff', 'w').write(patch)
    open(out + '/demo.sh', 'w').write(SH)
    open(out + '/demo.py', 'w').write(demo.strip() + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(out + '/meta.json', 'w'), indent=1)
