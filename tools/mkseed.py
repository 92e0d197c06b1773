"""mkseed.py SPEC.py: SPEC defines ID, PROPERTY, EDITS [(file, old, new)...], NEEDS, BREAKS, DEMO (python source). Writes seeded/<ID>/."""
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = {}
exec(open(sys.argv[1]).read(), s)
d = os.path.join(V, 'seeded', s['ID'])
os.makedirs(d, exist_ok=True)
by_file = {}
for f, old, new in s['EDITS']:
    by_file.setdefault(f, []).append((old, new))
patch = ''
with tempfile.TemporaryDirectory() as t:
    for f, subs in by_file.items():
        p = 'src/pyg2p/' + f
        txt = open(os.environ.get('PV_REPO', '/repo') + '/' + p).read()
        for old, new in subs:
            assert txt.count(old) == 1, (f, txt.count(old), old)
            txt = txt.replace(old, new)
        n = os.path.join(t, 'new')
        open(n, 'w').write(txt)
        r = subprocess.run(['diff', '-u', '--label', 'a/' + p, '--label', 'b/' + p, os.environ.get('PV_REPO', '/repo') + '/' + p, n], capture_output=True, text=True)
        patch += r.stdout
open(os.path.join(d, 'patch.diff'), 'w').write(patch)
w = open(os.path.join(V, 'pv', 'world.py')).read()
w = w.replace("from .boot import SCRATCH, HarnessError\n", '''
import atexit
import tempfile
SCRATCH = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, SCRATCH, True)
os.environ['HOME'] = SCRATCH
os.environ['NUMBA_CACHE_DIR'] = SCRATCH + '/numba'
os.environ['TMPDIR'] = tempfile.tempdir = SCRATCH
logging.basicConfig(stream=open(os.devnull, 'w'))


class HarnessError(Exception):
    pass

''')
open(os.path.join(d, 'world.py'), 'w').write(w)
open(os.path.join(d, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0 when the property holds for this example, 1 when it does not
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec timeout 280 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
''')
json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
print(d)
