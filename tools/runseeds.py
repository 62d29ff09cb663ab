"""Runs a property's check against planted bugs, in a scratch copy: python3 tools/runseeds.py [--prop P] id ..."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
prop = None
extra = []
if args[:1] == ['--no-diff']:
    extra, args = args[:1], args[1:]
if args[:1] == ['--prop']:
    prop, args = args[1], args[2:]
for i in args or sorted(os.listdir(os.path.join(V, 'seeded'))):
    d = os.path.join(V, 'seeded', i)
    p = prop or json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='runseed-')
    subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/repo'], check=True)
    subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=tmp + '/repo', check=True)
    t = time.time()
    r = subprocess.run(['python3-vt', os.path.join(V, 'mirv', 'check.py'), p] + extra, cwd=V, env=dict(os.environ, MIRV_REPO=tmp + '/repo', VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
    shutil.rmtree(tmp)
    print('%-34s %s exit %d %.0fs' % (i, p, r.returncode, time.time() - t))
    for l in (r.stdout + r.stderr).splitlines():
        if not l.startswith('KNOWN') or r.returncode not in (0, 1):
            print('      ', l[:300])
    sys.stdout.flush()
