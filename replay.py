#!/opt/veriftools/pyvenv/bin/python3
"""replay.py FILE: show the failed obligations of a replay file and, when it holds
a failing input, run that input again on the real code of the current tree."""
import json
import os
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from irvc import runner

d = json.load(open(sys.argv[1]))
for o in d['failed_obligations']:
    for f in o['failed']:
        print('obligation failed: %s [%s] %s: %s  %s' % (o['function'], o['case'], f['kind'], f['obligation'], f['model']))
f = d.get('failing_input')
if not f:
    print('no failing input was found')
    sys.exit(1)
with tempfile.TemporaryDirectory(prefix='vprep_') as w:
    S = runner.Search(w, os.environ.get('VP_REPO', '/repo'), 1)
    if not S.build(f['harness']):
        print('harness does not build: %s' % S.errs[f['harness']])
        sys.exit(2)
    p = subprocess.run([S.bins[f['harness']], '--prop', f['prop'], '--seed', str(f['seed']), '--case', str(f['case'])], env=S.env(), cwd=w)
    print('exit status %d (%s)' % (p.returncode, 'the input still fails' if p.returncode else 'the input passes'))
    sys.exit(1 if p.returncode else 0)
