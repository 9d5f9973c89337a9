#!/usr/bin/env python3
"""mkseed.py NAME PROPERTY SPEC.py : write seeded/NAME from a spec that defines
edits [(file, old, new)], demo (python text), needs, breaks."""
import json
import os
import shutil
import subprocess
import sys

name, prop, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
root = '/tmp/seed-' + name
shutil.rmtree(root, ignore_errors=True)
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
shutil.copytree('/repo', root, ignore=shutil.ignore_patterns('__pycache__'))
for path, old, new in ns['edits']:
    p = os.path.join(root, 'nodefinder', path)
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit('occurs %d times in %s: %r' % (s.count(old), path, old))
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.check_output(['git', '-C', root, 'diff'], text=True)
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', name)
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.py', 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + ns['demo'].lstrip('\n'))
open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
ok = True
r = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
print('unchanged tree: rc', r.returncode, r.stderr.strip()[-300:])
ok = ok and r.returncode == 0
r = subprocess.run(['bash', d + '/demo.sh'], cwd=root, capture_output=True, text=True)
print('patched: rc', r.returncode, (r.stdout + r.stderr).strip()[-200:])
ok = ok and r.returncode != 0
env = dict(os.environ, PYTHONPATH=root, HOME='/root', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
stable = [t.split('::') for t in json.load(open('/opt/vp/BASELINE.json'))['stable']]
r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-plot-compare', '-x'] + [t[0].replace('.', '/') + '.py::' + t[1] for t in stable], cwd=root, env=env, capture_output=True, text=True)
print('tests:', r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:])
ok = ok and r.returncode == 0
r = subprocess.run([sys.executable, os.path.join(os.path.dirname(d), '..', 'check.py'), prop], env=dict(os.environ, NODEFINDER_SRC=root), capture_output=True, text=True)
print('check: rc', r.returncode, '\n'.join(r.stdout.strip().splitlines()[-4:])[:600])
print('SEED OK' if ok else 'SEED NOT OK', 'CAUGHT' if r.returncode == 1 else 'MISSED')
shutil.rmtree(root, ignore_errors=True)
