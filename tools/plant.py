"""plant.py ID PROP FILE: make seeded/<ID> from a spec file defining EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source).
Validates in a scratch copy of /repo: the demo passes without and fails with the change; with --tests also runs the stable tests."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID, PROP = spec['ID'], spec['PROP']
W = '/tmp/plant-' + ID
subprocess.run(['rm', '-rf', W]); subprocess.run(['cp', '-a', '/repo', W], check=True)
for f, old, new in spec['EDITS']:
    p = os.path.join(W, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
d = os.path.join(H, 'seeded', ID); os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings; warnings.filterwarnings("ignore")\n' + spec['DEMO'].lstrip('\n'))
open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=agg SDL_VIDEODRIVER=dummy PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
json.dump(dict(property=PROP, needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
b = subprocess.run(['bash', d + '/demo.sh'], cwd=W, capture_output=True, text=True)
print(ID, 'demo clean', a.returncode, 'patched', b.returncode, '' if a.returncode == 0 else a.stderr[-800:], b.stderr.strip().splitlines()[-1:] )
ok = a.returncode == 0 and b.returncode != 0
if '--tests' in sys.argv:
    env = dict(os.environ, PYTHONPATH='/opt/vp/plugin:' + W, PATH='/opt/venv/bin:' + os.environ['PATH'], MPLBACKEND='agg', SDL_VIDEODRIVER='dummy', OMP_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    x = '/tmp/plant-' + ID + '.xml'
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'leap_stable_ids', '-m', 'not stochastic', '--timeout=300', '-x' if 0 else '-q',
                    '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + x], cwd=W, env=env, capture_output=True)
    o = '/tmp/plant-' + ID + '.json'
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', o, 'junit:' + x])
    base = json.load(open('/opt/vp/BASELINE.json')); r = json.load(open(o))
    passed = set(r.get('passed', r.get('pass', [])))
    bl = base.get('passed') or base.get('stable') or base
    miss = [t for t in (bl if isinstance(bl, list) else list(bl)) if t not in passed]
    print(ID, 'stable tests lost:', miss[:8], len(miss))
    ok = ok and not miss
    for q in (x, o): os.path.exists(q) and os.unlink(q)
subprocess.run(['rm', '-rf', W])
print(ID, 'OK' if ok else 'BAD')
