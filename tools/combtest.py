"""python3 tools/combtest.py [ids]: build and run the stable tests once on a copy of /repo with all seeded patches applied."""
import sys, os, shutil, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import copy, sh, script, S, HERE
ids = sys.argv[1:] or sorted(os.listdir(HERE + '/seeded'))
d = copy('all')
for s in ids:
    r = sh('git apply ' + (s if os.path.isfile(s) else '%s/seeded/%s/patch.diff' % (HERE, s)), cwd=d)
    if r.returncode:
        print('does not combine', s, r.stderr[-200:])
w = S + '/work'
w2 = w + '/t'
os.makedirs(w2, exist_ok=True)
r = sh('bash %s' % script('build.sh', d, w))
print('build', r.returncode, r.stderr[-300:])
t = script('test.sh', d, w)
txt = open(t).read().replace('W=' + w, 'W=' + w2)
open(t, 'w').write(txt)
sh('bash %s %s/out.json' % (t, w))
base = json.load(open('/opt/vp/BASELINE.json'))
out = json.load(open(w + '/out.json'))
def names(x):
    if isinstance(x, dict):
        return set(x.get('stable') or x.get('passed') or x.get('pass') or ())
    return set(x)
missing = sorted(names(base) - names(out))
print('stable', len(names(base)), 'missing', len(missing), missing[:12])
shutil.rmtree(S, ignore_errors=True)
