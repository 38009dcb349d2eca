"""Applies each planted change (or the ones named) to a scratch copy of /repo and runs the check of its property there
(VERIF_REPO).  Prints what reported.  -a: run every check."""
import json, os, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
names = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.path.basename(d) for d in glob.glob(HERE + '/seeded/*'))
allc = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]


def one(n):
    d = '/tmp/rs/' + n
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh('git -C /repo archive HEAD tinynn | tar x -C %s' % d)
    r = sh('cd %s && patch -p1 -s < %s/seeded/%s/patch.diff' % (d, HERE, n))
    prop = json.load(open('%s/seeded/%s/meta.json' % (HERE, n)))['property']
    out = []
    for c in (allc if '-a' in sys.argv else [prop]):
        x = sh('python3 check.py %s' % c, cwd=HERE, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/ev'))
        if x.returncode != 0 or c == prop:
            msg = [l for l in x.stdout.splitlines() if l.startswith('tinynn') or 'BROKEN' in l][:2]
            out.append('%s:%s %s' % (c, {0: 'miss', 1: 'CAUGHT'}.get(x.returncode, 'ERR%d' % x.returncode), ' / '.join(m[:160] for m in msg) or x.stderr[-200:]))
    shutil.rmtree(d, ignore_errors=True)
    return n + (' PATCH FAILED' if r.returncode else '') + ' -> ' + ' | '.join(out)


with ThreadPoolExecutor(4) as ex:
    for l in ex.map(one, names):
        print(l, flush=True)
shutil.rmtree('/tmp/rs', ignore_errors=True)
