"""Author and vet planted changes.  python3 tools/mkseed.py SPEC.py : SPEC defines SEEDS = [dict(id, property, edits=[(path,
old, new)], demo (python text), needs, breaks)].  For each seed: make the patch in a scratch copy, build, run the demo with and
without; finally run the stable tests once on a copy with all patches of the spec (they are independent)."""
import json, os, shutil, subprocess, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seed'
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def copy(name):
    d = os.path.join(S, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(S, exist_ok=True)
    sh('cp -a %s %s' % (os.environ.get('SEED_SRC', '/repo'), d))
    return d


def edit(d, edits):
    for path, old, new in edits:
        p = os.path.join(d, path)
        s = open(p).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))


def script(name, d, work):
    t = open('/opt/vp/' + name).read().replace('/repo', d).replace('/opt/vp/work', work).replace('/opt/vp/pycache', work + '/pyc')
    p = os.path.join(work, name)
    open(p, 'w').write(t)
    return p


def demo(dd, d):
    r = sh('timeout 300 bash %s/demo.sh' % dd, cwd=d)
    return r.returncode, (r.stdout + r.stderr)[-300:]


DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
export DEMO_TMP=$tmp
exec 3<&0
cd "$tmp" && /opt/venv/bin/python "$here/demo.py"
'''


def main(spec, notest=False, only=None):
    seeds = runpy.run_path(spec)['SEEDS']
    good = []
    for s in seeds:
        if only and s['id'] not in only:
            continue
        dd = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(dd, exist_ok=True)
        d = copy('one')
        edit(d, s['edits'])
        r = sh('git diff', cwd=d)
        open(dd + '/patch.diff', 'w').write(r.stdout)
        open(dd + '/demo.sh', 'w').write(DEMO)
        open(dd + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(dd + '/meta.json', 'w'), indent=1)
        a = demo(dd, '/repo')
        b = demo(dd, d)
        ok = a[0] == 0 and b[0] != 0
        print(s['id'], 'clean', a[0], 'patched', b[0], 'OK' if ok else 'BAD ' + a[1] + '\n---\n' + b[1], flush=True)
        if '-v' in sys.argv:
            print(b[1])
        if ok:
            good.append(s)
    shutil.rmtree(S + '/one', ignore_errors=True)
    if notest or not good:
        return
    d = copy('all')
    for s in good:
        r = sh('git apply %s/seeded/%s/patch.diff' % (HERE, s['id']), cwd=d)
        if r.returncode:
            print('does not combine', s['id'], r.stderr[-200:])
    w = S + '/work'
    os.makedirs(w, exist_ok=True)
    w2 = w + '/t'
    r = sh('bash %s' % script('build.sh', d, w))
    print('build', r.returncode, r.stderr[-300:])
    t = script('test.sh', d, w)
    os.makedirs(w2, exist_ok=True)
    txt = open(t).read().replace('W=' + w, 'W=' + w2)
    open(t, 'w').write(txt)
    sh('bash %s %s/out.json' % (t, w))
    base = json.load(open('/opt/vp/BASELINE.json'))
    out = json.load(open(w + '/out.json'))
    stable = base.get('stable') or base.get('passed') or base
    import re
    def names(x):
        if isinstance(x, dict):
            return set(x.get('stable') or x.get('passed') or x.get('pass') or ())
        return set(x)
    missing = sorted(names(base) - names(out))
    print('stable', len(names(base)), 'missing', len(missing), missing[:8])
    shutil.rmtree(S, ignore_errors=True)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    main(a[0], '--notest' in sys.argv, a[1:])
