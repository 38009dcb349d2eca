"""Shared plumbing of the checks: findings, obligations, evidence, known findings, exit codes."""
import json, os, sys, time, traceback, collections
from .repo import Repo, AnalysisBroken, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, construct, where, msg, path=()):
        self.rule, self.construct, self.where, self.msg, self.path = rule, construct, where, msg, list(path)

    def key(self):
        return (self.rule, self.construct)

    def text(self):
        return '%s: [%s] %s: %s' % (self.where, self.rule, self.construct, self.msg)


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == 'thorough'
        self.repo = Repo()
        self.findings = {}
        self.obs = collections.OrderedDict()      # rule -> list of instances
        self.analysed = set()
        self.notes = []
        self.skipped = []
        self.rules = {}
        self.minimum = {}
        self.t0 = time.time()

    def rule(self, name, text, minimum=1):
        """declare a rule: what is checked and how many instances must at least be examined"""
        self.rules[name] = text
        self.minimum[name] = minimum
        self.obs.setdefault(name, [])

    def ob(self, rule, instance):
        self.obs.setdefault(rule, []).append(str(instance))

    def finding(self, rule, construct, where, msg, path=()):
        f = Finding(rule, str(construct), where, msg, path)
        self.findings.setdefault(f.key(), f)

    def expect(self, cond, rule, construct, where, msg, instance=None):
        """one obligation; reports when it does not hold"""
        self.ob(rule, instance or construct)
        if not cond:
            self.finding(rule, construct, where, msg() if callable(msg) else msg)
        return bool(cond)

    def skip(self, what, why):
        self.skipped.append((str(what), str(why)[:300]))

    def note(self, s):
        self.notes.append(s)

    def interp(self, **kw):
        from .interp import Interp
        it = Interp(self.repo, **kw)
        it._ctx = self
        return it

    def use(self, interp):
        self.analysed |= set(interp.analysed)


def parallel(items, fn, jobs=None):
    """[fn(x) for x in items] in forked workers; results must be picklable"""
    import pickle
    items = list(items)
    jobs = min(jobs or max(1, min(8, os.cpu_count() or 1)), max(1, len(items)))
    if jobs == 1:
        return [fn(x) for x in items]
    sys.stdout.flush()
    kids = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                res = []
                for i in range(j, len(items), jobs):
                    try:
                        res.append((i, True, fn(items[i])))
                    except AnalysisBroken as e:
                        res.append((i, False, str(e)))
                    except Exception:
                        res.append((i, None, traceback.format_exc()[-1200:]))
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
            except BaseException:
                code = 1
            os._exit(code)
        os.close(w)
        kids.append((pid, r))
    out = [None] * len(items)
    done = 0
    err = None
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        for i, ok, v in (pickle.loads(data) if data else []):
            done += 1
            if ok:
                out[i] = v
            else:
                err = (ok, v, items[i])
    if err:
        if err[0] is False:
            raise AnalysisBroken(err[1])
        raise RuntimeError('%s\nwhile analysing %s' % (err[1], str(err[2])[:300]))
    if done != len(items):
        raise RuntimeError('a worker died')
    return out


def load_table(name):
    p = os.path.join(HERE, 'tables', name)
    with open(p) as f:
        return json.load(f)


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('known', []) if k['property'] == pid]


def run_check(pid, title, fn, tier, level='other', explanation=''):
    sys.setrecursionlimit(20000)
    t0 = time.time()
    ctx = Ctx(pid, tier)
    fn(ctx)
    for r, m in ctx.minimum.items():
        if len(ctx.obs.get(r, ())) < m:
            raise AnalysisBroken('rule %s of %s examined only %d instances (at least %d expected): %s'
                                 % (r, pid, len(ctx.obs.get(r, ())), m, ctx.obs.get(r, ())[:5]))
    known = {(k['rule'], k['construct']): k for k in known_findings(pid)}
    hits, new = [], []
    for k, f in ctx.findings.items():
        (hits if k in known else new).append(f)
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    n = sum(len(v) for v in ctx.obs.values())
    distinct = sum(len(set(v)) for v in ctx.obs.values())
    samples = []
    for r, v in ctx.obs.items():
        for x in sorted(set(v))[:4]:
            samples.append('%s: %s' % (r, x))
    cov = {
        'explanation': explanation,
        'evaluations': n,
        'distinct_nontrivial': distinct,
        'rule': 'obligations generated from the current source; distinct = different constructs/instances per rule',
        'samples': samples[:40],
        'rules': [{'rule': r, 'text': t, 'instances': len(ctx.obs.get(r, ())),
                   'distinct': len(set(ctx.obs.get(r, ())))} for r, t in ctx.rules.items()],
        'functions_analysed': len(ctx.analysed),
        'functions_sample': sorted(map(str, ctx.analysed))[:25],
        'not_analysed': ['%s: %s' % s for s in ctx.skipped][:200],
        'known_findings_seen': [f.text() for f in hits],
        'notes': ctx.notes[:60],
        'source_digest': ctx.repo.digest(),
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s (%s): %d obligations over %d constructs, %d functions analysed, %.1f s'
          % (pid, title, n, distinct, len(ctx.analysed), time.time() - t0))
    for r in ctx.rules:
        print('  rule %-34s %4d instances' % (r, len(ctx.obs.get(r, ()))))
    for s in ctx.skipped[:15]:
        print('  not analysed: %s: %s' % s)
    for f in hits:
        print('KNOWN-FINDING: property=%s %s' % (pid, f.text()))
    if new:
        rp = os.path.join(evdir, pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump([{'rule': x.rule, 'construct': x.construct, 'where': x.where, 'message': x.msg, 'path': x.path}
                       for x in new], f, indent=1)
        for x in new[:60]:
            print(x.text())
            for p in x.path[:12]:
                print('      via %s' % p)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    rp = os.path.join(evdir, pid + '.violations.json')
    if os.path.exists(rp):
        os.unlink(rp)
    return 0


def main(argv):
    import importlib, argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    a = ap.parse_args(argv)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def go():
        try:
            m = importlib.import_module('checks.' + a.property)
            out.append(run_check(a.property, m.TITLE, m.run, a.tier, getattr(m, 'LEVEL', 'other'), m.EXPLANATION))
        except AnalysisBroken as e:
            print('ANALYSIS BROKEN: %s' % e)
            out.append(3)
        except Exception:
            traceback.print_exc()
            out.append(4)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    return out[0] if out else 5
