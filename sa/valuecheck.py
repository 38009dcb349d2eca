"""judging a list of scenes (sa/scenes.py) by value"""
import time
from .framework import parallel
from .sem import VScene
from .arr import NoShape
from .topo import Undecided
from .interp import K


def work(item):
    B, (pas, tag, what, build, kw), limit = item
    res = {'runs': 0, 'edits': 0, 'bad': [], 'und': [], 'dead': [], 'ok': 0}
    t0 = time.time()

    def mk():
        s = VScene(B, {k: K(v) for k, v in kw.get('opts', {}).items()})
        build(s)
        s.before_vals = B.values(s, [x.v for x in s.items(s.get(s.cg, 'outputs'))])
        return s
    try:
        for s, fin, made, complete in B.explore(mk, lambda s: s.run(pas, *[K(a) for a in kw.get('args', ())]), limit):
            res['runs'] += 1
            if fin is None:
                res['und'].append(s.undecided)
                continue
            if not fin:
                res['dead'].append(str(s.dead.exc)[:200])
                continue
            try:
                bad = B.compare(s, s.before_vals)
                after = s.snapshot()
                res['edits'] += after['e'] != s.before['e'] or {n: d['ins'] for n, d in after['v'].items()} != {n: d['ins'] for n, d in s.before['v'].items()}
            except Undecided as u:
                res['und'].append(str(u))
                continue
            res['ok'] += 1
            facts = ['%s%s' % ('' if v else 'not ', str(a)[:120]) for a, v, f in made]
            res['bad'] += [(b, facts) for b in bad]
    except Undecided as u:
        res['und'].append('scene: %s' % u)
        res['runs'] += 1
    except NoShape as u:
        if kw.get('may_fail'):
            return dict(res, sec=0, analysed=[], dropped=True)
        res['und'].append('scene: %s' % u)
        res['runs'] += 1
    res['sec'] = time.time() - t0
    res['analysed'] = sorted(map(str, B.I.analysed))
    return res


def judge_scenes(ctx, B, scenes, minimum, limit=12, rule='value', construct=None):
    ctx.rule(rule, 'after the rewrite every element of every model output is the same expression of inputs and constants as before', minimum)
    ctx.rule('rewritten', 'scenes the pass does change', max(1, minimum // 10))
    items = [(B, sc, limit) for sc in scenes]
    res = parallel(items, work)
    for (B_, (pas, tag, what, build, kw), l), r in zip(items, res):
        inst = '%s: %s' % (pas, what)
        if r.get('dropped'):
            continue
        ctx.analysed |= set(r['analysed'])
        if r['dead']:
            ctx.note('%s stops with an error: %s' % (inst, r['dead'][0]))
        if not r['ok']:
            if r['und']:
                ctx.skip(inst, r['und'][0])
            continue
        ctx.ob(rule, inst)
        if r['edits']:
            ctx.ob('rewritten', inst)
        for bad, facts in r['bad'][:3]:
            ctx.finding(rule, inst, B.line(pas), '%s %s' % (bad, facts or ''))
