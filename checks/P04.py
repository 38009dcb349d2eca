"""P04: pruner configuration is validated and not modified."""
import os
from sa.framework import parallel
from sa.interp import State, K, T, Tup, Ref, Bi, NONE, Dead, Cls, Fn
from sa.arr import Arr, Unk, NoShape
from checks.P01 import Bench as P01Bench
from sa.modules import fresh
from sa.repo import AnalysisBroken

TITLE = 'pruner configuration is validated and not modified'
EXPLANATION = ('Abstract interpretation of the constructor of every pruner class on a traced graph of two layers for enumerated configurations: each required option left out, each option of another type, '
               'values on both sides of every bound, unknown names, each option given and left out. An invalid configuration ends in an exception with every parameter of the model as it was; a valid one '
               'is accepted and the pruner holds the given values, the documented defaults for the options left out; the configuration object holds the same entries as before.')
P = 'tinynn.prune.'
METRICS = ('random', 'l1_norm', 'l2_norm', 'fpgm')


class Opt:
    """an option: valid values, invalid values, value when it is left out"""
    def __init__(self, name, good, bad, required=False, default=None, attr=None):
        self.name, self.good, self.bad, self.required, self.default, self.attr = name, good, bad, required, default, attr or name


ABSENT = object()
SPARSITY = Opt('sparsity', [0.25, {'default': 0.5}, {'default': 0.5, 'conv': 0.25}, {'conv': 0.25, 'last': 0.5, 'default': 0.0}, 0.0, 1.0],
               ['0.5', [0.5], None, 1, {'conv': 0.25}, {}, 1.5, -0.25, {'default': 1.5}, {'default': 0.5, 'conv': -0.5}], True)
COMMON = [Opt('metrics', list(METRICS), ['l3_norm', '', 3, None, ['l2_norm']], True),
          Opt('skip_last_fc', [True, False], ['no', 1.5, None], default=True),
          Opt('bn_compensation', [True, False], ['no', 2.5], default=False),
          Opt('exclude_ops', [[], ['conv'], ['a', 'b']], ['conv', 3], default=[]),
          Opt('multiple', [4, 8], [4.0, '4'], default=None)]
ADMM = [Opt('admm_iterations', [1, 7], [0, -1, 1.5, '3'], True), Opt('admm_epoch', [1, 2], [0, -1, 2.0], True),
        Opt('rho', [0.5, 0.001, 0.999], [0.0, 1.0, -0.5, 1.5, '0.5'], True), Opt('admm_lr', [0.5, 0.001, 0.999], [0.0, 1.0, -0.5, 1.5, None], True),
        Opt('admm_save_freq', [2, 5], ['2', 2.5], default=1), Opt('admm_valid_freq', [2, 5], ['2', 2.5], default=1), Opt('admm_dir', ['x/'], [3], default='admm_train/')]
NET = [Opt('budget_type', ['flops'], ['bytes', 'weights', 'latency', 3, ''], True),
       Opt('netadapt_max_iter', [1, 50], [0, -1, 2.5, '5'], True),
       Opt('budget_reduce_rate_init', [0.0, 0.5, 1.0], [-0.25, 1.25, 1, '0.5'], True), Opt('budget_reduce_rate_decay', [0.0, 0.5, 1.0], [-0.25, 1.25, 1, '0.5'], True),
       Opt('netadapt_lr', [0.5, 0.001, 0.999], [0.0, 1.0, -0.5, '0.1'], True), Opt('netadapt_max_rounds', [-1, 0, 3], [-2, 2.5, '3'], default=-1),
       Opt('netadapt_min_feature_size', [4], ['4', 4.5], default=8), Opt('netadapt_dir', ['x/'], [3], default='netadapt_train/')]
CONTEXT = ('val_loader', 'train_loader', 'train_func', 'validate_func', 'optimizer', 'criterion')
CLASSES = [('oneshot_pruner.OneShotChannelPruner', [SPARSITY] + COMMON, {'metrics': 'l2_norm', 'sparsity': 0.5}, None),
           ('admm_pruner.ADMMPruner', [SPARSITY] + COMMON + ADMM,
            {'metrics': 'l2_norm', 'sparsity': 0.5, 'admm_iterations': 3, 'admm_epoch': 2, 'rho': 0.5, 'admm_lr': 0.25}, 'admm'),
           ('netadapt_pruner.NetAdaptPruner', COMMON[:1] + NET,
            {'metrics': 'l2_norm', 'budget_type': 'flops', 'budget_ratio': 0.5, 'netadapt_max_iter': 10, 'budget_reduce_rate_init': 0.5, 'budget_reduce_rate_decay': 0.75, 'netadapt_lr': 0.25}, 'netadapt'),
           ('identity_pruner.IdentityChannelPruner', [], {}, None)]


class Bench(P01Bench):
    def __init__(self, ctx):
        super().__init__(ctx)
        I = self.I
        I.max_rec = 6
        I.strict = True
        I.repo.add_model('verif_typ', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'models', 'typ.py'))
        for n in ('Union', 'Dict', 'List', 'Tuple', 'Set', 'Callable', 'Optional'):
            I.known_ext['typing.' + n] = I.lookup('verif_typ.' + n)
        self.trace = self.need('tinynn.graph.tracer.trace')
        self.device = self.need('tinynn.util.train_util.get_module_device')
        self.GM = self.need('tinynn.graph.modifier.GraphChannelModifier')
        self.Context = self.need('tinynn.util.train_util.DLContext')
        I.hooks.insert(0, self.phook)

    def need(self, q):
        v = self.I.lookup(q)
        if v is None:
            raise AnalysisBroken('%s not found' % q)
        return v

    def phook(self, I, st, fn, args, kwargs, node, mod):
        if fn == self.trace:
            return self.graph
        if fn == self.device:
            return NONE
        if fn == self.GM:
            return I.new_inst(st, None, {'sub_graphs': I.new_dict(st, []), 'modifiers': I.new_dict(st, []), 'graph': args[0]})
        if isinstance(fn, T) and fn.op == 'ext':
            n = fn.args[0]
            if n in ('inspect.getsource', 'pprint.pformat'):
                return K('source')
            if n == 'torch.zeros' and args:
                return NotImplemented
        return NotImplemented


def py(B, st, v):
    """python form of a value of the interpreter"""
    I = B.I
    if v is None:
        return ABSENT
    v = I.norm(st, v)
    if isinstance(v, K):
        return v.v
    if isinstance(v, Ref):
        o = I.obj(st, v)
        if o.kind == 'dict' and not o.rest:
            return {py(B, st, k): py(B, st, x) for k, x in o.items}
        if o.kind == 'list' and not o.rest:
            return [py(B, st, x) for x in o.items]
    return v


def val(B, st, v):
    I = B.I
    if isinstance(v, dict):
        return I.new_dict(st, [(K(k), val(B, st, x)) for k, x in v.items()])
    if isinstance(v, list):
        return I.new_list(st, [val(B, st, x) for x in v])
    return K(v)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class Item:
    """one configuration: user options, whether they are valid, context entries left out"""
    def __init__(self, cls, opts, cfg, why, valid, ctx=None, drop=(), none=False, rule='reject', extra=None):
        self.cls, self.opts, self.cfg, self.why, self.valid, self.ctx, self.drop, self.none, self.extra = cls, opts, cfg, why, valid, ctx, drop, none, extra or {}
        self.rule = 'accept' if valid else 'reject'

    def name(self):
        return '%s: %s' % (self.cls.split('.')[-1], self.why)


def items():
    r = []
    for cls, opts, base, pre in CLASSES:
        ctx = pre and CONTEXT
        add = lambda cfg, why, valid, **kw: r.append(Item(cls, opts, cfg, why, valid, ctx, **kw))
        if cls.endswith('IdentityChannelPruner'):
            add(None, 'no configuration', True)
            for cfg in ({}, {'multiple': 8}, {'metrics': 'l1_norm'}, {'sparsity': 0.25}, {'exclude_ops': ['a']}, {'sparsity': {'default': 0.5}}):
                add(cfg, 'configuration %r' % cfg, True)
            for cfg in ({'metrics': 'l3_norm'}, {'multiple': '8'}, {'exclude_ops': 3}):
                add(cfg, 'configuration %r' % cfg, False)
            continue
        add(base, 'the required options only', True)
        for o in opts:
            for v in o.good:
                add(dict(base, **{o.name: v}), '%s = %r' % (o.name, v), True)
            for v in o.bad:
                add(dict(base, **{o.name: v}), '%s = %r' % (o.name, v), False)
            if o.required:
                add({k: v for k, v in base.items() if k != o.name}, 'without %s' % o.name, False)
        if pre != 'netadapt':
            for d in (0.25, {'default': 0.25}, {'default': 0.25, 'conv': 0.75}, {'default': 0.25, 'last': 0.25}, {'default': 0.25, 'last': 0.5}):
                for s in (True, False, ABSENT):
                    cfg = dict(base, sparsity=d)
                    if s is not ABSENT:
                        cfg['skip_last_fc'] = s
                    add(cfg, 'sparsity = %r, skip_last_fc %s' % (d, 'left out' if s is ABSENT else s), True)
        add(dict(base, unknown_option=3), 'an unknown option', True)
        good = {o.name: o.good[-1] for o in opts}
        add(dict(base, **good), 'every option', True)
        if pre:
            for c in CONTEXT:
                add(base, 'no %s in the context' % c, False, drop=(c,))
            for c in ('optimizer', 'criterion'):
                add(dict(base, **{c: 'obj_' + c}), '%s in the configuration' % c, True, drop=(c,), extra={c: 'obj_' + c})
                add(dict(base, **{pre + '_' + c: 'obj_' + c}), '%s_%s in the configuration' % (pre, c), True, extra={c: 'obj_' + c})
                add(dict(base, **{pre + '_' + c: 'obj_' + c, c: 'other'}), '%s_%s and %s in the configuration' % (pre, c, c), True, extra={c: 'obj_' + c})
        if pre == 'netadapt':
            nob = {k: v for k, v in base.items() if k != 'budget_ratio'}
            add(nob, 'neither budget nor budget_ratio', False)
            add(dict(base, budget=100), 'both budget and budget_ratio', False)
            for v in (0, 100):
                add(dict(nob, budget=v), 'budget = %r' % v, True)
            for v in (-1, 2.5, '3'):
                add(dict(nob, budget=v), 'budget = %r' % v, False)
            for v in (0.0, 1.0, 0.25):
                add(dict(nob, budget_ratio=v), 'budget_ratio = %r' % v, True)
            for v in (-0.5, 1.5, 1, '0.5'):
                add(dict(nob, budget_ratio=v), 'budget_ratio = %r' % v, False)
    # names of the module of the metrics that are not metrics
    for n in ('torch', 'is_dw_conv'):
        r.append(Item(CLASSES[0][0], CLASSES[0][1], {'metrics': n, 'sparsity': 0.5}, 'metrics = %r' % n, False))
    return r


def state(B, st, ms):
    return [{k: v for k, v in B.attrs(st, m).items()} for m in ms]


def case(item):
    B, it = item
    I = B.I
    st = State()
    cls = B.need(P + it.cls)
    where = '%s:%d %s' % (I.repo.module(cls.mod).rel(), cls.node.lineno, cls.node.name)
    bad, und = [], []
    try:
        conv, last = B.make(st, 'Conv2d', 3, 8, 3), B.make(st, 'Linear', 8, 10)
        x, y, z = [fresh(n, s) for n, s in (('x', (1, 3, 4, 4)), ('y', (1, 8, 2, 2)), ('z', (1, 10)))]
        nodes = [B.node(st, conv, [x], [y], 'conv'), B.node(st, last, [y], [z], 'last')]
        B.graph = I.new_inst(st, None, {'forward_nodes': I.new_list(st, nodes), 'inited': K(True)})
        model = I.new_inst(st, B.need('verif_typ.Model'), {'conv': conv, 'last': last})
        before = state(B, st, (conv, last))
        cfg = K(None) if it.cfg is None else val(B, st, it.cfg)
        args = [model, x, cfg]
        if it.ctx:
            c = I.norm(st, I.call(st, B.Context, [], {}, None, None))
            o = I.obj(st, c)
            I.put(st, c, o.but(attrs=dict(o.attrs, **{k: K('ctx ' + k) if k not in it.drop else NONE for k in it.ctx})))
            args.append(c)
        try:
            p = I.norm(st, I.call(st, cls, args, {}, None, None))
            ok, exc = True, None
        except Dead as d:
            ok, exc = False, str(getattr(d, 'exc', d))[:160]
        if ok and not isinstance(p, Ref):
            raise Unk('the constructor returns %s' % p)
        if ok != it.valid:
            bad.append('the configuration is invalid, yet accepted' if ok else 'a valid configuration is rejected: %s' % exc)
        if not ok and state(B, st, (conv, last)) != before:
            bad.append('the model is changed although the configuration is rejected')
        if it.cfg is not None and not same(py(B, st, cfg), it.cfg):
            bad.append('the configuration object becomes %r' % (py(B, st, cfg),))
        if ok and it.valid and it.opts:
            holds(B, st, it, p, bad)
    except Dead as d:
        bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape) as u:
        und.append(str(u)[:200])
    return {'rule': it.rule, 'where': where, 'name': it.name(), 'bad': bad, 'und': und, 'analysed': sorted(map(str, I.analysed))}


def holds(B, st, it, p, bad):
    """the pruner holds the given options and the defaults of the others"""
    I = B.I
    at = I.obj(st, p).attrs
    for o in it.opts:
        got = py(B, st, at.get(o.name))
        if o.name == 'metrics':
            want = I.lookup('tinynn.graph.modifier.' + it.cfg['metrics'])
            got = I.norm(st, at['metric_func']) if 'metric_func' in at else None
            if got != want:
                bad.append('the importance is %s for metrics = %s' % (got, it.cfg['metrics']))
            continue
        if o.name == 'sparsity':
            s = it.cfg['sparsity']
            d = s if isinstance(s, float) else s['default']
            want = {n: (s[n] if isinstance(s, dict) and n in s else d) for n in ('conv', 'last')}
            if it.cfg.get('skip_last_fc', True) and not (isinstance(s, dict) and 'last' in s):
                want['last'] = 0.0
            if not isinstance(got, dict) or any(not same(got.get(k), v) for k, v in want.items()):
                bad.append('the sparsity of the layers is %r instead of %r' % (got, want))
            continue
        want = it.cfg.get(o.name, o.default)
        if o.name == 'exclude_ops' and isinstance(got, list):
            got = [g for g in got if g != 'weight']
        if not same(got, want):
            bad.append('%s is %r instead of %r' % (o.name, 'missing' if got is ABSENT else got, want))
    if it.ctx:
        c = I.norm(st, at['context']) if 'context' in at else None
        ca = I.obj(st, c).attrs if isinstance(c, Ref) else {}
        for k in CONTEXT:
            want = K(it.extra[k]) if k in it.extra else K('ctx ' + k)
            if k not in ca or I.norm(st, ca[k]) != want:
                bad.append('%s of the context is %s instead of %s' % (k, ca.get(k), want))


def dispatch(x):
    return case(x)


def run(ctx):
    ctx.rule('accept', 'a valid configuration is accepted, the pruner holds its options and the defaults of the others', 40)
    ctx.rule('reject', 'an invalid configuration is rejected with an error before the model is changed', 40)
    B = Bench(ctx)
    for r in parallel([(B, it) for it in items()], dispatch):
        ctx.analysed |= set(r['analysed'])
        ctx.ob(r['rule'], r['name'])
        if r['bad']:
            ctx.finding(r['rule'], r['name'], r['where'], r['bad'][0])
        elif r['und']:
            ctx.skip(r['name'], r['und'][0])
