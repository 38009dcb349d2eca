"""Q04: quantisation configuration maps to legal observer settings."""
import itertools
import os
from sa.framework import parallel
from sa.interp import State, K, T, Tup, Ref, Bi, NONE, Dead, Cls, Fn
from sa.arr import Arr, Unk, NoShape, Poly
from sa.modules import Modules
from sa.repo import AnalysisBroken
from checks.P04 import py, val, same, ABSENT
from checks.Q02 import meth, clsmeth

TITLE = 'quantisation configuration maps to legal observer settings'
EXPLANATION = ('Abstract interpretation of the constructors of the quantisers and of prepare_qconfig for every combination of class, backend, symmetry, granularity, rounding, algorithm and fake-quantiser '
               'generation, over a tree of modules of every kind (torch\'s qconfig factories modelled in sa/models/tq.py). The observers that result for each module are built and their range, type, scheme, '
               'axis and class compared with the request. Unsupported combinations must raise, options left out take their defaults.')
QM = 'tinynn.graph.quantization.quantizer.'
TREE = ('Root', {'conv': ('Conv2d', {}), 'inner': ('Sequential', {'bn': ('ConvBn2d', {'0': ('Conv2d', {}), '1': ('ReLU', {})}), 'deep': ('Sequential', {'fc': ('Linear', {}), 'c1': ('Conv1d', {})}), 'act': ('ReLU', {})}),
                 'deconv': ('ConvTranspose2d', {}), 'fcr': ('LinearReLU', {'0': ('Linear', {}), '1': ('ReLU', {})}), 'relu': ('ReLU', {}), 'cr': ('ConvReLU2d', {'0': ('Conv2d', {}), '1': ('ReLU', {})}),
                 'cbr': ('ConvBnReLU2d', {}), 'cb1': ('ConvBn1d', {}), 'cbr1': ('ConvBnReLU1d', {}), 'fc': ('Linear', {})})
LINEAR = ('Linear', 'LinearReLU')
DEFAULTS = {'rewrite_graph': True, 'force_overwrite': True, 'is_input_quantized': None, 'backend': 'qnnpack', 'remove_weights_after_load': False, 'asymmetric': True, 'per_tensor': True,
            'disable_requantization_for_cat': False, 'quantized_input_stats': None, 'dynamic_lstm_quant': False, 'quantized_op_stats': None, 'set_quantizable_op_stats': False, 'rounding_mode': 'pytorch',
            'algorithm': 'l2', 'fuse_only': False, 'legacy_fq': True, 'extra_tracer_opts': {}, 'fused_layerwise_config': True, 'ignore_layerwise_config': False, 'inplace': False,
            'override_qconfig_func': None, 'quantize_op_action': {}}
GIVEN = {'rewrite_graph': False, 'force_overwrite': False, 'is_input_quantized': [True], 'remove_weights_after_load': True, 'asymmetric': False, 'quantized_input_stats': [[0, 1]], 'dynamic_lstm_quant': True,
         'quantized_op_stats': {'softmax': [0, 256]}, 'set_quantizable_op_stats': True, 'rounding_mode': 'tflite', 'algorithm': 'kl', 'fuse_only': True, 'extra_tracer_opts': {'a': 1},
         'fused_layerwise_config': False, 'ignore_layerwise_config': True, 'inplace': True, 'quantize_op_action': {'a': 'b'}, 'backend': 'onnx'}


class Bench(Modules):
    def __init__(self, ctx):
        super().__init__(ctx)
        I = self.I
        I.max_rec = 12
        I.strict = True
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'models')
        I.repo.add_model('verif_tq', os.path.join(d, 'tq.py'))
        I.repo.add_model('verif_std', os.path.join(d, 'std.py'))
        for n in ('Queue', 'LifoQueue', 'SimpleQueue', 'deque'):
            q = self.need('verif_std.' + n.replace('Simple', ''))
            I.known_ext['queue.' + n] = q
            I.known_ext['collections.' + n] = q
        g = lambda n: self.need('verif_tq.' + n)
        for n in ('MinMaxObserver', 'MovingAverageMinMaxObserver', 'HistogramObserver', 'PerChannelMinMaxObserver', 'MovingAveragePerChannelMinMaxObserver', 'ObserverBase', 'FakeQuantize', 'FakeQuantizeBase',
                  'FusedMovingAvgObsFakeQuantize', 'QConfig', 'default_weight_fake_quant', 'default_per_channel_weight_fake_quant', 'default_weight_observer', 'default_per_channel_weight_observer',
                  'default_fused_wt_fake_quant', 'default_fused_per_channel_wt_fake_quant', 'default_dynamic_qconfig', 'get_default_qat_qconfig', 'get_default_qconfig', 'disable_observer'):
            for p in ('torch.quantization.', 'torch.ao.quantization.', 'torch.quantization.observer.', 'torch.ao.quantization.observer.', 'torch.ao.quantization.fake_quantize.'):
                I.known_ext[p + n] = g(n)
        I.known_ext['torch.nn.LSTM'] = g('LSTM')
        I.known_ext['torch.nn.Identity'] = g('Identity')
        I.hooks.insert(0, self.qhook)
        self.root = None

    def need(self, q):
        v = self.I.lookup(q)
        if v is None:
            raise AnalysisBroken('%s not found' % q)
        return v

    def qhook(self, I, st, fn, args, kwargs, node, mod):
        if isinstance(fn, T) and fn.op == 'ext':
            n = fn.args[0]
            if n.endswith('CommentedMap') and not args:
                return I.new_dict(st, [])
        return NotImplemented


def tree(B, st, spec, cfg=None, path='', out=None):
    I = B.I
    kind, parts = spec
    kids = {n: tree(B, st, s, None, (path + '.' if path else '') + n, out) for n, s in parts.items()}
    m = I.norm(st, I.call(st, B.need('verif_tq.' + kind), [], kids, None, None))
    if out is not None:
        out[path] = (kind, m)
    return m


def quant(B, st, cls, cfg, args=()):
    I = B.I
    model = I.norm(st, I.call(st, B.need('verif_tq.Root'), [], {}, None, None))
    return I.norm(st, I.call(st, B.need(QM + cls), [model, K('input'), NONE, cfg] + list(args), {}, None, None))


class Item:
    def __init__(self, kind, cls, cfg, valid=True, **kw):
        self.kind, self.cls, self.cfg, self.valid = kind, cls, cfg, valid
        self.__dict__.update(kw)

    def name(self):
        return '%s of %s with %s' % (self.kind, self.cls, ', '.join('%s=%r' % x for x in (self.cfg or {}).items()) or 'no options')


def items():
    r = []
    for cls in ('QATQuantizer', 'PostQuantizer'):
        for b, asym, pt, rnd, leg, alg in itertools.product(('qnnpack', 'fbgemm', 'onnx', 'tensorrt'), (True, False), (True, False), ('pytorch', 'tflite'), (True, False), ('l2', 'kl')):
            if cls == 'PostQuantizer' and (rnd == 'tflite' or b in ('onnx', 'tensorrt')) or cls == 'QATQuantizer' and alg == 'kl':
                continue
            if b == 'fbgemm' and (not asym or pt):
                continue
            r.append(Item('qconfig', cls, {'backend': b, 'asymmetric': asym, 'per_tensor': pt, 'rounding_mode': rnd, 'legacy_fq': leg, 'algorithm': alg}))
        for asym, pt in itertools.product((True, False), (True, False)):
            if not asym or pt:
                r.append(Item('constructor', cls, {'backend': 'fbgemm', 'asymmetric': asym, 'per_tensor': pt}, False))
        r.append(Item('constructor', cls, {'per_tensor': False, 'disable_requantization_for_cat': False}, False))
        r.append(Item('constructor', cls, {'per_tensor': False}))
        r.append(Item('constructor', cls, {'per_tensor': False, 'disable_requantization_for_cat': True}))
        r.append(Item('constructor', cls, {'disable_requantization_for_cat': True}))
        r.append(Item('constructor', cls, {'disable_requantization_for_cat': False}))
        r.append(Item('constructor', cls, None))
        r.append(Item('constructor', cls, {}))
        for k, v in GIVEN.items():
            r.append(Item('constructor', cls, {k: v}))
        r.append(Item('constructor', cls, dict(GIVEN)))
    r.append(Item('constructor', 'DynamicQuantizer', {'asymmetric': False}))
    r.append(Item('constructor', 'DynamicQuantizer', {'asymmetric': True}, False))
    r.append(Item('constructor', 'DynamicQuantizer', {'asymmetric': False, 'per_tensor': False}, False))
    r.append(Item('constructor', 'DynamicQuantizer', {'asymmetric': False, 'backend': 'onnx'}))
    r.append(Item('constructor', 'BF16Quantizer', {}))
    r.append(Item('constructor', 'BF16Quantizer', {'rewrite_graph': True}))
    for c in (None, {}, {'target': 'ptq'}, {'rewrite_graph': False}, {'force_overwrite': False}, {'extra_tracer_opts': {'a': 1}}, {'remove_weights_after_load': True}):
        r.append(Item('constructor', 'DeQuantizer', c))
    for fq in (True, False):
        for mean, std in ((0.0, 1.0), (128, 64.0), (0, 256), (-3, 2)):
            for lo, hi in ((0, 255), (-128, 127), (0, 127)):
                r.append(Item('statistics', 'QATQuantizer' if fq else 'PostQuantizer', {}, fq=fq, mean=mean, std=std, lo=lo, hi=hi))
    for lo, hi, zp in itertools.product((0, -32768, -128), (65535, 32767, 127), (0, 128)):
        if (lo, hi) in ((0, 65535), (-32768, 32767), (-128, 127)):
            r.append(Item('rescaling', 'QATQuantizer', {}, lo=lo, hi=hi, zp=zp))
    return r


def attrs(B, st, v):
    v = B.I.norm(st, v)
    o = B.I.obj(st, v) if isinstance(v, Ref) else None
    if o is None or o.attrs is None:
        raise Unk('not an object: %s' % (v,))
    return o


def observer(B, st, factory, bad, what):
    """settings of the observer or fake quantiser that a factory builds"""
    I = B.I
    try:
        o = I.norm(st, I.call(st, B.need('verif_tq.build'), [factory, I.new_dict(st, [])], {}, None, None))
    except Dead as d:
        bad.append('%s cannot be built: %s' % (what, str(getattr(d, 'exc', d))[:100]))
        return None
    a = attrs(B, st, o)
    r = {'class': a.cls.name}
    ob = a
    if 'activation_post_process' in a.attrs:
        ob = attrs(B, st, a.attrs['activation_post_process'])
    r['observer'] = ob.cls.name
    for k in ('quant_min', 'quant_max'):
        r[k] = py(B, st, ob.attrs.get(k))
        r['fq_' + k] = py(B, st, a.attrs.get(k))
    r['dtype'] = str(I.norm(st, ob.attrs['dtype'])).split('.')[-1]
    r['qscheme'] = str(I.norm(st, ob.attrs['qscheme'])).split('.')[-1]
    r['ch_axis'] = py(B, st, ob.attrs.get('ch_axis'))
    r['per_channel'] = py(B, st, ob.attrs.get('per_channel'))
    return r


RANGE = {'qint8': (-128, 127), 'quint8': (0, 255)}


def legal(o, bad, what):
    if o['dtype'] not in RANGE:
        bad.append('%s has type %s' % (what, o['dtype']))
        return
    lo, hi = RANGE[o['dtype']]
    for p in ('', 'fq_'):
        if not (isinstance(o[p + 'quant_min'], int) and isinstance(o[p + 'quant_max'], int) and lo <= o[p + 'quant_min'] <= 0 < o[p + 'quant_max'] <= hi):
            bad.append('%s has the range [%s, %s] of type %s' % (what, o[p + 'quant_min'], o[p + 'quant_max'], o['dtype']))
            return
    if (o['quant_min'], o['quant_max']) != (o['fq_quant_min'], o['fq_quant_max']):
        bad.append('%s quantises to [%s, %s], its observer computes for [%s, %s]' % (what, o['fq_quant_min'], o['fq_quant_max'], o['quant_min'], o['quant_max']))
    if o['per_channel'] != o['qscheme'].startswith('per_channel'):
        bad.append('%s has the scheme %s and the observer %s' % (what, o['qscheme'], o['observer']))


def qconfig_case(B, it, bad):
    I = B.I
    st = State()
    cfg = it.cfg
    q = quant(B, st, it.cls, val(B, st, cfg))
    mods = {}
    root = tree(B, st, TREE, None, '', mods)
    graph = I.new_inst(st, None, {'module': root, 'forward_nodes': I.new_list(st, [])})
    meth(B, st, q, 'prepare_qconfig', [graph, K(cfg['backend'])])
    got = {p: attrs(B, st, m).attrs.get('qconfig') for p, (k, m) in mods.items()}
    fused = lambda p: any(p.startswith(x + '.') for x, (k, m) in mods.items() if k not in ('Root', 'Sequential') and x)
    for p, (kind, m) in mods.items():
        if kind in ('Root', 'Sequential') or fused(p):
            continue
        c, a = got[p], p
        while c is None and a:
            a = a.rpartition('.')[0]
            c = got[a]
        if c is None:
            bad.append('%s %s has no qconfig' % (kind, p))
            continue
        c = attrs(B, st, c).attrs
        act, w = observer(B, st, c['activation'], bad, 'activation of ' + kind), observer(B, st, c['weight'], bad, 'weight of ' + kind)
        if act is None or w is None:
            return
        legal(act, bad, 'activation of ' + kind)
        legal(w, bad, 'weight of ' + kind)
        want = 'per_tensor_affine' if cfg['asymmetric'] else 'per_tensor_symmetric'
        if act['qscheme'] != want:
            bad.append('the activation of %s has the scheme %s instead of %s' % (kind, act['qscheme'], want))
        if not w['qscheme'].endswith('symmetric'):
            bad.append('the weight of %s has the scheme %s' % (kind, w['qscheme']))
        ch = w['per_channel']
        if kind in LINEAR and (ch and cfg['backend'] in ('qnnpack', 'fbgemm') or ch and cfg['per_tensor']):
            bad.append('the weight of %s is quantised per channel' % kind)
        elif 'Transpose' in kind:
            if ch and w['ch_axis'] != 1 and cfg['backend'] != 'fbgemm':
                bad.append('the weight of %s is quantised along axis %s' % (kind, w['ch_axis']))
        elif kind.startswith('Conv'):
            if ch == cfg['per_tensor']:
                bad.append('the weight of %s is quantised per %s although per_tensor is %s' % (kind, 'channel' if ch else 'tensor', cfg['per_tensor']))
            elif ch and cfg['backend'] == 'qnnpack' and (w['quant_min'], w['quant_max']) != (-127, 127):
                bad.append('the per-channel weight of %s has the range [%s, %s], TFLite requires [-127, 127]' % (kind, w['quant_min'], w['quant_max']))
            elif ch and w['ch_axis'] != 0:
                bad.append('the weight of %s is quantised along axis %s' % (kind, w['ch_axis']))
        if it.cls == 'QATQuantizer':
            for o, s in ((act, 'activation'), (w, 'weight')):
                if (o['class'] == 'FakeQuantizeTFLite') != (cfg['rounding_mode'] == 'tflite'):
                    bad.append('the %s of %s uses %s for rounding_mode = %s' % (s, kind, o['class'], cfg['rounding_mode']))
        elif (act['observer'] == 'HistogramObserverKL') != (cfg['algorithm'] == 'kl'):
            bad.append('the activation of %s uses %s for algorithm = %s' % (kind, act['observer'], cfg['algorithm']))


def constructor_case(B, it, bad):
    I = B.I
    st = State()
    cfg = NONE if it.cfg is None else val(B, st, it.cfg)
    try:
        q = quant(B, st, it.cls, cfg)
        ok, exc = True, None
    except Dead as d:
        ok, exc = False, str(getattr(d, 'exc', d))[:160]
    if ok and not isinstance(q, Ref):
        raise Unk('the constructor returns %s' % q)
    if it.cfg is not None and not same(py(B, st, cfg), it.cfg):
        bad.append('the configuration object becomes %r' % (py(B, st, cfg),))
    if ok != it.valid:
        bad.append('the combination is not supported, yet accepted' if ok else 'a supported configuration is rejected: %s' % exc)
    if not ok or not it.valid:
        return
    at = attrs(B, st, q).attrs
    want = dict(DEFAULTS)
    if it.cls == 'DeQuantizer':
        want = {k: DEFAULTS[k] for k in ('rewrite_graph', 'force_overwrite', 'extra_tracer_opts', 'remove_weights_after_load')}
        want['target'] = 'qat'
    want.update(it.cfg or {})
    if it.cls in ('DynamicQuantizer', 'BF16Quantizer'):
        want['rewrite_graph'] = False
    if want.get('per_tensor') is False and (it.cfg or {}).get('disable_requantization_for_cat') is None:
        want['disable_requantization_for_cat'] = True
    for k, v in want.items():
        if k == 'legacy_fq' and it.cls not in ('QATQuantizer', 'PostQuantizer'):
            continue
        g = py(B, st, at.get(k))
        if not same(g, v):
            bad.append('%s is %r instead of %r' % (k, 'missing' if g is ABSENT else g, v))


def num(B, st, v):
    v = B.I.norm(st, v)
    if isinstance(v, Arr) and len(v.el) == 1:
        return v.el[0]
    if isinstance(v, K) and isinstance(v.v, (int, float)):
        from fractions import Fraction
        return Poly.const(Fraction(v.v))
    raise Unk('not a number: %s' % (v,))


def scalar(x, dt='float32'):
    return Arr((1,), [x if isinstance(x, Poly) else Poly.const(x)], dt, 'torch')


def statistics_case(B, it, bad):
    from fractions import Fraction
    I = B.I
    st = State()
    q = quant(B, st, it.cls, NONE)
    ob = I.norm(st, I.call(st, B.need('verif_tq.MovingAverageMinMaxObserver'), [], {'quant_min': K(it.lo), 'quant_max': K(it.hi)} if it.lo == 0 else
                           {'quant_min': K(it.lo), 'quant_max': K(it.hi), 'dtype': I.ext('torch.qint8')}, None, None))
    acp = ob
    if it.fq:
        acp = I.new_inst(st, B.need('verif_tq.FakeQuantize'), {'activation_post_process': ob, 'quant_min': K(it.lo), 'quant_max': K(it.hi), 'scale': scalar(1), 'zero_point': scalar(0, 'int32'),
                                                               'qscheme': I.ext('torch.per_tensor_affine'), 'dtype': I.ext('torch.quint8')})
    m = I.new_inst(st, B.need('verif_tq.ReLU'), {'activation_post_process': acp, 'parts': I.new_dict(st, [])})
    meth(B, st, q, 'set_module_quantization', [m, K(it.mean), K(it.std)])
    scale = Poly.const(Fraction(1.0 / it.std))
    oa = attrs(B, st, ob).attrs
    want = {'min_val': scale * Poly.const(it.lo - int(it.mean)), 'max_val': scale * Poly.const(it.hi - int(it.mean))}
    for k, v in want.items():
        if num(B, st, oa[k]) != v:
            bad.append('%s is %s instead of %s' % (k, num(B, st, oa[k]), v))
    if it.fq:
        fa = attrs(B, st, acp).attrs
        for k, v in (('scale', scale), ('zero_point', Poly.const(int(it.mean)))):
            if num(B, st, fa[k]) != v:
                bad.append('%s is %s instead of %s' % (k, num(B, st, fa[k]), v))


def rescaling_case(B, it, bad):
    I = B.I
    st = State()
    q = quant(B, st, it.cls, NONE)

    def fq(name):
        ob = I.norm(st, I.call(st, B.need('verif_tq.MovingAverageMinMaxObserver'), [], {}, None, None))
        return I.new_inst(st, B.need('verif_tq.FakeQuantize'), {'activation_post_process': ob, 'quant_min': K(0), 'quant_max': K(255), 'scale': scalar(Poly.atom((name, 0))), 'zero_point': scalar(it.zp, 'int32')})
    a, w = fq('act'), fq('weight')
    model = I.new_inst(st, None, {'named_modules': T('sym', ('named',))})
    mods = I.new_list(st, [Tup([K(n), m]) for n, m in (('layer.activation_post_process', a), ('layer.weight_fake_quant', w))])
    B.mods = mods
    I.hooks.insert(0, lambda I, st, fn, args, kw, node, mod: B.mods if fn == T('sym', ('named',)) else NotImplemented)
    qo = attrs(B, st, q)
    I.put(st, q, qo.but(attrs=dict(qo.attrs, model=model)))
    try:
        meth(B, st, q, 'rescale_activations_with_quant_min_max', [K(it.lo), K(it.hi)])
    finally:
        I.hooks.pop(0)
    n = it.hi - it.lo + 1
    fa, wa = attrs(B, st, a).attrs, attrs(B, st, w).attrs
    oa = attrs(B, st, fa['activation_post_process']).attrs
    for o, s in ((fa, 'fake quantiser'), (oa, 'observer')):
        if (py(B, st, o['quant_min']), py(B, st, o['quant_max'])) != (it.lo, it.hi):
            bad.append('the range of the %s is [%s, %s]' % (s, o['quant_min'], o['quant_max']))
    from fractions import Fraction
    if num(B, st, fa['scale']) * Poly.const(n) != Poly.atom(('act', 0)) * Poly.const(256):
        bad.append('the scale becomes %s: the covered range of real values changes' % num(B, st, fa['scale']))
    if (py(B, st, wa['quant_min']), py(B, st, wa['quant_max'])) != (0, 255) or num(B, st, wa['scale']) != Poly.atom(('weight', 0)):
        bad.append('the weight is rescaled')


CASES = {'qconfig': qconfig_case, 'constructor': constructor_case, 'statistics': statistics_case, 'rescaling': rescaling_case}
ANCHOR = {'qconfig': 'prepare_qconfig', 'constructor': '__init__', 'statistics': 'set_module_quantization', 'rescaling': 'rescale_activations_with_quant_min_max'}


def case(x):
    B, it = x
    bad, und = [], []
    cls = B.need(QM + it.cls)
    f, _ = B.I.class_attr(cls, ANCHOR[it.kind])
    node = f.node if isinstance(f, Fn) else cls.node
    where = '%s:%d %s.%s' % (B.I.repo.module(cls.mod).rel(), node.lineno, it.cls, node.name)
    try:
        CASES[it.kind](B, it, bad)
    except Dead as d:
        bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape) as u:
        und.append(str(u)[:200])
    extra = ' (mean %s, std %s, range [%s, %s])' % (it.mean, it.std, it.lo, it.hi) if it.kind == 'statistics' else ' to [%s, %s] from zero point %s' % (it.lo, it.hi, it.zp) if it.kind == 'rescaling' else ''
    return {'rule': it.kind, 'where': where, 'name': it.name() + extra, 'bad': bad, 'und': und, 'analysed': sorted(map(str, B.I.analysed))}


def run(ctx):
    ctx.rule('qconfig', 'the observers of every module have a legal range and the requested scheme, granularity, axis and class', 20)
    ctx.rule('constructor', 'unsupported combinations are rejected, options left out take their defaults, the configuration object is unchanged', 20)
    ctx.rule('statistics', 'given statistics become the scale, the zero point and the observed range', 4)
    ctx.rule('rescaling', 'rescaled activations cover the same range of real values', 2)
    B = Bench(ctx)
    for r in parallel([(B, it) for it in items()], case):
        ctx.analysed |= set(r['analysed'])
        ctx.ob(r['rule'], r['name'])
        if r['bad']:
            ctx.finding(r['rule'], r['name'], r['where'], r['bad'][0])
        elif r['und']:
            ctx.skip(r['name'], r['und'][0])
