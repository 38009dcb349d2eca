"""C08: option combinations that cannot be honoured are rejected by the constructor, all others are accepted."""
import itertools
from sa.interp import State, K, T, Fn, NONE, Dead
from checks.C07 import CONV, BASE, params

TITLE = 'validation of converter options'
EXPLANATION = ('TFLiteConverter.__init__ is executed abstractly for every point of the finite domain of the options that '
               'interact (target, io and weight types including unknown ones, strict symmetric mode, quantise-fusion, hybrid '
               'mode and granularity, dump paths), all other options symbolic; the set of points on which it always raises '
               'is compared with the documented set, point by point.')
TYPES = ['uint8', 'int8', 'int16']
T_ALL = TYPES + ['float16', 'INT8', 'int32', '']
IO_ALL = [None] + T_ALL
W_ALL = [None] + T_ALL
DOM = [('quantize_target_type', T_ALL), ('strict_symmetric_check', [False, True]), ('quantize_input_output_type', IO_ALL),
       ('fuse_quant_dequant', [False, True]), ('hybrid_quantization_from_float', [False, True]),
       ('hybrid_per_channel', [False, True]), ('hybrid_quantize_weight_type', W_ALL),
       ('dump_config_path', [None, 'c.json']), ('dump_jit_model_path', [None, 'm.pt'])]


def reasons(o):
    r = []
    t, io, w = o['quantize_target_type'], o['quantize_input_output_type'], o['hybrid_quantize_weight_type']
    if t not in TYPES:
        r.append('unknown quantize_target_type')
    if t == 'int16' and not o['strict_symmetric_check']:
        r.append('int16 without strict symmetric mode')
    if io is not None and not o['fuse_quant_dequant']:
        r.append('io type without fuse_quant_dequant')
    if io is not None and io not in TYPES:
        r.append('unknown quantize_input_output_type')
    if io == 'int16' and t != 'int16':
        r.append('int16 io with another target type')
    w = t if w is None else w
    if w not in TYPES:
        r.append('unknown weight type')
    if w == 'uint8' and o['hybrid_quantization_from_float'] and o['hybrid_per_channel']:
        r.append('per-channel uint8 hybrid kernels')
    if w == 'int16' and o['hybrid_quantization_from_float']:
        r.append('int16 hybrid kernels')
    if o['dump_config_path'] and not o['dump_jit_model_path']:
        r.append('dump_config_path without dump_jit_model_path')
    return r


def run(ctx):
    ctx.rule('reject', 'a combination that cannot be honoured always raises in the constructor', 100)
    ctx.rule('accept', 'every other combination is accepted', 100)
    ctx.rule('early', 'the constructor does no conversion work', 1)
    I = ctx.interp()
    I.steps = 10 ** 9
    cls = I.lookup(CONV)
    I.module(BASE)
    m = ctx.repo.module(BASE)
    init, _ = I.class_attr(cls, '__init__')
    line = '%s:%d' % (m.rel(), init.node.lineno)
    names = params(init)[1:]
    keys = [k for k, _ in DOM]
    missing = [k for k in keys if k not in names]
    for k in missing:
        ctx.finding('reject', k, line, 'option %s vanished from the constructor' % k)
    base = {'quantize_target_type': 'int8', 'strict_symmetric_check': False, 'quantize_input_output_type': None,
            'fuse_quant_dequant': False, 'hybrid_quantization_from_float': False, 'hybrid_per_channel': False,
            'hybrid_quantize_weight_type': None, 'dump_config_path': None, 'dump_jit_model_path': None}
    points = []
    if ctx.thorough:
        points = [dict(zip(keys, p)) for p in itertools.product(*[d for _, d in DOM])]
    else:
        # all combinations of the interacting groups, the dump options crossed with a few representative others
        for p in itertools.product(*[d if k not in ('dump_config_path', 'dump_jit_model_path') else [None] for k, d in DOM]):
            o = dict(zip(keys, p))
            n = sum(o[k] not in TYPES + [None] for k in ('quantize_target_type', 'quantize_input_output_type', 'hybrid_quantize_weight_type'))
            if n > 1 or n == 1 and 'INT8' not in p and 'float16' not in p:
                continue
            points.append(o)
        for c in (None, 'c.json'):
            for j in (None, 'm.pt'):
                for t in TYPES:
                    for h in (False, True):
                        points.append(dict(base, dump_config_path=c, dump_jit_model_path=j, quantize_target_type=t,
                                           strict_symmetric_check=True, hybrid_quantization_from_float=h,
                                           hybrid_quantize_weight_type='int8'))
    work = []

    def hook(I2, st, fn, args, kwargs, node, mod):
        if isinstance(fn, T) and fn.op == 'ext' and (fn.args[0].startswith('torch.') or fn.args[0].startswith('os.')
                                                     or fn.args[0] in ('open', 'io.open')):
            work.append(fn.args[0])
        return NotImplemented
    I.hooks.append(hook)
    for o in points:
        st = State()
        args = [K(o[n]) if n in o else I.sym('opt:' + n) for n in names]
        try:
            I.instantiate(st, cls, args, {}, None, None)
            raises = None
        except Dead as d:
            raises = getattr(d, 'exc', True)
        r = reasons(o)
        diff = {k: v for k, v in o.items() if base[k] != v}
        tag = ','.join('%s=%s' % kv for kv in sorted(diff.items()))
        if r:
            ctx.expect(raises is not None, 'reject', r[0], line, 'accepted although %s: %s' % (' and '.join(r), tag), instance=tag)
        else:
            ctx.expect(raises is None, 'accept', 'valid combination', line, 'rejected although nothing is wrong with %s (%s)' % (tag, raises),
                       instance=tag)
        I.events.clear()
    ctx.expect(not work, 'early', 'constructor', line, 'the constructor calls %s' % sorted(set(work))[:5])
    ctx.use(I)
