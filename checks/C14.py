"""C14: operator versions match the types, rank and options of the operator."""
import itertools
from sa.framework import load_table
from sa.interp import State, K, T, Fn, BM, Cls, Ref, NONE, Dead, Bi
from checks.C07 import OPMOD, VER

TITLE = 'operator versions'
EXPLANATION = ('OPVersioner.process_op is executed abstractly for every operator code of the file format over the finite domain '
               'of element types, ranks and option values a version depends on, and the version it leaves on the operator is '
               'compared with an independent table of the runtime\'s versioning rules; process() must visit exactly the real '
               'operators of the graph.')
NPD = {'float32', 'int8', 'uint8', 'bool', 'int32', 'int64', 'float16', 'int16'}


def i8(t):
    return t == 'int8'


def conv(o):
    i, w, r = o['in'][0], o['in'][1], o['out'][0]
    return 3 if (i, w, r) == ('int8',) * 3 else 2 if (i, w, r) == ('float32', 'int8', 'float32') else 1


def dwconv(o):
    i, w, r = o['in'][0], o['in'][1], o['out'][0]
    if (i, w, r) == ('float32', 'int8', 'float32'):
        return 4
    if (i, w, r) == ('int8',) * 3:
        return 3
    return 2 if o['opt'].get('dilationHFactor', 1) != 1 or o['opt'].get('dilationWFactor', 1) != 1 else 1


def fc(o):
    i, w, r = o['in'][0], o['in'][1], o['out'][0]
    if len(o['in']) == 2:
        return 6
    if o['opt']['keepNumDims']:
        return 5
    if (i, w, r) == ('int8',) * 3:
        return 4
    if (i, w, r) == ('float32', 'int8', 'float32'):
        return 3
    return 2 if o['opt']['weightsFormat'] == 1 else 1


def svdf(o):
    i, w, r = o['in'][0], o['in'][1], o['out'][0]
    return 3 if i == 'int8' else 2 if (i, w, r) == ('float32', 'int8', 'float32') else 1


def mul(o):
    q = o.get('scales')
    if q and all(q) and q[0] * q[1] / q[2] >= 1.0:
        return 3
    return 2 if i8(o['in'][0]) else 1


def lstm(o):
    k = o['opt']['kernelType']
    if k == 0 and o['in'][0] == 'float32' and o['in'][2] == 'int8' and o['out'][0] == 'float32':
        return 3
    return 2 if k == 1 else 1


def broadcast(o):
    a, b = o['rank'][0], o['rank'][1]
    return a != b and max(a, b) > 4


F, I8, U8, B, I32, I64, H, S, I16 = 'float32', 'int8', 'uint8', 'bool', 'int32', 'int64', 'float16', '<U4', 'int16'
by_in = lambda *cases: (lambda o: next((v for ts, v in cases if o['in'][0] in ts), 1))
by_out = lambda *cases: (lambda o: next((v for ts, v in cases if o['out'][0] in ts), 1))
SIMPLE = ['AVERAGE_POOL_2D', 'ADD', 'CONCATENATION', 'MAX_POOL_2D', 'PAD', 'PADV2', 'SOFTMAX', 'SPACE_TO_DEPTH', 'SPLIT_V', 'MEAN',
          'SUM', 'REDUCE_MAX', 'REDUCE_MIN', 'RELU6', 'TANH', 'LOGISTIC', 'LOG_SOFTMAX', 'TOPK_V2',
          'ARG_MAX', 'ARG_MIN', 'EQUAL', 'NOT_EQUAL', 'GREATER', 'GREATER_EQUAL', 'LESS', 'LESS_EQUAL', 'SELECT',
          'BATCH_MATMUL', 'ABS', 'EXP', 'LOG', 'RSQRT', 'SQUARED_DIFFERENCE', 'REDUCE_PROD', 'DEPTH_TO_SPACE', 'MIRROR_PAD']
RULES = {n: by_in(((I8,), 2)) for n in SIMPLE}
RULES.update({
    'CONV_2D': conv, 'DEPTHWISE_CONV_2D': dwconv, 'FULLY_CONNECTED': fc, 'SVDF': svdf, 'MUL': mul, 'LSTM': lstm,
    'FAKE_QUANT': lambda o: 2 if o['opt']['narrowRange'] else 1,
    'GATHER': by_in(((B,), 3), ((I8,), 2)),
    'TRANSPOSE': lambda o: 4 if o['rank'][0] > 4 else 3 if o['in'][0] == B else 2 if i8(o['in'][0]) else 1,
    'STRIDED_SLICE': lambda o: 4 if o['rank'][0] > 4 else 3 if o['in'][0] == B else 2 if i8(o['in'][0]) else 1,
    'TRANSPOSE_CONV': lambda o: 3 if len(o['in']) == 4 else 2 if i8(o['in'][0]) else 1,
    'UNIDIRECTIONAL_SEQUENCE_LSTM': lambda o: 2 if (o['in'][0], o['in'][2], o['out'][0]) == (F, I8, F) else 1,
    'SPLIT': lambda o: 3 if o['in'][1] == I32 else 2 if i8(o['in'][1]) else 1,
    'SPARSE_TO_DENSE': lambda o: 3 if o['in'][2] in (I8, U8) else 2 if o['in'][2] == I64 else 1,
    'SLICE': by_in(((S,), 3), ((I8,), 2)),
    'UNPACK': lambda o: 4 if I16 in (o['in'][0], o['out'][0]) else 3 if o['in'][0] == B else 2 if o['in'][0] in (I8, U8) else 1,
    'DEQUANTIZE': by_in(((I16, H), 3), ((I8,), 2)),
    'FLOOR_DIV': by_in(((F,), 2)),
    'L2_NORMALIZATION': by_out(((I8,), 2)),
    'RELU': by_in(((I8, U8), 2)), 'GELU': by_in(((I8, U8), 2)),
    'REVERSE_V2': by_out(((I8,), 3), ((B,), 2)),
    'RESIZE_BILINEAR': lambda o: 3 if o['opt']['halfPixelCenters'] else 2 if i8(o['in'][0]) else 1,
    'RESIZE_NEAREST_NEIGHBOR': lambda o: 3 if o['opt']['halfPixelCenters'] or o['opt']['alignCorners'] else 2 if i8(o['in'][0]) else 1,
    'MINIMUM': lambda o: 4 if (o['in'][0], o['out'][0]) == (I16, I16) else 3 if broadcast(o) else 2 if i8(o['in'][0]) else 1,
    'PACK': lambda o: 3 if (o['in'][0], o['out'][0]) == (I16, I16) else 2 if i8(o['in'][0]) else 1,
    'TILE': by_in(((I8,), 3), ((S,), 2)),
    'SPACE_TO_BATCH_ND': lambda o: 3 if o['rank'][0] != 4 else 2 if i8(o['in'][0]) else 1,
    'SUB': lambda o: 3 if broadcast(o) else 2 if i8(o['in'][0]) else 1,
})
RULES['MAXIMUM'] = RULES['MINIMUM']
RULES['BATCH_TO_SPACE_ND'] = RULES['SPACE_TO_BATCH_ND']
OPTS = {
    'DEPTHWISE_CONV_2D': [{'dilationHFactor': a, 'dilationWFactor': b} for a in (1, 2) for b in (1, 3)],
    'FAKE_QUANT': [{'narrowRange': False}, {'narrowRange': True}],
    'FULLY_CONNECTED': [{'keepNumDims': k, 'weightsFormat': w} for k in (False, True) for w in (0, 1)],
    'LSTM': [{'kernelType': 0}, {'kernelType': 1}],
    'RESIZE_BILINEAR': [{'halfPixelCenters': a, 'alignCorners': b} for a in (False, True) for b in (False, True)],
    'RESIZE_NEAREST_NEIGHBOR': [{'halfPixelCenters': a, 'alignCorners': b} for a in (False, True) for b in (False, True)],
}
NIN = {'CONV_2D': (3,), 'DEPTHWISE_CONV_2D': (3,), 'FULLY_CONNECTED': (2, 3), 'SVDF': (5,), 'LSTM': (24,), 'TRANSPOSE_CONV': (3, 4),
       'UNIDIRECTIONAL_SEQUENCE_LSTM': (24,), 'SPARSE_TO_DENSE': (4,)}
# int16 is only compared where the rule above names it
INT16_OK = {'UNPACK', 'DEQUANTIZE', 'MINIMUM', 'MAXIMUM', 'PACK'}


def points(code, thorough):
    sig = {  # which positions vary: inputs..., output
        'CONV_2D': (0, 1, 'o'), 'DEPTHWISE_CONV_2D': (0, 1, 'o'), 'FULLY_CONNECTED': (0, 1, 'o'), 'SVDF': (0, 1, 'o'),
        'LSTM': (0, 2, 'o'), 'UNIDIRECTIONAL_SEQUENCE_LSTM': (0, 2, 'o'), 'SPLIT': (0, 1), 'SPARSE_TO_DENSE': (0, 2),
        'L2_NORMALIZATION': (0, 'o'), 'REVERSE_V2': (0, 'o'), 'UNPACK': (0, 'o'), 'MINIMUM': (0, 'o'), 'MAXIMUM': (0, 'o'), 'PACK': (0, 'o'),
    }.get(code, (0, 'o') if thorough else (0,))
    types = [F, I8, U8, B, I32, I64, H, S] + ([I16] if code in INT16_OK else [])
    small = [F, I8, U8, I32] if not thorough else types
    ranked = {'TRANSPOSE', 'STRIDED_SLICE', 'MINIMUM', 'MAXIMUM', 'SPACE_TO_BATCH_ND', 'BATCH_TO_SPACE_ND', 'SUB', 'MUL', 'ADD'}
    ranks = [(4, 4), (3, 3), (5, 5), (5, 4), (4, 5), (2, 4)] if code in ranked or thorough and code in RULES else [(4, 4), (5, 4)]
    if not thorough and (len(sig) > 2 or code not in RULES):
        ranks = [(4, 4)]
    if not thorough and code not in RULES:
        types = [F, I8]
    for n in NIN.get(code, (2,)):
        for ts in itertools.product(*[types if len(sig) < 3 else small for _ in sig]):
            d = dict(zip(sig, ts))
            ins = [d.get(i, d[0]) for i in range(n)]
            out = [d.get('o', d[0])]
            for rk in ranks:
                for opt in OPTS.get(code, [{}]):
                    o = {'in': ins, 'out': out, 'rank': list(rk) + [4] * n, 'opt': opt, 'scales': None}
                    yield o
                    if code == 'MUL' and rk == (4, 4):
                        for sc in ((0.5, 0.5, 1.0), (2.0, 2.0, 1.0), (1.0, 1.0, 1.0), (0.0, 1.0, 1.0), (2.0, 0.0, 1.0), (1.0, 1.0, 0.0), (0.5, 4.0, 1.0), (1.0, 1.0, 2.0)):
                            yield dict(o, scales=sc)


def run(ctx):
    ctx.rule('version', 'version required by the runtime for the types, ranks and options', 500)
    ctx.rule('process', 'every operator of the graph gets its version, other nodes are skipped', 4)
    I = ctx.interp()
    cls = I.lookup(VER)
    m = ctx.repo.module(OPMOD + 'op_version')
    f, _ = I.class_attr(cls, 'process_op')
    line = '%s:%d' % (m.rel(), f.node.lineno)
    codes = load_table('tflite_schema.json')['enums']['BuiltinOperator']
    dts = {}

    def assume(t):
        if t.op == 'cmp' and t.args[0] in ('==', '!=', 'is', 'is not'):
            for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if a in dts:
                    n = None
                    if isinstance(b, T) and b.op == 'ext' and b.args[0].startswith('numpy.'):
                        n = b.args[0][6:].rstrip('_')
                    elif isinstance(b, K) and isinstance(b.v, str):
                        n = b.v
                    elif isinstance(b, T) and b.op == 'call' and 'numpy.dtype' in repr(b.args[0]) and b.args[1] and isinstance(b.args[1][0], K):
                        n = b.args[1][0].v
                    elif b in dts:
                        n = dts[b]
                    if n is not None:
                        return K((n == dts[a]) == (t.args[0] in ('==', 'is')))
        if t.op == 'call' and t.args[0] == Bi('str') and t.args[1] and t.args[1][0] in dts:
            return K(dts[t.args[1][0]])
        if t.op == 'attr' and t.args[1] in ('name',) and t.args[0] in dts:
            return K(dts[t.args[0]])
        if t.op == 'fstr' and len(t.args) == 1 and t.args[0] in dts:
            return K(dts[t.args[0]])
        return None
    I.assume = assume
    for d in sorted(NPD | {S}):
        dts[I.sym('dtype:' + d)] = d
    opc = I.lookup(OPMOD + 'tflite.base.BaseOperator')
    tcls = I.lookup(OPMOD + 'tflite.base.Tensor')
    occ = I.lookup(OPMOD + 'tflite.base.OpCode')
    qcls = I.lookup(OPMOD + 'tflite.base.QuantizationParameters')
    memo = {}

    def hook(I2, st, fn, args, kwargs, node, mod):
        if fn == Bi('str') and args and args[0] in dts:
            return K(dts[args[0]])
        return NotImplemented
    I.hooks.append(hook)
    und = 0
    for name, code in sorted(codes.items()):
        rule = RULES.get(name, lambda o: 1)
        for o in points(name, ctx.thorough):
            st = State()

            def tensor(dt, rank, sc):
                q = NONE
                if sc is not None:
                    q = I.new_inst(st, qcls, {'scale': K(sc), 'zero_point': K(0), 'dim': NONE})
                from sa.interp import Tup
                return I.new_inst(st, tcls, {'dtype': I.sym('dtype:' + dt), 'shape': Tup(tuple(K(2) for _ in range(rank))), 'quantization': q,
                                             'name': K('t'), 'tensor': I.sym('data'), 'buffer': I.sym('buffer')})
            sc = o['scales'] or (None,) * 3
            ins = [tensor(t, o['rank'][i], sc[i] if i < 2 else None) for i, t in enumerate(o['in'])]
            outs = [tensor(t, 4, sc[2]) for t in o['out']]
            opo = I.new_inst(st, occ, {'code': K(code), 'version': K(0), 'index': K(0), 'custom_code': NONE})
            op = I.new_inst(st, opc, dict({'op': opo, 'inputs': I.new_list(st, ins), 'outputs': I.new_list(st, outs)},
                                          **{k: K(v) for k, v in o['opt'].items()}), open=I.sym('op'))
            s = I.new_inst(st, cls, {'graph': I.sym('graph')})
            I.nsteps = 0
            try:
                I.call(st, BM(f, s), [op], {}, None, None)
                got = I.getattr(st, opo, 'version')
            except Dead as d:
                got = 'an exception'
            want = rule(o)
            tag = '%s in=%s out=%s ranks=%s %s%s' % (name, o['in'][:3] if len(o['in']) < 6 else o['in'][:3] + ['..'], o['out'], o['rank'][:2],
                                                     o['opt'] or '', ' scales=%s' % (o['scales'],) if o['scales'] else '')
            if not isinstance(got, (K, str)):
                und += 1
                ctx.skip(tag, 'version not decided: %s' % (got,))
                ctx.ob('version', tag)
                continue
            ctx.expect(got == K(want), 'version', name, line, 'version %s instead of %d for %s' % (got, want, tag), instance=tag)
    I.hooks.remove(hook)
    I.assume = None
    # process()
    pf, _ = I.class_attr(cls, 'process')
    seen = []

    def hook(I2, st, fn, args, kwargs, node, mod):
        if isinstance(fn, BM) and isinstance(fn.fn, Fn) and fn.fn.qual == VER + '.process_op':
            seen.append(args[0])
            return NONE
        if isinstance(fn, T) and fn.op == 'attr' and fn.args[1] in ('select',):
            return NotImplemented
        return NotImplemented
    I.hooks.append(hook)
    types = [-1, 0, 9, -2, 150, -3, -4, 3]
    from sa.interp import Ref as R
    st = State()
    vs = [I.new_dict(st, [(K('node_type'), K(t)), (K('op'), I.sym('op%d' % i))]) for i, t in enumerate(types)]
    gg = I.new_inst(st, None, {'vs': I.new_list(st, vs)}, open=I.sym('ig'))
    cg = I.new_inst(st, None, {'graph': gg}, open=I.sym('cg'))
    s = I.new_inst(st, cls, {'graph': cg})
    I.call(st, BM(pf, s), [], {}, None, None)
    for i, t in enumerate(types):
        got = I.sym('op%d' % i) in seen
        ctx.expect(got == (t >= 0), 'process', 'process:node_type %s 0' % ('>=' if t >= 0 else '<'), '%s:%d' % (m.rel(), pf.node.lineno),
                   'a node of type %d is %s' % (t, 'visited' if got else 'skipped'), instance='node %d type %d' % (i, t))
    I.hooks.remove(hook)
    ctx.use(I)
