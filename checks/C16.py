"""C16: weight quantisation keeps scale, axis and data consistent."""
from sa.framework import parallel
from sa.interp import K, T, Tup, Ref, NONE, Dead, State, TRUE, FALSE
from sa.arr import Arr, Poly, fresh, full, fun, Unk, NoShape, num, indices
from sa.topo import Undecided, OPS
from sa.sem import VScene, Sem, lit
from checks.C15 import Bench, QScene, Real, QMIN
import itertools
import math
from fractions import Fraction

TITLE = 'weight quantisation keeps scale, axis and data consistent'
EXPLANATION = ('Abstract interpretation of the hybrid quantiser and of the half-precision quantiser on small graphs: fully connected, plain and depthwise convolution '
               'and LSTM operators with float, integer, computed, shared and excluded weights, for every combination of signedness, granularity and switches. '
               'Weights are symbolic (each stored element is the quantisation of its own element by its own scale) and, in a second set, known numbers (the scale '
               'covers the data of its channel).')
NOT = NotImplemented
HYB = OPS + 'hybrid_quantizer.HybridQuantizer'
OPTIONAL = '__tinynn_optional_tensor__'
HALF = OPS + 'half_quantizer.HalfQuantizer'


class WBench(Bench):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.I.hooks.append(self.quant)
        self.I.unroll = 400
        self.I.arrays.keep0 = True

    def quant(self, I, st, fn, args, kwargs, node, mod):
        """torch.quantize_per_tensor / quantize_per_channel: element i is quant(w_i, scale, zero point)"""
        if isinstance(fn, T) and not kwargs and (fn.op == 'ext' and fn.args[0].startswith('numpy.') or fn.op == 'attr' and fn.args[1] == 'item'):
            xs = [I.norm(st, a) for a in args]
            if fn.op == 'attr':
                b = I.norm(st, fn.args[0])
                return b if isinstance(b, K) and not xs else NOT
            if xs and all(isinstance(x, K) and isinstance(x.v, (int, float, Fraction)) for x in xs):
                f = {'power': pow, 'maximum': max, 'minimum': min, 'abs': abs, 'ceil': math.ceil, 'floor': math.floor, 'log2': math.log2, 'sqrt': math.sqrt}.get(fn.args[0][6:])
                if f:
                    return K(f(*[x.v for x in xs]))
            return NOT
        if not (isinstance(fn, T) and fn.op == 'ext' and fn.args[0] in ('torch.quantize_per_tensor', 'torch.quantize_per_channel')):
            return NotImplemented
        names = ['input', 'scale', 'zero_point', 'dtype'] if fn.args[0].endswith('tensor') else ['input', 'scales', 'zero_points', 'axis', 'dtype']
        d = dict(zip(names, [I.norm(st, a) for a in args]))
        d.update({k: I.norm(st, v) for k, v in kwargs.items()})
        A = I.arrays
        try:
            w = d['input']
            dt = A.dtype(d['dtype'])
            if not isinstance(w, Arr) or dt not in ('quint8', 'qint8'):
                return NotImplemented
            if len(names) == 4:
                s, z = A.arr(st, d['scale']), A.arr(st, d['zero_point'])
                if len(s.el) != 1 or len(z.el) != 1:
                    raise Dead(st, T('error', ('scale of several elements',)))
                a = Arr(w.shape, [fun('quant', e, s.el[0], z.el[0]) for e in w.el], dt, 'torch')
                self.Q.describe(a, scheme='per_tensor_affine', scale=A.out(s.but(())), zero_point=A.out(z.but(())))
            else:
                s, z = A.arr(st, d['scales']), A.arr(st, d['zero_points'])
                ax = d['axis'].v
                if s.shape != (w.shape[ax],) or z.shape != s.shape or not -len(w.shape) <= ax < len(w.shape):
                    raise Dead(st, T('error', ('%s scales for axis %s of %s' % (s.shape, ax, w.shape),)))
                a = Arr(w.shape, [fun('quant', e, s.el[i[ax]], z.el[i[ax]]) for e, i in zip(w.el, indices(w.shape))], dt, 'torch')
                self.Q.describe(a, scheme='per_channel_affine', scales=s, zero_points=z, axis=ax)
            return a
        except (Unk, KeyError, AttributeError):
            return NotImplemented


class WScene(QScene):
    def put(self, name, a, const, **attrs):
        if const:
            attrs['buffer'] = self.I.new_inst(self.st, self.I.lookup(OPS + 'tflite.base.Buffer'), {'data': T('bytes', (a,)), 'index': K(0), 'tfl_buffer': K(0)})
        super().put(name, a, const, **attrs)

    def make(self, cls, *args):
        return self.I.call(self.st, self.I.lookup(cls), [self.cg] + list(args), {}, None, None)


def weights(s, name, shape, kind):
    if kind == 'known':
        vals = [Fraction((7 * i * i + 3 * i) % 11 - 5, 2) * (1 + i % 3) for i in range(size(shape))]
        vals[0] = Fraction(-31, 2)
        a = Arr(shape, [Poly.const(v) for v in vals], 'float32')
        s.put(name, a, True)
        s.add(name, 'CONSTANT_NODE', [name])
        s.vals[name] = a
    elif kind == 'zeros':
        a = full(shape, 0, 'float32')
        s.put(name, a, True)
        s.add(name, 'CONSTANT_NODE', [name])
        s.vals[name] = a
    elif kind == 'computed':
        s.inp(name, shape)
    elif kind == 'int8':
        s.par(name, shape, 'int8')
    else:
        s.par(name, shape)
    return name


def size(sh):
    n = 1
    for d in sh:
        n *= d
    return n


def graph(s, op, kind, shared=False):
    """builds the operator; returns {operator vertex: [(weight index, channel axis)]}"""
    if op == 'FULLY_CONNECTED':
        s.inp('x', (2, 3))
        weights(s, 'w', (4, 3), kind)
        s.par('b', (4,))
        s.o(op, ['x', 'w', 'b'], 'y', fusedActivationFunction=0, keepNumDims=False, asymmetricQuantizeInputs=False, weightsFormat=0)
        s.output('y')
        if shared:
            s.inp('x2', (1, 3))
            s.o(op, ['x2', 'w', 'b'], 'y2', fusedActivationFunction=0, keepNumDims=False, asymmetricQuantizeInputs=False, weightsFormat=0)
            s.output('y2')
            s.inp('v', (4, 3))
            s.o('ADD', ['v', 'w'], 'z', fusedActivationFunction=0, potScaleInt16=True)
            s.output('z')
        return [('y', 1, 0)] + ([('y2', 1, 0)] if shared else [])
    if op == 'CONV_2D':
        s.inp('x', (1, 4, 4, 3))
        weights(s, 'w', (2, 3, 2, 3), kind)
        s.par('b', (2,))
        s.o(op, ['x', 'w', 'b'], 'y', dyn_shape=(1, 2, 3, 2), fusedActivationFunction=0, padding=1, strideH=1, strideW=1, dilationHFactor=1, dilationWFactor=1)
        s.output('y')
        if shared:
            s.o(op, ['x', 'w', 'b'], 'y2', dyn_shape=(1, 2, 3, 2), fusedActivationFunction=1, padding=1, strideH=1, strideW=1, dilationHFactor=1, dilationWFactor=1)
            s.output('y2')
            s.inp('v', (2, 3, 2, 3))
            s.o('ADD', ['v', 'w'], 'z', fusedActivationFunction=0, potScaleInt16=True)
            s.output('z')
        return [('y', 1, 0)] + ([('y2', 1, 0)] if shared else [])
    if op == 'DEPTHWISE_CONV_2D':
        s.inp('x', (1, 4, 4, 2))
        weights(s, 'w', (1, 3, 2, 4), kind)
        s.par('b', (4,))
        s.o(op, ['x', 'w', 'b'], 'y', dyn_shape=(1, 2, 3, 4), fusedActivationFunction=0, padding=1, strideH=1, strideW=1, depthMultiplier=2, dilationHFactor=1, dilationWFactor=1)
        s.output('y')
        return [('y', 1, 3)]
    if op in ('UNIDIRECTIONAL_SEQUENCE_LSTM', 'BIDIRECTIONAL_SEQUENCE_LSTM'):
        bi = op[0] == 'B'
        s.inp('x', (3, 1, 2))
        idx = [1, 2, 3, 4, 5, 6, 7, 8] + ([18, 19, 20, 21, 22, 23, 24, 25] if bi else [])
        bias = [12, 13, 14, 15] + ([29, 30, 31, 32] if bi else [])
        state = [35, 36, 37, 38] if bi else [18, 19]
        ins = []
        for i in range(48 if bi else 24):
            if i == 0:
                ins.append('x')
            elif i in idx:
                ins.append(weights(s, 'w%d' % i, (4, 2) if i % 18 < 5 or bi and 18 <= i <= 21 else (4, 4), kind if i in (2, 21) or kind in ('known', 'zeros') else 'float'))
            elif i in bias:
                ins.append(s.par('b%d' % i, (4,)))
            elif i in state:
                ins.append(s.par('s%d' % i, (1, 4), is_variable=K(True)))
            else:
                n = OPTIONAL
                if n not in s.tensors:
                    I = s.I
                    s.tensors[n] = I.call(s.st, I.lookup(OPS + 'tflite.base.OptionalTensor'), [], {}, None, None)
                    s.vals[n] = full((), 0, 'float32')
                    s.m(s.get(s.cg, 'tensor_map'), '__setitem__', K(n), s.tensors[n])
                    s.add(n, 'CONSTANT_NODE', [n])
                ins.append(n)
        opts = dict(fusedActivationFunction=4, cellClip=0, projClip=0, timeMajor=True, asymmetricQuantizeInputs=False)
        if bi:
            opts['mergeOutputs'] = True
        else:
            opts['diagonalRecurrentTensors'] = False
        s.o(op, ins, 'y', dyn_shape=(3, 1, 8 if bi else 4), **opts)
        s.output('y')
        return [('y', i, 0) for i in idx]
    raise KeyError(op)


def hybrid(item):
    B, op, kind, shared, asym, q, per_channel, conv, cfg, single = item
    res = {'bad': [], 'und': [], 'n': 0}
    I = B.I

    def mk():
        s = WScene(B)
        s.I.setattr(s.st, s.cg, 'q_mapping', I.new_dict(s.st, []), None, None)
        s.where = graph(s, op, kind, shared)
        return s

    def go(s):
        s.before = s.snapshot()
        s.keep = {n: s.describe(t) + (I.norm(s.st, s.get(t, 'tensor')),) for n, t in s.tensors.items() if n != OPTIONAL}
        s.insides = {n: list(v['ins']) for n, v in s.before['v'].items()}
        config = NONE if cfg is None else I.new_dict(s.st, [(K(k), K(v)) for k, v in cfg.items()])
        try:
            h = s.make(HYB, K(asym), I.ext('numpy.' + q), K(per_channel), K(conv), K(False), K(single), config)
            I.call(s.st, I.getattr(s.st, h, 'quantize'), [], {}, None, None)
        except Dead as d:
            s.dead = d
            return False
        return True
    try:
        for s, fin, made, complete in B.explore(mk, go, 6):
            if fin is None:
                res['und'].append(s.undecided)
            elif not fin:
                res['bad'].append('it fails: %s' % str(s.dead.exc)[:160])
            else:
                try:
                    res['bad'] += list(judge(B, s, item))
                    res['n'] += 1
                except Undecided as u:
                    res['und'].append(str(u))
    except (Undecided, NoShape) as u:
        res['und'].append('scene: %s' % u)
    res['analysed'] = sorted(map(str, I.analysed))
    return res


def judge(B, s, item):
    _, op, kind, shared, asym, q, per_channel, conv, cfg, single = item
    I = B.I
    snap = s.snapshot()
    isconv = 'CONV' in op
    by_chan = isconv and per_channel
    off = kind in ('computed', 'int8') or isconv and not conv or op == 'DEPTHWISE_CONV_2D' and not per_channel
    targets = {}
    for out, i, ax in s.where:
        if not off and (cfg or {}).get(out, True):
            targets[out, i] = ax
    for n, v in snap['v'].items():
        if v['op'] is None:
            continue
        w = s.before['v'].get(n)
        if w is None or w['op'] != v['op']:
            yield 'operator %s was added' % n
            continue
        ins = s.items(s.get(v['op'], 'inputs'))
        if len(ins) != len(w['ins']):
            yield 'operator %s has %d inputs, it had %d' % (n, len(ins), len(w['ins']))
            continue
        out = v['outs'][0]
        for i, t in enumerate(ins):
            orig = w['ins'][i]
            if (out, i) in targets:
                yield from quantised(B, s, t, s.vals[orig], targets[out, i] if by_chan else None, q, 'input %d of %s' % (i, n))
            elif t != s.tensors[orig]:
                yield 'input %d of %s is no longer %s' % (i, n, orig)
        if B.names.get(v['type']) == op and not isconv:
            a = I.norm(s.st, s.get(v['op'], 'asymmetricQuantizeInputs'))
            want = asym and any(o == out for o, i in targets)
            if a != K(want):
                yield 'asymmetricQuantizeInputs of %s is %s, expected %s' % (n, a, want)
    for n, d in s.keep.items():
        t = s.tensors[n]
        if s.describe(t) + (I.norm(s.st, s.get(t, 'tensor')),) != d:
            yield 'tensor %s was changed' % n
    for m in s.malformed(snap):
        yield m


def quantised(B, s, t, w, axis, q, what):
    """t holds the quantisation of w by the scale it carries"""
    I, A = B.I, B.I.arrays
    g = lambda o, k: I.norm(s.st, I.getattr(s.st, o, k))
    v, quant, dt = g(t, 'tensor'), g(t, 'quantization'), g(t, 'dtype')
    if not isinstance(v, Arr) or not isinstance(quant, Ref):
        if isinstance(v, Arr) and quant == NONE:
            yield '%s is not quantised' % what
            return
        raise Undecided('%s is not known: %s %s' % (what, v, quant))
    if v.dtype != q or dt != T('dtype', (q,)):
        yield '%s has element type %s (recorded as %s), requested was %s' % (what, v.dtype, dt, q)
    if v.shape != w.shape or tuple(x.v for x in s.items(g(t, 'shape'))) != w.shape:
        yield '%s has shape %s instead of %s' % (what, v.shape, w.shape)
        return
    try:
        sc, zp = A.arr(s.st, g(quant, 'scale')), A.arr(s.st, g(quant, 'zero_point'))
    except Unk:
        raise Undecided('quantisation parameters of %s are not known' % what)
    if axis is None:
        if len(sc.el) != 1 or len(zp.el) != 1:
            yield '%s has %d scales for a per-tensor quantisation' % (what, len(sc.el))
            return
        pick = lambda i: (sc.el[0], zp.el[0])
    else:
        if sc.shape != (w.shape[axis],) or zp.shape != sc.shape or g(quant, 'dim') != K(axis):
            yield '%s has scales of shape %s along axis %s, its channel axis is %d of %s' % (what, sc.shape, g(quant, 'dim'), axis, w.shape)
            return
        pick = lambda i: (sc.el[i[axis]], zp.el[i[axis]])
    b = g(t, 'buffer')
    data = g(b, 'data') if isinstance(b, Ref) else None
    if not (isinstance(data, T) and data.op == 'bytes' and isinstance(data.args[0], Arr)):
        yield 'the buffer of %s does not hold its data' % what
        return
    raw = data.args[0]
    for i, e, x, st in zip(indices(w.shape), w.el, raw.el, v.el):
        ss, zz = pick(i)
        if zz != Poly.const(0):
            yield '%s has zero point %s, symmetric weights need 0' % (what, zz)
            return
        if x != fun('quant', e, ss, zz) or raw.dtype != 'int8':
            yield 'element %s of %s is stored as %s, expected the quantisation of %s by scale %s' % (list(i), what, str(x)[:200], e, ss)
            return
        if e.is_const and not (ss.is_const and ss.c > 0 and abs(e.c) <= ss.c * 127 * (1 + Fraction(1, 10**6))):
            yield 'the scale %s of %s does not cover its element %s' % (ss, what, e)
            return
    if all(e.is_const for e in w.el):
        groups = {}
        for i, e in zip(indices(w.shape), w.el):
            groups.setdefault(i[axis] if axis is not None else 0, []).append(abs(e.c))
        for c, m in groups.items():
            ss = sc.el[c]
            if max(m) and ss.c > max(m) / Fraction(127) * Fraction(11, 10):
                yield 'the scale %s of channel %d of %s is coarser than its data (up to %s) needs' % (float(ss.c), c, what, float(max(m)))
                return


def lstm16(item):
    """integer LSTM: int8 activations, int16 cell state"""
    B, on = item
    I = B.I
    res = {'bad': [], 'und': [], 'n': 0}

    def mk():
        s = WScene(B)
        s.I.setattr(s.st, s.cg, 'q_mapping', I.new_dict(s.st, []), None, None)
        graph(s, 'UNIDIRECTIONAL_SEQUENCE_LSTM', 'float')
        for n in ('x', 'y'):
            t = s.tensors[n]
            for k, v in (('dtype', T('dtype', ('int8',))), ('tensor', I.norm(s.st, s.get(t, 'tensor')).but(dtype='int8')), ('quantization', s.quant(I.sym('scale:' + n), I.sym('zp:' + n)))):
                I.setattr(s.st, t, k, v, None, None)
        ref = list(s.ops.values())[0]
        I.setattr(s.st, ref, 'extra_hints', I.new_dict(s.st, [(K('cell_output'), K('c'))]), None, None)
        qc = I.new_inst(s.st, I.lookup(OPS + 'tflite.base.Tensor'), {'name': K('c'), 'quantization': s.quant(0.015625, -3)})
        s.I.setattr(s.st, s.cg, 'rev_q_mapping', I.new_dict(s.st, [(K('c'), qc)]), None, None)
        return s

    def go(s):
        try:
            h = s.make(HYB, K(False), I.ext('numpy.int8'), K(False), K(True), K(on), K(False), NONE)
            I.call(s.st, I.getattr(s.st, h, 'quantize'), [], {}, None, None)
        except Dead as d:
            s.dead = d
            return False
        return True
    try:
        for s, fin, made, complete in B.explore(mk, go, 6):
            if fin is None:
                res['und'].append(s.undecided)
                continue
            if not fin:
                res['bad'].append('it fails: %s' % str(s.dead.exc)[:160])
                continue
            res['n'] += 1
            A = I.arrays
            g = lambda o, k: I.norm(s.st, I.getattr(s.st, o, k))
            ref = list(s.ops.values())[0]
            ins = s.items(s.get(ref, 'inputs'))
            outq = s.describe(s.tensors['y'])
            for wi, bi in ((1, 12), (2, 13), (3, 14), (4, 15)):
                t = ins[bi]
                if not on:
                    if t != s.tensors['b%d' % bi]:
                        res['bad'].append('bias %d was changed' % bi)
                    continue
                d, v = s.describe(t), g(t, 'tensor')
                try:
                    want = A.poly(g(g(ins[wi], 'quantization'), 'scale')) * s.num(g(g(ins[0], 'quantization'), 'scale'))
                    if d != ('int32', want, Poly.const(0)):
                        res['bad'].append('bias %d is %s instead of int32 with scale %s' % (bi, d, want))
                    elif isinstance(v, Arr):
                        for e, x in zip(s.vals['b%d' % bi].el, v.el):
                            if x not in (fun('round', e * inv(want)), fun('rint', e * inv(want))):
                                res['bad'].append('bias %d stores %s instead of the rounded %s / %s' % (bi, x, e, want))
                                break
                except (Unk, TypeError):
                    res['und'].append('bias %d not known: %s' % (bi, d))
            st_, cell = s.describe(ins[18]), s.describe(ins[19])
            if on:
                if st_ != outq:
                    res['bad'].append('the output state is %s, the output is %s' % (st_, outq))
                if cell[0] != 'int16' or cell[2] != Poly.const(0) or not cell[1].is_const or cell[1].c != Fraction(4, 32768):
                    res['bad'].append('the cell state is %s, expected int16 with scale 4/32768 for cells in +-2.03' % (cell,))
            elif st_[0] != 'float32' or cell[0] != 'float32':
                res['bad'].append('the state tensors were changed')
    except (Undecided, NoShape) as u:
        res['und'].append('scene: %s' % u)
    res['analysed'] = sorted(map(str, I.analysed))
    return res


def inv(p):
    return Poly.const(1) / p


def half(item):
    B, name, build = item
    I = B.I
    res = {'bad': [], 'und': [], 'n': 0}

    def mk():
        s = WScene(B)
        s.I.setattr(s.st, s.cg, 'q_mapping', I.new_dict(s.st, []), None, None)
        build(s)
        return s

    def go(s):
        s.before = s.snapshot()
        s.keep = {n: s.describe(t) + (I.norm(s.st, s.get(t, 'tensor')), s.get(t, 'buffer')) for n, t in s.tensors.items() if n != OPTIONAL}
        try:
            h = s.make(HALF)
            I.call(s.st, I.getattr(s.st, h, 'quantize'), [], {}, None, None)
        except Dead as d:
            s.dead = d
            return False
        return True
    try:
        for s, fin, made, complete in B.explore(mk, go, 6):
            if fin is None:
                res['und'].append(s.undecided)
            elif not fin:
                res['bad'].append('it fails: %s' % str(s.dead.exc)[:160])
            else:
                res['n'] += 1
                res['bad'] += list(judge_half(B, s))
    except (Undecided, NoShape) as u:
        res['und'].append('scene: %s' % u)
    res['analysed'] = sorted(map(str, I.analysed))
    return res


def judge_half(B, s):
    I = B.I
    g = lambda o, k: I.norm(s.st, I.getattr(s.st, o, k))
    snap = s.snapshot()
    want = [n for n, v in s.before['v'].items() if v['op'] is None and n in s.vals and n not in s.before['inputs'] and s.vals[n].dtype == 'float32' and
            g(s.tensors[n], 'is_variable') == K(False) and n != OPTIONAL]
    deq = {}
    for n, v in snap['v'].items():
        if v['op'] is None or n in s.before['v']:
            continue
        if B.names.get(v['type']) != 'DEQUANTIZE':
            yield 'an operator %s was added' % B.names.get(v['type'], v['type'])
            continue
        (a,), (b,) = s.items(s.get(v['op'], 'inputs')), s.items(s.get(v['op'], 'outputs'))
        deq[s.kname(g(b, 'name'))] = (a, b)
    src = {}
    for n, v in snap['v'].items():
        w = s.before['v'].get(n)
        if w is None or v['op'] is None:
            continue
        ins = s.items(s.get(v['op'], 'inputs'))
        for i, (t, orig) in enumerate(zip(ins, w['ins'])):
            tn = s.kname(g(t, 'name'))
            if orig in want:
                if tn not in deq:
                    yield 'input %d of %s (%s) is not dequantised from half precision' % (i, n, orig)
                    continue
                src.setdefault(orig, set()).add(tn)
                a, b = deq[tn]
                va = g(a, 'tensor')
                if not isinstance(va, Arr):
                    raise Undecided('half tensor not known')
                if va.el != s.vals[orig].el or va.shape != s.vals[orig].shape:
                    yield 'input %d of %s is dequantised from other data than %s' % (i, n, orig)
                if s.describe(a) != ('float16', None, None) or s.describe(b) != ('float32', None, None):
                    yield 'the conversion of %s goes from %s to %s' % (orig, s.describe(a), s.describe(b))
                buf = g(a, 'buffer')
                if not isinstance(buf, Ref) or g(buf, 'data') != T('bytes', (va,)):
                    yield 'the half tensor of %s has no buffer of its data' % orig
                if g(b, 'buffer') != NONE:
                    yield 'the dequantised tensor of %s has a buffer' % orig
            elif t != s.tensors[orig]:
                yield 'input %d of %s is no longer %s' % (i, n, orig)
    for o, ts in src.items():
        if len(ts) != 1:
            yield '%s is dequantised %d times' % (o, len(ts))
    used = set().union(*src.values()) if src else set()
    for d in deq:
        if d not in used and not any(i == d for v in snap['v'].values() for i in v['ins']):
            pass                                # the constant has no reader
    for n, d in s.keep.items():
        t = s.tensors[n]
        if s.describe(t) + (g(t, 'tensor'), s.get(t, 'buffer')) != d:
            yield 'tensor %s was changed' % n
    sem = Real(s)
    for o in snap['outputs']:
        if o != 'y!' and o in s.plain:
            v = sem.value(o)
            if v.el != s.vals[o].el:
                yield 'output %s is another function' % o
    for m in s.malformed(snap):
        yield m


def half_graphs():
    def fc(s):
        graph(s, 'FULLY_CONNECTED', 'float', True)
        s.plain = ['y', 'y2', 'z']

    def i8(s):
        graph(s, 'FULLY_CONNECTED', 'int8')
        s.plain = ['y']

    def conv(s):
        graph(s, 'CONV_2D', 'float', True)
        s.plain = ['z']

    def lstm(s):
        graph(s, 'UNIDIRECTIONAL_SEQUENCE_LSTM', 'float')
        s.plain = []

    def bilstm(s):
        graph(s, 'BIDIRECTIONAL_SEQUENCE_LSTM', 'float')
        s.plain = []

    def twice(s):
        s.inp('x', (2, 3))
        s.par('k', (2, 3))
        s.par('l', (2, 3))
        s.con('ax', [1])
        s.o('ADD', ['k', 'x'], 'a', fusedActivationFunction=0, potScaleInt16=True)
        s.o('SUB', ['k', 'k'], 'z', fusedActivationFunction=0, potScaleInt16=True)
        s.o('SUB', ['l', 'k'], 'u', fusedActivationFunction=0, potScaleInt16=True)
        s.o('CONCATENATION', ['k', 'a', 'k', 'l', 'u', 'z'], 'b', axis=0, fusedActivationFunction=0)
        s.o('SUM', ['b', 'ax'], 'y', keepDims=False)
        s.output('y')
        s.output('a')
        s.plain = ['y', 'a']
    return [('fully connected, shared weight', fc), ('integer weight', i8), ('convolution, shared weight', conv), ('LSTM', lstm), ('bidirectional LSTM', bilstm),
            ('constants read several times', twice)]


def where(I, q):
    c = I.lookup(q)
    return '%s:%d' % (I.repo.module(c.mod if isinstance(c.mod, str) else q.rsplit('.', 1)[0]).rel(), c.node.lineno)


def run(ctx):
    ctx.rule('hybrid', 'a quantised weight holds the quantisation of its own elements by the scale, zero point and axis it carries', 60)
    ctx.rule('int16 lstm', 'biases and states of the integer LSTM carry the scales they are quantised with', 2)
    ctx.rule('half', 'each float constant is read through exactly one dequantise of its half copy, nothing else changes', 5)
    B = WBench(ctx)
    items = []
    ops = ['FULLY_CONNECTED', 'CONV_2D', 'DEPTHWISE_CONV_2D', 'UNIDIRECTIONAL_SEQUENCE_LSTM', 'BIDIRECTIONAL_SEQUENCE_LSTM']
    for op in ops:
        for kind in ('float', 'known', 'zeros', 'computed', 'int8'):
            for asym, q, pc in itertools.product((True, False), ('int8', 'uint8'), (False, True)):
                if q == 'uint8' and pc:
                    continue                    # rejected by the converter
                for conv in (True, False):
                    if not conv and 'CONV' not in op:
                        continue
                    items.append((B, op, kind, False, asym, q, pc, conv, None, False))
        for pc in (False, True):
            items.append((B, op, 'float', True, False, 'int8', pc, True, None, False))
            items.append((B, op, 'float', True, True, 'int8', pc, True, {'y': False, 'z': True}, False))
            items.append((B, op, 'float', True, True, 'int8', pc, True, {'y2': False}, True))
    for it, r in zip(items, parallel(items, hybrid)):
        inst = '%s, %s weight%s, asymmetric=%s, type=%s, per channel=%s, convolutions=%s, config=%s' % (
            it[1], it[2], ' with several readers' if it[3] else '', it[4], it[5], it[6], it[7], it[8])
        ctx.analysed |= set(r['analysed'])
        if r['n'] or r['bad']:
            ctx.ob('hybrid', inst)
        else:
            ctx.skip(inst, (r['und'] or ['no run'])[0])
        for b in r['bad'][:2]:
            ctx.finding('hybrid', inst, where(B.I, HYB), b)
    items = [(B, False), (B, True)]
    for it, r in zip(items, parallel(items, lstm16)):
        inst = 'integer LSTM %s' % ('on' if it[1] else 'off')
        ctx.analysed |= set(r['analysed'])
        if r['und']:
            ctx.skip(inst, r['und'][0])
        if r['n'] or r['bad']:
            ctx.ob('int16 lstm', inst)
        for b in r['bad'][:4]:
            ctx.finding('int16 lstm', inst, where(B.I, HYB), b)
    items = [(B, n, b) for n, b in half_graphs()]
    for it, r in zip(items, parallel(items, half)):
        ctx.analysed |= set(r['analysed'])
        if r['n'] or r['bad']:
            ctx.ob('half', it[1])
        else:
            ctx.skip(it[1], (r['und'] or ['no run'])[0])
        for b in r['bad'][:4]:
            ctx.finding('half', it[1], where(B.I, HALF), b)
