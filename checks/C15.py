"""C15: input/output type rewriting preserves quantised values."""
from sa.framework import parallel
from sa.interp import K, T, Tup, Ref, NONE, Dead, State
from sa.arr import Arr, Poly, fresh, full, fun, Unk, NoShape
from sa.qtensors import QTensors, congruent
from sa.sem import ValueBench, VScene, Sem
from sa.topo import Undecided
import itertools

TITLE = 'io type rewriting preserves quantised values'
EXPLANATION = ('Abstract interpretation of quantize_input_output_type_pass, fuse_quant_dequant_nodes and the tensor constructor. Boundary scenes: small quantised '
               'graphs (one or several inputs and outputs, shared, repeated and passed-through tensors) for both target types and every selection of indices; '
               'after the pass each model input/output has the requested type, the scale and the zero point moved by 128, every other tensor keeps type and '
               'quantisation, and the real-valued function of every output is the same expression. Construction: a framework tensor of every 8-bit kind, with '
               'symbolic data, scale and zero point, keeps its real value in the target type.')
BASE = 'tinynn.converter.operators.tflite.base'
QMIN = {'uint8': 0, 'int8': -128, 'int16': -32768}


class Bench(ValueBench):
    """the tensor constructor itself is interpreted, not summarised"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.Q = QTensors(self.I)

    def hook(self, I, st, fn, args, kwargs, node, mod):
        return NotImplemented


class Real(Sem):
    """real values: a change of representation is the identity"""

    def calc(self, code, vals, *a, **kw):
        return [vals[0]] if code in ('QUANTIZE', 'DEQUANTIZE') else super().calc(code, vals, *a, **kw)


class QScene(VScene):
    def __init__(self, topo, opts=None):
        super().__init__(topo, opts)
        topo.Q.facts(self.st)
        self.known, self.codes_, self.reads, self.writes = {}, {}, {}, {}

    def op(self, name, code, ins, outs, *a, **kw):
        self.codes_[name], self.reads[name], self.writes[name] = code, list(ins), list(outs)
        return super().op(name, code, ins, outs, *a, **kw)

    def q(self, name, dtype):
        """quantisation with its own scale and zero point"""
        if dtype.startswith('float') or dtype == 'int32':
            return NONE
        return self.quant(self.I.sym('scale:' + name), self.I.sym('zp:' + name))

    def qinp(self, name, dtype, shape=(1, 2)):
        self.inp(name, shape, dtype, quantization=self.q(name, dtype))
        self.mark(name)
        return name

    def qop(self, code, ins, out, dtype, **at):
        r = self.o(code, ins, out, qouts={}, **at)
        outs = [out] if isinstance(out, str) else out
        for n in outs:
            t = self.tensors[n]
            v = self.I.norm(self.st, self.get(t, 'tensor'))
            for k, x in (('dtype', T('dtype', (dtype,))), ('tensor', v.but(dtype=dtype)), ('quantization', self.q(n, dtype))):
                self.I.setattr(self.st, t, k, x, None, None)
            self.mark(n)
        return r

    def mark(self, n):
        self.known[n] = self.describe(self.tensors[n])

    def describe(self, t):
        """type, scale, zero point"""
        st, I = self.st, self.I
        g = lambda o, k: I.norm(st, I.getattr(st, o, k))
        q = g(t, 'quantization')
        dt = g(t, 'dtype')
        d = g(t, 'tensor')
        if isinstance(d, Arr) and isinstance(dt, T) and dt.op == 'dtype' and d.dtype != dt.args[0]:
            return ('data of type %s recorded as %s' % (d.dtype, dt.args[0]),)
        dt = dt.args[0] if isinstance(dt, T) and dt.op == 'dtype' else str(dt)
        if q == NONE:
            return (dt, None, None)
        if not isinstance(q, Ref):
            raise Undecided('quantisation not known: %r' % (q,))
        return (dt, self.num(g(q, 'scale')), self.num(g(q, 'zero_point')))

    def num(self, v):
        try:
            return self.I.arrays.poly(v)
        except Unk:
            raise Undecided('quantisation parameter not known: %r' % (v,))


def moved(d, to):
    """the same quantisation in the other 8-bit type"""
    if d[0] == to or len(d) < 3 or d[1] is None:
        return d
    return (to, d[1], d[2] + Poly.const(QMIN[to] - QMIN[d[0]]))


ACT = dict(fusedActivationFunction=0)


def graphs():
    """(name, build(scene, dtype)) - every tensor of the given 8-bit type"""
    def g(name):
        def d(f):
            out.append((name, f))
            return f
        return d
    out = []

    @g('one input, one output')
    def _(s, t):
        s.qinp('x', t)
        s.qop('TANH', ['x'], 'y', t)
        s.output('y')

    @g('an input read by two operators')
    def _(s, t):
        s.qinp('x', t)
        s.qop('TANH', ['x'], 'y', t)
        s.qop('LOGISTIC', ['x'], 'z', t)
        s.output('y')
        s.output('z')

    @g('an input read twice by one operator')
    def _(s, t):
        s.qinp('x', t)
        s.qop('ADD', ['x', 'x'], 'y', t, potScaleInt16=True, **ACT)
        s.qop('TANH', ['x'], 'z', t)
        s.qop('SUB', ['y', 'z'], 'w', t, potScaleInt16=True, **ACT)
        s.output('w')

    @g('two inputs of one operator')
    def _(s, t):
        s.qinp('x', t)
        s.qinp('y', t)
        s.qop('SUB', ['x', 'y'], 'z', t, potScaleInt16=True, **ACT)
        s.output('z')

    @g('three inputs and outputs')
    def _(s, t):
        for n in 'abc':
            s.qinp(n, t)
        s.qop('SUB', ['b', 'a'], 'u', t, potScaleInt16=True, **ACT)
        s.qop('SUB', ['c', 'u'], 'v', t, potScaleInt16=True, **ACT)
        s.qop('TANH', ['v'], 'w', t)
        for n in 'uvw':
            s.output(n)

    @g('an output other operators use')
    def _(s, t):
        s.qinp('x', t)
        s.qop('TANH', ['x'], 'y', t)
        s.qop('LOGISTIC', ['y'], 'z', t)
        s.qop('SUB', ['z', 'y'], 'w', t, potScaleInt16=True, **ACT)
        s.output('y')
        s.output('w')

    @g('several results of one operator as outputs')
    def _(s, t):
        s.qinp('x', t)
        s.con('ax', 1)
        s.qop('SPLIT', ['ax', 'x'], ['p', 'q'], t, numSplits=2)
        s.qop('TANH', ['q'], 'r', t)
        s.output('q')
        s.output('p')
        s.output('r')

    @g('an output listed twice')
    def _(s, t):
        s.qinp('x', t)
        s.qop('TANH', ['x'], 'y', t)
        s.qop('LOGISTIC', ['y'], 'z', t)
        s.output('y')
        s.output('z')
        s.m(s.get(s.cg, 'outputs'), 'append', K('y'))

    @g('quantised at the boundary')
    def _(s, t):
        s.qinp('f', 'float32')
        s.qop('QUANTIZE', ['f'], 'x', t)
        s.qop('TANH', ['x'], 'y', t)
        s.qop('DEQUANTIZE', ['y'], 'o', 'float32')
        s.output('o')

    @g('two quantised inputs and outputs at the boundary')
    def _(s, t):
        for n in 'fg':
            s.qinp(n, 'float32')
        s.qop('QUANTIZE', ['g'], 'y', t)
        s.qop('QUANTIZE', ['f'], 'x', t)
        s.qop('SUB', ['x', 'y'], 'u', t, potScaleInt16=True, **ACT)
        s.qop('TANH', ['u'], 'v', t)
        s.qop('DEQUANTIZE', ['v'], 'p', 'float32')
        s.qop('DEQUANTIZE', ['u'], 'o', 'float32')
        s.output('o')
        s.output('p')

    @g('dequantised output that other operators use')
    def _(s, t):
        s.qinp('x', t)
        s.qop('TANH', ['x'], 'y', t)
        s.qop('DEQUANTIZE', ['y'], 'o', 'float32')
        s.qop('EXP', ['o'], 'p', 'float32')
        s.output('o')
        s.output('p')
    return out


def select(n):
    r = [None]
    for k in range(1, n + 1):
        r += [list(c) for c in itertools.combinations(range(n), k)]
    return r[:5]


def boundary(item):
    B, name, build, ty, to, fi, fo, passes = item
    res = {'bad': [], 'und': [], 'n': 0}
    opts = {'quantize_input_output_type': K(to)}
    lift = lambda s, v: NONE if v is None else s.I.new_list(s.st, [K(x) for x in v])

    def mk():
        s = QScene(B, opts)
        build(s, ty)
        s.opts = dict(opts, fuse_input_indices=lift(s, fi), fuse_output_indices=lift(s, fo))
        sem = Real(s)
        s.before_vals = {x.v: sem.value(x.v) for x in s.items(s.get(s.cg, 'outputs'))}
        s.ins0 = [x.v for x in s.items(s.get(s.cg, 'inputs'))]
        s.outs0 = [x.v for x in s.items(s.get(s.cg, 'outputs'))]
        return s

    def go(s):
        for p in passes:
            if not s.run(p):
                return False
        return True
    try:
        for s, fin, made, complete in B.explore(mk, go, 8):
            if fin is None:
                res['und'].append(s.undecided)
            elif not fin:
                res['bad'].append('the pass fails: %s' % str(s.dead.exc)[:160])
            else:
                res['n'] += 1
                try:
                    res['bad'] += list(judge(B, s, to, fi, fo, passes))
                except Undecided as u:
                    res['und'].append(str(u))
    except (Undecided, NoShape) as u:
        res['und'].append('scene: %s' % u)
    res['analysed'] = sorted(map(str, B.I.analysed))
    return res


def judge(B, s, to, fi, fo, passes):
    fuse = 'fuse_quant_dequant_nodes' in passes
    conv = 'quantize_input_output_type_pass' in passes
    snap = s.snapshot()
    tm = s.get(s.cg, 'tensor_map')
    tensor = lambda n: B.I.getitem(s.st, tm, K(n))
    chosen = lambda idx, i: idx is None or i in idx
    ins, outs = snap['inputs'], snap['outputs']
    if len(ins) != len(s.ins0) or len(outs) != len(s.outs0):
        yield 'the model has inputs %s and outputs %s, before %s and %s' % (ins, outs, s.ins0, s.outs0)
        return

    # what is expected at every position
    def want(names, idx, code, side):
        for i, n in enumerate(names):
            d = s.known[n]
            inner = n
            if fuse and chosen(idx, i):
                inner = s.fused.get(n, n)
            d = s.known[inner]
            if conv and chosen(idx, i):
                d = moved(d, to)
            yield i, n, inner, d
    s.fused = fusable(s)
    moved_in = {}
    for side, now, names, idx in (('input', ins, s.ins0, fi), ('output', outs, s.outs0, fo)):
        for i, n, inner, d in want(names, idx, None, side):
            got = s.describe(tensor(now[i]))
            if got != d:
                yield 'model %s %d (%s) is %s instead of %s' % (side, i, n, show(got), show(d))
            if side == 'input' and d != s.known[inner]:
                moved_in[inner] = (d, s.known[inner])

    # every operator still reads and writes tensors of its own type and quantisation
    for on, ref in s.ops.items():
        vs = [v for v in snap['v'].values() if v['op'] == ref]
        if not vs:
            continue
        code = s.codes_[on]
        for k, was in (('inputs', s.reads[on]), ('outputs', s.writes[on])):
            for i, t in enumerate(s.items(s.get(ref, k))):
                n = was[i]
                if n not in s.known:
                    continue
                if s.describe(t) != s.known[n]:
                    yield '%s %d of %s (%s) became %s, it was %s' % (k[:-1], i, on, n, show(s.describe(t)), show(s.known[n]))

    # conversion operators that were added keep the real value
    known = set(s.ops.values())
    for n, v in snap['v'].items():
        if v['op'] is None or v['op'] in known:
            continue
        (a,), (b,) = s.items(s.get(v['op'], 'inputs')), s.items(s.get(v['op'], 'outputs'))
        if B.names.get(v['type']) != 'QUANTIZE':
            yield 'an operator %s was added' % B.names.get(v['type'], v['type'])
            continue
        da, db = s.describe(a), s.describe(b)
        if moved(da, db[0]) != db:
            yield 'the added conversion turns %s into %s' % (show(da), show(db))
        if da[0] == db[0]:
            yield 'the added conversion converts nothing (%s)' % show(da)

    # same real function
    sem = Real(s)
    if fuse:
        for x, y in s.fused.items():
            if x in s.ins0 and y in sem.prod and snap['v'][sem.prod[y][0]]['op'] is None:
                s.leaves[y] = s.leaves[x]
    for i, o in enumerate(s.outs0):
        try:
            v = sem.value(outs[i])
        except NoShape as e:
            yield 'model output %s can no longer be computed: %s' % (o, e)
            continue
        w = s.before_vals[o]
        if v.shape != w.shape or v.el != w.el:
            yield 'model output %d (%s) is %s instead of %s' % (i, o, v, w)
    for m in s.malformed(snap):
        if 'is gone' in m and conv or 'by an edge named' in m:
            continue
        yield m


def show(d):
    return ' '.join(str(x) for x in d)


def fusable(s):
    """float model inputs that only feed quantisation -> the tensor behind it; outputs -> the tensor before the dequantisation"""
    r = {}
    readers = {}
    for on in s.ops:
        for n in s.reads[on]:
            readers.setdefault(n, []).append(on)
    for on in s.ops:
        if s.codes_[on] == 'QUANTIZE' and s.reads[on][0] in s.ins0 and all(s.codes_[x] == 'QUANTIZE' for x in readers[s.reads[on][0]]):
            r[s.reads[on][0]] = s.writes[on][0]
        if s.codes_[on] == 'DEQUANTIZE' and s.writes[on][0] in s.outs0 and s.writes[on][0] not in readers:
            r[s.writes[on][0]] = s.reads[on][0]
    return r


def construct(ctx, B):
    """the real value of a framework tensor survives the change of type"""
    I = B.I
    TC = I.lookup(BASE + '.Tensor')
    init, _ = I.class_attr(TC, '__init__')
    loc = '%s:%d' % (I.repo.module(BASE).rel(), init.node.lineno)
    sc, zp = I.sym('scale'), I.sym('zp')
    P = lambda v: I.arrays.poly(v)
    for dt, scheme, target, asym, zero in [(d, sch, t, a, z) for d in ('quint8', 'qint8') for sch in ('per_tensor_affine', 'per_tensor_symmetric', 'per_channel_affine',
                                           'per_channel_symmetric') for t in ('uint8', 'int8', 'int16') for a in (True, False) for z in ('any', 'mid')]:
        chan = scheme.startswith('per_channel')
        mid = 128 if dt == 'quint8' else 0
        if target == 'int16' and (asym or chan or dt == 'qint8'):
            continue                                    # int16 is only accepted with strict symmetric quantisation of activations
        if dt == 'quint8' and (chan or not asym and zero == 'any' and target != 'uint8'):
            continue                                    # unsigned weights are per tensor; off-centre symmetric data is converted with a warning
        if chan and target != 'int8' or dt == 'qint8' and target == 'uint8' and asym and zero == 'any':
            continue
        if chan and zero == 'any':
            continue
        for buf in (True, False):
            inst = 'Tensor(%s %s zero point %s, q_type=%s, asymmetric=%s, has_buffer=%s)' % (dt, scheme, zero, target, asym, buf)
            st = State()
            B.Q.facts(st)
            a = fresh('q', (2, 3), dt, 'torch')
            z = K(mid) if zero == 'mid' else zp
            if chan:
                scs = fresh('s', (3,), 'float64', 'torch')
                B.Q.describe(a, scheme=scheme, scales=scs, zero_points=full((3,), mid, 'int64'), axis=1)
            else:
                B.Q.describe(a, scheme=scheme, scale=sc, zero_point=z)
            ctx.ob('construct', inst)
            try:
                r = I.call(st, TC, [a, K('t')], {'q_type': I.ext('numpy.' + target), 'asymmetric': K(asym), 'has_buffer': K(buf)}, None, None)
            except Dead as d:
                ctx.finding('construct', inst, loc, 'fails: %s' % str(d.exc)[:200])
                continue
            g = lambda o, k: I.norm(st, I.getattr(st, o, k))
            v, q, got = g(r, 'tensor'), g(r, 'quantization'), g(r, 'dtype')
            if not isinstance(v, Arr) or not isinstance(q, Ref):
                ctx.skip(inst, 'result not known: %s %s' % (v, q))
                continue
            src = 'uint8' if dt == 'quint8' else 'int8'
            mul = 256 if target == 'int16' else 1
            off = 0 if target == 'int16' else QMIN[target] - QMIN[src]
            ctx.expect(v.dtype == target and got == T('dtype', (target,)), 'construct', inst, loc, 'has element type %s, recorded as %s' % (v.dtype, got), instance=inst)
            for e, x in zip(a.el, v.el):
                w = (e + Poly.const(-mid)) * Poly.const(256) if mul == 256 else e + Poly.const(off)
                if not congruent(strip(x), w, target):
                    ctx.finding('construct', inst, loc, 'an element q is stored as %s, expected %s' % (x, w))
                    break
            s, zz = g(q, 'scale'), g(q, 'zero_point')
            try:
                if chan:
                    ok = [P(x) for x in I.arrays.seq(st, s) or I.arrays.arr(st, s).el] == list(scs.el) and \
                        [P(x) for x in I.arrays.seq(st, zz) or I.arrays.arr(st, zz).el] == [Poly.const(mid + off)] * 3 and g(q, 'dim') == K(1)
                else:
                    ok = same(P(s) * Poly.const(mul), P(sc)) and P(zz) == (Poly.const(0) if target == 'int16' else P(z) + Poly.const(off))
                ctx.expect(ok, 'construct', inst, loc, 'scale %s, zero point %s, axis %s do not describe the stored data (scale %s, zero point %s)' % (
                    s, zz, g(q, 'dim'), sc, z), instance=inst + ' parameters')
            except Unk:
                ctx.skip(inst, 'quantisation parameters not known: %s %s' % (s, zz))
            b = g(r, 'buffer')
            if buf:
                ctx.expect(isinstance(b, Ref) and g(b, 'data') == T('bytes', (v,)), 'construct', inst, loc, 'the buffer does not hold the stored data', instance=inst + ' buffer')
            else:
                ctx.expect(b == NONE, 'construct', inst, loc, 'has a buffer', instance=inst + ' buffer')

    # explicit quantisation is copied
    for dt in ('float32', 'uint8', 'int8'):
        for lib in ('numpy', 'torch'):
            st = State()
            B.Q.facts(st)
            a = fresh('v', (2,), dt, lib)
            sl, zl = I.new_list(st, [I.sym('s0'), I.sym('s1')]), I.new_list(st, [K(0), K(0)])
            q = I.new_inst(st, I.lookup(BASE + '.QuantizationParameters'), {'scale': sl, 'zero_point': zl, 'dim': K(1)})
            inst = 'Tensor(%s %s, quantization=...)' % (lib, dt)
            ctx.ob('construct', inst)
            try:
                r = I.call(st, TC, [a, K('t')], {'quantization': q}, None, None)
            except Dead as d:
                ctx.finding('construct', inst, loc, 'fails: %s' % str(d.exc)[:200])
                continue
            g = lambda o, k: I.norm(st, I.getattr(st, o, k))
            v, n = g(r, 'tensor'), g(r, 'quantization')
            ctx.expect(isinstance(v, Arr) and v.el == a.el and v.dtype == dt and v.shape == a.shape, 'construct', inst, loc, 'data became %s' % (v,), instance=inst + ' data')
            if not isinstance(n, Ref):
                ctx.finding('construct', inst, loc, 'has quantisation %s' % (n,))
                continue
            ctx.expect(n != q, 'construct', inst, loc, 'shares the quantisation parameters with the tensor they were taken from', instance=inst + ' own copy')
            ctx.expect(I.iter_known(st, g(n, 'scale'))[0] == I.iter_known(st, sl)[0] and g(n, 'dim') == K(1), 'construct', inst, loc, 'has other parameters', instance=inst + ' parameters')


def strip(p):
    """round(x) of an integral x"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        m = list(m)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'F' and m[0][0][1] in ('round', 'rint'):
            return m[0][0][2]
    return p


def same(p, q):
    return not (p - q).t


def run(ctx):
    ctx.rule('boundary', 'after the pass model inputs and outputs have the requested type and the moved zero point, all else is as it was', 60)
    ctx.rule('construct', 'a framework tensor keeps its real value in the target type', 30)
    B = Bench(ctx)
    construct(ctx, B)
    items = []
    for name, build in graphs():
        p = QScene(B, {})
        build(p, 'uint8')
        ni, no = len(p.items(p.get(p.cg, 'inputs'))), len(p.items(p.get(p.cg, 'outputs')))
        edge = 'boundary' in name
        for ty, to in itertools.product(('uint8', 'int8'), repeat=2):
            for fi in select(ni):
                for fo in select(no):
                    if fi and fo and fi != fo or fo and 'listed twice' in name:
                        continue
                    for passes in ([('fuse_quant_dequant_nodes',), ('fuse_quant_dequant_nodes', 'quantize_input_output_type_pass')] if edge else
                                   [('fuse_quant_dequant_nodes',)] if 'dequantised' in name else [('quantize_input_output_type_pass',)]):
                        if edge and len(passes) == 2 and (fi, fo) != (None, None) and not (fi == list(range(ni)) and fo == list(range(no))):
                            continue            # float inputs and outputs that are not fused cannot be given an integer type
                        items.append((B, name, build, ty, to, fi, fo, passes))
    for it, r in zip(items, parallel(items, boundary)):
        inst = '%s: %s, %s to %s, inputs %s, outputs %s' % (' + '.join(it[7]), it[1], it[3], it[4], it[5], it[6])
        ctx.analysed |= set(r['analysed'])
        if r['n'] or r['bad']:
            ctx.ob('boundary', inst)
        else:
            ctx.skip(inst, (r['und'] or ['no run'])[0])
        for b in r['bad'][:2]:
            ctx.finding('boundary', inst, B.line(it[7][-1]), b)
