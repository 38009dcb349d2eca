"""Graphs on which rewrites are judged by value (sa/sem.py): known shapes and options, symbolic data.  Every scene is (pass, tag,
what, build); `build(s)` fills a VScene."""
import itertools

PERM = {3: ((0, 2, 1), (1, 2, 0), (2, 1, 0)), 4: ((0, 2, 3, 1), (0, 3, 1, 2)), 2: ((1, 0),), 5: ((0, 2, 3, 4, 1), (0, 4, 1, 2, 3))}


def inv(p):
    return tuple(sorted(range(len(p)), key=lambda i: p[i]))


def perm_shape(sh, p):
    return tuple(sh[i] for i in p)


class B:
    """short-hands over a VScene"""

    def __init__(self, s):
        self.s, self.n = s, 0

    def name(self, pre='k'):
        self.n += 1
        return '%s%d' % (pre, self.n)

    def shape(self, t):
        return self.s.vals[t].shape

    def x(self, shape, name=None, dtype='float32', **kw):
        return self.s.inp(name or self.name('x'), tuple(shape), dtype, **kw)

    def c(self, shape, name=None, **kw):
        return self.s.par(name or self.name('w'), tuple(shape), **kw)

    def i(self, vals, name=None):
        return self.s.con(name or self.name('i'), vals)

    def o(self, code, ins, *, outs=1, hint=None, **at):
        names = [self.name('t') for _ in range(outs)]
        r = self.s.o(code, ins, names, hint=hint, **at)
        return names[0] if outs == 1 else names

    def tr(self, x, perm, hint=None):
        return self.o('TRANSPOSE', [x, self.i(list(perm))], hint=hint)

    def rs(self, x, shape, hint=None):
        return self.o('RESHAPE', [x, self.i(list(shape))], hint=hint, newShape=list(shape))

    def bin(self, code, a, b, act=0):
        at = {} if code in ('MAXIMUM', 'MINIMUM', 'SQUARED_DIFFERENCE', 'POW') else {'fusedActivationFunction': act}
        if code in ('ADD', 'SUB'):
            at['potScaleInt16'] = False
        return self.o(code, [a, b], **at)

    def un(self, code, x, **at):
        return self.o(code, [x], **at)

    def conv(self, x, i, o, k, groups=1, bias='full', act=0, pad=0, stride=1, dil=1, w=None, b=None):
        n = len(k)
        L = lambda v: list(v) if isinstance(v, (list, tuple)) else [v] * n
        ins = [x, w or self.c((o, i // groups) + tuple(k))]
        if b or bias:
            ins.append(b or self.c((o,) if bias == 'full' else (1,)))
        return self.o('GENERIC_CONV', ins, stride=L(stride), padding=L(pad), dilation=L(dil), output_padding=[0] * n, groups=groups, fusedActivationFunction=act)

    def deconv(self, x, i, o, k, groups=1, bias='full', act=0, pad=0, stride=1, dil=1, op=0, with_bias=True, mtk=False):
        n = len(k)
        L = lambda v: list(v) if isinstance(v, (list, tuple)) else [v] * n
        ins = [x, self.c((i, o // groups) + tuple(k))]
        if bias:
            ins.append(self.c((o,) if bias == 'full' else (1,)))
        return self.o('GENERIC_DECONV', ins, stride=L(stride), padding=L(pad), dilation=L(dil), output_padding=L(op), groups=groups, fusedActivationFunction=act,
                      conv_transpose_with_bias=with_bias, enable_mtk_ops=mtk)

    def bn(self, x, c, act=0):
        from .sem import sympoly
        return self.o('BATCH_NORM', [x] + [self.c((c,)) for _ in range(4)], eps=sympoly('eps'), fusedActivationFunction=act)

    def conv2d(self, x, o, k, act=0, padding=1, stride=1, dil=1, bias=True, groups=1, w=None, dynw=False):
        """channel-last convolution"""
        ci = self.shape(x)[-1]
        w = w or (self.x if dynw else self.c)((o,) + tuple(k) + (ci // groups,))
        return self.o('CONV_2D', [x, w] + ([self.c((o,))] if bias is True else [bias] if bias else []), fusedActivationFunction=act, padding=padding, strideH=stride, strideW=stride,
                      dilationHFactor=dil, dilationWFactor=dil)

    def dwconv(self, x, m, k, act=0, padding=1, stride=1, bias=True):
        ci = self.shape(x)[-1]
        return self.o('DEPTHWISE_CONV_2D', [x, self.c((1,) + tuple(k) + (ci * m,))] + ([self.c((ci * m,))] if bias else []), fusedActivationFunction=act, padding=padding,
                      strideH=stride, strideW=stride, depthMultiplier=m, dilationHFactor=1, dilationWFactor=1)

    def pool(self, code, x, k, stride=1, padding=1, act=0):
        return self.o(code, [x], filterHeight=k[0], filterWidth=k[1], strideH=stride, strideW=stride, padding=padding, fusedActivationFunction=act)

    def fc(self, x, o, bias=True, act=0, keep=False, w=None, b=None):
        w = w or self.c((o, self.shape(x)[-1]))
        return self.o('FULLY_CONNECTED', [x, w] + ([b or self.c((o,))] if bias else []), fusedActivationFunction=act, keepNumDims=keep, asymmetricQuantizeInputs=False, weightsFormat=0)

    def reduce(self, code, x, axes, keep=True):
        return self.o(code, [x, self.i(list(axes))], keepDims=keep)

    def cat(self, xs, axis, act=0):
        return self.o('CONCATENATION', list(xs), axis=axis, fusedActivationFunction=act)

    def pack(self, xs, axis):
        return self.o('PACK', list(xs), axis=axis, valuesCount=len(xs))

    def unpack(self, x, axis):
        n = self.shape(x)[axis]
        return self.o('UNPACK', [x], outs=n, axis=axis, num=n)

    def split(self, x, axis, n):
        return self.o('SPLIT', [self.i(axis), x], outs=n, numSplits=n)

    def splitv(self, x, axis, sizes):
        return self.o('SPLIT_V', [x, self.i(list(sizes)), self.i(axis)], outs=len(sizes), numSplits=len(sizes))

    def slice(self, x, begin, size):
        return self.o('SLICE', [x, self.i(list(begin)), self.i(list(size))])

    def sslice(self, x, b, e, st=None, bm=0, em=0, sm=0):
        return self.o('STRIDED_SLICE', [x, self.i(list(b)), self.i(list(e)), self.i(list(st or [1] * len(b)))], beginMask=bm, endMask=em, ellipsisMask=0, newAxisMask=0,
                      shrinkAxisMask=sm, offset=False)

    def gather(self, x, idx, axis, batch=0):
        return self.o('GATHER', [x, self.i(idx)], axis=axis, batchDims=batch)

    def pad(self, x, pads, val=None):
        if val is None:
            return self.o('PAD', [x, self.i([list(p) for p in pads])])
        v = self.s.con(self.name('v'), [val], 'float32')
        return self.o('PADV2', [x, self.i([list(p) for p in pads]), v])

    def tile(self, x, m):
        return self.o('TILE', [x, self.i(list(m))])

    def bmm(self, a, b, adjl=False, adjr=False):
        return self.o('BATCH_MATMUL', [a, b], adjointLhs=adjl, adjointRhs=adjr, asymmetricQuantizeInputs=False)

    def out(self, *ts):
        for t in ts:
            self.s.output(t)


SCENES = []


def scene(pas, tag, what, **kw):
    def deco(f):
        SCENES.append((pas, tag, what, (lambda s: f(B(s))), kw))
        return f
    return deco


def add(pas, tag, what, f, **kw):
    SCENES.append((pas, tag, what, (lambda s: f(B(s))), kw))


# ---- layout: lowering of convolutions --------------------------------------------------------------
def lower_convs():
    geo = [('1-d', (2,), 3), ('2-d', (2, 1), 3), ('3-d', (1, 2, 1), 2), ('2-d 1x1', (1, 1), 2)]
    for nm, k, sz in geo:
        sp = {1: (3,), 2: (3, 2), 3: (1, 2, 2)}[len(k)]
        for bias in ('full', None):
            for g, i, o in ((1, 2, 3), (2, 2, 2), (2, 2, 4), (2, 4, 2)):
                if bias is None and g > 1 and o != 2 or len(k) == 3 and g > 1:
                    continue
                kind = {(1, 3): 'plain', (2, 2): 'depthwise', (2, 4): 'depthwise with multiplier 2'}.get((g, o), 'grouped')
                kind = 'grouped' if (g, i, o) == (2, 4, 2) else kind
                add('transform_graph', 'layout', '%s %s conv, bias %s' % (nm, kind, bias),
                    lambda b, i=i, o=o, k=k, g=g, sp=sp, bias=bias: b.out(b.conv(b.x((1, i) + sp), i, o, k, g, bias)))
        for pad, st, dl in ((1, 1, 1), (1, 2, 1), (0, 1, 2), ('mix', 1, 1)):
            p = [1] + [0] * (len(k) - 1) if pad == 'mix' else pad
            kk = tuple(2 for _ in k) if len(k) < 3 else k
            for g in (1, 2) if len(k) < 3 else (1,):
                add('transform_graph', 'layout', '%s conv, padding %s, stride %s, dilation %s, groups %s' % (nm, pad, st, dl, g),
                    lambda b, k=kk, p=p, st=st, dl=dl, sp=sp, g=g: b.out(b.conv(b.x((1, 2) + tuple(d + 1 for d in sp)), 2, 2, k, g, 'full', 0, p, st, dl)))
        add('transform_graph', 'layout', '%s conv with relu' % nm, lambda b, k=k, sp=sp: b.out(b.conv(b.x((1, 2) + sp), 2, 3, k, act=1)))
        add('transform_graph', 'layout', '%s conv, batch of 2' % nm, lambda b, k=k, sp=sp: b.out(b.conv(b.x((2, 1) + sp), 1, 2, k)))
        if nm == '2-d 1x1':
            continue
        for bias in ('full', None):
            for wb in (True, False):
                for g, i, o in ((1, 2, 3),):
                    kind = {(1, 3): 'plain', (2, 2): 'depthwise', (2, 4): 'grouped'}[(g, o)]
                    add('transform_graph', 'layout', '%s %s transposed conv, bias %s, bias operand %s' % (nm, kind, bias, wb),
                        lambda b, i=i, o=o, k=k, g=g, sp=sp, bias=bias, wb=wb: b.out(b.deconv(b.x((1, i) + tuple(2 for _ in sp)), i, o, k, g, bias, with_bias=wb)), may_stop=g > 1)
        for pad, st, op in ((1, 1, 0), (1, 2, 0), (0, 2, 0), (0, 2, 1), (1, 2, 1), ('mix', 1, 0), ('mix2', 2, 0)):
            for wb in (True, False):
                p = [1] + [0] * (len(k) - 1) if pad in ('mix', 'mix2') else pad
                kk = tuple(3 if j == 0 else 2 for j in range(len(k))) if len(k) < 3 else (2, 2, 1)
                if len(k) == 3:
                    p = [0] * 3 if pad in (1,) else [1, 0, 0] if pad in ('mix', 'mix2') else p
                    opp = [op, 0, 0]
                else:
                    opp = op
                add('transform_graph', 'layout', '%s transposed conv, padding %s, stride %s, output padding %s, bias operand %s' % (nm, pad, st, op, wb),
                    lambda b, k=kk, p=p, st=st, op=opp, sp=sp, wb=wb: b.out(b.deconv(b.x((1, 2) + tuple(2 for d in sp)), 2, 2, k, 1, 'full', 0, p, st, 1, op, wb)), may_stop=True)
        add('transform_graph', 'layout', '%s transposed conv with relu' % nm, lambda b, k=k, sp=sp: b.out(b.deconv(b.x((1, 2) + tuple(2 for _ in sp)), 2, 3, k, act=1)))

    @scene('transform_graph', 'layout', 'two convs in a chain, both results used')
    def _(b):
        y = b.conv(b.x((1, 2, 3, 2)), 2, 3, (2, 1))
        z = b.conv(y, 3, 2, (1, 2), act=1)
        b.out(y, z, b.bin('ADD', z, b.un('RELU', z)))

    @scene('transform_graph', 'layout', 'conv and transposed conv reading one input')
    def _(b):
        x = b.x((1, 2, 2, 3))
        b.out(b.conv(x, 2, 3, (1, 2)), b.deconv(x, 2, 1, (2, 2)))


def unary_ops():
    U = [(u, lambda b, x, u=u: b.un(u, x)) for u in ('RELU', 'SIN', 'COS', 'TANH', 'ELU', 'EXP', 'LOG', 'NEG', 'FLOOR', 'RELU6', 'SQRT', 'RSQRT', 'LOGISTIC', 'HARD_SWISH', 'ABS',
                                                     'QUANTIZE', 'DEQUANTIZE')]
    U.append(('CAST', lambda b, x: b.un('CAST', x, inDataType=0, outDataType=0)))
    U.append(('LEAKY_RELU', lambda b, x: b.un('LEAKY_RELU', x, alpha=0.25)))
    return U


def dyn_axis(b, x, ax, what):
    """a slice along `ax` whose begin and/or end is computed by the model"""
    sh = list(b.shape(x))

    def bound(v, dyn):
        if not dyn:
            return b.i(v)
        parts = [b.i(v[:ax])] if ax else []
        parts.append(b.x((1,), dtype='int32'))
        parts += [b.i(v[ax + 1:])] if ax + 1 < len(v) else []
        return b.cat(parts, 0) if len(parts) > 1 else parts[0]
    begin = bound([0] * len(sh), 'begin' in what)
    end = bound(sh, 'end' in what)
    return b.o('STRIDED_SLICE', [x, begin, end, b.i([1] * len(sh))], beginMask=0, endMask=0, ellipsisMask=0, newAxisMask=0, shrinkAxisMask=0, offset=False,
               dyn_shape=tuple(d - (d > 1) if i == ax else d for i, d in enumerate(sh)))


def axis_ops(rank):
    """(name, fn(b, x, axis)) operators with an axis of a rank-`rank` input"""
    def at(ax, v, d):
        return [v if i == ax else d for i in range(rank)]
    yield 'SPLIT', lambda b, x, ax: b.split(x, ax, b.shape(x)[ax])
    yield 'SPLIT_V', lambda b, x, ax: b.splitv(x, ax, [1, b.shape(x)[ax] - 1])
    yield 'UNPACK', lambda b, x, ax: b.unpack(x, ax)
    yield 'PAD', lambda b, x, ax: b.pad(x, at(ax, (1, 2), (0, 0)))
    yield 'PADV2', lambda b, x, ax: b.pad(x, at(ax, (2, 0), (0, 0)), 5)
    yield 'SLICE', lambda b, x, ax: b.slice(x, at(ax, 1, 0), [d - 1 if i == ax else d for i, d in enumerate(b.shape(x))])
    yield 'STRIDED_SLICE', lambda b, x, ax: b.sslice(x, at(ax, 1, 0), b.shape(x))
    yield 'STRIDED_SLICE step', lambda b, x, ax: b.sslice(x, [0] * rank, b.shape(x), at(ax, 2, 1))
    for w in ('begin', 'end', 'begin and end'):
        yield 'STRIDED_SLICE with computed %s' % w, lambda b, x, ax, w=w: dyn_axis(b, x, ax, w)
    yield 'GATHER with computed indices', lambda b, x, ax: b.o('GATHER', [x, b.x((2,), dtype='int32')], axis=ax, batchDims=0)
    yield 'TILE', lambda b, x, ax: b.tile(x, at(ax, 2, 1))
    yield 'GATHER', lambda b, x, ax: b.gather(x, [1, 0, 1], ax)
    for r in ('SUM', 'MEAN', 'REDUCE_MAX', 'REDUCE_MIN', 'REDUCE_PROD'):
        yield r, lambda b, x, ax, r=r: b.reduce(r, x, [ax])
    yield 'CONCATENATION', lambda b, x, ax: b.cat([x, x], ax)


def multi_axis_ops(rank):
    yield 'PAD all dims', lambda b, x: b.pad(x, [(i, 1) for i in range(rank)])
    yield 'PAD two dims', lambda b, x: b.pad(x, [(0, 1) if i in (0, rank - 1) else (0, 0) for i in range(rank)])
    yield 'SLICE two dims', lambda b, x: b.slice(x, [0] + [1] * (rank - 1), [b.shape(x)[0]] + [d - 1 for d in b.shape(x)[1:]])
    yield 'STRIDED_SLICE two dims', lambda b, x: b.sslice(x, [0, 1] + [0] * (rank - 2), b.shape(x), [1] * (rank - 1) + [2])
    yield 'TILE two dims', lambda b, x: b.tile(x, [1] * (rank - 2) + [2, 2])
    yield 'SUM two dims', lambda b, x: b.reduce('SUM', x, [1, rank - 1])
    yield 'MEAN two dims', lambda b, x: b.reduce('MEAN', x, [0, 1])
    yield 'SUM no keep', lambda b, x: b.reduce('SUM', x, [1], keep=False)
    yield 'MEAN no keep', lambda b, x: b.reduce('MEAN', x, [rank - 1], keep=False)
    yield 'SUM negative axis', lambda b, x: b.reduce('SUM', x, [-1])
    yield 'PAD none', lambda b, x: b.pad(x, [(0, 0)] * rank)
    yield 'SLICE all', lambda b, x: b.slice(x, [0] * rank, list(b.shape(x)))


def finish(b, y, post):
    """apply `post` to every result and make them outputs"""
    for t in (y if isinstance(y, list) else [y]):
        b.out(post(t))


def transposes():
    P = 'elementwise_op_transpose_passthrough_pass'
    SH = {3: (2, 3, 2), 4: (1, 2, 3, 2), 2: (2, 3)}
    for rank, perms in ((4, PERM[4]), (3, ((1, 2, 0), (0, 2, 1)))):
        sh = SH[rank]
        for p in perms:
            for nm, f in unary_ops() if p == perms[0] else []:
                add(P, 'layout', 'transpose %s, %s, transpose back' % (p, nm), lambda b, f=f, p=p, sh=sh: b.out(b.tr(f(b, b.tr(b.x(sh), p)), inv(p))))
            for ax in range(rank):
                for nm, f in axis_ops(rank):
                    ps = perm_shape(sh, p)
                    if ps[ax] == 1 and nm not in ('PAD', 'PADV2', 'TILE', 'CONCATENATION', 'SUM', 'MEAN', 'UNPACK'):
                        continue
                    if nm == 'UNPACK':
                        q = [i for i in inv(p) if i != ax]
                        q = tuple(i - (i > ax) for i in q)
                    else:
                        q = inv(p)
                    add(P, 'layout', 'transpose %s, %s on axis %d, transpose' % (p, nm, ax),
                        lambda b, f=f, p=p, q=q, sh=sh, ax=ax: finish(b, f(b, b.tr(b.x(sh), p), ax), lambda t: b.tr(t, q)))
            for nm, f in multi_axis_ops(rank):
                def go(b, f=f, p=p, sh=sh):
                    y = f(b, b.tr(b.x(sh), p))
                    b.out(b.tr(y, inv(p)) if len(b.shape(y)) == len(p) else b.un('RELU', y))
                add(P, 'layout', 'transpose %s, %s, transpose' % (p, nm), go)
            for op in ('ADD', 'SUB', 'MUL', 'DIV', 'MAXIMUM', 'MINIMUM', 'SQUARED_DIFFERENCE'):
                if p != perms[0] and op not in ('SUB', 'DIV'):
                    continue
                ps = perm_shape(sh, p)
                add(P, 'layout', '%s of two inputs transposed by %s' % (op, p), lambda b, op=op, p=p, sh=sh: b.out(b.tr(b.bin(op, b.tr(b.x(sh), p), b.tr(b.x(sh), p)), inv(p))))
                for nm, cs in (('full constant', ps), ('per-channel constant', ps[-1:]), ('one-element constant', (1,)), ('scalar constant', ()), ('broadcast constant', (1,) * (rank - 1) + ps[-1:]),
                               ('lower-rank constant', ps[-2:]), ('column constant', ps[1:2] + (1,) * (rank - 2))):
                    if op not in ('SUB', 'MUL', 'ADD', 'MAXIMUM') and nm not in ('per-channel constant', 'scalar constant'):
                        continue
                    for left in (False, True):
                        add(P, 'layout', '%s of an input transposed by %s and a %s%s' % (op, p, nm, ' on the left' if left else ''),
                            lambda b, op=op, p=p, sh=sh, cs=cs, left=left: b.out(b.tr((lambda y, k: b.bin(op, k, y) if left else b.bin(op, y, k))(b.tr(b.x(sh), p), b.c(cs)), inv(p))))
            # other consumers, hints
            add(P, 'layout', 'transpose %s read twice by SUB' % (p,), lambda b, p=p, sh=sh: b.out((lambda t: b.tr(b.bin('SUB', t, t), inv(p)))(b.tr(b.x(sh), p))))
            add(P, 'layout', 'ADD of an input transposed by %s and another input, transposed' % (p,),
                lambda b, p=p, sh=sh: b.out(b.tr(b.bin('ADD', b.tr(b.x(sh), p), b.x(perm_shape(sh, p))), inv(p))))
            for ax in range(rank):
                add(P, 'layout', 'CONCATENATION on axis %d of inputs transposed by %s and a constant' % (ax, p),
                    lambda b, p=p, sh=sh, ax=ax: b.out(b.tr(b.cat([b.tr(b.x(sh), p), b.c(perm_shape(sh, p)), b.tr(b.x(sh), p)], ax), inv(p))))
            for ax in range(rank + 1):
                q = [i + (i >= ax) for i in inv(p)]
                q.insert(ax, ax)
                add(P, 'layout', 'PACK on axis %d of inputs transposed by %s' % (ax, p),
                    lambda b, p=p, sh=sh, ax=ax, q=tuple(q): b.out(b.tr(b.pack([b.tr(b.x(sh), p), b.tr(b.x(sh), p)], ax), q)))
            ps = perm_shape(sh, p)
            for nm, wsh in [('last', (1,) * (rank - 2) + ps[-1:]), ('all', ps[1:]), ('one', (1,) * (rank - 1)), ('second', ps[1:2] + (1,) * (rank - 2))]:
                if len(wsh) == rank - 1:
                    add(P, 'layout', 'transpose %s, PRELU with slope %s, transpose' % (p, nm), lambda b, p=p, sh=sh, w=wsh: b.out(b.tr(b.o('PRELU', [b.tr(b.x(sh), p), b.c(w)]), inv(p))))
            add(P, 'layout', 'transpose %s, SOFTMAX, transpose (quantisable only)' % (p,), lambda b, p=p, sh=sh: b.out(b.tr(b.o('SOFTMAX', [b.tr(b.x(sh), p)], beta=1.0), inv(p))), args=(True,))
            add(P, 'layout', 'RELU between a transpose by %s and another permutation' % (p,), lambda b, p=p, sh=sh: b.out(b.tr(b.un('RELU', b.tr(b.x(sh), p)), p)))
            add(P, 'layout', 'RELU whose result transposed by %s is also used as is' % (p,),
                lambda b, p=p, sh=sh: (lambda r: b.out(b.tr(r, inv(p)), b.un('SIN', r), r))(b.un('RELU', b.tr(b.x(sh), p))))
    add(P, 'layout', 'transpose, MEAN over 1 and 2, transpose', lambda b: b.out(b.tr(b.reduce('MEAN', b.tr(b.x((1, 2, 3, 2)), (0, 2, 3, 1)), [1, 2]), (0, 3, 1, 2))))
    # sequences of transposes
    F = 'fuse_simple_transpose_pass'
    for rank in (2, 3, 4):
        sh = SH[rank]
        perms = list(itertools.permutations(range(rank)))
        if rank == 4:
            perms = [p for p in perms if p in ((0, 2, 3, 1), (0, 3, 1, 2), (1, 2, 3, 0), (3, 0, 1, 2), (0, 1, 3, 2), (1, 3, 0, 2), (0, 1, 2, 3))]
        for p in perms:
            for q in perms:
                add(F, 'layout', 'transpose %s then %s' % (p, q), lambda b, p=p, q=q, sh=sh: b.out(b.un('SIN', b.tr(b.tr(b.un('RELU', b.x(sh)), p), q))))
    for p in ((1, 2, 0), (2, 0, 1)):
        add(F, 'layout', 'three transposes by %s' % (p,), lambda b, p=p: b.out(b.un('SIN', b.tr(b.tr(b.tr(b.un('RELU', b.x((2, 3, 2))), p), p), p))))
        add(F, 'layout', 'transposes by %s with another consumer between' % (p,),
            lambda b, p=p: (lambda t: b.out(b.un('COS', t), b.un('SIN', b.tr(t, p))))(b.tr(b.un('RELU', b.x((2, 3, 2))), p)))
        for br in ('branch_transpose_expand_pass',):
            add(br, 'layout', 'transpose by %s with two transposing consumers' % (p,),
                lambda b, p=p: (lambda t: b.out(b.un('COS', b.tr(t, p)), b.un('SIN', b.tr(t, inv(p))), b.un('TANH', t)))(b.tr(b.un('RELU', b.x((2, 3, 2))), p)))
        add('fold_transpose_buffer', 'layout', 'constant transposed by %s' % (p,), lambda b, p=p: b.out(b.bin('SUB', b.x(perm_shape((2, 3, 2), p)), b.tr(b.c((2, 3, 2)), p))))
        add('fold_transpose_buffer', 'layout', 'constant transposed by %s twice' % (p,), lambda b, p=p: b.out(b.bin('SUB', b.x((2, 2, 3) if p == (2, 0, 1) else (3, 2, 2)),
            b.tr(b.tr(b.c(perm_shape((2, 2, 3) if p == (2, 0, 1) else (3, 2, 2), inv(p))), p), (0, 1, 2)))))
    for sh, p in (((1, 2, 1, 3), (0, 2, 1, 3)), ((1, 2, 3), (1, 0, 2)), ((1, 2, 3), (1, 2, 0)), ((2, 1, 3), (0, 2, 1)), ((2, 3, 1), (0, 2, 1)), ((2, 3, 1), (1, 0, 2)), ((1, 2, 3, 1), (3, 1, 2, 0)),
                  ((2, 1, 1, 3), (2, 3, 1, 0)), ((1, 2, 2, 1), (0, 2, 3, 1)), ((1, 1, 2, 3), (0, 2, 3, 1))):
        add('transpose_to_reshape_pass', 'layout', 'transpose of %s by %s' % (sh, p), lambda b, p=p, sh=sh: b.out(b.un('SIN', b.tr(b.un('RELU', b.x(sh)), p))))
        add('elementwise_reshape_transpose_passthrough_pass', 'layout', 'transpose of %s by %s then reshape' % (sh, p),
            lambda b, p=p, sh=sh: b.out(b.tr(b.rs(b.tr(b.x(sh), p), [d for d in perm_shape(sh, p) if d != 1]), tuple(reversed(range(len([d for d in sh if d != 1])))))))
    # reshapes around transposes
    T = 'elementwise_reshape_transpose_passthrough_pass'
    for sh, p, ns, q in (((1, 2, 3, 2), (0, 2, 3, 1), (3, 2, 2), (2, 0, 1)), ((1, 2, 3, 2), (0, 2, 3, 1), (1, 6, 2), (0, 2, 1)), ((1, 2, 3, 1), (0, 2, 3, 1), (3, 2), (1, 0)), ((2, 3, 2), (1, 2, 0), (1, 3, 2, 2), (0, 3, 1, 2)),
                         ((2, 3, 2), (1, 2, 0), (3, 1, 2, 2), (3, 0, 1, 2)), ((2, 3, 2), (1, 2, 0), (3, 2, 1, 2), (3, 0, 2, 1)), ((2, 3, 2), (1, 2, 0), (3, 2, 2, 1), (2, 0, 1, 3)), ((1, 4, 2), (0, 2, 1), (1, 2, 2, 2), (0, 2, 3, 1)),
                         ((2, 3, 2), (1, 2, 0), (6, 2), (1, 0)), ((2, 3, 2), (2, 0, 1), (2, 6), (1, 0)), ((1, 2, 3), (2, 1, 0), (3, 2), (1, 0))):
        for form in (0, 1, 2):
            def go(b, sh=sh, p=p, ns=ns, q=q, form=form):
                t = b.rs(b.tr(b.un('RELU', b.x(sh)), p), ns)
                if form == 1:
                    t = b.rs(b.un('TANH', b.tr(b.un('RELU', b.x(sh)), p)), ns)
                t = b.tr(t, q)
                b.out(b.un('SIN', t))
                if form == 2:
                    b.out(b.un('COS', b.tr(b.rs(t, b.shape(t)), inv(q))))
            add(T, 'layout', 'transpose %s of %s, reshape to %s, transpose %s (form %d)' % (p, sh, ns, q, form), go)
            add('fuse_wrapped_reshape_within_transpose_pass', 'layout', 'transpose %s of %s, reshape to %s, transpose %s (form %d)' % (p, sh, ns, q, form), go)
    for sh, p in (((1, 2, 1, 3, 2), (0, 2, 3, 4, 1)), ((2, 1, 3, 2, 1), (1, 0, 4, 3, 2)), ((1, 2, 2, 1, 2), (4, 2, 1, 0, 3)), ((2, 1, 2, 1, 3), (0, 2, 1, 4, 3)), ((2, 2, 1, 2, 2), (0, 3, 4, 1, 2)),
                  ((2, 2, 2, 3, 2), (0, 1, 2, 4, 3)), ((2, 2, 2, 3, 2), (3, 4, 0, 1, 2)), ((2, 2, 2, 3, 2), (4, 3, 2, 1, 0)), ((2, 2, 2, 2, 3), (0, 3, 1, 2, 4)), ((1, 2, 2, 1, 3, 2), (0, 4, 3, 5, 1, 2))):
        for m in (4, 3, 2):
            add('lower_transpose_dim_pass', 'layout', 'transpose of %s by %s, at most %d dims' % (sh, p, m), lambda b, p=p, sh=sh: b.out(b.un('SIN', b.tr(b.un('RELU', b.x(sh)), p))),
                opts={'max_transpose_dims': m})


def reshapes():
    P = 'elementwise_op_reshape_passthrough_pass'
    # (inner shape seen by the operator, outer shape before the reshape)
    forms = (((1, 2, 3), (2, 3)), ((2, 3), (1, 2, 3)), ((2, 1, 3), (2, 3)), ((2, 3), (2, 1, 3)), ((2, 3, 1, 1), (2, 3)), ((1, 2, 3, 2), (2, 3, 2)), ((2, 3, 2), (1, 2, 3, 2)), ((2, 3, 2), (2, 3, 1, 2)), ((6, 2), (2, 3, 2)),
             ((2, 1, 3, 1), (2, 3, 1)))
    for inner, outer in forms:
        rank = len(inner)
        full = inner in ((1, 2, 3), (2, 3, 2))
        for nm, f in unary_ops()[:3] if not full else unary_ops():
            add(P, 'layout', 'reshape %s to %s, %s, reshape back' % (outer, inner, nm), lambda b, f=f, inner=inner, outer=outer: b.out(b.rs(f(b, b.rs(b.x(outer), inner)), outer)))
        for ax in range(rank):
            for nm, f in axis_ops(rank):
                if inner[ax] == 1 and nm not in ('PAD', 'PADV2', 'TILE', 'CONCATENATION', 'SUM', 'UNPACK'):
                    continue

                def go(b, f=f, inner=inner, outer=outer, ax=ax, nm=nm):
                    y = f(b, b.rs(b.x(outer), inner), ax)
                    # reshape the results the way the operand was
                    for t in y if isinstance(y, list) else [y]:
                        got = list(b.shape(t))
                        m = align(inner, outer)
                        if nm == 'UNPACK':
                            tgt = [d for j, d in enumerate(outer) if m.get(j) != ax] if ax in m.values() else got
                        elif m is None or ax not in m.values():
                            tgt = list(outer)
                            tgt[0] = -1
                        else:
                            tgt = [got[m[j]] if m.get(j) == ax else d for j, d in enumerate(outer)]
                        n = 1
                        for d in got:
                            n *= d
                        k = 1
                        for d in tgt:
                            k *= d if d > 0 else 1
                        if -1 in tgt:
                            if n % k:
                                b.out(b.un('SIN', t))
                                continue
                            tgt[tgt.index(-1)] = n // k
                        elif k != n:
                            tgt = [n]
                        b.out(b.rs(t, tgt))
                add(P, 'layout', 'reshape %s to %s, %s on axis %d, reshape' % (outer, inner, nm, ax), go)
        for op in ('ADD', 'SUB', 'MUL', 'DIV', 'MAXIMUM', 'SQUARED_DIFFERENCE'):
            add(P, 'layout', '%s of two inputs reshaped from %s to %s' % (op, outer, inner), lambda b, op=op, inner=inner, outer=outer: b.out(b.rs(b.bin(op, b.rs(b.x(outer), inner), b.rs(b.x(outer), inner)), outer)))
            for nm, cs in (('full constant', inner), ('per-channel constant', inner[-1:]), ('one-element constant', (1,)), ('scalar constant', ()), ('lower-rank constant', inner[-2:]), ('column constant', inner[:1] + (1,) * (rank - 1))):
                if op not in ('SUB', 'MUL', 'ADD') and nm not in ('per-channel constant', 'scalar constant'):
                    continue
                for left in (False, True):
                    add(P, 'layout', '%s of an input reshaped from %s to %s and a %s%s' % (op, outer, inner, nm, ' on the left' if left else ''),
                        lambda b, op=op, inner=inner, outer=outer, cs=cs, left=left: b.out(b.rs((lambda y, k: b.bin(op, k, y) if left else b.bin(op, y, k))(b.rs(b.x(outer), inner), b.c(cs)), outer)))
        add(P, 'layout', 'ADD of an input reshaped from %s to %s and one broadcast operand' % (outer, inner),
            lambda b, inner=inner, outer=outer: b.out(b.rs(b.bin('ADD', b.rs(b.x(outer), inner), b.x(inner[-1:])), outer)))
        for ax in range(rank + 1):
            add(P, 'layout', 'PACK on axis %d of inputs reshaped from %s to %s' % (ax, outer, inner),
                lambda b, inner=inner, outer=outer, ax=ax: (lambda y: b.out(b.un('SIN', b.rs(y, [d for d in b.shape(y) if d != 1]))))(b.pack([b.rs(b.x(outer), inner), b.rs(b.x(outer), inner)], ax)))
        for ax in range(rank):
            add(P, 'layout', 'CONCATENATION on axis %d of inputs reshaped from %s to %s' % (ax, outer, inner),
                lambda b, inner=inner, outer=outer, ax=ax: (lambda y: b.out(b.un('SIN', b.rs(y, [d for d in b.shape(y) if d != 1]))))(b.cat([b.rs(b.x(outer), inner), b.rs(b.x(outer), inner)], ax)))
        if rank > 1:
            for nm, wsh in (('last', (1,) * (rank - 2) + inner[-1:]), ('all', inner[1:]), ('one', (1,) * (rank - 1)), ('second', inner[1:2] + (1,) * (rank - 2))):
                add(P, 'layout', 'reshape %s to %s, PRELU with slope %s, reshape' % (outer, inner, nm), lambda b, inner=inner, outer=outer, w=wsh: b.out(b.rs(b.o('PRELU', [b.rs(b.x(outer), inner), b.c(w)]), outer)))
        for nm, f in multi_axis_ops(rank):
            if rank < 3 and 'two' in nm:
                continue

            def go(b, f=f, inner=inner, outer=outer):
                y = f(b, b.rs(b.x(outer), inner))
                b.out(b.un('SIN', b.rs(y, [d for d in b.shape(y) if d != 1] or [1])))
            try:
                add(P, 'layout', 'reshape %s to %s, %s, reshape' % (outer, inner, nm), go, may_fail=True)
            except Exception:
                pass
    for p in ('fuse_simple_reshape_pass', 'remove_noop_pass', 'branch_reshape_expand_pass', 'fold_reshape_buffer'):
        add(p, 'layout', 'two reshapes', lambda b: b.out(b.un('SIN', b.rs(b.rs(b.un('RELU', b.x((2, 3, 2))), (6, 2)), (3, 4)))))
        add(p, 'layout', 'reshape and back', lambda b: b.out(b.un('SIN', b.rs(b.rs(b.un('RELU', b.x((2, 3, 2))), (6, 2)), (2, 3, 2)))))
        add(p, 'layout', 'reshape of a constant', lambda b: b.out(b.bin('SUB', b.x((2, 3)), b.rs(b.c((3, 2)), (2, 3)))))
        add(p, 'layout', 'reshape with other consumers', lambda b: (lambda t: b.out(b.un('SIN', b.rs(t, (4, 3))), b.un('COS', b.rs(t, (2, 6))), b.un('TANH', t)))(b.rs(b.un('RELU', b.x((2, 3, 2))), (6, 2))))


def align(inner, outer):
    """dims of `outer` -> dims of `inner` when they differ by ones only"""
    a = [i for i, d in enumerate(inner) if d != 1]
    c = [i for i, d in enumerate(outer) if d != 1]
    if [inner[i] for i in a] != [outer[i] for i in c]:
        return {}
    return dict(zip(c, a))


def groupconvs():
    G = 'group_conv_rewrite_pass'
    for g in (2, 4):
        for bias in (True, False):
            for act in (0, 1):
                add(G, 'layout', 'conv with %d groups, bias %s, activation %d' % (g, bias, act), lambda b, g=g, bias=bias, act=act: b.out(b.un('SIN', b.conv2d(b.x((1, 2, 2, 4)), 4 if g == 4 else 6, (1, 2), act, 1, 1, 1, bias, g))))
    add(G, 'layout', 'conv with 2 groups, SAME, stride 2', lambda b: b.out(b.un('SIN', b.conv2d(b.x((1, 3, 2, 4)), 2, (2, 2), 0, 0, 2, 1, True, 2))))
    add(G, 'layout', 'conv with 2 groups, dilated', lambda b: b.out(b.un('SIN', b.conv2d(b.x((1, 3, 3, 4)), 2, (2, 2), 0, 1, 1, 2, True, 2))))
    add(G, 'layout', 'conv with 2 groups as model output', lambda b: b.out(b.conv2d(b.x((1, 2, 2, 4)), 2, (1, 2), groups=2)))
    add(G, 'layout', 'ungrouped conv', lambda b: b.out(b.un('SIN', b.conv2d(b.x((1, 2, 2, 4)), 2, (1, 2)))))
    add(G, 'layout', 'conv with 2 groups and computed weight', lambda b: b.out(b.un('SIN', b.conv2d(b.x((1, 2, 2, 4)), 2, (1, 2), groups=2, dynw=True))))
    for g in (2,):
        for bias in ('full', None):
            for act in (0, 1):
                for wb in (True, False):
                    for bn in (False, True):
                        # as the tracer of the converter leaves it: the activation and the batch-norm are operators of their own
                        add('optimize', 'layout', 'transposed conv with %d groups, bias %s, bias operand %s, batch-norm %s, activation %d' % (g, bias, wb, bn, act),
                            lambda b, g=g, bias=bias, act=act, wb=wb, bn=bn: (lambda y: b.out(b.un('SIN', b.un('RELU', y) if act else y)))((lambda y: b.bn(y, 6) if bn else y)(
                                b.deconv(b.x((1, 4, 2, 2)), 4, 6, (1, 2), g, bias, 0, with_bias=wb))), opts={'conv_transpose_with_bias': wb})
                    if act and not wb:
                        continue
                    add('optimize', 'layout', 'transposed conv with %d groups, bias %s, activation %d, bias operand %s' % (g, bias, act, wb),
                        lambda b, g=g, bias=bias, act=act, wb=wb: b.out(b.un('SIN', b.deconv(b.x((1, 4, 2, 2)), 4, 6, (1, 2), g, bias, act, with_bias=wb))))
    C = 'cat_split_pass'
    for n in (10, 11, 21, 35):
        add(C, 'layout', 'concatenation of %d' % n, lambda b, n=n: b.out(b.un('SIN', b.cat([b.x((1, 1)) for _ in range(n)], 1))))
        add(C, 'layout', 'concatenation of %d on the first axis' % n, lambda b, n=n: b.out(b.un('SIN', b.cat([b.x((1, 1)) for _ in range(n)], 0))))


def io_layout():
    I, O = 'input_transpose_pass', 'output_transpose_pass'

    def a(p, what, fn):
        add(p, 'layout', what, fn)

    def two(b):
        return b.x((1, 2, 3, 2)), b.x((1, 2, 3, 2))
    for p, ins in ((I, (True, False)), (I, (False, True)), (I, (True, True)), (I, (False, False)), ('optimize', (True, False)), ('optimize', (True, True))):
        t = 'input_transpose %s, ' % (ins,)
        a(p, t + 'inputs of one operator', lambda b, ins=ins: (lambda x: (b.out(b.un('SIN', b.bin('SUB', *x))), b.s.layout(ins)))(two(b)))
        a(p, t + 'inputs with several consumers', lambda b, ins=ins: (lambda x: (b.out(b.un('SIN', b.bin('SUB', *x)), b.un('COS', x[0]), b.un('RELU', b.un('SIN', x[1]))), b.s.layout(ins)))(two(b)))
        a(p, t + 'an input used twice by one operator', lambda b, ins=ins: (lambda x: (b.out(b.un('SIN', b.bin('SUB', x[0], x[0])), b.bin('MUL', x[1], x[1])), b.s.layout(ins)))(two(b)))
        a(p, t + 'inputs of a concatenation', lambda b, ins=ins: (lambda x: (b.out(b.un('SIN', b.cat(list(x), 1))), b.s.layout(ins)))(two(b)))
        a(p, t + 'an unused input', lambda b, ins=ins: (lambda x: (b.out(b.un('SIN', x[0])), b.s.layout(ins)))(two(b)))
        a(p, t + 'behind transposes', lambda b, ins=ins: (lambda x: (b.out(b.un('SIN', b.tr(x[0], (0, 2, 3, 1))), b.un('COS', b.tr(x[1], (0, 3, 1, 2)))), b.s.layout(ins)))(two(b)))
    for p in (O, 'optimize'):
        for outs in (None, True, False, 'first', 'second'):
            t = 'output_transpose %s, ' % outs
            w = [True, False] if outs == 'first' else [None, True] if outs == 'second' else outs
            S = (1, 2, 3, 2)
            a(p, t + 'two outputs', lambda b, w=w: (lambda x: (b.out(b.un('SIN', x), b.un('COS', b.un('RELU', x))), b.s.layout((), w)))(b.x(S)))
            a(p, t + 'an output that is used further', lambda b, w=w: (lambda x: (lambda y: (b.out(y, b.un('COS', y)), b.s.layout((), w)))(b.un('SIN', x)))(b.x(S)))
            a(p, t + 'an output that is used by several operators', lambda b, w=w: (lambda x: (lambda y: (b.out(y, b.bin('SUB', b.un('COS', y), b.un('TANH', y))), b.s.layout((), w)))(b.un('SIN', x)))(b.x(S)))
            a(p, t + 'an output that one operator uses twice', lambda b, w=w: (lambda x: (lambda y: (b.out(y, b.bin('MUL', y, y)), b.s.layout((), w)))(b.un('SIN', x)))(b.x(S)))
            a(p, t + 'both outputs of one operator', lambda b, w=w: (lambda x: (lambda y: (b.out(*y), b.s.layout((), w)))(b.split(b.un('SIN', x), 1, 2)))(b.x(S)))
            a(p, t + 'one of the outputs used further', lambda b, w=w: (lambda x: (lambda y: (b.out(y[1], b.un('COS', y[0])), b.s.layout((), w)))(b.split(b.un('SIN', x), 1, 2)))(b.x(S)))
            a(p, t + 'outputs in a chain', lambda b, w=w: (lambda x: (lambda y: (b.out(b.un('COS', y), y), b.s.layout((), w)))(b.un('SIN', x)))(b.x(S)))
            if p == O and outs in (None, 'first'):
                a(p, t + 'an output behind a transpose', lambda b, w=w: (lambda x: (b.out(b.tr(b.un('SIN', x), (0, 3, 1, 2)), b.un('COS', x)), b.s.layout((), w)))(b.x(S)))
            if outs is None:
                a(p, t + 'outputs of other ranks', lambda b: (lambda x: (b.out(b.un('SIN', b.rs(x, (2, 6))), b.un('COS', x), b.un('TANH', b.rs(x, (1, 1, 2, 3, 2)))), b.s.layout((), None)))(b.x(S)))


lower_convs()
transposes()
reshapes()
groupconvs()
io_layout()
