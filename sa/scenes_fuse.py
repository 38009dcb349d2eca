"""Graphs for C11: every fusion next to the states that forbid it."""
from .scenes import B, add as add_scene, SCENES  # noqa: F401

X4 = (1, 2, 3, 2)


def add(p, what, f, **kw):
    add_scene(p, 'fuse', what, f, **kw)


def ends(what, p, f, **kw):
    """the rewritten part in the middle of a graph, as a model output, and with another consumer of the first result"""
    def mid(b):
        a, z = f(b)
        b.out(b.un('SIN', z))

    def last(b):
        a, z = f(b)
        b.out(z)

    def both(b):
        a, z = f(b)
        b.out(b.un('SIN', z), b.un('COS', a))

    def outs(b):
        a, z = f(b)
        b.out(z, a)
    add(p, what, mid, **kw)
    add(p, what + ', as model output', last, **kw)
    add(p, what + ', the first result has another reader', both, **kw)
    add(p, what + ', both results are model outputs', outs, **kw)


def pair(f, g):
    return lambda b: (lambda a: (a, g(b, a)))(f(b))


# ---- activations -----------------------------------------------------------------------------------
def activations():
    P = 'fuse_activation'
    src = {
        'ADD': lambda b, act: b.bin('ADD', b.x((2, 3)), b.x((2, 3)), act), 'SUB': lambda b, act: b.bin('SUB', b.x((2, 3)), b.x((2, 3)), act),
        'MUL': lambda b, act: b.bin('MUL', b.x((2, 3)), b.x((2, 3)), act), 'DIV': lambda b, act: b.bin('DIV', b.x((2, 3)), b.x((2, 3)), act),
        'FULLY_CONNECTED': lambda b, act: b.fc(b.x((2, 3)), 2, act=act), 'GENERIC_CONV': lambda b, act: b.conv(b.x((1, 2, 2)), 2, 2, (2,), act=act),
        'MAX_POOL_2D': lambda b, act: b.pool('MAX_POOL_2D', b.x(X4), (1, 2), act=act), 'AVERAGE_POOL_2D': lambda b, act: b.pool('AVERAGE_POOL_2D', b.x(X4), (1, 2), act=act),
        'GENERIC_DECONV': lambda b, act: b.deconv(b.x((1, 2, 2, 2)), 2, 2, (1, 2), act=act),
    }
    for nm, f in src.items():
        for act in (0, 1, 3):
            for un in ('RELU', 'RELU6') if nm in ('ADD', 'GENERIC_CONV') else ('RELU6',):
                ends('%s with activation %d, %s' % (nm, act, un), P, pair(lambda b, f=f, act=act: f(b, act), lambda b, a, un=un: b.un(un, a)))
        for un in ('TANH', 'RELU_N1_TO_1', 'LOGISTIC', 'HARD_SWISH'):
            if nm in ('ADD', 'GENERIC_CONV'):
                add(P, '%s, %s' % (nm, un), lambda b, f=f, un=un: b.out(b.un('SIN', b.un(un, f(b, 0)))))
        add(P, '%s, RELU, RELU6' % nm, lambda b, f=f: b.out(b.un('SIN', b.un('RELU6', b.un('RELU', f(b, 0))))))
        add(P, '%s, RELU6, RELU6' % nm, lambda b, f=f: b.out(b.un('SIN', b.un('RELU6', b.un('RELU6', f(b, 0))))))
    for nm in ('MAXIMUM', 'SQUARED_DIFFERENCE'):
        add(P, '%s, RELU' % nm, lambda b, nm=nm: b.out(b.un('SIN', b.un('RELU', b.bin(nm, b.x((2, 3)), b.x((2, 3)))))))
    add(P, 'CONCATENATION, RELU', lambda b: b.out(b.un('SIN', b.un('RELU', b.cat([b.x((2, 3)), b.x((2, 3))], 0)))))
    add(P, 'TRANSPOSE, RELU', lambda b: b.out(b.un('SIN', b.un('RELU', b.tr(b.x((2, 3)), (1, 0))))))
    add(P, 'two activations of one result', lambda b: (lambda t: b.out(b.un('RELU', t), b.un('RELU6', t)))(b.bin('ADD', b.x((2, 3)), b.x((2, 3)))))
    # without a bias operand the bias of a transposed conv is added after it
    for p in (P, 'optimize'):
        for bn in (False, True):
            for un in ('RELU', None):
                for bias in ('full', None):
                    def f(b, bn=bn, un=un, bias=bias):
                        y = b.deconv(b.x((1, 2, 2, 2)), 2, 2, (1, 2), 1, bias, 0, with_bias=False)
                        if bn:
                            y = b.bn(y, 2)
                        b.out(b.un('SIN', b.un(un, y) if un else y))
                    add(p, 'transposed conv whose bias %s is a separate operator, batch-norm %s, %s' % (bias, bn, un), f, opts={'conv_transpose_with_bias': False})


# ---- batch-norms -----------------------------------------------------------------------------------
def bn_with(b, x, c, act=0, dyn=None):
    from .sem import sympoly
    ps = [(b.x if dyn == i else b.c)((c,)) for i in range(4)]
    return b.o('BATCH_NORM', [x] + ps, eps=sympoly('eps'), fusedActivationFunction=act)


def batch_norms():
    P = 'fuse_conv_fc_bn'
    src = {
        'conv': (2, lambda b, act, bias='full', bb=None, **kw: b.conv(b.x((1, 2, 2, 2)), 2, 2, (1, 2), bias=bias, act=act, b=bb and bb(b), **kw)),
        'transposed conv': (2, lambda b, act, bias='full', **kw: b.deconv(b.x((1, 2, 2, 2)), 2, 2, (1, 2), bias=bias, act=act)),
        'fully connected': (2, lambda b, act, bias='full', bb=None, **kw: b.fc(b.x((2, 3)), 2, bool(bias), act=act, b=bb and bb(b), **kw)),
        'fully connected of 3 dims': (2, lambda b, act, bias='full', **kw: b.fc(b.x((2, 2, 3)), 2, bool(bias), act=act, keep=True, **kw)),
    }
    for nm, (c, f) in src.items():
        for act in (0, 1):
            for bact in (0, 1, 3):
                if nm.endswith('3 dims') and (act or bact):
                    continue
                ends('%s with activation %d, batch-norm with activation %d' % (nm, act, bact), P,
                     pair(lambda b, f=f, act=act: f(b, act), lambda b, a, c=c, bact=bact: b.bn(a, c, bact)))
        add(P, '%s without bias, batch-norm' % nm, lambda b, f=f, c=c: b.out(b.un('SIN', b.bn(f(b, 0, None), c))))
        for d in range(4):
            add(P, '%s, batch-norm whose parameter %d is computed' % (nm, d), lambda b, f=f, c=c, d=d: b.out(b.un('SIN', bn_with(b, f(b, 0), c, 0, d))))
        if nm in ('conv', 'fully connected'):
            add(P, '%s with computed weight, batch-norm' % nm, lambda b, f=f, c=c, nm=nm: b.out(b.un('SIN', b.bn(f(b, 0, w=b.x((2, 2, 1, 2) if nm == 'conv' else (2, 3))), c))))
            add(P, '%s with computed bias, batch-norm' % nm, lambda b, f=f, c=c, nm=nm: b.out(b.un('SIN', b.bn(f(b, 0, bb=lambda b: b.x((2,))), c))))
        add(P, '%s, activation, batch-norm' % nm, lambda b, f=f, c=c: b.out(b.un('SIN', b.bn(b.un('RELU', f(b, 0)), c))))
    add(P, 'batch-norm after other operators', lambda b: b.out(b.un('SIN', b.bn(b.bin('ADD', b.x((1, 2, 2, 2)), b.x((1, 2, 2, 2))), 2))))
    add(P, 'a weight shared by two convs, one with a batch-norm', lambda b: (lambda w: b.out(b.un('SIN', b.bn(b.conv(b.x((1, 2, 2, 2)), 2, 2, (1, 2), w=w), 2)),
                                                                                    b.un('SIN', b.conv(b.x((1, 2, 2, 2)), 2, 2, (1, 2), w=w))))(b.c((2, 2, 1, 2))))
    add(P, 'conv, two batch-norms', lambda b: b.out(b.un('SIN', b.bn(b.bn(b.conv(b.x((1, 2, 2, 2)), 2, 2, (1, 2)), 2), 2))))
    R = 'fuse_bn_conv'
    for act in (0, 1):
        ends('batch-norm with activation %d, conv' % act, R, pair(lambda b, act=act: b.bn(b.x((1, 2, 2, 2)), 2, act), lambda b, a: b.conv(a, 2, 2, (1, 2))))
    for g in (1, 2):
        for pad in (0, 1, [0, 1]):
            add(R, 'batch-norm, conv with %d groups and padding %s' % (g, pad), lambda b, g=g, pad=pad: b.out(b.un('SIN', b.conv(b.bn(b.x((1, 2, 2, 2)), 2), 2, 2, (1, 2), g, pad=pad))))
    for d in range(4):
        add(R, 'batch-norm whose parameter %d is computed, conv' % d, lambda b, d=d: b.out(b.un('SIN', b.conv(bn_with(b, b.x((1, 2, 2, 2)), 2, 0, d), 2, 2, (1, 2)))))
    add(R, 'batch-norm, conv with computed weight', lambda b: b.out(b.un('SIN', b.conv(b.bn(b.x((1, 2, 2, 2)), 2), 2, 2, (1, 2), w=b.x((2, 2, 1, 2))))))
    add(R, 'batch-norm, conv with computed bias', lambda b: b.out(b.un('SIN', b.conv(b.bn(b.x((1, 2, 2, 2)), 2), 2, 2, (1, 2), b=b.x((2,))))))
    add(R, 'batch-norm, conv with activation', lambda b: b.out(b.un('SIN', b.conv(b.bn(b.x((1, 2, 2, 2)), 2), 2, 2, (1, 2), act=1))))
    add(R, 'batch-norm, conv without bias', lambda b: b.out(b.un('SIN', b.conv(b.bn(b.x((1, 2, 2, 2)), 2), 2, 2, (1, 2), bias=None))))
    add(R, 'batch-norm, transposed conv', lambda b: b.out(b.un('SIN', b.deconv(b.bn(b.x((1, 2, 2, 2)), 2), 2, 2, (1, 2)))))
    add(R, 'batch-norm, fully connected', lambda b: b.out(b.un('SIN', b.fc(b.bn(b.x((2, 3)), 3), 2))))
    add(R, 'batch-norm as the weight of a conv', lambda b: b.out(b.un('SIN', b.conv(b.x((1, 2, 2, 2)), 2, 2, (1, 2), w=b.bn(b.c((2, 2, 1, 2)), 2)))))
    add(R, 'batch-norm of two convs', lambda b: (lambda y: b.out(b.un('SIN', b.conv(y, 2, 2, (1, 2))), b.un('COS', b.conv(y, 2, 2, (1, 1)))))(b.bn(b.x((1, 2, 2, 2)), 2)))
    for p in (P, R):
        add(p, 'batch-norm between two convs', lambda b: b.out(b.un('SIN', b.conv(b.bn(b.conv(b.x((1, 2, 2, 2)), 2, 2, (1, 1)), 2), 2, 2, (1, 2)))))
        add(p, 'batch-norm between a conv with activation and a conv', lambda b: b.out(b.un('SIN', b.conv(b.bn(b.conv(b.x((1, 2, 2, 2)), 2, 2, (1, 1), act=1), 2), 2, 2, (1, 2)))))


# ---- paddings --------------------------------------------------------------------------------------
def paddings():
    P = 'fuse_same_padding'
    FMIN = 'fmin'
    ops = {
        'conv': lambda b, y, st=1, pad=1, dil=1: b.conv2d(y, 2, (2, 2), 0, pad, st, dil),
        'conv 3x1': lambda b, y, st=1, pad=1, dil=1: b.conv2d(y, 1, (3, 1), 0, pad, st, dil),
        'depthwise conv': lambda b, y, st=1, pad=1, dil=1: b.dwconv(y, 1, (2, 2), 0, pad, st),
        'max pooling': lambda b, y, st=1, pad=1, dil=1: b.pool('MAX_POOL_2D', y, (2, 2), st, pad),
        'average pooling': lambda b, y, st=1, pad=1, dil=1: b.pool('AVERAGE_POOL_2D', y, (2, 2), st, pad),
    }
    pads = {'none': ((0, 0),) * 4, 'bottom right': ((0, 0), (0, 1), (0, 1), (0, 0)), 'top left': ((0, 0), (1, 0), (1, 0), (0, 0)), 'rows': ((0, 0), (1, 1), (0, 0), (0, 0)),
            'right': ((0, 0), (0, 0), (0, 1), (0, 0)), 'all': ((0, 0), (1, 1), (1, 1), (0, 0)), 'channels too': ((0, 0), (0, 1), (0, 1), (0, 1))}
    for nm, f in ops.items():
        for pn, pd in pads.items():
            for st in (1, 2):
                for shape in ((1, 3, 2, 2), (1, 2, 2, 2)):
                    if shape == (1, 2, 2, 2) and pn not in ('bottom right', 'none', 'all'):
                        continue
                    for val in (None, 0.0, 1.0, FMIN) if st == 1 and pn in ('bottom right', 'rows', 'all') else (None, FMIN if nm == 'max pooling' else 0.0):
                        add(P, 'padding %s of %s with %s, %s with stride %d' % (pn, shape, val, nm, st),
                            lambda b, f=f, pd=pd, st=st, shape=shape, val=val: b.out(b.un('SIN', f(b, padv(b, b.x(shape), pd, val), st))), may_fail=True)
        add(P, 'padding, %s with SAME padding' % nm, lambda b, f=f: b.out(b.un('SIN', f(b, b.pad(b.x((1, 3, 2, 2)), pads['bottom right']), 1, 0))))
        ends('padding, %s' % nm, P, pair(lambda b: padv(b, b.x((1, 3, 2, 2)), pads['bottom right'], None), lambda b, a, f=f: f(b, a)))
        if nm.startswith('conv'):
            for pn in ('bottom right', 'rows', 'all'):
                add(P, 'padding %s, dilated %s' % (pn, nm), lambda b, f=f, pn=pn: b.out(b.un('SIN', f(b, b.pad(b.x((1, 3, 3, 2)), pads[pn]), 1, 1, 2))), may_fail=True)
    add(P, 'padding of the weight', lambda b: b.out(b.un('SIN', b.conv2d(b.x((1, 3, 2, 2)), 2, (2, 2), w=b.pad(b.c((2, 1, 1, 2)), pads['bottom right'])))))
    add(P, 'padding, conv of 3 dims', lambda b: b.out(b.un('SIN', conv3d(b, b.pad(b.x((1, 2, 2, 1, 1)), ((0, 0), (0, 1), (0, 1), (0, 0), (0, 0))), (2, 2, 1)))))
    add(P, 'other padding, conv of 3 dims', lambda b: b.out(b.un('SIN', conv3d(b, b.pad(b.x((1, 2, 2, 1, 1)), ((0, 0), (1, 0), (0, 1), (0, 0), (0, 0))), (2, 2, 1)))))
    # slices of transposed convs
    S = 'fuse_same_padding_slicing'
    for k, st in (((2, 2), 1), ((2, 2), 2), ((3, 2), 1), ((3, 3), 2), ((1, 1), 2), ((2, 3), 1)):
        full = [(2 - 1) * st + k[0], (2 - 1) * st + k[1]]
        for bg in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for cut in ((0, 0), (1, 0), (0, 1), (1, 1)):
                sz = [full[i] - bg[i] - cut[i] for i in range(2)]
                if min(sz) < 1 or st == 1 and k == (2, 3) and cut == (1, 0):
                    continue
                for act in (0, 1) if k == (3, 2) and bg == (1, 0) else (0,):
                    for code in ('slice', 'sslice') if k in ((3, 2), (3, 3)) else ('slice',):
                        def f(b, k=k, st=st, full=full, bg=bg, sz=sz, act=act, code=code):
                            y = tconv(b, b.x((1, 2, 2, 2)), 2, k, st, full, act)
                            b0 = [0, bg[0], bg[1], 0]
                            if code == 'slice':
                                return y, b.slice(y, b0, [1, sz[0], sz[1], 2])
                            return y, b.sslice(y, b0, [1, bg[0] + sz[0], bg[1] + sz[1], 2])
                        what = 'transposed conv %s, stride %d, activation %d, %s from %s of size %s' % (k, st, act, code, bg, sz)
                        if k == (3, 2) and bg == (1, 0):
                            ends(what, S, f)
                        else:
                            add(S, what, lambda b, f=f: b.out(b.un('SIN', f(b)[1])))
    add(S, 'transposed conv, slice of channels', lambda b: b.out(b.un('SIN', b.slice(tconv(b, b.x((1, 2, 2, 2)), 2, (3, 2), 1, [4, 3]), [0, 1, 0, 0], [1, 2, 2, 1]))))
    add(S, 'transposed conv, slice with stride', lambda b: b.out(b.un('SIN', b.sslice(tconv(b, b.x((1, 2, 2, 2)), 2, (3, 2), 1, [4, 3]), [0, 1, 0, 0], [1, 3, 2, 2], [1, 2, 1, 1]))))
    add(S, 'transposed conv, slice with computed begin', lambda b: b.out(b.un('SIN', dyn_slice(b, tconv(b, b.x((1, 2, 2, 2)), 2, (3, 2), 1, [4, 3]), [1, 2, 2, 2]))))
    add(S, 'transposed conv with SAME padding, slice', lambda b: b.out(b.un('SIN', b.slice(tconv(b, b.x((1, 2, 2, 2)), 2, (3, 2), 1, [2, 2], padding=0), [0, 1, 0, 0], [1, 1, 2, 2]))))
    for bg, sz in (((1, 0, 0), (1, 2, 2)), ((0, 0, 0), (2, 2, 2)), ((1, 0, 0), (2, 3, 2)), ((0, 0, 0), (2, 3, 2))):
        add(S, 'transposed conv of 3 dims, slice from %s of size %s' % (bg, sz), lambda b, bg=bg, sz=sz: b.out(b.un('SIN', b.slice(tconv3(b, b.x((1, 2, 2, 2, 1)), 1, (2, 2, 1), [3, 3, 2]), [0] + list(bg) + [0], [1] + list(sz) + [1]))))


def padv(b, x, pads, val):
    if val == 'fmin':
        v = b.s.con(b.name('v'), [fmin()], 'float32')
        return b.o('PADV2', [x, b.i([list(p) for p in pads]), v])
    return b.pad(x, pads, val)


def fmin():
    from fractions import Fraction
    return -Fraction(3.4028234663852886e+38)


def conv3d(b, x, k, padding=1):
    return b.o('CONV_3D', [x, b.c(tuple(k) + (b.shape(x)[-1], 1)), b.c((1,))], fusedActivationFunction=0, padding=padding, strideD=1, strideH=1, strideW=1,
               dilationDFactor=1, dilationHFactor=1, dilationWFactor=1)


def tconv(b, x, o, k, st, full, act=0, padding=1, bias=True):
    n = b.shape(x)
    ins = [b.i([1] + list(full) + [o]), b.c((o,) + tuple(k) + (n[-1],)), x] + ([b.c((o,))] if bias else [])
    return b.o('TRANSPOSE_CONV', ins, fusedActivationFunction=act, padding=padding, strideH=st, strideW=st)


def tconv3(b, x, o, k, full, padding=1):
    n = b.shape(x)
    return b.o('CONV_3D_TRANSPOSE', [b.i([1] + list(full) + [o]), b.c(tuple(k) + (o, n[-1])), x, b.c((o,))], fusedActivationFunction=0, padding=padding, strideD=1, strideH=1, strideW=1,
               dilationDFactor=1, dilationHFactor=1, dilationWFactor=1)


def dyn_slice(b, x, shape, what='begin'):
    """a slice whose begin or end is computed by the model; `shape` is its size while tracing"""
    n = len(shape)
    d = b.x((n,), dtype='int32')
    b0, b1, st = b.i([0] * n), b.i(list(shape)), b.i([1] * n)
    return b.o('STRIDED_SLICE', [x, d if what == 'begin' else b0, d if what == 'end' else b1, st], beginMask=0, endMask=0, ellipsisMask=0, newAxisMask=0, shrinkAxisMask=0,
               offset=False, dyn_shape=tuple(shape))


# ---- sqrt / division -------------------------------------------------------------------------------
def sqrts():
    P = 'fuse_reciprocal_sqrt'
    S = (2, 3)
    one = lambda b, sh=(1,), v=1.0: b.s.con(b.name('v'), nest(sh, v), 'float32')
    for act in (0, 1):
        ends('x / sqrt(y), activation %d' % act, P, lambda b, act=act: (lambda q: (q, b.bin('DIV', b.x(S), q, act)))(b.un('SQRT', b.x(S))))
        ends('1 / sqrt(y), activation %d' % act, P, lambda b, act=act: (lambda q: (q, b.bin('DIV', one(b), q, act)))(b.un('SQRT', b.x(S))))
        ends('sqrt(y) / x, activation %d' % act, P, lambda b, act=act: (lambda q: (q, b.bin('DIV', q, b.x(S), act)))(b.un('SQRT', b.x(S))))
    for v, sh in ((2.0, (1,)), (1.0, (2, 3)), (1.0, (1, 3)), (1.0, (3,)), (0.0, (1,))):
        for ysh in ((2, 3), (1,), (1, 3), (3,), (2, 1)):
            add(P, '%s of shape %s / sqrt(y) of shape %s' % (v, sh, ysh), lambda b, v=v, sh=sh, ysh=ysh: b.out(b.un('SIN', b.bin('DIV', one(b, sh, v), b.un('SQRT', b.x(ysh))))))
    add(P, 'constants that are not all one / sqrt(y)', lambda b: b.out(b.un('SIN', b.bin('DIV', b.s.con('k', [1.0, 2.0, 1.0], 'float32'), b.un('SQRT', b.x(S))))))
    add(P, 'sqrt(y) / sqrt(y)', lambda b: (lambda q: b.out(b.un('SIN', b.bin('DIV', q, q))))(b.un('SQRT', b.x(S))))
    add(P, 'sqrt(x) / sqrt(y)', lambda b: b.out(b.un('SIN', b.bin('DIV', b.un('SQRT', b.x(S)), b.un('SQRT', b.x(S))))))
    add(P, 'sqrt(y) / 1', lambda b: b.out(b.un('SIN', b.bin('DIV', b.un('SQRT', b.x(S)), one(b)))))
    add(P, 'x * sqrt(y)', lambda b: b.out(b.un('SIN', b.bin('MUL', b.x(S), b.un('SQRT', b.x(S))))))
    add(P, 'x / (y / sqrt(z))', lambda b: b.out(b.un('SIN', b.bin('DIV', b.x(S), b.bin('DIV', b.x(S), b.un('SQRT', b.x(S)))))))
    add(P, 'x / sqrt(y / sqrt(z))', lambda b: b.out(b.un('SIN', b.bin('DIV', b.x(S), b.un('SQRT', b.bin('DIV', b.x(S), b.un('SQRT', b.x(S))))))))
    add(P, '1 / sqrt(1 / sqrt(z))', lambda b: b.out(b.un('SIN', b.bin('DIV', one(b), b.un('SQRT', b.bin('DIV', one(b), b.un('SQRT', b.x(S))))))))
    add(P, 'x / sqrt(y) with broadcasting', lambda b: b.out(b.un('SIN', b.bin('DIV', b.x(S), b.un('SQRT', b.x((1, 3)))))))


def nest(sh, v):
    return [nest(sh[1:], v) for _ in range(sh[0])] if sh else v


# ---- tile ------------------------------------------------------------------------------------------
def tiles():
    P = 'remove_tile_before_binary_elementwise_ops'
    for code in ('ADD', 'SUB', 'MUL', 'DIV'):
        for side in (0, 1):
            for xs, m, ys in (((1, 3), (2, 1), (2, 3)), ((1, 3), (2, 1), (1, 3)), ((1, 3), (2, 2), (2, 6)), ((2, 1), (1, 3), (2, 3)), ((2, 1), (1, 3), (1, 3)), ((2, 1), (1, 3), (1, 1)),
                              ((2, 3), (2, 1), (4, 3)), ((1, 3), (2, 1), (2, 1)), ((1, 1), (2, 3), (2, 3)), ((1, 1), (2, 3), (1, 1)), ((1,), (3,), (2, 3)), ((1, 3), (2, 1), (1,)), ((1, 1), (2, 3), (3,))):
                def f(b, code=code, side=side, xs=xs, m=m, ys=ys):
                    t, y = b.tile(b.x(xs), m), b.x(ys)
                    return t, b.bin(code, *((t, y) if side == 0 else (y, t)), 1 if code == 'ADD' else 0)
                what = 'tile of %s by %s, %s with %s, operand %d' % (xs, m, code, ys, side)
                if code == 'SUB':
                    ends(what, P, f, may_fail=True)
                else:
                    add(P, what, lambda b, f=f: b.out(b.un('SIN', f(b)[1])), may_fail=True)
    add(P, 'two tiles of one operator', lambda b: b.out(b.un('SIN', b.bin('SUB', b.tile(b.x((1, 3)), (2, 1)), b.tile(b.x((2, 1)), (1, 3))))))
    add(P, 'two tiles of one operator on the same axis', lambda b: b.out(b.un('SIN', b.bin('SUB', b.tile(b.x((1, 3)), (2, 1)), b.tile(b.x((1, 3)), (2, 1))))))
    add(P, 'a tile used twice', lambda b: (lambda t: b.out(b.un('SIN', b.bin('SUB', t, t))))(b.tile(b.x((1, 3)), (2, 1))))
    add(P, 'two tiles in a row', lambda b: b.out(b.un('SIN', b.bin('SUB', b.tile(b.tile(b.x((1, 1)), (1, 3)), (2, 1)), b.x((2, 3))))))
    add(P, 'tile, MAXIMUM', lambda b: b.out(b.un('SIN', b.bin('MAXIMUM', b.tile(b.x((1, 3)), (2, 1)), b.x((1, 3))))))


# ---- gathers ---------------------------------------------------------------------------------------
def gathers():
    P = 'fuse_conv2d_gather'
    for idx in ([1, 0, 2], [2, 0, 1], [0, 1, 2], [0, 0, 1], [0, 1], [0, 1, 2, 0], [[0, 1, 2]], [-1, 0, 1]):
        for bias in (True,):
            ends('conv, gather %s, bias %s' % (idx, bias), P, pair(lambda b, bias=bias: b.conv2d(b.x((1, 2, 1, 2)), 3, (1, 1), bias=bias), lambda b, a, idx=idx: b.gather(a, idx, 3)))
    for ax in (0, 1, 2):
        add(P, 'conv, gather on axis %d' % ax, lambda b, ax=ax: b.out(b.un('SIN', b.gather(b.conv2d(b.x((1, 3, 3, 2)), 3, (1, 1)), [2, 0, 1] if ax else [0, 0, 0], ax))))
    add(P, 'conv, gather with axis -1', lambda b: b.out(b.un('SIN', b.gather(b.conv2d(b.x((1, 2, 1, 2)), 3, (1, 1)), [2, 0, 1], -1))))
    add(P, 'conv with activation, gather', lambda b: b.out(b.un('SIN', b.gather(b.conv2d(b.x((1, 2, 1, 2)), 3, (1, 1), 1), [2, 0, 1], 3))))
    add(P, 'grouped conv, gather', lambda b: b.out(b.un('SIN', b.gather(b.conv2d(b.x((1, 2, 1, 4)), 4, (1, 1), groups=2), [2, 0, 3, 1], 3))))
    add(P, 'depthwise conv, gather', lambda b: b.out(b.un('SIN', b.gather(b.dwconv(b.x((1, 2, 1, 3)), 1, (1, 1)), [2, 0, 1], 3))))
    add(P, 'conv with computed weight, gather', lambda b: b.out(b.un('SIN', b.gather(b.conv2d(b.x((1, 2, 1, 2)), 3, (1, 1), dynw=True), [2, 0, 1], 3))))
    add(P, 'conv with computed bias, gather', lambda b: b.out(b.un('SIN', b.gather(b.conv2d(b.x((1, 2, 1, 2)), 3, (1, 1), bias=b.x((3,))), [2, 0, 1], 3))))
    add(P, 'conv, gather with computed indices', lambda b: b.out(b.un('SIN', b.o('GATHER', [b.conv2d(b.x((1, 2, 1, 2)), 3, (1, 1)), b.x((3,), dtype='int32')], axis=3, batchDims=0))))
    add(P, 'a weight shared by two convs, one with a gather', lambda b: (lambda w, y: b.out(b.un('SIN', b.gather(b.conv2d(y, 3, (1, 1), w=w), [2, 0, 1], 3)), b.un('COS', b.conv2d(y, 3, (1, 1), w=w))))(b.c((3, 1, 1, 2)), b.x((1, 2, 1, 2))))
    add(P, 'conv whose output is the index of a gather', lambda b: b.out(b.un('SIN', b.gather(b.x((1, 1, 1, 3)), [2, 0, 1], 3))))
    add(P, 'conv, two gathers', lambda b: b.out(b.un('SIN', b.gather(b.gather(b.conv2d(b.x((1, 2, 1, 2)), 3, (1, 1)), [2, 0, 1], 3), [1, 0, 2], 3))))
    R = 'fuse_gather_conv2d'
    for idx in ([1, 0, 2], [2, 0, 1], [0, 1, 2], [0, 0, 1], [2, 1, 1], [0, 1]):
        ends('gather %s, conv' % idx, R, pair(lambda b, idx=idx: b.gather(b.x((1, 2, 1, 3)), idx, 3), lambda b, a: b.conv2d(a, 2, (1, 1))))
    add(R, 'gather [0, 1, 2] of 4 channels, conv', lambda b: b.out(b.un('SIN', b.conv2d(b.gather(b.x((1, 2, 1, 4)), [2, 0, 1], 3), 2, (1, 1)))))
    add(R, 'gather of more channels, conv', lambda b: b.out(b.un('SIN', b.conv2d(b.gather(b.x((1, 2, 1, 2)), [1, 0, 1], 3), 2, (1, 1)))))
    add(R, 'gather, grouped conv', lambda b: b.out(b.un('SIN', b.conv2d(b.gather(b.x((1, 2, 1, 4)), [2, 0, 3, 1], 3), 4, (1, 1), groups=2))))
    add(R, 'gather, depthwise conv', lambda b: b.out(b.un('SIN', b.dwconv(b.gather(b.x((1, 2, 1, 3)), [2, 0, 1], 3), 1, (1, 1)))))
    add(R, 'gather, conv with computed weight', lambda b: b.out(b.un('SIN', b.conv2d(b.gather(b.x((1, 2, 1, 3)), [2, 0, 1], 3), 2, (1, 1), dynw=True))))
    add(R, 'gather with computed indices, conv', lambda b: b.out(b.un('SIN', b.conv2d(b.o('GATHER', [b.x((1, 2, 1, 3)), b.x((3,), dtype='int32')], axis=3, batchDims=0), 2, (1, 1)))))
    for ax in (1, 2):
        add(R, 'gather on axis %d, conv' % ax, lambda b, ax=ax: b.out(b.un('SIN', b.conv2d(b.gather(b.x((1, 3, 3, 3)), [2, 0, 1], ax), 2, (1, 1)))))
    add(R, 'gather of the weight', lambda b: b.out(b.un('SIN', b.conv2d(b.x((1, 2, 1, 3)), 2, (1, 1), w=b.gather(b.c((2, 1, 1, 3)), [2, 0, 1], 3)))))
    add(R, 'gather of the bias', lambda b: b.out(b.un('SIN', b.conv2d(b.x((1, 2, 1, 3)), 3, (1, 1), bias=b.gather(b.c((3,)), [2, 0, 1], 0)))))
    add(R, 'gather of both the input and a weight', lambda b: b.out(b.un('SIN', b.conv2d(b.gather(b.x((1, 2, 1, 3)), [2, 0, 1], 3), 2, (1, 1), w=b.gather(b.c((2, 1, 1, 3)), [1, 0, 2], 3)))))
    add(R, 'a weight shared by two convs, one behind a gather', lambda b: (lambda w: b.out(b.un('SIN', b.conv2d(b.gather(b.x((1, 2, 1, 3)), [2, 0, 1], 3), 2, (1, 1), w=w)), b.un('COS', b.conv2d(b.x((1, 2, 1, 3)), 2, (1, 1), w=w))))(b.c((2, 1, 1, 3))))
    G = 'fuse_simple_gather_pass'
    for i1, i2 in (([1, 0, 2], [1, 0, 2]), ([2, 0, 1], [1, 2, 0]), ([2, 0, 1], [2, 0, 1]), ([0, 0, 1], [1, 0, 2]), ([1, 0, 2], [0, 1]), ([1, 2], [1, 0]), ([0, 1], [0, 1]), ([1, 2, 0], [1, 1, 0, 2]),
                   ([0, 2], [1, 0]), ([[0, 1], [1, 2]], [1, 0]), ([1, 0, 2], [[0, 1]]), ([0, 1, 2, 0], [0, 1, 2])):
        ends('gathers %s and %s' % (i1, i2), G, pair(lambda b, i1=i1: b.gather(b.un('COS', b.x((3, 2))), i1, 0), lambda b, a, i2=i2: b.gather(a, i2, 0)))
    add(G, 'gathers on different axes', lambda b: b.out(b.un('SIN', b.gather(b.gather(b.un('COS', b.x((3, 3))), [2, 0, 1], 0), [1, 0, 2], 1))))
    add(G, 'three gathers', lambda b: b.out(b.un('SIN', b.gather(b.gather(b.gather(b.un('COS', b.x((3, 3))), [2, 0, 1], 0), [1, 0, 2], 0), [0, 2, 1], 0))))
    for pos in (0, 1):
        def f(b, pos=pos):
            g = lambda y, d: b.o('GATHER', [y, b.x((3,), dtype='int32') if d else b.i([2, 0, 1])], axis=0, batchDims=0)
            b.out(b.un('SIN', g(g(b.un('COS', b.x((3, 2))), pos == 0), pos == 1)))
        add(G, 'gathers, the indices of number %d are computed' % pos, f)
    add(G, 'gather of the indices of a gather', lambda b: b.out(b.un('SIN', b.o('GATHER', [b.x((3, 2)), b.gather(b.i([2, 0, 1]), [1, 0, 2], 0)], axis=0, batchDims=0))))
    add(G, 'gathers with different batch dims', lambda b: b.out(b.un('SIN', b.gather(b.gather(b.un('COS', b.x((2, 2))), [[1, 0], [0, 1]], 1, 1), [1, 0], 1))))


# ---- slices ----------------------------------------------------------------------------------------
def slices():
    P = 'fuse_simple_slice_pass'
    S = (5, 4)
    kinds = {'slice': lambda b, y, lo, hi, st: b.slice(y, lo, [h - i for i, h in zip(lo, hi)]), 'strided': lambda b, y, lo, hi, st: b.sslice(y, lo, hi, st)}
    firsts = [('slice', (1, 0), (5, 4), None), ('slice', (0, 1), (5, 4), None), ('slice', (1, 1), (4, 4), None), ('strided', (0, 0), (5, 4), (2, 1)), ('strided', (1, 0), (5, 4), (2, 1)), ('strided', (0, 1), (5, 4), (1, 2)),
              ('strided', (1, 1), (4, 4), (1, 1))]
    for k1, lo1, hi1, st1 in firsts:
        n = [len(range(a, z, s)) for a, z, s in zip(lo1, hi1, st1 or (1, 1))]
        for k2, lo2, cut, st2 in (('slice', (0, 0), (1, 0), None), ('slice', (1, 0), (0, 0), None), ('slice', (1, 1), (0, 0), None), ('slice', (0, 1), (0, 0), None), ('slice', (1, 0), (1, 0), None), ('strided', (0, 0), (0, 0), (2, 1)),
                                  ('strided', (1, 0), (0, 0), (2, 1)), ('strided', (0, 1), (0, 0), (1, 2)), ('strided', (1, 0), (0, 1), (1, 1)), ('strided', (0, 0), (0, 0), (2, 2))):
            hi2 = [m - c for m, c in zip(n, cut)]
            if any(h <= l for h, l in zip(hi2, lo2)):
                continue
            f = pair(lambda b, k1=k1, lo1=lo1, hi1=hi1, st1=st1: kinds[k1](b, b.un('COS', b.x(S)), lo1, hi1, st1),
                     lambda b, a, k2=k2, lo2=lo2, hi2=hi2, st2=st2: kinds[k2](b, a, lo2, hi2, st2))
            what = '%s %s:%s:%s, %s %s:%s:%s' % (k1, lo1, hi1, st1, k2, lo2, hi2, st2)
            if (k1, k2) == ('slice', 'slice') and lo1 == (1, 1) or k1 != k2 and lo2 == (1, 0):
                ends(what, P, f)
            else:
                add(P, what, lambda b, f=f: b.out(b.un('SIN', f(b)[1])))
    add(P, 'three slices', lambda b: b.out(b.un('SIN', b.slice(b.sslice(b.slice(b.un('COS', b.x(S)), (1, 0), (4, 4)), (0, 1), (4, 4), (2, 1)), (1, 0), (1, 3)))))
    add(P, 'three other slices', lambda b: b.out(b.un('SIN', b.slice(b.slice(b.slice(b.un('COS', b.x(S)), (1, 0), (4, 3)), (1, 1), (3, 2)), (1, 0), (2, 1)))))
    add(P, 'slices that share their begin', lambda b: (lambda k, y: b.out(b.un('SIN', b.o('SLICE', [b.o('SLICE', [y, k, b.i([4, 3])]), k, b.i([3, 2])])), b.un('COS', b.o('SLICE', [y, k, b.i([1, 1])]))))(b.i([1, 1]), b.un('COS', b.x(S))))
    for w in ('begin', 'end'):
        add(P, 'slice, slice with computed %s' % w, lambda b, w=w: b.out(b.un('SIN', dyn_slice(b, b.slice(b.un('COS', b.x(S)), (1, 0), (4, 4)), [4, 4], w))))
        add(P, 'slice with computed %s, slice' % w, lambda b, w=w: b.out(b.un('SIN', b.slice(dyn_slice(b, b.un('COS', b.x(S)), [5, 4], w), (1, 0), (4, 4)))))


# ---- operators that do nothing ---------------------------------------------------------------------
def noops():
    S = (2, 3)
    cand = {
        'RESHAPE same': lambda b, y: b.rs(y, S), 'RESHAPE swapped': lambda b, y: b.rs(y, (3, 2)), 'TRANSPOSE same': lambda b, y: b.tr(y, (0, 1)), 'TRANSPOSE swapped': lambda b, y: b.tr(y, (1, 0)),
        'PAD none': lambda b, y: b.pad(y, ((0, 0), (0, 0))), 'PAD one': lambda b, y: b.pad(y, ((0, 0), (0, 1))), 'PAD shift': lambda b, y: b.pad(y, ((0, 0), (1, -1))), 'PADV2 none': lambda b, y: b.pad(y, ((0, 0), (0, 0)), 1.0),
        'PADV2 one': lambda b, y: b.pad(y, ((1, 0), (0, 0)), 1.0), 'TILE none': lambda b, y: b.tile(y, (1, 1)), 'TILE two': lambda b, y: b.tile(y, (2, 1)), 'SLICE all': lambda b, y: b.slice(y, (0, 0), S),
        'SLICE part': lambda b, y: b.slice(y, (1, 0), (1, 3)), 'STRIDED_SLICE all': lambda b, y: b.sslice(y, (0, 0), S), 'STRIDED_SLICE with steps': lambda b, y: b.sslice(y, (0, 0), S, (1, 2)),
        'CONCATENATION one': lambda b, y: b.cat([y], 1), 'CONCATENATION two': lambda b, y: b.cat([y, b.x(S)], 1), 'CONCATENATION twice': lambda b, y: b.cat([y, y], 1),
        'GATHER all': lambda b, y: b.gather(y, [0, 1, 2], 1), 'GATHER swapped': lambda b, y: b.gather(y, [1, 0, 2], 1), 'GATHER repeated': lambda b, y: b.gather(y, [0, 0, 0], 1), 'GATHER descending': lambda b, y: b.gather(y, [2, 1, 0], 1),
        'GATHER part': lambda b, y: b.gather(y, [1, 2], 1), 'GATHER computed': lambda b, y: b.o('GATHER', [y, b.x((3,), dtype='int32')], axis=1, batchDims=0), 'REVERSE_V2': lambda b, y: b.o('REVERSE_V2', [y, b.i([1])]),
        'STRIDED_SLICE computed begin': lambda b, y: dyn_slice(b, y, S, 'begin'), 'STRIDED_SLICE computed end': lambda b, y: dyn_slice(b, y, S, 'end'),
        'CAST to the same type': lambda b, y: b.o('CAST', [y], inDataType=0, outDataType=0), 'CAST to another type': lambda b, y: b.o('CAST', [y], inDataType=0, outDataType=2),
    }
    for br in (False, True):
        for nm, f in cand.items():
            ends('%s, branches %s' % (nm, br), 'remove_noop_pass', pair(lambda b: b.un('COS', b.x(S)), lambda b, a, f=f: f(b, a)), args=(br,))
            add('remove_noop_pass', '%s of a model input, branches %s' % (nm, br), lambda b, f=f: b.out(b.un('SIN', f(b, b.x(S)))), args=(br,))
            add('remove_noop_pass', '%s with two consumers, branches %s' % (nm, br), lambda b, f=f: (lambda z: b.out(b.un('SIN', z), b.un('COS', z)))(f(b, b.un('COS', b.x(S)))), args=(br,))
    for br in (False, True):
        add('remove_noop_pass', 'operators that do nothing, in a row, branches %s' % br, lambda b: b.out(b.un('SIN', b.tile(b.pad(b.rs(b.un('COS', b.x(S)), S), ((0, 0), (0, 0))), (1, 1)))), args=(br,))
        add('remove_noop_pass', 'operators that do nothing before one that does, branches %s' % br, lambda b: b.out(b.un('SIN', b.tr(b.rs(b.un('COS', b.x(S)), S), (1, 0)))), args=(br,))
        add('remove_noop_pass', 'one of two results, branches %s' % br, lambda b: (lambda y: b.out(b.un('SIN', b.rs(y[1], (1, 3))), b.un('COS', y[0])))(b.split(b.x(S), 0, 2)), args=(br,))
        add('remove_noop_pass', 'GATHER whose indices come from an operator, branches %s' % br, lambda b: b.out(b.un('SIN', b.o('GATHER', [b.x((1, 3)), b.rs(b.i([0]), (1,))], axis=0, batchDims=0))), args=(br,))


# ---- matmul + add ----------------------------------------------------------------------------------
def matmuls():
    P = 'fuse_bmm_add_pass'
    for xs in ((2, 3), (2, 2, 3), (1, 2, 2, 3)):
        for wdyn in (False, True):
            for act in (0, 1):
                ends('matmul of %s, weight computed %s, add with activation %d' % (xs, wdyn, act), P,
                     pair(lambda b, xs=xs, wdyn=wdyn: b.bmm(b.x(xs), (b.x if wdyn else b.c)((3, 2))), lambda b, a, act=act: b.bin('ADD', a, b.c((2,)), act)))
    for nm, f in (('computed bias', lambda b: b.x((2,))), ('bias of 1', lambda b: b.c((1,))), ('bias of 2 dims', lambda b: b.c((1, 2))), ('bias of other rank', lambda b: b.c((2, 2)))):
        add(P, 'matmul, add of %s' % nm, lambda b, f=f: b.out(b.un('SIN', b.bin('ADD', b.bmm(b.x((2, 3)), b.c((3, 2))), f(b)))))
        add(P, 'fully connected without bias, add of %s' % nm, lambda b, f=f: b.out(b.un('SIN', b.bin('ADD', b.fc(b.x((2, 3)), 2, False), f(b)))))
        add(P, 'fully connected of 3 dims, add of %s' % nm, lambda b, f=f: b.out(b.un('SIN', b.bin('ADD', b.fc(b.x((2, 2, 3)), 2, False, keep=True), f(b)))))
    add(P, 'matmul, add of the matmul as second operand', lambda b: b.out(b.un('SIN', b.bin('ADD', b.c((2,)), b.bmm(b.x((2, 3)), b.c((3, 2)))))))
    add(P, 'matmul of one element, add of a bias of one', lambda b: b.out(b.un('SIN', b.bin('ADD', b.bmm(b.x((2, 3)), b.c((3, 1))), b.c((1,))))))
    for code in ('SUB', 'MUL'):
        add(P, 'matmul, %s' % code, lambda b, code=code: b.out(b.un('SIN', b.bin(code, b.bmm(b.x((2, 3)), b.c((3, 2))), b.c((2,))))))
    for act in (0, 1):
        for fb in (None, 'zero', 'const', 'computed'):
            bias = {None: lambda b: None, 'zero': lambda b: b.s.con(b.name('z'), [0.0, 0.0], 'float32'), 'const': lambda b: b.s.con(b.name('z'), [1.0, 2.0], 'float32'), 'computed': lambda b: b.x((2,))}[fb]
            ends('fully connected with activation %d and bias %s, add' % (act, fb), P,
                 pair(lambda b, act=act, bias=bias: (lambda q: b.fc(b.x((2, 3)), 2, q is not None, act, b=q))(bias(b)), lambda b, a: b.bin('ADD', a, b.c((2,)))))
    add(P, 'matmul of 3-d operands, add', lambda b: b.out(b.un('SIN', b.bin('ADD', b.bmm(b.x((2, 2, 3)), b.x((2, 3, 2))), b.c((2,))))))
    add(P, 'matmul added to itself', lambda b: (lambda m: b.out(b.un('SIN', b.bin('ADD', m, m))))(b.bmm(b.x((2, 3)), b.c((3, 2)))))
    add(P, 'matmul whose weight is used elsewhere', lambda b: (lambda w: b.out(b.un('SIN', b.bin('ADD', b.bmm(b.x((2, 3)), w), b.c((2,)))), b.un('COS', w)))(b.un('TANH', b.x((3, 2)))))
    add(P, 'matmul as the added operand of a matmul', lambda b: b.out(b.un('SIN', b.bin('ADD', b.bmm(b.bin('ADD', b.bmm(b.x((2, 3)), b.c((3, 2))), b.c((2,))), b.c((2, 2))), b.c((2,))))))


# ---- equal constants, dead nodes -------------------------------------------------------------------
def constants():
    P = 'group_tensors_pass'
    con = lambda b, v, t='float32', **kw: b.s.con(b.name('k'), v, t, **kw)
    two = {
        'equal': ([1.0, 2.0], 'float32', [1.0, 2.0], 'float32'), 'different': ([1.0, 2.0], 'float32', [1.0, 3.0], 'float32'), 'zeros of two types': ([0.0, 0.0], 'float32', [0, 0], 'int32'),
        'zeros of two shapes': ([0.0, 0.0], 'float32', [[0.0], [0.0]], 'float32'), 'equal of two shapes': ([1.0, 2.0], 'float32', [[1.0], [2.0]], 'float32'),
    }
    for nm, (v1, t1, v2, t2) in two.items():
        add(P, 'constants: %s' % nm, lambda b, v1=v1, t1=t1, v2=v2, t2=t2: b.out(b.un('SIN', b.bin('SUB', b.x((2, 2)), con(b, v1, t1))), b.un('COS', b.bin('SUB', b.x((2, 2)), con(b, v2, t2)))))
        add(P, 'operands of one operator: %s' % nm, lambda b, v1=v1, t1=t1, v2=v2, t2=t2: b.out(b.un('SIN', b.bin('SUB', con(b, v1, t1), con(b, v2, t2)))))
        add(P, 'used by several operators: %s' % nm, lambda b, v1=v1, t1=t1, v2=v2, t2=t2: (lambda p, q: b.out(b.un('SIN', b.bin('SUB', p, q)), b.un('COS', b.bin('SUB', b.x((2, 2)), q)), b.un('TANH', b.bin('SUB', p, b.x((2, 2))))))(con(b, v1, t1), con(b, v2, t2)))
    add(P, 'three equal constants', lambda b: b.out(*[b.un('SIN', b.bin('SUB', b.x((2, 2)), con(b, [1.0, 2.0]))) for _ in range(3)]))
    add(P, 'an equal constant used twice by one operator', lambda b: (lambda k, q: b.out(b.un('SIN', b.bin('SUB', q, b.x((2,)))), b.un('SIN', b.bin('SUB', k, k))))(con(b, [1.0, 2.0]), con(b, [1.0, 2.0])))
    quants = {'one without': (None, (0.5, 0)), 'equal': ((0.5, 0), (0.5, 0)), 'scales': ((0.5, 0), (0.25, 0)), 'zero points': ((0.5, 0), (0.5, 1)), 'per channel equal': (([0.5, 0.25], [0, 0]), ([0.5, 0.25], [0, 0])),
              'per channel scales': (([0.5, 0.25], [0, 0]), ([0.25, 0.5], [0, 0])), 'per channel dims': (([0.5, 0.25], [0, 0], 0), ([0.5, 0.25], [0, 0], 1))}
    for nm, (q1, q2) in quants.items():
        def f(b, q1=q1, q2=q2):
            d = lambda q: dict(zip(('scale', 'zero_point', 'dim'), q)) if q else None
            k = [con(b, [[1, 2], [3, 4]], 'int8', **({'quantization': d(q)} if q else {})) for q in (q1, q2)]
            b.out(b.un('SIN', b.un('DEQUANTIZE', k[0])), b.un('COS', b.un('DEQUANTIZE', k[1])))
        add(P, 'quantisation of equal data: %s' % nm, f)
    C = 'cleanup_dead_nodes'
    add(C, 'nothing dead', lambda b: b.out(b.un('SIN', b.bin('ADD', b.x((2, 2)), b.c((2,))))))
    add(C, 'an unused constant', lambda b: (b.c((2,)), b.out(b.un('SIN', b.x((2, 2))))))
    add(C, 'an unused input', lambda b: (b.x((2,)), b.out(b.un('SIN', b.x((2, 2))))))
    add(C, 'a dead chain', lambda b: (lambda x: (b.un('COS', b.bin('ADD', x, b.c((2,)))), b.out(b.un('SIN', x))))(b.x((2, 2))))
    add(C, 'a dead branch', lambda b: (lambda x: (b.un('COS', b.un('TANH', x)), b.out(b.un('SIN', x), x and b.un('TANH', x))))(b.x((2, 2))))
    add(C, 'two components', lambda b: b.out(b.un('SIN', b.x((2, 2))), b.un('COS', b.x((2, 2)))))
    U = 'connect_unused_tensors_pass'
    add(U, 'unused results', lambda b: b.out(b.un('SIN', b.split(b.x((2, 3)), 0, 2)[1])))
    add(U, 'no unused results', lambda b: (lambda y: b.out(b.un('SIN', y[1]), y[0]))(b.split(b.x((2, 3)), 0, 2)))
    for p in ('output_list_unpack_pass',):
        add(p, 'plain outputs', lambda b: b.out(b.un('SIN', b.x((2, 2))), b.un('COS', b.x((2, 2)))))


ALL = (activations, batch_norms, paddings, sqrts, tiles, gathers, slices, noops, matmuls, constants)


def fill():
    n = len(SCENES)
    for f in ALL:
        f()
    new = SCENES[n:]
    del SCENES[n:]
    return new
