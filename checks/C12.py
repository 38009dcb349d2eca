"""C12: batch-norm folding is algebraically exact.

Every rewrite that folds a batch-norm (and the lowering of a batch-norm that is not folded) is interpreted on small graphs with
symbolic weights, biases, statistics and inputs.  The function of the graph before and after is computed element by element as a
symbolic expression; both have to be the same expression."""
from sa.framework import parallel
from sa.interp import K, T, Tup, Ref, NONE, State, Dead, BM, Fn, Bi
from sa.sem import ValueBench, VScene, Sem, sympoly, lit, conv_nchw, deconv_nchw
from sa.arr import Arr, Poly, NoShape, Unk, fresh, zipmap, reshape, fun, HALF, BIN
from sa.topo import Undecided
from sa.repo import AnalysisBroken

TITLE = 'batch-norm folding is exact'
EXPLANATION = ('Abstract interpretation of the folding passes (fuse_conv_fc_bn, fuse_bn_conv), of the lowering of a batch-norm and of the folding '
               'helpers of the quantisation code over arrays of symbolic elements; the expression of every output element after folding is compared with the one '
               'before it, for plain, grouped, depthwise and transposed convolutions, 1-d/2-d/3-d, linear layers, with and without bias or pending activations.')

EPS = sympoly('eps')


def bn(s, x, c, out, act=0, **kw):
    for n in ('g', 'be', 'mu', 'var'):
        if kw.get('dyn') == n:
            s.inp(n + out, (c,))
        else:
            s.par(n + out, (c,))
    return s.o('BATCH_NORM', [x] + [n + out for n in ('g', 'be', 'mu', 'var')], out, eps=EPS, fusedActivationFunction=act)


def conv(s, x, i, o, k, out, groups=1, bias='full', act=0, pad=0, stride=1, dil=1, dynw=False):
    n = len(k)
    (s.inp if dynw else s.par)('w' + out, (o, i // groups) + tuple(k))
    ins = [x, 'w' + out]
    if bias:
        s.par('b' + out, (o,) if bias == 'full' else (1,))
        ins.append('b' + out)
    return s.o('GENERIC_CONV', ins, out, stride=[stride] * n, padding=[pad] * n, dilation=[dil] * n, output_padding=[0] * n, groups=groups, fusedActivationFunction=act)


def deconv(s, x, i, o, k, out, groups=1, bias='full', act=0, stride=1, pad=0):
    n = len(k)
    s.par('w' + out, (i, o // groups) + tuple(k))
    ins = [x, 'w' + out]
    if bias:
        s.par('b' + out, (o,) if bias == 'full' else (1,))
        ins.append('b' + out)
    return s.o('GENERIC_DECONV', ins, out, stride=[stride] * n, padding=[pad] * n, dilation=[1] * n, output_padding=[0] * n, groups=groups, fusedActivationFunction=act)


def fwd_conv(kind, i, o, k, groups=1, bias='full', act=0, bact=0, **kw):
    def build(s):
        sp = tuple(2 if d == 1 else 2 for d in k)
        s.inp('x', (1, i) + sp)
        y = (conv if kind == 'conv' else deconv)(s, 'x', i, o, k, 'y', groups, bias, act, **kw)
        s.output(bn(s, y, o, 'z', bact))
    return build


def fwd_fc(i, o, bias='full', act=0, bact=0, rank=2):
    def build(s):
        s.inp('x', (2, i) if rank == 2 else (1, 2, i))
        s.par('w', (o, i))
        ins = ['x', 'w']
        if bias:
            s.par('b', (o,) if bias == 'full' else (1,))
            ins.append('b')
        y = s.o('FULLY_CONNECTED', ins, 'y', fusedActivationFunction=act, keepNumDims=rank == 3, asymmetricQuantizeInputs=False, weightsFormat=0)
        if rank == 2:
            s.output(bn(s, y, o, 'z', bact))
        else:
            s.output(bn(s, y, 2, 'z', bact))
    return build


def rev(i, o, k, groups=1, bias='full', act=0, bact=0, pad=0, dynw=False):
    def build(s):
        s.inp('x', (1, i) + tuple(2 for d in k))
        y = bn(s, 'x', i, 'y', bact)
        s.output(conv(s, y, i, o, k, 'z', groups, bias, act, pad=pad, dynw=dynw))
    return build


def lower(rank, act=0):
    def build(s):
        s.inp('x', (2, 3) + (2,) * (rank - 2))
        s.output(bn(s, 'x', 3, 'z', act))
    return build


CASES = []
for bias in ('full', None, 'one'):
    CASES += [('fuse_conv_fc_bn', 'conv 2-d, bias %s' % bias, fwd_conv('conv', 2, 3, (2, 1), bias=bias)),
              ('fuse_conv_fc_bn', 'transposed conv, bias %s' % bias, fwd_conv('deconv', 2, 3, (2, 1), bias=bias)),
              ('fuse_conv_fc_bn', 'linear, bias %s' % bias, fwd_fc(2, 3, bias=bias)),
              ('fuse_bn_conv', 'batch-norm -> conv 2-d, bias %s' % bias, rev(2, 3, (2, 1), bias=bias))]
CASES += [
    ('fuse_conv_fc_bn', 'conv 1-d', fwd_conv('conv', 2, 3, (2,))),
    ('fuse_conv_fc_bn', 'conv 3-d', fwd_conv('conv', 2, 3, (1, 2, 1))),
    ('fuse_conv_fc_bn', 'square conv', fwd_conv('conv', 2, 2, (2, 1))),
    ('fuse_conv_fc_bn', 'strided padded conv', fwd_conv('conv', 1, 2, (2, 2), pad=1, stride=2)),
    ('fuse_conv_fc_bn', 'grouped conv', fwd_conv('conv', 4, 6, (1, 1), groups=2)),
    ('fuse_conv_fc_bn', 'depthwise conv', fwd_conv('conv', 3, 3, (2, 1), groups=3)),
    ('fuse_conv_fc_bn', 'depthwise conv with multiplier', fwd_conv('conv', 2, 4, (2, 1), groups=2)),
    ('fuse_conv_fc_bn', 'transposed conv 1-d', fwd_conv('deconv', 2, 3, (2,))),
    ('fuse_conv_fc_bn', 'square transposed conv', fwd_conv('deconv', 2, 2, (2, 1))),
    ('fuse_conv_fc_bn', 'strided transposed conv', fwd_conv('deconv', 2, 3, (2, 2), stride=2, pad=1)),
    ('fuse_conv_fc_bn', 'grouped transposed conv', fwd_conv('deconv', 4, 6, (1, 2), groups=2)),
    ('fuse_conv_fc_bn', 'depthwise transposed conv', fwd_conv('deconv', 3, 3, (1, 2), groups=3)),
    ('fuse_conv_fc_bn', 'square linear', fwd_fc(2, 2)),
    ('fuse_conv_fc_bn', 'rank-3 linear', fwd_fc(2, 2, rank=3)),
    ('fuse_conv_fc_bn', 'conv, batch-norm with relu', fwd_conv('conv', 2, 3, (1, 1), bact=1)),
    ('fuse_conv_fc_bn', 'transposed conv, batch-norm with relu', fwd_conv('deconv', 2, 3, (1, 1), bact=1)),
    ('fuse_conv_fc_bn', 'linear, batch-norm with relu6', fwd_fc(2, 3, bact=3)),
    ('fuse_conv_fc_bn', 'conv with relu, batch-norm', fwd_conv('conv', 2, 3, (1, 1), act=1)),
    ('fuse_conv_fc_bn', 'linear with relu, batch-norm', fwd_fc(2, 3, act=1)),
    ('fuse_conv_fc_bn', 'conv with relu, batch-norm with relu', fwd_conv('conv', 2, 3, (1, 1), act=1, bact=1)),
    ('fuse_bn_conv', 'batch-norm -> conv 1-d', rev(2, 3, (2,))),
    ('fuse_bn_conv', 'batch-norm -> conv 3-d', rev(2, 3, (1, 2, 1))),
    ('fuse_bn_conv', 'batch-norm -> square conv', rev(2, 2, (2, 1))),
    ('fuse_bn_conv', 'batch-norm -> conv with relu', rev(2, 3, (1, 1), act=1)),
    ('fuse_bn_conv', 'batch-norm with relu -> conv', rev(2, 3, (1, 1), bact=1)),
    ('fuse_bn_conv', 'batch-norm -> padded conv', rev(2, 3, (2, 2), pad=1)),
    ('fuse_bn_conv', 'batch-norm -> grouped conv', rev(4, 6, (1, 1), groups=2)),
    ('fuse_bn_conv', 'batch-norm -> depthwise conv', rev(3, 3, (2, 1), groups=3)),
    ('fuse_bn_conv', 'batch-norm -> conv from one channel', rev(1, 3, (2, 1))),
    ('fuse_bn_conv', 'batch-norm -> conv with computed weight', rev(2, 3, (1, 1), dynw=True)),
]
for rank in (2, 3, 4, 5):
    CASES.append(('transform_graph', 'lowering of a rank-%d batch-norm' % rank, lower(rank)))
CASES.append(('transform_graph', 'lowering of a batch-norm with relu', lower(4, 1)))
# two batch-norms in one graph: each is folded with its own parameters


def two(s):
    s.inp('x', (1, 2, 2, 1))
    a = conv(s, 'x', 2, 2, (2, 1), 'a')
    b = bn(s, a, 2, 'b')
    c_ = conv(s, b, 2, 2, (1, 1), 'c')
    s.output(bn(s, c_, 2, 'd'))


def branch(s):
    s.inp('x', (1, 2, 2, 1))
    for n in 'pq':
        y = conv(s, 'x', 2, 2, (1, 1), 'y' + n)
        s.output(bn(s, y, 2, 'z' + n))


CASES += [('fuse_conv_fc_bn', 'two conv/batch-norm pairs in sequence', two), ('fuse_conv_fc_bn', 'two conv/batch-norm pairs in parallel', branch),
          ('fuse_bn_conv', 'batch-norms before and between convs', two)]


def work(item):
    B, name, what, build, limit = item
    res = {'runs': 0, 'edits': 0, 'bad': [], 'und': [], 'dead': []}

    def mk():
        s = VScene(B)
        build(s)
        s.before_vals = B.values(s, [B_out for B_out in outs(s)])
        return s
    for s, fin, made, complete in B.explore(mk, lambda s: s.run(name), limit):
        res['runs'] += 1
        if fin is None:
            res['und'].append(s.undecided)
            continue
        if not fin:
            res['dead'].append(str(s.dead.exc)[:200])
            continue
        try:
            bad = B.compare(s, s.before_vals)
            after = s.snapshot()
            res['edits'] += set(after['v']) != set(s.before['v'])
        except Undecided as u:
            res['und'].append(str(u))
            continue
        facts = ['%s%s' % ('' if v else 'not ', str(a)[:120]) for a, v, f in made]
        res['bad'] += [(b, facts) for b in bad]
    res['analysed'] = sorted(map(str, B.I.analysed))
    return res


QPKG = 'tinynn.graph.quantization.'


class TorchSide:
    """the folding helpers of the quantisation code, called on modules whose parameters are symbolic arrays"""

    def __init__(self, ctx):
        from sa.arr import Arrays
        self.I = I = ctx.interp()
        Arrays(I)
        I.hooks.append(self.hook)
        self.st = State()
        self.n = 0
        self.geo = {}

    def mod(self, kind, **attrs):
        self.n += 1
        cls = attrs.pop('cls', None)
        attrs.setdefault('training', K(False))
        return self.I.new_inst(self.st, cls, dict(attrs), None if cls else T('sym', ('%s%d' % (kind, self.n),)))

    def par(self, name, shape):
        return fresh(name, shape, 'float32', 'torch')

    def conv(self, o, i, k, bias, transpose=False, groups=1, **kw):
        w = (i, o // groups) if transpose else (o, i // groups)
        n = len(k)
        m = self.mod('conv', weight=self.par('w', w + tuple(k)), bias=self.par('b', (o,)) if bias else NONE, in_channels=K(i), out_channels=K(o),
                     kernel_size=Tup([K(x) for x in k]), stride=Tup([K(1)] * n), padding=Tup([K(0)] * n), output_padding=Tup([K(0)] * n), dilation=Tup([K(1)] * n),
                     groups=K(groups), padding_mode=K('zeros'), **kw)
        self.geo[m] = (transpose, groups)
        return m

    def bn(self, c, affine=True):
        return self.mod('bn', running_mean=self.par('mu', (c,)), running_var=self.par('var', (c,)), eps=T('sym', ('eps',)), weight=self.par('g', (c,)), bias=self.par('be', (c,)))

    def at(self, r, name):
        return self.I.norm(self.st, self.I.obj(self.st, r).attrs[name])

    def apply(self, st, m, x, weight=None, bias='own', geo=None):
        g = lambda n: self.I.norm(st, self.I.obj(st, m).attrs[n])
        w = weight if weight is not None else g('weight')
        b = g('bias') if isinstance(bias, str) else bias
        return self.calc(x, w, b, geo or self.geo[m])

    @staticmethod
    def calc(x, w, b, geo):
        b = b if isinstance(b, Arr) else None
        for a in (x, w):
            if not isinstance(a, Arr):
                raise Unk('convolution of %s' % str(a)[:300])
        n = x.rank - 2
        tr, groups = geo
        if tr:
            return deconv_nchw(x, w, b, [1] * n, [0] * n, [1] * n, [0] * n, groups)
        return conv_nchw(x, w, b, [1] * n, [0] * n, [1] * n, groups)

    def norm(self, st, m, x):
        g = lambda n: self.I.norm(st, self.I.obj(st, m).attrs[n])
        if not isinstance(x, Arr):
            raise Unk('batch-norm of %s' % str(x)[:300])
        sh = [1, -1] + [1] * (x.rank - 2)
        inv = zipmap(BIN['+'], g('running_var'), Arr((), [EPS])).el
        inv = g('running_var').but(el=[e.pow(-HALF) for e in inv])
        r = lambda a: reshape(a, sh)
        y = zipmap(BIN['*'], zipmap(BIN['-'], x, r(g('running_mean'))), r(inv))
        return zipmap(BIN['+'], zipmap(BIN['*'], y, r(g('weight'))), r(g('bias')))

    def hook(self, I, st, fn, args, kwargs, node, mod):
        fn = I.norm(st, fn)
        name = fn.args[0] if isinstance(fn, T) and fn.op == 'ext' else None
        if name in ('copy.deepcopy', 'copy.copy'):
            r = I.norm(st, args[0])
            if isinstance(r, Ref) and r in self.geo:
                n = I.new(st, I.obj(st, r))
                self.geo[n] = self.geo[r]
                return n
        if name and name.endswith('fuse_conv_bn_eval'):
            a = [I.norm(st, x) for x in args] + [I.norm(st, kwargs[k]) for k in ('transpose',) if k in kwargs]
            tr = len(a) > 2 and a[2] == K(True)
            n = I.new(st, I.obj(st, a[0]))
            self.geo[n] = self.geo[a[0]]
            w, b = self.at(n, 'weight'), self.at(n, 'bias')
            m = lambda k: I.norm(st, I.obj(st, a[1]).attrs[k])
            f = zipmap(BIN['*'], m('weight'), m('running_var').but(el=[(e + EPS).pow(-HALF) for e in m('running_var').el]))
            sh = ([1, -1] if tr else [-1, 1]) + [1] * (w.rank - 2)
            b = b if isinstance(b, Arr) else m('running_mean').but(el=[Poly.const(0)] * len(f.el))
            o = I.obj(st, n)
            at = dict(o.attrs)
            at['weight'] = zipmap(BIN['*'], w, reshape(f, sh))
            at['bias'] = zipmap(BIN['+'], zipmap(BIN['*'], zipmap(BIN['-'], b, m('running_mean')), f), m('bias'))
            I.put(st, n, o.but(attrs=at))
            return n
        if name in ('torch.nn.functional.conv_transpose2d', 'torch.nn.functional.conv2d'):
            a = [I.norm(st, x) for x in args]
            return self.calc(a[0], a[1], a[2] if len(a) > 2 else I.norm(st, kwargs.get('bias', NONE)), (name.endswith('transpose2d'), self.cur[1]))
        if name == 'torch.nn.functional.relu':
            a = I.norm(st, args[0])
            return a.but(el=[fun('RELU', e) for e in a.el])
        if name and name.endswith('._conv_forward') or isinstance(fn, T) and fn.op == 'attr' and fn.args[1] == '_conv_forward':
            a = [I.norm(st, x) for x in args]
            a = a[1:] if isinstance(a[0], Ref) else a
            return self.calc(a[0], a[1], a[2], self.cur)
        if isinstance(fn, Ref) and I.obj(st, fn).kind == 'inst' and 'running_var' in I.obj(st, fn).attrs:
            return self.norm(st, fn, I.norm(st, args[0]))
        if isinstance(fn, T) and fn == self.FQ:
            return I.norm(st, args[0])
        if isinstance(fn, Bi) and fn.name == 'type' and len(args) == 1 and I.norm(st, args[0]) in getattr(self, 'types', {}):
            return T('ext', (self.types[I.norm(st, args[0])],))
        return NotImplemented

    FQ = T('sym', ('fake_quant',))


def helpers(ctx):
    """(what, construct, expected, got) for each folding helper"""
    out = []

    def case(what, qual, go):
        S = TorchSide(ctx)
        fn = S.I.lookup(QPKG + qual)
        if fn is None:
            raise AnalysisBroken('%s not found' % qual)
        where = '%s:%d' % (ctx.repo.rel(fn.mod if isinstance(fn, Fn) else qual), fn.node.lineno) if hasattr(ctx.repo, 'rel') else qual
        try:
            want, got = go(S, fn)
        except (Dead, NoShape) as e:
            out.append((what, qual, None, 'stops with an error: %s' % (getattr(e, 'exc', e),)))
            return
        except (Unk, Undecided) as e:
            ctx.skip('%s: %s' % (qual, what), str(e))
            return
        if not isinstance(got, Arr):
            ctx.skip('%s: %s' % (qual, what), 'the result is not an array: %s' % str(got)[:150])
            return
        out.append((what, qual, want, got))

    def call(S, fn, args, **kw):
        r = S.I.call(S.st, fn, args, kw, None, '<root>')
        return S.I.norm(S.st, r)

    def x_(S, i, k):
        return S.par('x', (1, i) + (2,) * len(k))
    shapes = [('2-d', 3, 2, (2, 1), 1), ('square', 2, 2, (1, 2), 1), ('one channel', 3, 1, (1, 1), 1), ('1-d', 3, 2, (2,), 1), ('3-d', 2, 3, (1, 1, 2), 1)]
    for nm, o, i, k, g in shapes + [('grouped', 4, 4, (1, 1), 2), ('depthwise', 3, 3, (1, 2), 3)]:
        for bias in (True, False):
            tag = '%s%s' % (nm, '' if bias else ', no bias')
            for tr in (False, True):
                if g > 1 and tr:
                    continue

                def go(S, fn, tr=tr, o=o, i=i, k=k, g=g, bias=bias):
                    c, b = S.conv(o, i, k, bias, tr, g), S.bn(o)
                    x = x_(S, i, k)
                    want = S.norm(S.st, b, S.apply(S.st, c, x))
                    r = S.I.iter_known(S.st, call(S, fn, [S.at(c, 'weight'), S.at(c, 'bias')] + [S.at(b, n) for n in ('running_mean', 'running_var', 'eps', 'weight', 'bias')], transpose=K(tr)))[0]
                    return want, S.apply(S.st, c, x, S.I.norm(S.st, r[0]), S.I.norm(S.st, r[1]))
                case('%s, transpose=%s' % (tag, tr), 'utils.fuse_conv_bn_weights', go)
            if g > 1:
                continue

            def go(S, fn, o=o, i=i, k=k, bias=bias):
                c, b = S.conv(o, i, k, bias), S.bn(i)
                x = x_(S, i, k)
                want = S.apply(S.st, c, S.norm(S.st, b, x))
                r = S.I.iter_known(S.st, call(S, fn, [S.at(c, 'weight'), S.at(c, 'bias')] + [S.at(b, n) for n in ('running_mean', 'running_var', 'eps', 'weight', 'bias')]))[0]
                return want, S.apply(S.st, c, x, S.I.norm(S.st, r[0]), S.I.norm(S.st, r[1]))
            case(tag, 'utils.fuse_bn_conv_weights', go)
            if len(k) != 2:
                continue

            def go(S, fn, o=o, i=i, k=k, bias=bias):
                c, b = S.conv(o, i, k, bias), S.bn(i)
                x = x_(S, i, k)
                want = S.apply(S.st, c, S.norm(S.st, b, x))
                return want, S.apply(S.st, call(S, fn, [K(False), b, c]), x)
            case(tag, 'fused_modules.fuse_bn_conv', go)

            def go(S, fn, o=o, i=i, k=k, bias=bias):
                c, b = S.conv(o, i, k, bias, True), S.bn(o)
                x = x_(S, i, k)
                want = S.norm(S.st, b, S.apply(S.st, c, x))
                return want, S.apply(S.st, call(S, fn, [K(False), c, b]), x)
            case(tag, 'fused_modules.fuse_convtranspose_bn', go)

            def go(S, fn, o=o, i=i, k=k, bias=bias):
                cls = S.I.lookup(QPKG + 'qat_modules.ConvTransposeBn2d')
                b = S.bn(o)
                c = S.conv(o, i, k, bias, True, cls=cls, bn=b, weight_fake_quant=S.FQ)
                S.cur = (True, 1)
                S.I.put(S.st, c, S.I.obj(S.st, c).but(attrs=dict(S.I.obj(S.st, c).attrs, _output_padding=T('sym', ('op',)))))
                x = x_(S, i, k)
                want = S.norm(S.st, b, S.apply(S.st, c, x))
                return want, call(S, fn, [c, x])
            case(tag, 'qat_modules._ConvTransposeBnNd._forward', go)

            def go(S, fn, o=o, i=i, k=k, bias=bias):
                cls = S.I.lookup(QPKG + 'qat_modules.ConvTransposeBn2d')
                b = S.bn(o)
                c = S.conv(o, i, k, bias, True, cls=cls, bn=b, weight_fake_quant=S.FQ, qconfig=T('sym', ('qc',)), activation_post_process=T('sym', ('app',)))
                x = x_(S, i, k)
                want = S.norm(S.st, b, S.apply(S.st, c, x))
                r = call(S, S.I.getattr(S.st, cls, 'transform'), [c])
                return want, S.apply(S.st, r, x, geo=(True, 1))
            case(tag, 'qat_modules.ConvTransposeBn2d.transform', go)
    for n, k in (('1', (2,)), ('2', (1, 2)), ('3', (1, 1, 2))):
        for relu in (False, True):
            for bias in (False, True):
                def go(S, fn, n=n, k=k, relu=relu, bias=bias):
                    b = S.bn(3)
                    c = S.conv(3, 2, k, bias, bn=b, weight_fake_quant=S.FQ)
                    S.cur = (False, 1)
                    S.types = {c: 'torch.nn.intrinsic.qat.ConvBn%s%sd' % ('ReLU' if relu else '', n)}
                    x = x_(S, 2, k)
                    want = S.norm(S.st, b, S.apply(S.st, c, x))
                    want = want.but(el=[fun('RELU', e) for e in want.el]) if relu else want
                    q = S.mod('model')
                    S.named = (q, c)
                    qt = S.I.new_inst(S.st, S.I.lookup(QPKG + 'quantizer.QATQuantizer'), {'backend': K('qnnpack')})
                    S.I.hooks.insert(0, named(S, q, c))
                    call(S, fn, [qt, q])
                    f = S.I.getattr(S.st, c, 'forward')
                    return want, call(S, f, [x])
                case('ConvBn%s%sd%s' % ('ReLU' if relu else '', n, '' if bias else ', no bias'), 'quantizer.QATQuantizer.prepare_onnx_export', go)
    return out


def named(S, q, c):
    def hook(I, st, fn, args, kwargs, node, mod):
        fn = I.norm(st, fn)
        if isinstance(fn, T) and fn.op == 'attr' and fn.args[1] in ('named_modules', 'modules'):
            return I.new_list(st, [Tup([K('conv'), c])] if fn.args[1] == 'named_modules' else [c])
        return NotImplemented
    return hook


def outs(s):
    return [x.v for x in s.items(s.get(s.cg, 'outputs'))]


def run(ctx):
    B = ValueBench(ctx)
    ctx.rule('fold', 'after the pass every output element is the same expression of inputs, weights and statistics as before', 30)
    ctx.rule('effective', 'the pass folds the batch-norm in the plain cases (so they exercise it)', 1)
    items = [(B, p, w, b, 40) for p, w, b in CASES]
    res = parallel(items, work)
    for (B_, p, w, b, l), r in zip(items, res):
        inst = '%s: %s' % (p, w)
        ctx.analysed |= set(r['analysed'])
        if r['dead']:
            ctx.note('%s stops with an error: %s' % (inst, r['dead'][0]))
        if len(r['und']) == r['runs']:
            ctx.skip(inst, r['und'][0])
            continue
        ctx.ob('fold', inst)
        if r['edits']:
            ctx.ob('effective', inst)
        for bad, facts in r['bad'][:3]:
            ctx.finding('fold', inst, B.line(p), '%s %s' % (bad, facts or ''))
    ctx.rule('helper', 'folding a batch-norm into the parameters of a module gives a module computing the same function', 20)
    for what, qual, want, got in helpers(ctx):
        inst = '%s: %s' % (qual, what)
        if want is None:
            ctx.finding('helper', inst, qual, got)
            continue
        ctx.ob('helper', inst)
        if want.shape != got.shape:
            ctx.finding('helper', inst, qual, 'the folded module computes shape %s instead of %s' % (got.shape, want.shape))
        elif want.el != got.el:
            k = [j for j, (p, q) in enumerate(zip(want.el, got.el)) if p != q][0]
            ctx.finding('helper', inst, qual, 'element %d of the output is %s instead of %s' % (k, str(got.el[k])[:200], str(want.el[k])[:200]))
