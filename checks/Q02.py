"""Q02: quantisation-aware and converted layers carry all hyper-parameters."""
import os
from fractions import Fraction
from sa.framework import parallel
from sa.interp import State, K, T, Tup, Ref, Bi, NONE, Dead, Cls, BM, Fn
from sa.arr import Arr, Poly, Unk, NoShape, fun, HALF, indices
from sa.modules import Modules, Par, fresh
from sa.repo import AnalysisBroken

TITLE = 'quantisation-aware and converted layers carry all hyper-parameters'
EXPLANATION = ('Abstract interpretation of the conversions between float layers and their quantisation-aware, quantisable and back-converted counterparts (torch.nn modelled in sa/models; parameters are '
               'arrays of symbols). After from_float / to_float / transform each hyper-parameter and each parameter of the result is that of the source; the forward function of the quantisable layers, '
               'with observers as the identity, is compared element by element with the definition of the float layer.')
Q = 'tinynn.graph.quantization.'
EXTRA = {'Sigmoid': 1, 'Tanh': 1, 'ReLU': 1, 'ReLU6': 1, 'Hardsigmoid': 1, 'SiLU': 1, 'GLU': 1, 'RMSNorm': 1, 'ModuleList': 1, 'Sequential': 1, 'Identity': 1, 'Module': 1}
CONV = ('in_channels', 'out_channels', 'kernel_size', 'stride', 'padding', 'dilation', 'output_padding', 'groups', 'padding_mode')


class Bench(Modules):
    def __init__(self, ctx):
        super().__init__(ctx)
        I = self.I
        I.max_rec = 12
        I.repo.add_model('verif_nnq', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'models', 'nnq.py'))
        g = lambda n: self.need('verif_nnq.' + n)
        for k in EXTRA:
            I.known_ext['torch.nn.' + k] = g(k)
        I.known_ext['torch.nn.Linear'] = g('QLinear')
        for p in ('torch.nn.quantized.', 'torch.ao.nn.quantized.'):
            I.known_ext[p + 'FloatFunctional'] = g('FloatFunctional')
        for p in ('torch.quantization.', 'torch.ao.quantization.'):
            I.known_ext[p + 'QuantStub'] = g('QuantStub')
            I.known_ext[p + 'DeQuantStub'] = g('DeQuantStub')
        I.known_ext['torch.nn.intrinsic._FusedModule'] = g('_FusedModule')
        I.known_ext['torch.nn.modules.conv._ConvTransposeNd'] = self.need('verif_nn._ConvTransposeNd')
        I.known_ext['torch.ao.nn.quantizable.modules.rnn._LSTMLayer'] = g('LSTMLayer')
        I.hooks.insert(0, self.qhook)

    def need(self, q):
        v = self.I.lookup(q)
        if v is None:
            raise AnalysisBroken('%s not found' % q)
        return v

    def qhook(self, I, st, fn, args, kwargs, node, mod):
        if isinstance(fn, T) and fn.op == 'ext':
            n = fn.args[0]
            if n in ('torch.ao.quantization.prepare_qat', 'torch.ao.quantization.prepare', 'torch.quantization.prepare', 'torch.quantization.prepare_qat') and args:
                return args[0]
            if n.startswith('torch.nn.init.'):
                return self.calc(I, st, n)
            if n.startswith('warnings.'):
                return NONE
            if n == 'torch.jit._unwrap_optional':
                return args[0]
            if n == 'torch.nn.modules.utils._pair' and len(args) == 1:
                a = I.norm(st, args[0])
                return a if not isinstance(a, K) else Tup([a, a])
        return NotImplemented

    @staticmethod
    def calc(I, st, n):
        return Tup([K(4), K(4)]) if n.endswith('fan_in_and_fan_out') else NONE

    def qcfg(self, st):
        I = self.I
        return I.new_inst(st, self.need('verif_nnq.Module'), {'weight': T('sym', ('wfq',)), 'activation': T('sym', ('afq',)), '__bool__': K(True)})

    def params(self, m):
        return m

    def call(self, st, obj, meth, *a, **kw):
        I = self.I
        f = I.getattr_(st, obj, meth) if hasattr(I, 'getattr_') else None
        return I.norm(st, I.call(st, f, list(a), kw, None, None))


def build(B, st, kind, args, kw):
    return B.make(st, kind, *args, **kw)


def attr(B, st, m, name):
    I = B.I
    o = I.obj(st, m)
    if o is None or o.attrs is None or name not in o.attrs:
        return None
    return I.norm(st, o.attrs[name])


def plain(B, st, v):
    """comparable form of an attribute"""
    I = B.I
    v = I.norm(st, v) if v is not None else None
    if isinstance(v, Arr):
        return ('array', v.shape, tuple(v.el))
    if isinstance(v, K):
        return v.v
    if isinstance(v, Tup):
        return tuple(plain(B, st, x) for x in v.items)
    if v is None:
        return 'missing'
    k = I.iter_known(st, v)
    if k is not None and not k[1]:
        return tuple(plain(B, st, x) for x in k[0])
    return str(v)


def show(x):
    s = str(x if not (isinstance(x, tuple) and x and x[0] == 'array') else 'array%s of %s..' % (list(x[1]), ', '.join(str(e) for e in x[2][:2])))
    return s[:140]


class Bad(Exception):
    pass


def same(B, st, bad, what, got, want):
    g, w = plain(B, st, got), plain(B, st, want)
    if g != w and not (g == 'missing' and w is None):
        bad.append('%s is %s, the source has %s' % (what, show(g), show(w)))


def getm(B, st, obj, name):
    I = B.I
    if isinstance(obj, Cls):
        f, _ = I.class_attr(obj, name)
        if f is None:
            raise AnalysisBroken('%s.%s not found' % (obj.qual, name))
        return f
    o = I.obj(st, obj)
    f, _ = I.class_attr(o.cls, name)
    if f is None:
        raise AnalysisBroken('%s.%s not found' % (o.cls.qual, name))
    return f


def clsmeth(B, st, cls, name, args, kw=None):
    f = getm(B, st, cls, name)
    I = B.I
    while not isinstance(f, Fn) and hasattr(f, 'fn'):
        f = f.fn
    return I.norm(st, I.call(st, BM(f, cls), args, kw or {}, None, None))


def meth(B, st, obj, name, args=(), kw=None):
    return B.I.norm(st, B.I.call(st, BM(getm(B, st, obj, name), obj), list(args), kw or {}, None, None))


# ---- convolutions -------------------------------------------------------------------------------------
def conv_cases():
    r = []
    base1 = dict(stride=2, padding=1, dilation=3)
    for bias in (True, False):
        for kw in ({}, {'stride': 2}, {'padding': 1}, {'dilation': 3}, {'groups': 2}, {'stride': 2, 'padding': 3, 'dilation': 4, 'groups': 2}, {'padding': 'same'}, {'padding_mode': 'reflect', 'padding': 1},
                   {'padding_mode': 'circular', 'padding': 2}):
            r.append(('Conv1d', (4, 6, 5), dict(kw, bias=bias)))
        for kind, n in (('ConvTranspose1d', 1), ('ConvTranspose2d', 2)):
            two = lambda a, b: a if n == 1 else (a, b)
            for kw in ({}, {'stride': 2}, {'padding': 1}, {'dilation': 3}, {'groups': 2}, {'stride': 3, 'output_padding': 1}, {'stride': 3, 'output_padding': 2, 'padding': 4, 'dilation': 5, 'groups': 2},
                       {'stride': two(3, 4), 'output_padding': two(1, 2), 'padding': two(5, 6), 'dilation': two(7, 8)}):
                if n == 1 and any(isinstance(v, tuple) for v in kw.values()):
                    continue
                r.append((kind, (4, 6, 3 if n == 1 else (3, 5)), dict(kw, bias=bias)))
    return r


def conv_case(item):
    B, (kind, args, kw) = item
    I = B.I
    out = []
    name = '%s%s' % (kind, desc(args, kw))
    st = State()
    cls = B.need(Q + 'qat_modules.' + kind)

    def go(bad):
        m = B.make(st, kind, *args, **kw)
        setat(B, st, m, 'qconfig', B.qcfg(st))
        q = clsmeth(B, st, cls, 'from_float', [m])
        for a in CONV + ('weight', 'bias'):
            same(B, st, bad, 'from_float: ' + a, attr(B, st, q, a), attr(B, st, m, a))
        if I.class_attr(cls, 'to_float')[0] is not None:
            f = meth(B, st, q, 'to_float')
            fc = I.obj(st, f).cls
            if fc is None or not fc.qual.endswith('verif_nn.' + kind):
                bad.append('to_float gives a %s' % (fc.qual if fc else f))
            for a in CONV + ('weight', 'bias'):
                same(B, st, bad, 'to_float: ' + a, attr(B, st, f, a), attr(B, st, m, a))
    return guarded(B, 'layer', cls, name, go)


def desc(args, kw):
    return '(%s)' % ', '.join([repr(a) for a in args] + ['%s=%r' % x for x in kw.items()])


def setat(B, st, m, k, v):
    o = B.I.obj(st, m)
    at = dict(o.attrs)
    at[k] = v
    B.I.put(st, m, o.but(attrs=at))


def guarded(B, rule, cls, name, go):
    bad, und = [], []
    try:
        go(bad)
    except Dead as d:
        bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape) as u:
        und.append(str(u)[:200])
    node = getattr(cls, 'node', None)
    where = '%s:%d %s' % (B.I.repo.module(cls.mod).rel(), node.lineno, node.name)
    return {'rule': rule, 'where': where, 'name': name, 'bad': bad, 'und': und, 'analysed': sorted(map(str, B.I.analysed))}


# ---- convolutions with batch-norm ------------------------------------------------------------------------
def bn_cases():
    r = []
    for bias in (True, False):
        for kw in ({}, {'stride': (2, 3)}, {'padding': (1, 2)}, {'groups': 2}, {'stride': (3, 4), 'output_padding': (1, 2), 'padding': (5, 6), 'dilation': (7, 8)}):
            for bn in ({}, {'eps': 0.5, 'momentum': 0.25}):
                r.append(((4, 6, (3, 5)), dict(kw, bias=bias), bn))
    return r


def bn_case(item):
    B, (args, kw, bkw) = item
    I = B.I
    st = State()
    cls = B.need(Q + 'qat_modules.ConvTransposeBn2d')
    name = 'ConvTranspose2d%s with BatchNorm2d%s' % (desc(args, kw), desc((6,), bkw))

    def go(bad):
        conv = B.make(st, 'ConvTranspose2d', *args, **kw)
        bn = B.make(st, 'BatchNorm2d', 6, **bkw)
        fused = I.norm(st, I.call(st, B.need(Q + 'fused_modules.ConvTransposeBn2d'), [conv, bn], {}, None, None))
        setat(B, st, fused, 'qconfig', B.qcfg(st))
        q = clsmeth(B, st, cls, 'from_float', [fused])
        for a in CONV + ('weight', 'bias'):
            same(B, st, bad, 'from_float: ' + a, attr(B, st, q, a), attr(B, st, conv, a))
        qb = attr(B, st, q, 'bn')
        for a in ('num_features', 'eps', 'momentum', 'weight', 'bias', 'running_mean', 'running_var', 'num_batches_tracked'):
            same(B, st, bad, 'from_float: bn.' + a, attr(B, st, qb, a), attr(B, st, bn, a))
        w, cb = attr(B, st, conv, 'weight'), attr(B, st, conv, 'bias')
        g, b, mu, var = (attr(B, st, bn, a) for a in ('weight', 'bias', 'running_mean', 'running_var'))
        eps = attr(B, st, bn, 'eps').v
        per = 6 // kw.get('groups', 1)
        inv = [(var.el[c] + Poly.const(eps)).pow(-HALF) * g.el[c] for c in range(6)]
        we = []
        for i in indices(w.shape):
            grp = i[0] // (4 // kw.get('groups', 1))
            we.append(w.at(i) * inv[grp * per + i[1]])
        be = [b.el[c] + ((cb.el[c] if isinstance(cb, Arr) else Poly.const(0)) - mu.el[c]) * inv[c] for c in range(6)]
        for how in ('to_float', 'transform') if kw.get('groups', 1) == 1 else ():
            setat(B, st, q, 'activation_post_process', T('sym', ('app',)))
            f = meth(B, st, q, 'to_float') if how == 'to_float' else clsmeth(B, st, cls, 'transform', [q])
            for a in CONV:
                same(B, st, bad, how + ': ' + a, attr(B, st, f, a), attr(B, st, conv, a))
            fw, fb = attr(B, st, f, 'weight'), attr(B, st, f, 'bias')
            if not (isinstance(fw, Arr) and fw.shape == w.shape and list(fw.el) == we):
                bad.append('%s: weight is not the weight scaled by the batch-norm' % how)
            if not (isinstance(fb, Arr) and fb.shape == (6,) and list(fb.el) == be):
                bad.append('%s: bias is not the bias mapped by the batch-norm' % how)
    return guarded(B, 'layer', cls, name, go)


# ---- quantisable layers: the function computed -------------------------------------------------------------
sub = lambda a, b: a + b * Poly.const(-1)


def relu(e):
    return fun('relu', e)


def q_cases():
    r = []
    for n, sh in ((1, (2, 3)), (3, (2, 3)), (3, (2, 3, 2)), (3, (1, 3, 2, 2)), (1, (1, 3, 2, 2))):
        r.append(('QPReLU', 'PReLU', (n,), {}, sh))
    r += [('QSiLU', 'SiLU', (), {}, (2, 3)), ('QHardsigmoid', 'Hardsigmoid', (), {}, (2, 3))]
    for d, sh in ((-1, (2, 4)), (1, (1, 4, 3)), (0, (2, 3)), (-2, (4, 3)), (2, (1, 2, 2, 3))):
        r.append(('QGLU', 'GLU', (d,), {}, sh))
    for ns, sh in (((3,), (2, 3)), ((2, 3), (2, 3)), ((2, 3), (2, 2, 3)), (3, (1, 2, 3))):
        for e in (1e-5, 0.5):
            r.append(('QLayerNorm', 'LayerNorm', (ns,), {'eps': e}, sh))
            r.append(('QRMSNorm', 'RMSNorm', (ns,), {'eps': e}, sh))
    return r


def definition(B, st, kind, m, x):
    at = lambda n: attr(B, st, m, n)
    if kind == 'PReLU':
        w = at('weight')
        return x.shape, [relu(x.at(i)) - w.el[0 if len(w.el) == 1 else i[1]] * relu(-x.at(i)) for i in indices(x.shape)]
    if kind == 'SiLU':
        return x.shape, [e * fun('sigmoid', e) for e in x.el]
    if kind == 'Hardsigmoid':
        return x.shape, [fun('relu6', e + Poly.const(3)) * Poly.const(6).pow(-1) for e in x.el]
    if kind == 'GLU':
        d = at('dim').v % len(x.shape)
        h = x.shape[d] // 2
        sh = x.shape[:d] + (h,) + x.shape[d + 1:]
        return sh, [x.at(i) * fun('sigmoid', x.at(i[:d] + (i[d] + h,) + i[d + 1:])) for i in indices(sh)]
    ns = tuple(v.v for v in B.I.iter_known(st, at('normalized_shape'))[0])
    k = len(x.shape) - len(ns)
    n = 1
    for d in ns:
        n *= d
    inv = Poly.const(n).pow(-1)
    out = []
    w, b, eps = at('weight'), at('bias'), at('eps').v
    for i in indices(x.shape):
        row = [x.at(i[:k] + j) for j in indices(ns)]
        s = sum(row, Poly.const(0)) * inv
        if kind == 'RMSNorm':
            v = sum([e * e for e in row], Poly.const(0)) * inv
            out.append(x.at(i) * (v + Poly.const(eps)).pow(-HALF) * w.at(i[k:]))
        else:
            v = sum([(e - s) * (e - s) for e in row], Poly.const(0)) * inv
            out.append((x.at(i) - s) * (v + Poly.const(eps)).pow(-HALF) * w.at(i[k:]) + b.at(i[k:]))
    return x.shape, out


def near(p):
    """p with the rounding of floating point constants (1 / 6) undone"""
    r = {}
    for m, c in p.t.items():
        f = c.limit_denominator(10000)
        r[m] = f if abs(f - c) <= abs(c) * Fraction(1, 10 ** 12) else c
    return Poly(r)


def compare(bad, what, got, shape, els):
    if not isinstance(got, Arr):
        raise Unk('%s: %s' % (what, str(got)[:120]))
    if tuple(got.shape) != tuple(shape):
        bad.append('%s has shape %s, expected %s' % (what, list(got.shape), list(shape)))
        return
    for i, (g, w) in enumerate(zip(got.el, els)):
        if g != w and near(g) != near(w):
            bad.append('%s: element %d is %s, expected %s' % (what, i, str(g)[:120], str(w)[:120]))
            return


def q_case(item):
    B, (qk, kind, args, kw, sh) = item
    I = B.I
    st = State()
    cls = swapped(B, kind)
    if not isinstance(cls, Cls):
        cls = B.need(Q + 'modules.' + qk)

    def go(bad):
        m = B.make(st, kind, *args, **kw)
        q = I.norm(st, I.call(st, cls, [m], {}, None, None))
        x = fresh('x', sh)
        shape, els = definition(B, st, kind, m, x)
        got = meth(B, st, q, 'forward', [x])
        compare(bad, 'the result', got, shape, els)
    return guarded(B, 'function', cls, '%s of %s%s on %s' % (qk, kind, desc(args, kw), list(sh)), go)


# ---- GRU ------------------------------------------------------------------------------------------------------
def gru_cases():
    r = []
    for kw in ({}, {'bias': False}, {'num_layers': 2}, {'bidirectional': True}, {'bidirectional': True, 'num_layers': 2, 'bias': False}, {'batch_first': True}, {'batch_first': True, 'bidirectional': True}):
        for hx in (False, True):
            for how in ('own', 'gru'):
                r.append((kw, hx, how))
    return r


def gru_ref(B, st, m, x, h0, kw):
    """definition of torch.nn.GRU on [T][B][I] lists"""
    H = attr(B, st, m, 'hidden_size').v
    dirs = 2 if kw.get('bidirectional') else 1
    sig = lambda e: fun('sigmoid', e)
    hn = []
    for l in range(kw.get('num_layers', 1)):
        outs = []
        for d in range(dirs):
            s = '_reverse' if d else ''
            wi, wh, bi, bh = (attr(B, st, m, n % l + s) for n in ('weight_ih_l%d', 'weight_hh_l%d', 'bias_ih_l%d', 'bias_hh_l%d'))
            lin = lambda w, b, v: [sum([w.at((r, c)) * v[c] for c in range(len(v))], Poly.const(0)) + (b.el[r] if isinstance(b, Arr) else Poly.const(0)) for r in range(3 * H)]
            res = [None] * len(x)
            h = h0[l * dirs + d]
            for t in (range(len(x)) if not d else reversed(range(len(x)))):
                nh = []
                for bt in range(len(x[t])):
                    gi, gh = lin(wi, bi, x[t][bt]), lin(wh, bh, h[bt])
                    o = []
                    for k in range(H):
                        r, z = sig(gi[k] + gh[k]), sig(gi[H + k] + gh[H + k])
                        n = fun('tanh', gi[2 * H + k] + r * gh[2 * H + k])
                        o.append((Poly.const(1) - z) * n + z * h[bt][k])
                    nh.append(o)
                h = nh
                res[t] = h
            hn.append(h)
            outs.append(res)
        x = [[sum((o[t][b] for o in outs), []) for b in range(len(x[t]))] for t in range(len(x))]
    return x, hn


def gru_case(item):
    B, (kw, hx, how) = item
    I = B.I
    st = State()
    cls = B.need(Q + 'quantizable.gru.GRU')
    TT, BB, II, H = 2, 2, 2, 1

    def go(bad):
        m = B.make(st, 'GRU', II, H, **kw)
        setat(B, st, m, 'qconfig', B.qcfg(st))
        if how == 'own':
            q = clsmeth(B, st, cls, 'from_float', [m])
        else:
            f = B.need(Q + 'quantizable.gru.from_float')
            while not isinstance(f, Fn) and hasattr(f, 'fn'):
                f = f.fn
            q = I.norm(st, I.call(st, BM(f, cls), [m], {}, None, None))
        for a in ('input_size', 'hidden_size', 'num_layers', 'bias', 'batch_first', 'dropout', 'bidirectional'):
            same(B, st, bad, 'from_float: ' + a, attr(B, st, q, a), attr(B, st, m, a))
        bf = kw.get('batch_first', False)
        x = fresh('x', (BB, TT, II) if bf else (TT, BB, II))
        xs = [[[x.at((b, t, i) if bf else (t, b, i)) for i in range(II)] for b in range(BB)] for t in range(TT)]
        nl = kw.get('num_layers', 1) * (2 if kw.get('bidirectional') else 1)
        h = fresh('h', (nl, BB, H))
        hs = [[[h.at((l, b, k)) if hx else Poly.const(0) for k in range(H)] for b in range(BB)] for l in range(nl)]
        y, hn = gru_ref(B, st, m, xs, hs, kw)
        r = meth(B, st, q, 'forward', [x] + ([h] if hx else []))
        k = I.iter_known(st, r)
        if k is None or len(k[0]) != 2:
            raise Unk('result %s' % str(r)[:80])
        got, gh = (I.norm(st, v) for v in k[0])
        D = len(y[0][0])
        flat = [e for b in range(BB) for t in range(TT) for e in y[t][b]] if bf else [e for t in range(TT) for b in range(BB) for e in y[t][b]]
        compare(bad, 'the output', got, (BB, TT, D) if bf else (TT, BB, D), flat)
        compare(bad, 'the final state', gh, (nl, BB, H), [e for l in hn for b in l for e in b])
    return guarded(B, 'function', cls, 'GRU%s %s an initial state, prepared for %s' % (desc((II, H), kw), 'with' if hx else 'without', 'post-training' if how == 'own' else 'aware training'), go)


# ---- LSTM --------------------------------------------------------------------------------------------------------
def lstm_case(item):
    B, kw = item
    I = B.I
    st = State()
    f = B.need(Q + 'quantizable.lstm.from_float')
    while not isinstance(f, Fn) and hasattr(f, 'fn'):
        f = f.fn

    class Where:
        node, mod = f.node, f.mod
    cls = B.need('verif_nnq.QLSTM')

    def go(bad):
        m = B.make(st, 'LSTM', 3, 2, **kw)
        setat(B, st, m, 'qconfig', B.qcfg(st))
        q = I.norm(st, I.call(st, BM(f, cls), [m], {}, None, None))
        for a in ('input_size', 'hidden_size', 'num_layers', 'bias', 'batch_first', 'dropout', 'bidirectional'):
            same(B, st, bad, 'from_float: ' + a, attr(B, st, q, a), attr(B, st, m, a))
        ls = I.norm(st, attr(B, st, attr(B, st, q, 'layers'), '_items'))
        ls = I.iter_known(st, ls)[0]
        if len(ls) != kw.get('num_layers', 1):
            bad.append('%d layers' % len(ls))
        for j, l in enumerate(ls):
            same(B, st, bad, 'layer %d: source layer' % j, attr(B, st, I.norm(st, l), 'idx'), K(j))
            same(B, st, bad, 'layer %d: batch_first' % j, attr(B, st, I.norm(st, l), 'batch_first'), K(False))
            if attr(B, st, I.norm(st, l), 'other') != m:
                bad.append('layer %d is not made from the source' % j)
    return guarded(B, 'layer', Where, 'LSTM%s prepared for aware training' % desc((3, 2), kw), go)


LSTM = [{}, {'bias': False}, {'num_layers': 2}, {'bidirectional': True}, {'batch_first': True, 'num_layers': 3, 'dropout': 0.5}]


def entries(B, name):
    I = B.I
    v = I.lookup(Q + 'quantizer.' + name)
    o = I.obj(State(), v) if isinstance(v, Ref) else None
    if o is None or o.kind != 'dict':
        raise AnalysisBroken('%squantizer.%s not found' % (Q, name))
    return list(o.items) + list(o.rest)


def tables(ctx, B):
    I = B.I
    st = State()
    m = I.repo.module(Q + 'quantizer')
    for tab in ('FUSE_QAT_MODULES', 'FUSE_QAT_MODULES_CUSTOM', 'FUSE_PTQ_MODULES_CUSTOM'):
        for k, v in entries(B, tab):
            if isinstance(v, Cls):
                f, _ = I.class_attr(v, '_FLOAT_MODULE')
                ctx.expect(f == k, 'table', '%s[%s]' % (tab, k), m.rel(), 'the layer is swapped for %s, which is the counterpart of %s' % (v, f))
    for k, v in entries(B, 'FUSE_QAT_MODULES_CVT'):
        if isinstance(k, Cls) and isinstance(v, T):
            ctx.expect(v.args[0].endswith('.' + k.node.name), 'table', 'FUSE_QAT_MODULES_CVT[%s]' % k, m.rel(), 'the layer is converted to %s' % v)


def swapped(B, kind):
    for k, v in entries(B, 'Q_MODULES_MAPPING'):
        if k == B.I.known_ext['torch.nn.' + kind]:
            return v
    return None


def dispatch(item):
    return item[0](item[1])


def run(ctx):
    ctx.rule('layer', 'every hyper-parameter and parameter of a swapped layer is that of its source', 20)
    ctx.rule('function', 'a quantisable layer computes the function of the float layer', 10)
    ctx.rule('table', 'the swap tables name the counterpart of each layer', 1)
    B = Bench(ctx)
    tables(ctx, B)
    items = [(conv_case, (B, c)) for c in conv_cases()] + [(bn_case, (B, c)) for c in bn_cases()] + [(q_case, (B, c)) for c in q_cases()] + \
            [(gru_case, (B, c)) for c in gru_cases()] + [(lstm_case, (B, c)) for c in LSTM]
    for r in parallel(items, dispatch):
        ctx.analysed |= set(r['analysed'])
        ctx.ob(r['rule'], r['name'])
        if r['bad']:
            ctx.finding(r['rule'], r['name'], r['where'], r['bad'][0])
        elif r['und']:
            ctx.skip(r['name'], r['und'][0])
