"""Meaning of the target operators on abstract arrays (sa/arr.py), used to compare the function a graph computes before and
after a rewrite, element by element, for symbolic data.  The rules follow the target format's operator definitions."""
from fractions import Fraction
from .interp import K, T, Tup, Ref, NONE
from .arr import (Arr, Poly, NoShape, Unk, fresh, full, fun, zipmap, transpose, reshape, reduce, psum, pprod, pset, matmul, concat, take, tile, broadcast,
                  indices, size, axes_of, num, pabs, HALF, BIN)
from .topo import Topo, Scene, Undecided, is_call

ACT = {0: None, 1: 'RELU', 2: 'RELU_N1_TO_1', 3: 'RELU6', 4: 'TANH', 5: 'SIGN_BIT'}
UNARY = {'RELU', 'RELU6', 'RELU_N1_TO_1', 'LOGISTIC', 'TANH', 'EXP', 'LOG', 'FLOOR', 'CEIL', 'ROUND', 'SIN', 'COS', 'ELU', 'HARD_SWISH', 'LEAKY_RELU', 'SIGN',
         'LOGICAL_NOT', 'QUANTIZE', 'DEQUANTIZE', 'CAST', 'FAKE_QUANT', 'ZEROS_LIKE', 'RELU_0_TO_1'}


UNKNOWN_SHAPE = 'shape-like operand is not known'
FMIN = -Fraction(3.4028234663852886e+38)


def act(a, code):
    n = ACT[code]
    return a if n is None else a.but(el=[fun(n, e) for e in a.el])


def pads_same(n, k, s, d):
    out = -(-n // s)
    tot = max(0, (out - 1) * s + (k - 1) * d + 1 - n)
    return tot // 2, tot - tot // 2


def pad_nd(a, pads, val=None):
    val = val if val is not None else Poly.const(0)
    sh = [lo + d + hi for (lo, hi), d in zip(pads, a.shape)]
    out = []
    for idx in indices(sh):
        src = [i - lo for i, (lo, hi) in zip(idx, pads)]
        out.append(a.at(src) if all(0 <= x < d for x, d in zip(src, a.shape)) else val)
    return a.but(sh, out)


def conv_nchw(x, w, b, stride, padding, dilation, groups):
    n = x.rank - 2
    if len(stride) < n or len(padding) < n or len(dilation) < n:
        raise NoShape('hyper-parameters %s %s %s for rank %d' % (stride, padding, dilation, x.rank))
    x = pad_nd(x, [(0, 0), (0, 0)] + [(p, p) if isinstance(p, int) else tuple(p) for p in padding])
    N, C, O, I = x.shape[0], x.shape[1], w.shape[0], w.shape[1]
    if C != I * groups or O % groups:
        raise NoShape('conv of %s with weight %s in %s groups' % (x.shape, w.shape, groups))
    ks = w.shape[2:]
    osp = [(d - (k - 1) * dl - 1) // s + 1 for d, k, s, dl in zip(x.shape[2:], ks, stride, dilation)]
    if any(d < 1 for d in osp):
        raise NoShape('empty conv output')
    if b is not None and len(b.el) not in (1, O):
        raise NoShape('bias %s for %d channels' % (b.shape, O))
    out = []
    og = O // groups
    for idx in indices([N, O] + osp):
        n_, o = idx[:2]
        g = o // og
        acc = []
        for i in range(I):
            for kk in indices(ks):
                p = [y * s + k * dl for y, s, k, dl in zip(idx[2:], stride, kk, dilation)]
                acc.append(x.at([n_, g * I + i] + p) * w.at((o, i) + kk))
        e = psum(acc)
        if b is not None:
            e = e + b.el[o if len(b.el) > 1 else 0]
        out.append(e)
    return Arr([N, O] + osp, out, x.dtype)


def deconv_nchw(x, w, b, stride, padding, dilation, outpad, groups):
    """w: (in, out/groups, ...)"""
    N, C = x.shape[:2]
    if C != w.shape[0] or C % groups:
        raise NoShape('transposed conv of %s with weight %s' % (x.shape, w.shape))
    og, ig = w.shape[1], C // groups
    O = og * groups
    ks = w.shape[2:]
    osp = [(d - 1) * s - 2 * p + dl * (k - 1) + op + 1 for d, s, p, dl, k, op in zip(x.shape[2:], stride, padding, dilation, ks, outpad)]
    acc = {}
    for idx in indices(x.shape):
        n_, c = idx[:2]
        for o in range(og):
            for kk in indices(ks):
                p = [y * s - pd + k * dl for y, s, pd, k, dl in zip(idx[2:], stride, padding, kk, dilation)]
                if all(0 <= v < d for v, d in zip(p, osp)):
                    acc.setdefault((n_, (c // ig) * og + o) + tuple(p), []).append(x.at(idx) * w.at((c, o) + kk))
    if b is not None and len(b.el) not in (1, O):
        raise NoShape('bias %s for %d channels' % (b.shape, O))
    out = []
    for idx in indices([N, O] + osp):
        e = psum(acc.get(idx, []))
        if b is not None:
            e = e + b.el[idx[1] if len(b.el) > 1 else 0]
        out.append(e)
    return Arr([N, O] + osp, out, x.dtype)


def crop(out, osh, ysh, stride, ks, same, b):
    """a channel-last transposed convolution cut or extended to the wanted output shape, plus the bias"""
    n = len(stride)
    for i in range(n):
        want = osh[1 + i]
        lo = max(0, (ysh[1 + i] - 1) * stride[i] + ks[i] - want) // 2 if same else 0
        more = max(0, lo + want - out.shape[1 + i])
        if more:
            out = pad_nd(out, [(0, more) if j == i + 1 else (0, 0) for j in range(n + 2)])
        out = take(out, list(range(lo, lo + want)), 1 + i)
    if osh[-1] != out.shape[-1] or osh[0] != out.shape[0]:
        raise NoShape('output shape %s of a transposed conv giving %s' % (osh, out.shape))
    if b is not None:
        if len(b.el) != out.shape[-1]:
            raise NoShape('bias %s for %d channels' % (b.shape, out.shape[-1]))
        out = zipmap(BIN['+'], out, reshape(b, [len(b.el)]))
    return out


class Sem:
    """values of the tensors of a scene in its current state"""

    def __init__(self, scene):
        self.s = scene
        self.I = scene.I
        self.snap = scene.snapshot()
        self.memo = {}
        self.prod = {}
        for n, d in self.snap['v'].items():
            if d['type'] == scene.t.code('OUTPUT_NODE').v:
                continue
            for i, o in enumerate(d['outs']):
                self.prod[o] = (n, i)

    def value(self, name):
        if name in self.memo:
            if self.memo[name] is None:
                raise Undecided('cycle at %s' % name)
            return self.memo[name]
        self.memo[name] = None
        if name not in self.prod:
            raise NoShape('%s has no producer' % name)
        n, i = self.prod[name]
        d = self.snap['v'][n]
        if d['op'] is None:
            if name in self.s.leaves:
                v = self.s.leaves[name]
            else:
                t = self.I.getitem(self.s.st, self.s.get(self.s.cg, 'tensor_map'), K(name))
                v = self.data(self.s.get(t, 'tensor'))
            if d['type'] == self.s.t.code('INPUT_NODE').v and name not in self.s.leaves:
                raise Undecided('new input %s' % name)
            self.memo[name] = v
            return v
        ins = [self.value(x) for x in d['ins']]
        outs = self.apply(d['op'], ins, d)
        for i, (o, v) in enumerate(zip(d['outs'], outs)):
            self.memo[o] = self.typed(d['op'], i, v)
        if self.memo[name] is None:
            raise NoShape('%s produces %d results' % (n, len(outs)))
        return self.memo[name]

    def typed(self, op, i, v):
        """the value with the type recorded for the result"""
        if not isinstance(v, Arr):
            return v
        ts = self.s.items(self.s.get(op, 'outputs'))
        t = self.I.norm(self.s.st, self.s.get(ts[i], 'tensor')) if i < len(ts) else None
        return v.but(dtype=t.dtype) if isinstance(t, Arr) and t.dtype else v

    def data(self, v):
        v = self.I.norm(self.s.st, v)
        if isinstance(v, Arr):
            return v
        try:
            return self.I.arrays.arr(self.s.st, v)
        except Unk:
            raise Undecided('constant data not known: %s' % str(v)[:80])

    def attr(self, op, name, default=None):
        v = self.I.norm(self.s.st, self.s.get(op, name))
        if isinstance(v, K):
            return v.v
        try:
            r = self.I.arrays.ints(self.s.st, v)
            return r
        except Unk:
            if default is not None:
                return default
            if v == T('undef', ('key',)):
                raise Missing('option %s looked up under a key that is not there' % name)
            raise Undecided('option %s not known: %s' % (name, str(v)[:60]))

    def ints(self, a):
        if not a.const():
            raise Undecided(UNKNOWN_SHAPE)
        return a.nested()

    def code_name(self, d):
        cls = self.I.obj(self.s.st, d['op']).cls.name
        code = self.I.norm(self.s.st, self.s.get(self.s.get(d['op'], 'op'), 'code'))
        return self.s.t.names.get(code.v if isinstance(code, K) else None, cls)

    def apply(self, op, ins, d):
        name = self.code_name(d)
        try:
            return self.calc(name, ins, lambda k, *de: self.attr(op, k, *de), d)
        except Undecided as u:
            if str(u) != UNKNOWN_SHAPE:
                raise
            # shapes, indices or bounds computed by the model: an uninterpreted operator of all its operands
            outs = []
            for o in self.s.items(self.s.get(op, 'outputs')):
                try:
                    outs.append(tuple(y.v for y in self.s.items(self.s.get(o, 'shape'))))
                except Exception:
                    raise u
            return self.dynamic(name, ins, outs, lambda k, *de: self.attr(op, k, *de))

    def dynamic(self, name, ins, shapes, A):
        """operators whose indices or bounds are computed by the model: the result shapes are the recorded ones"""
        def pick(x, ax, offs, end=None):
            sh = x.shape[:ax] + (len(offs),) + x.shape[ax + 1:]
            return x.but(sh, [Poly.atom(('F', 'pick', tuple(x.at(i[:ax] + (j,) + i[ax + 1:]) for j in range(x.shape[ax])), offs[i[ax]], end)) for i in indices(sh)])
        x = ins[0]
        if name == 'GATHER' and ins[1].rank == 1 and not A('batchDims', 0):
            return [pick(x, A('axis') % x.rank, ins[1].el)]
        if name in ('SLICE', 'STRIDED_SLICE') and len(shapes[0]) == x.rank and all(len(v.el) == x.rank for v in ins[1:]) and \
                not any(A(m, 0) for m in ('beginMask', 'endMask', 'ellipsisMask', 'newAxisMask', 'shrinkAxisMask')) and not A('offset', False):
            later = []
            for ax in range(x.rank):
                q = [v.el[ax] for v in ins[1:]]
                st = q[2] if len(q) > 2 else Poly.const(1)
                n = shapes[0][ax]
                if all(p.is_const for p in q):
                    b, e = int(q[0].c), int(q[1].c)
                    m = x.shape[ax]
                    e = (m if e == -1 else b + e) if name == 'SLICE' else min(e + m if e < 0 else e, m)
                    b = b + m if b < 0 else b
                    if st.c <= 0:
                        raise Undecided('backward slice with computed operands')
                    x = take(x, list(range(b, e, int(st.c))), ax)
                else:
                    later.append((str(q), ax, [q[0] + st * Poly.const(i) for i in range(n)], q[1] if name == 'STRIDED_SLICE' else q[0] + q[1]))
            for _, ax, offs, end in sorted(later, key=lambda t: t[0]):
                x = pick(x, ax, offs, end)
            return [x]
        return self.opaque(name, ins, shapes)

    def opaque(self, name, ins, shapes):
        key = tuple((v.shape, v.el) for v in ins)
        return [Arr(sh, [Poly.atom(('F', 'dynamic ' + name, j, i, key)) for i in indices(sh)], ins[0].dtype) for j, sh in enumerate(shapes)]

    def calc(self, name, ins, A, d=None):
        x = ins[0] if ins else None
        r = ins[1:]
        one = lambda v: [v]
        if name in ('ADD', 'SUB', 'MUL', 'DIV'):
            if name == 'DIV' and all((t.dtype or '').startswith(('int', 'uint')) for t in (x, r[0])):
                return one(zipmap(lambda p, q: fun('TRUNC_DIV', p, q), x, r[0]))
            return one(act(zipmap(BIN[{'ADD': '+', 'SUB': '-', 'MUL': '*', 'DIV': '/'}[name]], x, r[0]), A('fusedActivationFunction')))
        if name in ('MAXIMUM', 'MINIMUM'):
            return one(zipmap(lambda p, q: pset(name[:3].lower())([p, q]), x, r[0]))
        if name in ('POW', 'FLOOR_DIV', 'FLOOR_MOD', 'SQUARED_DIFFERENCE', 'EQUAL', 'NOT_EQUAL', 'LESS', 'LESS_EQUAL', 'GREATER', 'GREATER_EQUAL', 'LOGICAL_AND', 'LOGICAL_OR', 'ATAN2'):
            if name == 'SQUARED_DIFFERENCE':
                return one(zipmap(lambda p, q: (p - q) * (p - q), x, r[0]))
            return one(zipmap(lambda p, q: fun(name, p, q), x, r[0]))
        if name == 'LEAKY_RELU':
            return one(x.but(el=[fun(name, e, Poly.const(Fraction(A('alpha')))) for e in x.el]))
        if name == 'SQRT':
            return one(x.but(el=[e.pow(HALF) for e in x.el]))
        if name == 'RSQRT':
            return one(x.but(el=[e.pow(-HALF) for e in x.el]))
        if name == 'NEG':
            return one(x.but(el=[-e for e in x.el]))
        if name == 'SQUARE':
            return one(x.but(el=[e * e for e in x.el]))
        if name == 'ABS':
            return one(x.but(el=[pabs(e) for e in x.el]))
        if name == 'CAST' and A('inDataType', None) is not None and A('inDataType', None) == A('outDataType', None):
            return one(x)
        if name == 'GELU':
            return one(x.but(el=[fun('GELU_TANH' if A('approximate', False) else 'GELU', e) for e in x.el]))
        if name in UNARY:
            return one(x.but(el=[fun(name, e) for e in x.el]))
        if name == 'PRELU':
            return one(zipmap(lambda p, q: fun('PRELU', p, q), x, r[0]))
        if name in ('SELECT', 'SELECT_V2', 'WHERE') and len(ins) == 3:
            sh = zipmap(lambda p, q: p, zipmap(lambda p, q: p, x, r[0]), r[1]).shape
            a, b, c = [broadcast(v, sh) for v in ins]
            return one(b.but(el=[fun('SELECT', p, q, t) for p, q, t in zip(a.el, b.el, c.el)]))
        if name == 'TRANSPOSE':
            return one(transpose(x, self.ints(r[0])))
        if name == 'RESHAPE':
            return one(reshape(x, self.ints(r[0]) if r else A('newShape')))
        if name == 'SQUEEZE':
            ax = A('squeezeDims')
            ax = [i for i, n in enumerate(x.shape) if n == 1] if not ax else axes_of(x, ax)
            if any(x.shape[i] != 1 for i in ax):
                raise NoShape('squeeze of a dim that is not 1')
            return one(x.but([n for i, n in enumerate(x.shape) if i not in ax]))
        if name == 'EXPAND_DIMS':
            ax = self.ints(r[0])
            ax = ax[0] if isinstance(ax, list) else ax
            ax %= x.rank + 1
            return one(x.but(x.shape[:ax] + (1,) + x.shape[ax:]))
        if name == 'SLICE':
            b, s = self.ints(r[0]), self.ints(r[1])
            if len(b) != x.rank or len(s) != x.rank:
                raise NoShape('slice of rank %d' % x.rank)
            for ax, (i, n) in enumerate(zip(b, s)):
                n = x.shape[ax] - i if n == -1 else n
                if i < 0 or n < 0 or i + n > x.shape[ax]:
                    raise NoShape('slice out of range')
                x = take(x, list(range(i, i + n)), ax)
            return one(x)
        if name == 'STRIDED_SLICE':
            b, e, st = self.ints(r[0]), self.ints(r[1]), self.ints(r[2])
            bm, em, sm = A('beginMask'), A('endMask'), A('shrinkAxisMask')
            if A('ellipsisMask') or A('newAxisMask'):
                raise Undecided('masks')
            drop = []
            for ax in range(len(b)):
                n = x.shape[ax]
                if sm >> ax & 1:
                    x = take(x, [b[ax]], ax)
                    drop.append(ax)
                    continue
                sl = slice(None if bm >> ax & 1 else b[ax], None if em >> ax & 1 else e[ax], st[ax])
                x = take(x, list(range(*sl.indices(n))), ax)
            return one(x.but([n for i, n in enumerate(x.shape) if i not in drop]))
        if name == 'GATHER':
            idx = r[0]
            if A('batchDims'):
                bd = A('batchDims')
                ax = A('axis') % x.rank
                if idx.rank != bd + 1 or idx.shape[:bd] != x.shape[:bd]:
                    raise Undecided('batched gather')
                if not idx.const():
                    raise Undecided('gather with unknown indices')
                sh = list(x.shape)
                sh[ax] = idx.shape[bd]
                return one(x.but(sh, [x.at(i[:ax] + (int(idx.at(i[:bd] + (i[ax],)).c),) + i[ax + 1:]) for i in indices(sh)]))
            ix = self.ints(idx)
            ax = A('axis') % x.rank
            if isinstance(ix, int):
                v = take(x, [ix], ax)
                return one(v.but(v.shape[:ax] + v.shape[ax + 1:]))
            v = take(x, [int(e.c) for e in idx.el], ax)
            return one(reshape(v, v.shape[:ax] + idx.shape + v.shape[ax + 1:]))
        if name in ('PAD', 'PADV2'):
            p = self.ints(r[0])
            if len(p) != x.rank or any(len(q) != 2 for q in p):
                raise NoShape('paddings of rank %d' % len(p))
            val = None
            if name == 'PADV2':
                val = r[1].el[0]
            if any(v < 0 for q in p for v in q):
                raise NoShape('negative padding %s' % (p,))
            return one(pad_nd(x, [tuple(q) for q in p], val))
        if name == 'CONCATENATION':
            return one(act(concat(ins, A('axis')), A('fusedActivationFunction')))
        if name == 'PACK':
            ax = A('axis') % (x.rank + 1)
            return one(concat([v.but(v.shape[:ax] + (1,) + v.shape[ax:]) for v in ins], ax))
        if name == 'UNPACK':
            ax = A('axis') % x.rank
            return [(lambda v: v.but(v.shape[:ax] + v.shape[ax + 1:]))(take(x, [i], ax)) for i in range(x.shape[ax])]
        if name == 'SPLIT':
            ax = self.ints(x)
            ax = ax[0] if isinstance(ax, list) else ax
            y, n = r[0], A('numSplits')
            ax = axes_of(y, ax)[0]
            if y.shape[ax] % n:
                raise NoShape('split')
            k = y.shape[ax] // n
            return [take(y, list(range(i * k, i * k + k)), ax) for i in range(n)]
        if name == 'SPLIT_V':
            sz = self.ints(r[0])
            ax = self.ints(r[1])
            ax = axes_of(x, ax[0] if isinstance(ax, list) else ax)[0]
            if sum(sz) != x.shape[ax]:
                raise NoShape('split sizes %s of %s' % (sz, x.shape))
            out, o = [], 0
            for n in sz:
                out.append(take(x, list(range(o, o + n)), ax))
                o += n
            return out
        if name == 'TILE':
            m = self.ints(r[0])
            if len(m) != x.rank:
                raise NoShape('tile multiples')
            return one(tile(x, m))
        if name == 'BROADCAST_TO':
            return one(broadcast(x, tuple(self.ints(r[0]))))
        if name == 'REVERSE_V2':
            for ax in axes_of(x, self.ints(r[0])):
                x = take(x, list(reversed(range(x.shape[ax]))), ax)
            return one(x)
        if name in ('MEAN', 'SUM', 'REDUCE_MAX', 'REDUCE_MIN', 'REDUCE_PROD', 'REDUCE_ANY', 'REDUCE_ALL'):
            f = {'SUM': psum, 'REDUCE_PROD': pprod, 'REDUCE_MAX': pset('max'), 'REDUCE_MIN': pset('min'),
                 'MEAN': lambda es: psum(es) * Poly.const(Fraction(1, len(es)))}.get(name) or (lambda es: fun(name, frozenset(es)))
            return one(reduce(x, self.ints(r[0]), bool(A('keepDims')), f))
        if name in ('ARG_MAX', 'ARG_MIN'):
            ax = self.ints(r[0])
            ax = axes_of(x, ax[0] if isinstance(ax, list) else ax)[0]
            parts = lambda i: tuple(x.at(i[:ax] + (k,) + i[ax:]) for k in range(x.shape[ax]))
            sh = x.shape[:ax] + x.shape[ax + 1:]
            return one(Arr(sh, [fun(name, *parts(i)) for i in indices(sh)], 'int64'))
        if name in ('SOFTMAX', 'LOG_SOFTMAX', 'L2_NORMALIZATION'):
            beta = Poly.const(Fraction(A('beta'))) if name == 'SOFTMAX' else Poly.const(1)
            return one(x.but(el=[fun(name, x.at(i), frozenset(x.at(i[:-1] + (k,)) for k in range(x.shape[-1])), beta) for i in indices(x.shape)]))
        if name == 'CUMSUM':
            ax = self.ints(r[0])
            ax = axes_of(x, ax[0] if isinstance(ax, list) else ax)[0]
            ex, rev = A('exclusive'), A('reverse')
            out = []
            for i in indices(x.shape):
                ks = range(0, i[ax] + (not ex)) if not rev else range(i[ax] + bool(ex), x.shape[ax])
                out.append(psum([x.at(i[:ax] + (k,) + i[ax + 1:]) for k in ks]))
            return one(x.but(el=out))
        if name in ('DEPTH_TO_SPACE', 'SPACE_TO_DEPTH'):
            k = A('blockSize')
            n, h, w, c = x.shape
            if name[0] == 'D':
                if c % (k * k):
                    raise NoShape('depth %d in blocks of %d' % (c, k))
                return one(reshape(transpose(reshape(x, [n, h, w, k, k, c // k // k]), [0, 1, 3, 2, 4, 5]), [n, h * k, w * k, c // k // k]))
            if h % k or w % k:
                raise NoShape('space %dx%d in blocks of %d' % (h, w, k))
            return one(reshape(transpose(reshape(x, [n, h // k, k, w // k, k, c]), [0, 1, 3, 2, 4, 5]), [n, h // k, w // k, c * k * k]))
        if name == 'MIRROR_PAD':
            p = self.ints(r[0])
            off = 1 - A('mode', 0)
            if len(p) != x.rank:
                raise NoShape('padding of %d axes for rank %d' % (len(p), x.rank))
            for ax, (lo, hi) in enumerate(p):
                m = x.shape[ax]
                if max(lo, hi) > m - off:
                    raise NoShape('mirrored padding %s of %d elements' % ((lo, hi), m))
                x = take(x, [-j - 1 + off if j < 0 else j if j < m else 2 * m - 1 - off - j for j in range(-lo, m + hi)], ax)
            return one(x)
        if name == 'GATHER_ND':
            ix = r[0]
            k = ix.shape[-1]
            if k > x.rank:
                raise NoShape('%d indices for rank %d' % (k, x.rank))
            if not ix.const():
                raise Undecided(UNKNOWN_SHAPE)
            out = []
            for i in indices(ix.shape[:-1]):
                c = tuple(int(ix.at(i + (j,)).c) for j in range(k))
                if any(not 0 <= v < n for v, n in zip(c, x.shape)):
                    raise NoShape('index %s is out of range for %s' % (list(c), list(x.shape)))
                out += [x.at(c + t) for t in indices(x.shape[k:])]
            return one(x.but(ix.shape[:-1] + x.shape[k:], out))
        if name == 'SCATTER_ND':
            if not x.const():
                raise Undecided(UNKNOWN_SHAPE)
            sh = self.ints(r[1])
            k = x.shape[-1]
            acc = {}
            for i in indices(x.shape[:-1]):
                c = tuple(int(x.at(i + (j,)).c) for j in range(k))
                if any(not 0 <= v < n for v, n in zip(c, sh)):
                    raise NoShape('index %s is out of range for %s' % (list(c), list(sh)))
                for t in indices(sh[k:]):
                    acc.setdefault(c + t, []).append(r[0].at(i + t))
            return one(r[0].but(sh, [psum(acc.get(i, [])) for i in indices(sh)]))
        if name in ('RESIZE_NEAREST_NEIGHBOR', 'RESIZE_BILINEAR'):
            osz = self.ints(r[0])
            al, hp = A('alignCorners'), A('halfPixelCenters')
            if al and hp:
                raise NoShape('both corner alignments')
            for ax, o in zip((1, 2), osz):
                m = x.shape[ax]
                sc = Fraction(m - 1, o - 1) if al and o > 1 else Fraction(m, o)
                cols = []
                for y in range(o):
                    if name[7] == 'N':
                        p = (y + Fraction(1, 2)) * sc if hp else y * sc
                        cols.append([(min(max(int(p + Fraction(1, 2) if al else p // 1), 0), m - 1), Fraction(1))])
                    else:
                        p = (y + Fraction(1, 2)) * sc - Fraction(1, 2) if hp else y * sc
                        lo = p // 1
                        a, b = max(lo, 0), min(lo + 1, m - 1)
                        a = min(a, m - 1)
                        cols.append([(a, 1 - (p - lo)), (b, p - lo)] if p >= 0 else [(0, Fraction(1))])
                sh = x.shape[:ax] + (o,) + x.shape[ax + 1:]
                x = x.but(sh, [psum([x.at(i[:ax] + (j,) + i[ax + 1:]) * Poly.const(w) for j, w in cols[i[ax]]]) for i in indices(sh)])
            return one(x)
        if name == 'TOPK_V2':
            k = int(self.ints(r[0]) if not isinstance(self.ints(r[0]), list) else self.ints(r[0])[0])
            if not 0 < k <= x.shape[-1]:
                raise NoShape('%d largest of %d' % (k, x.shape[-1]))
            sh = x.shape[:-1] + (k,)
            row = lambda i: tuple(x.at(i[:-1] + (j,)) for j in range(x.shape[-1]))
            return [x.but(sh, [fun('LARGEST', Poly.const(i[-1]), frozenset(row(i))) for i in indices(sh)]),
                    Arr(sh, [fun('LARGEST_AT', Poly.const(i[-1]), *row(i)) for i in indices(sh)], 'int32')]
        if name == 'FULLY_CONNECTED':
            w = r[0]
            if w.rank != 2:
                raise NoShape('weight of rank %d' % w.rank)
            y = x if A('keepNumDims', False) else reshape(x, [-1, w.shape[1]])
            v = matmul(y, transpose(w, [1, 0]))
            if len(r) > 1:
                if len(r[1].el) not in (1, w.shape[0]):
                    raise NoShape('bias %s for weight %s' % (r[1].shape, w.shape))
                v = zipmap(BIN['+'], v, r[1].but((len(r[1].el),)))
            return one(act(v, A('fusedActivationFunction')))
        if name == 'BATCH_MATMUL':
            a, b = x, r[0]
            sw = lambda v: transpose(v, list(range(v.rank - 2)) + [v.rank - 1, v.rank - 2])
            return one(matmul(sw(a) if A('adjX') else a, sw(b) if A('adjY') else b))
        if name == 'BATCH_NORM':
            g, be, mu, va = r
            eps = A('eps') if not isinstance(self.eps(d), Poly) else self.eps(d)
            eps = eps if isinstance(eps, Poly) else Poly.const(eps)
            inv = va.but(el=[(e + eps).pow(-HALF) for e in va.el])
            sc = zipmap(BIN['*'], g, inv)
            sh = [1, len(g.el)] + [1] * (x.rank - 2)
            v = zipmap(BIN['*'], zipmap(BIN['-'], x, reshape(mu, sh)), reshape(sc, sh))
            return one(act(zipmap(BIN['+'], v, reshape(be, sh)), A('fusedActivationFunction')))
        if name == 'GENERIC_CONV':
            return one(act(conv_nchw(x, r[0], r[1] if len(r) > 1 else None, A('stride'), A('padding'), A('dilation'), A('groups')), A('fusedActivationFunction')))
        if name == 'GENERIC_DECONV':
            return one(act(deconv_nchw(x, r[0], r[1] if len(r) > 1 else None, A('stride'), A('padding'), A('dilation'), A('output_padding'), A('groups')), A('fusedActivationFunction', 0)))
        if name in ('CONV_2D', 'DEPTHWISE_CONV_2D', 'CONV_3D'):
            sp = 'DHW'[-(x.rank - 2):]
            st = [A('stride' + c) for c in sp]
            dl = [A('dilation%sFactor' % c) for c in sp]
            w = r[0]
            if name == 'DEPTHWISE_CONV_2D':
                dm = w.shape[3] // x.shape[3]
                if w.shape[3] % x.shape[3]:
                    raise NoShape('depthwise weight %s' % (w.shape,))
                ks, groups, w = w.shape[1:3], x.shape[3], transpose(w, [3, 0, 1, 2])
            elif name == 'CONV_3D':
                ks, groups, w = w.shape[:3], 1, transpose(w, [4, 3, 0, 1, 2])
            else:
                ks, w = w.shape[1:3], transpose(w, [0, 3, 1, 2])
                groups = x.shape[-1] // w.shape[1] if w.shape[1] and x.shape[-1] % w.shape[1] == 0 else 1
            pd = [(0, 0)] * len(sp)
            if A('padding') == 0:
                pd = [pads_same(n, k, s, q) for n, k, s, q in zip(x.shape[1:-1], ks, st, dl)]
            n = x.rank
            y = conv_nchw(transpose(x, [0, n - 1] + list(range(1, n - 1))), w, r[1] if len(r) > 1 else None, st, pd, dl, groups)
            return one(act(transpose(y, [0] + list(range(2, n)) + [1]), A('fusedActivationFunction')))
        if name == 'TRANSPOSE_CONV':
            osh, w, y = self.ints(ins[0]), ins[1], ins[2]
            b = ins[3] if len(ins) > 3 else None
            st = [A('strideH'), A('strideW')]
            ks = w.shape[1:3]
            yy = deconv_nchw(transpose(y, [0, 3, 1, 2]), transpose(w, [3, 0, 1, 2]), None, st, [0, 0], [1, 1], [0, 0], 1)
            return one(act(crop(transpose(yy, [0, 2, 3, 1]), osh, y.shape, st, ks, A('padding') == 0, b), A('fusedActivationFunction', 0)))
        if name == 'CONV_3D_TRANSPOSE':
            osh, w, y = self.ints(ins[0]), ins[1], ins[2]
            st = [A('stride' + c) for c in 'DHW']
            dl = [A('dilation%sFactor' % c) for c in 'DHW']
            ks = [(k - 1) * d + 1 for k, d in zip(w.shape[:3], dl)]
            same = A('padding') == 0
            for n, o, k, q in zip(y.shape[1:4], osh[1:4], ks, st):
                if (-(-o // q) if same else (o - k + q) // q) != n:
                    raise NoShape('output shape %s of a transposed conv of %s' % (osh, y.shape))
            v = deconv_nchw(transpose(y, [0, 4, 1, 2, 3]), transpose(w, [4, 3, 0, 1, 2]), None, st, [0] * 3, dl, [0] * 3, 1)
            return one(act(crop(transpose(v, [0, 2, 3, 4, 1]), osh, y.shape, st, ks, same, ins[3] if len(ins) > 3 else None), A('fusedActivationFunction', 0)))
        if name in ('MAX_POOL_2D', 'AVERAGE_POOL_2D'):
            ks = [A('filterHeight'), A('filterWidth')]
            st = [A('strideH'), A('strideW')]
            pd = [(0, 0)] * 2 if A('padding') == 1 else [pads_same(n, k, s, 1) for n, k, s in zip(x.shape[1:3], ks, st)]
            osp = [(n + lo + hi - k) // s + 1 for n, (lo, hi), k, s in zip(x.shape[1:3], pd, ks, st)]
            sh = [x.shape[0]] + osp + [x.shape[3]]
            out = []
            for i in indices(sh):
                es = []
                for kk in indices(ks):
                    p = [i[1 + j] * st[j] + kk[j] - pd[j][0] for j in range(2)]
                    if all(0 <= v < n for v, n in zip(p, x.shape[1:3])):
                        es.append(x.at((i[0], p[0], p[1], i[3])))
                inf = Poly.const(FMIN)
                if name[0] == 'M':
                    es = [e for e in es if e != inf] or es
                out.append(pset('max')(es) if name[0] == 'M' else psum(es) * Poly.const(Fraction(1, len(es))))
            return one(act(x.but(sh, out), A('fusedActivationFunction')))
        raise Undecided('no meaning for %s' % name)

    def eps(self, d):
        v = self.I.norm(self.s.st, self.s.get(d['op'], 'eps')) if d and d.get('op') is not None else None
        try:
            return self.I.arrays.poly(v) if v is not None and not isinstance(v, K) else None
        except Unk:
            return None


class Missing(Exception):
    """the table lookup that made this value fails"""


class VScene(Scene):
    """scene with known shapes and symbolic data"""

    def __init__(self, topo, opts=None):
        super().__init__(topo, opts)
        self.leaves = {}
        self.vals = {}
        self.data = {}
        self.relay = {}
        self.io_out = {}
        self.I.setattr(self.st, self.cg, 'output_transpose', K(False), None, None)

    def put(self, name, a, const, **attrs):
        if isinstance(attrs.get('quantization'), dict):
            q = attrs['quantization']
            attrs['quantization'] = self.quant(**q)
        if const:
            attrs.setdefault('buffer', buffer_of(self.I, self.st, a))
        self.tensor(name, const, tensor=a, shape=Tup([K(d) for d in a.shape]), dtype=T('dtype', (a.dtype,)), **dict({'quantization': NONE}, **attrs))

    def quant(self, scale, zero_point=0, dim=0):
        lift = lambda v: v if not isinstance(v, (int, float, list)) else self.I.new_list(self.st, [K(x) for x in v]) if isinstance(v, list) else K(v)
        return self.I.new_inst(self.st, self.I.lookup('tinynn.converter.operators.tflite.base.QuantizationParameters'),
                               {'scale': lift(scale), 'zero_point': lift(zero_point), 'dim': lift(dim)})

    def inp(self, name, shape, dtype='float32', **attrs):
        a = fresh(name, shape, dtype)
        self.leaves[name] = a
        self.put(name, a, False, **attrs)
        self.m(self.get(self.cg, 'inputs'), 'append', K(name))
        self.add(name, 'INPUT_NODE', [name])
        self.vals[name] = a
        return name

    def layout(self, ins=(), outs=False):
        """the user asks for channels-last model inputs / outputs"""
        from .arr import transpose
        lift = lambda v: self.I.new_list(self.st, [K(x) for x in v]) if isinstance(v, (list, tuple)) else K(v)
        self.I.setattr(self.st, self.cg, 'input_transpose', lift(list(ins)), None, None)
        self.I.setattr(self.st, self.cg, 'output_transpose', lift(outs), None, None)
        for n, t in zip([self.kname(x) for x in self.items(self.get(self.cg, 'inputs'))], ins):
            if t is True:
                self.relay[n] = transpose(self.leaves[n], (0, 2, 3, 1))
        names = [x.v for x in self.items(self.get(self.cg, 'outputs'))]
        for n, t in zip(names, outs if isinstance(outs, (list, tuple)) else [outs] * len(names)):
            self.io_out[n] = len(self.vals[n].shape) == 4 if t is None else t

    def par(self, name, shape, dtype='float32', **attrs):
        """constant of unknown data"""
        a = fresh(name, shape, dtype)
        self.put(name, a, True, **attrs)
        self.add(name, 'CONSTANT_NODE', [name])
        self.vals[name] = a
        return name

    def con(self, name, vals, dtype='int32', **attrs):
        a = lit(vals, dtype)
        self.put(name, a, True, **attrs)
        self.add(name, 'CONSTANT_NODE', [name])
        self.vals[name] = a
        return name

    def o(self, code, ins, outs, hint=None, qouts=None, **attrs):
        sem = object.__new__(Sem)
        sem.s, sem.I = self, self.I
        outs = [outs] if isinstance(outs, str) else outs
        ev = dict(attrs)
        fake = {'op': None}

        def A(k, *de):
            if k in ev:
                return ev[k]
            if de:
                return de[0]
            raise Undecided('option %s of %s missing in the scene' % (k, code))
        dyn = ev.pop('dyn_shape', None)
        attrs.pop('dyn_shape', None)
        sem.eps = lambda d: attrs['eps'] if isinstance(attrs.get('eps'), Poly) else None
        vals = [self.vals[i] for i in ins]
        if code == 'GATHER' and dyn is None and not vals[1].const() and vals[1].rank == 1 and not attrs.get('batchDims'):
            dyn = tuple(vals[1].shape[0] if i == attrs['axis'] % vals[0].rank else n for i, n in enumerate(vals[0].shape))
        vs = sem.dynamic(code, vals, [dyn], A) if dyn is not None else sem.calc(code, vals, A, fake)
        at = {}
        for k, v in attrs.items():
            at[k] = self.I.new_list(self.st, [K(x) for x in v]) if isinstance(v, list) else T('sym', (aname_of(v),)) if isinstance(v, Poly) else K(v)
        for i, (n, v) in enumerate(zip(outs, vs)):
            self.vals[n] = v
            self.put(n, v if v.const() else fresh('d:' + n, v.shape, v.dtype or 'float32'), False, **((qouts or {}).get(n, {}) and {'quantization': qouts[n]}))
        if code in ('GENERIC_CONV', 'GENERIC_DECONV', 'BATCH_NORM'):
            at.setdefault('attr_count', K(0))
            at.setdefault('transform_count', K(0))
        if code == 'GENERIC_DECONV':
            at.setdefault('enable_mtk_ops', K(False))
            at.setdefault('conv_transpose_with_bias', K(True))
        name = '%s_%d' % (code, len(self.ops) + 1)
        self.op(name, code, list(ins), list(outs), **at)
        if hint:
            self.I.setitem(self.st, self.get(self.ops[name], 'extra_hints'), K('direction'), K(hint), None, None)
        return outs[0] if len(outs) == 1 else outs


def buffer_of(I, st, a):
    # all-zero data reads the same for every element type
    key = 'zeros %d' % len(a.el) if all(e.is_const and e.c == 0 for e in a.el) else '%s %s' % (a.dtype, [str(e) for e in a.el])
    return I.new_inst(st, I.lookup('tinynn.converter.operators.tflite.base.Buffer'), {'data': K(key), 'index': K(0), 'tfl_buffer': K(0)})


def aname_of(p):
    (m, c), = p.t.items()
    (a, e), = m
    return a.args[0]


def sympoly(name):
    return Poly.atom(T('sym', (name,)))


def lit(vals, dtype='int32'):
    def shape(v):
        return (len(v),) + shape(v[0]) if isinstance(v, list) and v else (0,) if isinstance(v, list) else ()

    def flat(v):
        return [e for x in v for e in flat(x)] if isinstance(v, list) else [v]
    return Arr(shape(vals), [Poly.const(Fraction(x)) if not isinstance(x, Poly) else x for x in flat(vals)], dtype)


class ValueBench(Topo):
    def __init__(self, ctx, steps=3000000):
        super().__init__(ctx, steps)
        from .arr import Arrays
        Arrays(self.I)
        self.names = {}
        tf = self.I.lookup('tinynn.converter.schemas.tflite.schema_generated.BuiltinOperator')
        for c in (self.ext, tf):
            st_names = {}
            for mro in c.mro:
                node = getattr(mro, 'node', None)
                if node is None:
                    continue
                for b in node.body:
                    import ast
                    if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                        st_names[b.targets[0].id] = 1
            from .interp import State
            for n in st_names:
                v = self.I.getattr(State(), c, n)
                if isinstance(v, K) and isinstance(v.v, int):
                    self.names.setdefault(v.v, n)

    def hook(self, I, st, fn, args, kwargs, node, mod):
        r = super().hook(I, st, fn, args, kwargs, node, mod)
        if isinstance(r, Ref):
            o = I.obj(st, r)
            d = I.norm(st, o.attrs.get('tensor'))
            if o.cls == self.Tensor and isinstance(d, Arr):
                at = dict(o.attrs)
                at['shape'] = Tup([K(x) for x in d.shape])
                at['dtype'] = T('dtype', (d.dtype,)) if d.dtype else T('attr', (d, 'dtype'))
                if at.get('buffer', NONE) != NONE:
                    at['buffer'] = buffer_of(I, st, d)
                I.put(st, r, o.but(attrs=at))
        return r

    def compare(self, scene, before):
        """differences between the values of the model outputs before and now"""
        from .arr import transpose
        sem = Sem(scene)
        scene.leaves.update(scene.relay)
        bad = []
        for i, o in enumerate(scene.before['outputs']):
            n = sem.snap['outputs'][i] if i < len(sem.snap['outputs']) else None
            if n is None:
                bad.append('model output %s is gone' % o)
                continue
            try:
                v = sem.value(n)
            except NoShape as e:
                bad.append('model output %s can no longer be computed: %s' % (o, e))
                continue
            w = before[o]
            if scene.io_out.get(o):
                w = transpose(w, (0, 2, 3, 1))
            if v.shape != w.shape:
                bad.append('model output %s has shape %s instead of %s' % (o, list(v.shape), list(w.shape)))
            elif v.el != w.el:
                k = [j for j, (p, q) in enumerate(zip(v.el, w.el)) if p != q]
                bad.append('model output %s is another function of the inputs: element %s is %s instead of %s (%d of %d elements differ)' % (
                    o, list(list(indices(v.shape))[k[0]]), str(v.el[k[0]])[:160], str(w.el[k[0]])[:160], len(k), len(v.el)))
        if not bad:
            bad += self.recorded(scene, sem)
        return bad

    def recorded(self, scene, sem):
        """tensors of live operators whose recorded shape is not the shape of their value"""
        bad = []
        tm = scene.get(scene.cg, 'tensor_map')
        for n, v in sem.memo.items():
            if v is None or n not in sem.prod:
                continue
            d = sem.snap['v'][sem.prod[n][0]]
            if d['op'] is None:
                t = self.I.getitem(scene.st, tm, K(n))
            else:
                t = scene.items(scene.get(d['op'], 'outputs'))[sem.prod[n][1]]
            for what, x in (('shape', scene.get(t, 'shape')), ('data', self.I.norm(scene.st, scene.get(t, 'tensor')))):
                if what == 'data':
                    sh = x.shape if isinstance(x, Arr) else None
                else:
                    try:
                        sh = tuple(y.v for y in scene.items(x))
                    except Exception:
                        sh = None
                if sh is not None and tuple(sh) != tuple(v.shape):
                    bad.append('tensor %s of %s has %s %s recorded, its value has %s' % (n, sem.prod[n][0], what, list(sh), list(v.shape)))
        return bad

    def values(self, scene, outs):
        sem = Sem(scene)
        return {o: sem.value(o) for o in outs}
