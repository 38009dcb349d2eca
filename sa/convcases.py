"""What the source operators compute (the framework's documented semantics), on symbolic elements, for small tensors of every relevant
rank and option; used as the reference of checks C02 and C03."""
from fractions import Fraction
from .arr import Arr, Poly, HALF, BIN, fun, pset, psum, pprod, pabs, zipmap, broadcast, transpose, reshape, reduce, matmul, concat, take, tile, indices, size, full, repeat_each
from .conv import In, Par, Con, L, Same, relu, clip, c_of

CASES = []


def case(kind, spec, ref, note='', opts=None, attrs=None, out=None):
    """spec: argument name -> what is passed; ref(**arguments) -> result(s)"""
    CASES.append((kind, spec, ref, note, opts or {}, attrs or {}, out))


def el(f):
    return lambda a, *r: a.but(el=[f(e) for e in a.el])


def lift(v):
    return v if isinstance(v, Arr) else Arr((), [Poly.const(Fraction(v))], 'float32')


def bin_(f):
    return lambda a, b: zipmap(f, lift(a), lift(b))


def one(f):
    return lambda **k: f(*[k[n] for n in k])


X, Y = In(2, 3), In(2, 3)
V1, X3, X4 = In(3), In(2, 2, 3), In(1, 2, 3, 4)
ACTS = {
    'relu': relu, 'relu6': lambda e: clip(e, 0, 6), 'tanh': lambda e: fun('TANH', e), 'sigmoid': lambda e: fun('LOGISTIC', e),
    'hardswish': lambda e: e * clip(e + c_of(3), 0, 6) * c_of(Fraction(1, 6)), 'hardsigmoid': lambda e: clip(e + c_of(3), 0, 6) * c_of(Fraction(1, 6)),
    'silu': lambda e: e * fun('LOGISTIC', e), 'reciprocal': lambda e: e.pow(-1), 'rsqrt': lambda e: e.pow(-HALF)}
for n, f in ACTS.items():
    for k in ('aten::' + n, 'aten::' + n + '_'):
        for x in (X, X4):
            case(k, {'self': x}, one(el(f)))
for n, f in {'sin': lambda e: fun('SIN', e), 'cos': lambda e: fun('COS', e), 'sqrt': lambda e: e.pow(HALF), 'exp': lambda e: fun('EXP', e), 'log': lambda e: fun('LOG', e),
             'floor': lambda e: fun('FLOOR', e), 'neg': lambda e: -e, 'abs': pabs, 'sign': lambda e: fun('SIGN', e),
             'mish': lambda e: e * fun('TANH', fun('LOG', c_of(1) + fun('EXP', e))), 'round': lambda e: fun('ROUND', e)}.items():
    for x in (X, X4):
        case('aten::' + n, {'self': x}, one(el(f)))
case('aten::bitwise_not', {'self': In(2, 3, dtype='bool')}, one(el(lambda e: fun('LOGICAL_NOT', e))))

for s in (Fraction(1, 100), Fraction(1, 5)):
    for k in ('aten::leaky_relu', 'aten::leaky_relu_'):
        case(k, {'self': X, 'negative_slope': float(s)}, lambda self, negative_slope: el(lambda e: fun('LEAKY_RELU', e, c_of(Fraction(negative_slope))))(self))
for k in ('aten::elu', 'aten::elu_'):
    case(k, {'self': X, 'alpha': 1.0, 'scale': 1.0, 'input_scale': 1.0}, lambda self, **k: el(lambda e: fun('ELU', e))(self))
for lo, hi in ((0.0, 6.0), (-1.0, 1.0), (0.0, 1.0), (-2.0, 3.0)):
    for k in ('aten::hardtanh', 'aten::hardtanh_'):
        case(k, {'self': X, 'min_val': lo, 'max_val': hi}, lambda self, min_val, max_val: el(lambda e: clip(e, Fraction(min_val), Fraction(max_val)))(self))


def clamp(self, min=None, max=None):
    def f(e):
        e = e if min is None else pset('max')([e, c_of(Fraction(min))])
        return e if max is None else pset('min')([e, c_of(Fraction(max))])
    return el(f)(self)


for lo, hi in ((0, 6), (-1, 1), (0.0, None), (None, 6.0), (-2.5, 1.5), (None, 0), (0, 1)):
    case('aten::clamp', {'self': X, 'min': lo, 'max': hi}, clamp)
for v in (0, 0.5, -1):
    case('aten::clamp_min', {'self': X, 'min': v}, clamp)
    case('aten::clamp_max', {'self': X, 'max': v}, clamp)
case('aten::softplus', {'self': X, 'beta': 1, 'threshold': 20}, lambda self, **k: el(lambda e: fun('LOG', c_of(1) + fun('EXP', e)))(self))
case('aten::softplus', {'self': X, 'beta': 2, 'threshold': 20}, lambda self, **k: el(lambda e: fun('LOG', c_of(1) + fun('EXP', e * c_of(2))) * c_of(Fraction(1, 2)))(self))

# ---- two operands
PAIRS = [(X, Y), (X, V1), (V1, X), (X3, V1), (X, Par(2, 3)), (Par(2, 3), X), (Par(3), X3), (X, 2), (X, 1.5), (X, Con(2.5)), (In(2, 1, 3), X)]
ALPHA = {'add': lambda x, y, k: x + y * k, 'sub': lambda x, y, k: x - y * k, 'rsub': lambda x, y, k: y - x * k}
for n, f in ALPHA.items():
    for sfx in ('', '_'):
        for a, b in PAIRS:
            if sfx and (not isinstance(a, In) or a is V1 or isinstance(a, Par)):
                continue
            for al in (1, 2, 0.5):
                if al == 0.5 and not (a is X and b is Y):
                    continue
                case('aten::' + n + sfx, {'self': a, 'other': b, 'alpha': al}, lambda self, other, alpha, f=f: bin_(lambda x, y: f(x, y, c_of(Fraction(alpha))))(self, other))
    case('aten::' + n, {'self': X, 'other': Same('self'), 'alpha': 1}, lambda self, other, alpha, f=f: bin_(lambda x, y: f(x, y, c_of(1)))(self, self))
for n, f in {'mul': BIN['*'], 'div': BIN['/'], 'atan2': lambda x, y: fun('ATAN2', x, y), 'maximum': lambda x, y: pset('max')([x, y]), 'minimum': lambda x, y: pset('min')([x, y])}.items():
    for sfx in ('', '_'):
        if sfx and n not in ('mul', 'div'):
            continue
        for a, b in PAIRS:
            if sfx and (a is V1 or isinstance(a, Par)) or n in ('atan2', 'maximum', 'minimum') and not isinstance(b, In):
                continue
            case('aten::' + n + sfx, {'self': a, 'other': b}, lambda self, other, f=f: bin_(f)(self, other))
for n, op in {'eq': 'EQUAL', 'ne': 'NOT_EQUAL', 'gt': 'GREATER', 'lt': 'LESS', 'ge': 'GREATER_EQUAL', 'le': 'LESS_EQUAL', 'remainder': 'FLOOR_MOD'}.items():
    for a, b in PAIRS:
        case('aten::' + n, {'self': a, 'other': b}, lambda self, other, op=op: bin_(lambda x, y: fun(op, x, y))(self, other))
for a, b in PAIRS:
    case('aten::floor_divide', {'self': a, 'other': b}, lambda self, other: bin_(lambda x, y: fun('FLOOR_DIV', x, y))(self, other))
for n, op in {'bitwise_and': 'LOGICAL_AND', 'bitwise_or': 'LOGICAL_OR', '__and__': 'LOGICAL_AND', '__or__': 'LOGICAL_OR'}.items():
    for a, b in ((In(2, 3, dtype='bool'), In(2, 3, dtype='bool')), (In(2, 3, dtype='bool'), In(3, dtype='bool')), (Par(3, dtype='bool'), In(2, 3, dtype='bool'))):
        case('aten::' + n, {'self': a, 'other': b}, lambda self, other, op=op: bin_(lambda x, y: fun(op, x, y))(self, other))
for e in (2, 3, 0.5, Con(2.0), In(2, 3), -1):
    case('aten::pow', {'self': X, 'exponent': e}, lambda self, exponent: bin_(lambda x, y: x.pow(y.c) if y.is_const else fun('POW', x, y))(self, exponent))
case('aten::pow', {'self': 2, 'exponent': X}, lambda self, exponent: bin_(lambda x, y: fun('POW', x, y))(self, exponent))

# ---- moving elements
def perm_swap(rank, a, b):
    p = list(range(rank))
    p[a % rank], p[b % rank] = p[b % rank], p[a % rank]
    return p


for sh, a, b in (((2, 3), 0, 1), ((2, 3, 4), 1, 2), ((2, 3, 4), 0, -1), ((2, 3, 4), -2, 0), ((1, 2, 3, 4), 1, -1), ((2, 3), 0, 0)):
    case('aten::transpose', {'self': In(*sh), 'dim0': a, 'dim1': b}, lambda self, dim0, dim1: transpose(self, perm_swap(self.rank, dim0, dim1)))
for sh in ((2, 3), (3,)):
    case('aten::t', {'self': In(*sh)}, lambda self: transpose(self, [1, 0]) if self.rank == 2 else self)
for sh, p in (((2, 3), [1, 0]), ((2, 3, 4), [2, 0, 1]), ((2, 3, 4), [1, 2, 0]), ((1, 2, 3, 4), [0, 2, 3, 1]), ((1, 2, 3, 4), [0, -1, 1, 2]), ((2, 3, 4), [0, 1, 2]), ((2, 2, 2, 2, 3), [4, 2, 0, 3, 1])):
    case('aten::permute', {'self': In(*sh), 'dims': p}, lambda self, dims: transpose(self, dims))
for k, n in (('view', 'size'), ('reshape', 'shape')):
    for sh, to in (((2, 3), [3, 2]), ((2, 3), [-1]), ((2, 3, 4), [2, -1]), ((1, 2, 3, 4), [1, -1, 4]), ((2, 3), [2, 3]), ((4,), [1, 4, 1])):
        case('aten::' + k, {'self': In(*sh), n: to}, lambda self, size=None, shape=None: reshape(self, size or shape))
for sh, a, b in (((2, 3, 4), 1, -1), ((2, 3, 4), 0, 1), ((1, 2, 3, 4), 1, 2), ((1, 2, 3, 4), 0, -1), ((2, 3), 1, -1), ((1, 2, 3, 4), -3, -2)):
    def flat(self, start_dim, end_dim):
        a, b = start_dim % self.rank, end_dim % self.rank
        return reshape(self, self.shape[:a] + (size(self.shape[a:b + 1]),) + self.shape[b + 1:])
    case('aten::flatten', {'self': In(*sh), 'start_dim': a, 'end_dim': b}, flat)
for sh, d in (((1, 3), 0), ((2, 1, 3), 1), ((2, 3, 1), -1), ((2, 3), 0), ((1, 1, 3), 1)):
    case('aten::squeeze', {'self': In(*sh), 'dim': d}, lambda self, dim: reshape(self, [s for i, s in enumerate(self.shape) if i != dim % self.rank or s != 1]))
case('aten::squeeze', {'self': In(1, 2, 1)}, lambda self: reshape(self, [2]))
for sh, d in (((2, 3), 0), ((2, 3), 1), ((2, 3), 2), ((2, 3), -1), ((2, 3), -2)):
    case('aten::unsqueeze', {'self': In(*sh), 'dim': d}, lambda self, dim: reshape(self, list(self.shape[:dim % (self.rank + 1)]) + [1] + list(self.shape[dim % (self.rank + 1):])))
for sh, d, i in (((2, 3), 0, 1), ((2, 3), 1, 2), ((2, 3), -1, -1), ((2, 3, 4), 1, 0), ((2, 3, 4), -2, -3), ((2, 3, 4), 2, -2), ((3,), 0, 1)):
    def select(self, dim, index):
        r = take(self, [index], dim)
        return reshape(r, [s for j, s in enumerate(r.shape) if j != dim % self.rank])
    case('aten::select', {'self': In(*sh), 'dim': d, 'index': i}, select)
BIG = 9223372036854775807
for sh, d, s, e, st in (((4, 3), 0, 1, 3, 1), ((4, 3), 0, 0, BIG, 1), ((4, 3), 0, 0, BIG, 2), ((5, 3), 0, 1, BIG, 2), ((2, 5), 1, 1, 4, 2), ((2, 5), -1, -3, BIG, 1), ((2, 5), 1, 0, -1, 1), ((2, 5), 1, -4, -1, 2),
                        ((2, 3, 4), 1, 1, 2, 1), ((2, 5), 1, None, 3, 1), ((2, 5), 1, 2, None, 1), ((2, 5), 1, None, None, 1), ((2, 5), 1, 1, 100, 1), ((2, 5), 1, -100, 2, 1), ((1, 2, 3, 4), 3, 0, 2, 1)):
    case('aten::slice', {'self': In(*sh), 'dim': d, 'start': s, 'end': e, 'step': st},
         lambda self, dim, start, end, step: take(self, list(range(*slice(start, end, step).indices(self.shape[dim]))), dim))
for sh, ds in (((2, 3), [0]), ((2, 3), [1]), ((2, 3), [-1]), ((2, 3), [0, 1]), ((2, 3, 4), [0, 2]), ((2, 3, 4), [1, -1]), ((1, 2, 3, 4), [3, 1]), ((2, 3, 4), [0, 1, 2]), ((2, 2, 3, 4), [3, 0, -2]), ((2, 2, 2, 3), [0, 1, 2, 3]), ((2, 3, 4), [-1, -2, -3])):
    def flip(self, dims):
        for d in dims:
            self = take(self, list(range(self.shape[d]))[::-1], d)
        return self
    case('aten::flip', {'self': In(*sh), 'dims': ds}, flip)
for parts in ([X, Y], [X, In(1, 3)], [X, Par(2, 3)], [X, Same('tensors.0')], [X, Y, In(2, 3)], [X]):
    for d in (0, 1, -1):
        ts = L(parts)
        if any(isinstance(p, In) and p.shape == (1, 3) for p in parts) and d != 0 or any(isinstance(p, Same) for p in parts):
            continue
        case('aten::cat', {'tensors': ts, 'dim': d}, lambda tensors, dim: concat(tensors, dim))
for parts in ([X, Y], [X, Par(2, 3)], [X, Y, In(2, 3)], [X]):
    for d in (0, 1, 2, -1, -2):
        case('aten::stack', {'tensors': L(parts), 'dim': d},
             lambda tensors, dim: concat([reshape(t, list(t.shape[:dim % (t.rank + 1)]) + [1] + list(t.shape[dim % (t.rank + 1):])) for t in tensors], dim))


def pieces(a, sizes, dim):
    out, at = [], 0
    for s in sizes:
        out.append(take(a, list(range(at, at + s)), dim))
        at += s
    return out


def evenly(n, k):
    return [min(k, n - i) for i in range(0, n, k)]


for sh, k, d in (((4, 3), 2, 0), ((2, 6), 3, 1), ((2, 6), 3, -1), ((2, 5), 3, 1), ((1, 4, 2, 2), 2, 1), ((2, 4), 3, 1), ((2, 3), 1, 1)):
    case('aten::chunk', {'self': In(*sh), 'chunks': k, 'dim': d}, lambda self, chunks, dim: pieces(self, evenly(self.shape[dim], -(-self.shape[dim] // chunks)), dim))
    case('aten::split', {'self': In(*sh), 'split_size': k, 'dim': d}, lambda self, split_size, dim: pieces(self, evenly(self.shape[dim], split_size), dim))
for sh, ks, d in (((4, 3), [1, 3], 0), ((2, 6), [1, 2, 3], 1), ((2, 6), [3, 3], -1), ((2, 2, 5), [4, 1], 2), ((2, 3), [3], 1)):
    case('aten::split_with_sizes', {'self': In(*sh), 'split_sizes': ks, 'dim': d}, lambda self, split_sizes, dim: pieces(self, split_sizes, dim))
for sh, d in (((2, 3), 0), ((2, 3), 1), ((2, 3), -1), ((2, 2, 3), 1), ((1, 3), 0)):
    case('aten::unbind', {'self': In(*sh), 'dim': d}, lambda self, dim: [reshape(p, [s for j, s in enumerate(self.shape) if j != dim % self.rank]) for p in pieces(self, [1] * self.shape[dim], dim)])
for sh, r in (((2, 3), [2, 1]), ((2, 3), [1, 2]), ((2, 3), [2, 2]), ((3,), [2, 2]), ((2, 3), [2, 1, 3]), ((1, 2, 3), [1, 1, 2]), ((2, 3), [1, 1])):
    case('aten::repeat', {'self': In(*sh), 'repeats': r}, lambda self, repeats: tile(self, repeats))
for sh, r, d in (((2, 3), 2, 0), ((2, 3), 2, 1), ((2, 3), 3, -1), ((2, 3), 2, None), ((3,), 2, 0), ((2, 3, 2), 2, 1)):
    case('aten::repeat_interleave', {'self': In(*sh), 'repeats': r, 'dim': d, 'output_size': None}, lambda self, repeats, dim, output_size: repeat_each(self, repeats, dim))
for sh, to in (((1, 3), [2, 3]), ((1, 3), [2, -1]), ((3,), [2, 3]), ((2, 1), [2, 3]), ((2, 1, 3), [-1, 2, -1]), ((2, 3), [2, 3]), ((1, 3), [2, 2, 3]), ((1, 1), [2, 3])):
    def expand(self, size, implicit=None):
        n = len(size) - self.rank
        return broadcast(self, [self.shape[i - n] if s == -1 else s for i, s in enumerate(size)])
    case('aten::expand', {'self': In(*sh), 'size': to, 'implicit': False}, expand)
for a, b in (((1, 3), (2, 3)), ((3,), (2, 3)), ((2, 1), (2, 3)), ((2, 3), (2, 3))):
    case('aten::expand_as', {'self': In(*a), 'other': In(*b)}, lambda self, other: broadcast(self, other.shape))
for sh, s, d in (((4,), [1], [0]), ((2, 3), [1], [1]), ((2, 3), [-1], [1]), ((2, 3), [1, 2], [0, 1]), ((2, 3), [4], [1]), ((2, 3), [1], []), ((2, 4, 3), [2, -1], [1, -1]), ((2, 3), [0], [0])):
    def roll(self, shifts, dims):
        sh = self.shape
        if not dims:
            self, dims = reshape(self, [-1]), [0]
        for s, d in zip(shifts, dims):
            n = self.shape[d]
            self = take(self, [(i - s) % n for i in range(n)], d)
        return reshape(self, sh)
    case('aten::roll', {'self': In(*sh), 'shifts': s, 'dims': d}, roll)
for sh, f in (((1, 4, 2, 2), 2), ((1, 9, 2, 1), 3), ((2, 4, 1, 3), 2), ((1, 8, 2, 2), 2)):
    def shuffle(self, upscale_factor):
        r, (n, c, h, w) = upscale_factor, self.shape
        x = transpose(reshape(self, [n, c // r // r, r, r, h, w]), [0, 1, 4, 2, 5, 3])
        return reshape(x, [n, c // r // r, h * r, w * r])
    case('aten::pixel_shuffle', {'self': In(*sh), 'upscale_factor': f}, shuffle)
for sh, f in (((1, 1, 4, 4), 2), ((1, 2, 2, 4), 2), ((2, 1, 3, 3), 3)):
    def unshuffle(self, downscale_factor):
        r, (n, c, h, w) = downscale_factor, self.shape
        x = transpose(reshape(self, [n, c, h // r, r, w // r, r]), [0, 1, 3, 5, 2, 4])
        return reshape(x, [n, c * r * r, h // r, w // r])
    case('aten::pixel_unshuffle', {'self': In(*sh), 'downscale_factor': f}, unshuffle)
for sh, d, ix in (((4, 3), 0, [2, 0]), ((2, 3), 1, [1, 1, 2]), ((2, 3), -1, [0]), ((2, 2, 3), 1, [1, 0])):
    case('aten::index_select', {'self': In(*sh), 'dim': d, 'index': Con(ix, 'int64')}, lambda self, dim, index: take(self, [int(e.c) for e in index.el], dim))
case('aten::embedding', {'weight': Par(4, 3), 'indices': Con([2, 0, 3], 'int64'), 'padding_idx': -1, 'scale_grad_by_freq': False, 'sparse': False}, lambda weight, indices, **k: take(weight, [int(e.c) for e in indices.el], 0))


def gather(self, dim, index, sparse_grad=None):
    d = dim % self.rank
    out = []
    for i in indices(index.shape):
        out.append(self.at(i[:d] + (int(index.at(i).c),) + i[d + 1:]))
    return self.but(index.shape, out)


for sh, d, ix in (((2, 3), 1, [[0, 2], [1, 0]]), ((2, 3), 0, [[0, 1, 1]]), ((2, 3), -1, [[2], [1]]), ((3,), 0, [2, 0]), ((2, 2, 2), 1, [[[0, 1]], [[1, 0]]])):
    case('aten::gather', {'self': In(*sh), 'dim': d, 'index': Con(ix, 'int64'), 'sparse_grad': False}, gather)


def pad(self, pad, value=0, mode='constant'):
    n = len(pad) // 2
    for i in range(n):
        ax = self.rank - 1 - i
        lo, hi = pad[2 * i], pad[2 * i + 1]
        m = self.shape[ax]
        if mode == 'reflect':
            self = take(self, [abs(j) if j < m else 2 * m - 2 - j for j in range(-lo, m + hi)], ax)
            continue
        v = Poly.const(Fraction(value or 0))
        sh = list(self.shape)
        if lo < 0 or hi < 0:
            self = take(self, list(range(max(0, -lo), m + min(0, hi))), ax)
            lo, hi = max(lo, 0), max(hi, 0)
            sh = list(self.shape)
        bl = lambda k: Arr(sh[:ax] + [k] + sh[ax + 1:], [v] * size(sh[:ax] + [k] + sh[ax + 1:]), self.dtype)
        self = concat([t for t in (bl(lo), self, bl(hi)) if t.shape[ax]], ax)
    return self


PADS = [((2, 3), [1, 2]), ((2, 3), [1, 0, 0, 2]), ((1, 2, 3, 3), [1, 1, 1, 1]), ((1, 2, 3, 3), [0, 1, 2, 0]), ((2, 3), [0, 0]), ((1, 2, 3), [1, 1])]
for sh, p in PADS + [((2, 4), [-1, 0]), ((2, 4), [-1, 2])]:
    for v in (0, 1.5, None):
        if v is not None:
            case('aten::constant_pad_nd', {'self': In(*sh), 'pad': p, 'value': v}, pad)
        case('aten::pad', {'self': In(*sh), 'pad': p, 'mode': 'constant', 'value': v}, pad)
    for v in (0, 2):
        case('aten::constant_pad_nd', {'self': In(*sh, dtype='int32'), 'pad': p, 'value': v}, pad)
for sh, p in (((1, 2, 3, 3), [1, 2, 1, 0]), ((2, 3, 4), [1, 1, 2, 0])):
    case('aten::reflection_pad2d', {'self': In(*sh), 'padding': p}, lambda self, padding: pad(self, padding, mode='reflect'))
    case('aten::pad', {'self': In(*sh), 'pad': p, 'mode': 'reflect', 'value': None}, pad)
for sh, p in (((2, 3), [1, 2]), ((1, 2, 3), [2, 0])):
    case('aten::reflection_pad1d', {'self': In(*sh), 'padding': p}, lambda self, padding: pad(self, padding, mode='reflect'))
case('aten::contiguous', {'self': X, 'memory_format': 0}, lambda self, **k: self)
case('aten::clone', {'self': X, 'memory_format': None}, lambda self, **k: self)
for p in (0.5, 0.0):
    for k in ('aten::dropout', 'aten::dropout_', 'aten::feature_dropout'):
        case(k, {'input': X, 'p': p, 'train': False}, lambda input, **k: input)
case('aten::glu', {'self': In(2, 4), 'dim': -1}, lambda self, dim: zipmap(lambda a, b: a * fun('LOGISTIC', b), *pieces(self, [self.shape[dim] // 2] * 2, dim)))
case('aten::glu', {'self': In(4, 3), 'dim': 0}, lambda self, dim: zipmap(lambda a, b: a * fun('LOGISTIC', b), *pieces(self, [self.shape[dim] // 2] * 2, dim)))
case('aten::glu', {'self': In(1, 4, 2, 2), 'dim': 1}, lambda self, dim: zipmap(lambda a, b: a * fun('LOGISTIC', b), *pieces(self, [self.shape[dim] // 2] * 2, dim)))

# ---- reductions
mean = lambda es: psum(es) * Poly.const(Fraction(1, len(es)))
REDUCE = [((2, 3), [0]), ((2, 3), [1]), ((2, 3), [-1]), ((2, 3), [0, 1]), ((2, 3, 4), [0, 2]), ((2, 3, 4), [-1, 0]), ((1, 2, 3, 4), [2, 3]), ((1, 2, 3, 4), [1])]
for n, f in (('mean', mean), ('sum', psum)):
    for sh, ds in REDUCE:
        for kd in (False, True):
            case('aten::' + n, {'self': In(*sh), 'dim': ds, 'keepdim': kd, 'dtype': None}, lambda self, dim, keepdim, dtype, f=f: reduce(self, dim, keepdim, f))
    case('aten::' + n, {'self': In(2, 3), 'dtype': None}, lambda self, dtype, f=f: reduce(self, None, False, f))
for n, f in (('amax', pset('max')), ('amin', pset('min'))):
    for sh, ds in REDUCE:
        for kd in (False, True):
            case('aten::' + n, {'self': In(*sh), 'dim': ds, 'keepdim': kd}, lambda self, dim, keepdim, f=f: reduce(self, dim, keepdim, f))
for n, f in (('prod', pprod),):
    for sh, ds in REDUCE:
        if len(ds) == 1:
            for kd in (False, True):
                case('aten::' + n, {'self': In(*sh), 'dim': ds[0], 'keepdim': kd, 'dtype': None}, lambda self, dim, keepdim, dtype, f=f: reduce(self, dim, keepdim, f))
    case('aten::' + n, {'self': In(2, 3), 'dtype': None}, lambda self, dtype, f=f: reduce(self, None, False, f))
for n, f in (('max', pset('max')), ('min', pset('min'))):
    for sh, ds in REDUCE:
        if len(ds) == 1:
            for kd in (False, True):
                case('aten::' + n, {'self': In(*sh), 'dim': ds[0], 'keepdim': kd}, lambda self, dim, keepdim, f=f: (reduce(self, dim, keepdim, f), None), out=2)
    case('aten::' + n, {'self': In(2, 3)}, lambda self, f=f: reduce(self, None, False, f))
    case('aten::' + n, {'self': In(2, 3), 'other': In(3)}, lambda self, other, f=f: bin_(lambda x, y: f([x, y]))(self, other))


def arg(name):
    def f(self, dim, keepdim):
        if dim is None:
            r = Arr((), [fun(name, *self.el)], 'int64')
            return reshape(r, [1] * self.rank) if keepdim else r
        d = dim % self.rank
        sh = self.shape[:d] + self.shape[d + 1:]
        r = Arr(sh, [fun(name, *[self.at(i[:d] + (k,) + i[d:]) for k in range(self.shape[d])]) for i in indices(sh)], 'int64')
        return reshape(r, self.shape[:d] + (1,) + self.shape[d + 1:]) if keepdim else r
    return f


for n in ('argmax', 'argmin'):
    for sh, d in (((2, 3), 0), ((2, 3), 1), ((2, 3), -1), ((2, 3, 2), 1), ((1, 2, 3, 2), -2), ((2, 3), None)):
        for kd in (False, True):
            case('aten::' + n, {'self': In(*sh), 'dim': d, 'keepdim': kd}, arg('ARG_MAX' if n == 'argmax' else 'ARG_MIN'))


def softmax(self, dim, dtype=None, half_to_float=None, name='SOFTMAX'):
    d = dim % self.rank
    return self.but(el=[fun(name, self.at(i), frozenset(self.at(i[:d] + (k,) + i[d + 1:]) for k in range(self.shape[d])), c_of(1)) for i in indices(self.shape)])


for n in ('softmax', 'log_softmax'):
    for sh, d in (((2, 3), 1), ((2, 3), 0), ((2, 3), -1), ((2, 3, 4), 1), ((2, 3, 4), -1), ((1, 2, 3, 2), 1), ((1, 2, 3, 2), -2), ((3,), 0)):
        case('aten::' + n, {'self': In(*sh), 'dim': d, 'dtype': None}, lambda self, dim, dtype, n=n: softmax(self, dim, name=n.upper()))
for sh, d in (((2, 3), 0), ((2, 3), 1), ((2, 3), -1), ((2, 3, 2), 1)):
    def cumsum(self, dim, dtype):
        d = dim % self.rank
        return self.but(el=[psum([self.at(i[:d] + (k,) + i[d + 1:]) for k in range(i[d] + 1)]) for i in indices(self.shape)])
    case('aten::cumsum', {'self': In(*sh), 'dim': d, 'dtype': None}, cumsum)


def var(es, corr):
    m = mean(es)
    return psum([(e - m) * (e - m) for e in es]) * Poly.const(Fraction(1, len(es) - corr))


for n, g in (('var', lambda e: e), ('std', lambda e: e.pow(HALF))):
    for sh, ds in (((2, 3), [1]), ((2, 3), [-1]), ((2, 3), [0, 1]), ((2, 2, 3), [0, 2])):
        for kd in (False, True):
            for co in (0, 1):
                case('aten::' + n, {'self': In(*sh), 'dim': ds, 'unbiased': bool(co), 'keepdim': kd}, lambda self, dim, unbiased, keepdim, g=g: reduce(self, dim, keepdim, lambda es: g(var(es, int(unbiased)))))
                case('aten::' + n, {'self': In(*sh), 'dim': ds, 'correction': co, 'keepdim': kd}, lambda self, dim, correction, keepdim, g=g: reduce(self, dim, keepdim, lambda es: g(var(es, correction))))
    for co in (True, False):
        case('aten::' + n, {'self': In(2, 3), 'unbiased': co}, lambda self, unbiased, g=g: reduce(self, None, False, lambda es: g(var(es, int(unbiased)))))


def norm(p):
    def f(es):
        if p == 1:
            return psum([pabs(e) for e in es])
        if p == 2:
            return psum([e * e for e in es]).pow(HALF)
        return psum([pabs(e).pow(Fraction(p)) for e in es]).pow(Fraction(1) / Fraction(p))
    return f


for p in (1, 2, 3, None):
    for sh, ds in (((2, 3), [1]), ((2, 3), [-1]), ((2, 3), [0, 1]), ((1, 2, 3), [0, 2])):
        for kd in (False, True):
            case('aten::norm', {'self': In(*sh), 'p': p, 'dim': ds, 'keepdim': kd}, lambda self, p, dim, keepdim: reduce(self, dim, keepdim, norm(p or 2)))
            if p:
                case('aten::linalg_vector_norm', {'self': In(*sh), 'ord': p, 'dim': ds, 'keepdim': kd, 'dtype': None}, lambda self, ord, dim, keepdim, dtype: reduce(self, dim, keepdim, norm(ord)))
            else:
                case('aten::frobenius_norm', {'self': In(*sh), 'dim': ds, 'keepdim': kd}, lambda self, dim, keepdim: reduce(self, dim, keepdim, norm(2)))
    case('aten::norm', {'self': In(2, 3), 'p': p or 2}, lambda self, p: reduce(self, None, False, norm(p)))

# ---- products
MM = lambda a, b: matmul(a, b)
for a, b in ((In(2, 3), In(3, 4)), (In(2, 3), Par(3, 4)), (Par(2, 3), In(3, 4))):
    case('aten::mm', {'self': a, 'mat2': b}, lambda self, mat2: matmul(self, mat2))
for a, b in ((In(2, 2, 3), In(2, 3, 2)), (In(2, 2, 3), Par(2, 3, 2))):
    case('aten::bmm', {'self': a, 'mat2': b}, lambda self, mat2: matmul(self, mat2))
for a, b in ((In(2, 3), In(3, 4)), (In(2, 3), Par(3, 4)), (Par(2, 3), In(3, 4)), (In(2, 2, 3), In(2, 3, 2)), (In(2, 2, 3), In(3, 2)), (In(2, 2, 3), Par(3, 2)), (In(2, 3), In(2, 3, 2)), (In(1, 2, 2, 3), In(1, 2, 3, 2)),
             (In(2, 3), In(3)), (In(2, 3), Par(3)), (In(3), In(3, 2)), (In(3), In(3)), (In(2, 2, 3), In(3))):
    case('aten::matmul', {'self': a, 'other': b}, lambda self, other: matmul(self, other))
for x in ((2, 3), (1, 3), (2, 2, 3), (3,), (1, 2, 2, 3)):
    for w, b in ((Par(4, 3), Par(4)), (Par(4, 3), None), (In(4, 3), In(4)), (In(4, 3), None)):
        case('aten::linear', {'input': In(*x), 'weight': w, 'bias': b},
             lambda input, weight, bias: (lambda v: v if bias is None else zipmap(BIN['+'], v, bias))(matmul(input, transpose(weight, [1, 0]))))


def affine(beta, a, alpha, b):
    return zipmap(lambda p, q: p * c_of(Fraction(beta)) + q * c_of(Fraction(alpha)), a, b)


for be, al in ((1, 1), (0.5, 1), (1, 2), (0.5, 2), (0, 1)):
    for c in (Par(4), Par(2, 4), In(2, 4), In(4), Par(1, 4)):
        for m in (Par(3, 4), In(3, 4)):
            case('aten::addmm', {'self': c, 'mat1': In(2, 3), 'mat2': m, 'beta': be, 'alpha': al}, lambda self, mat1, mat2, beta, alpha: affine(beta, self, alpha, matmul(mat1, mat2)))
    case('aten::baddbmm', {'self': In(2, 2, 4), 'batch1': In(2, 2, 3), 'batch2': In(2, 3, 4), 'beta': be, 'alpha': al}, lambda self, batch1, batch2, beta, alpha: affine(beta, self, alpha, matmul(batch1, batch2)))
    case('aten::addbmm', {'self': In(2, 4), 'batch1': In(2, 2, 3), 'batch2': In(2, 3, 4), 'beta': be, 'alpha': al},
         lambda self, batch1, batch2, beta, alpha: affine(beta, self, alpha, reduce(matmul(batch1, batch2), 0, False, psum)))


# ---- convolution, pooling, normalisation
def conv(input, weight, bias, stride, padding, dilation, transposed, output_padding, groups, *r, **k):
    one_d = weight.rank == 3
    if transposed:
        from .sem import deconv_nchw
        return deconv_nchw(input, weight, bias, stride, padding, dilation, output_padding, groups)
    from .sem import conv_nchw
    return conv_nchw(input, weight, bias, stride, padding, dilation, groups)


FLAGS = {'benchmark': False, 'deterministic': False, 'cudnn_enabled': True, 'allow_tf32': True}
for x, w, s, p, d, t, op, g in (((1, 2, 3, 3), (2, 2, 2, 2), (1, 1), (0, 0), (1, 1), False, (0, 0), 1), ((2, 2, 4, 5), (3, 2, 3, 2), (2, 1), (1, 0), (1, 1), False, (0, 0), 1), ((1, 1, 5, 4), (2, 1, 2, 2), (1, 2), (1, 1), (2, 1), False, (0, 0), 1),
                                ((1, 2, 3, 3), (2, 1, 3, 3), (1, 1), (1, 1), (1, 1), False, (0, 0), 2), ((1, 2, 3, 3), (4, 1, 2, 2), (1, 1), (0, 0), (1, 1), False, (0, 0), 2), ((1, 4, 3, 2), (4, 2, 2, 1), (1, 1), (0, 0), (1, 1), False, (0, 0), 2),
                                ((1, 2, 2, 3), (2, 3, 2, 2), (1, 1), (0, 0), (1, 1), True, (0, 0), 1), ((1, 2, 2, 2), (2, 1, 3, 2), (2, 1), (1, 0), (1, 1), True, (1, 0), 1), ((1, 2, 2, 2), (2, 1, 2, 2), (2, 2), (0, 0), (1, 1), True, (0, 0), 2),
                                ((1, 2, 4), (3, 2, 2), (1,), (1,), (1,), False, (0,), 1), ((1, 2, 5), (2, 1, 3), (2,), (0,), (1,), False, (0,), 2), ((1, 2, 3), (2, 1, 3), (2,), (1,), (1,), True, (1,), 1), ((1, 2, 6), (2, 2, 2), (1,), (0,), (2,), False, (0,), 1),
                                ((1, 1, 2, 3, 2), (2, 1, 2, 2, 1), (1, 1, 1), (0, 0, 0), (1, 1, 1), False, (0, 0, 0), 1), ((1, 1, 3, 3, 3), (1, 1, 2, 2, 2), (1, 2, 1), (1, 0, 1), (1, 1, 1), False, (0, 0, 0), 1)):
    for b in (True, False):
        bias = Par(w[1] * g if t else w[0]) if b else None
        case('aten::_convolution', dict({'input': In(*x), 'weight': Par(*w), 'bias': bias, 'stride': list(s), 'padding': list(p), 'dilation': list(d), 'transposed': t, 'output_padding': list(op), 'groups': g}, **FLAGS), conv)
        if not t and len(s) == 2:
            case('aten::conv2d', {'input': In(*x), 'weight': Par(*w), 'bias': bias, 'stride': list(s), 'padding': list(p), 'dilation': list(d), 'groups': g},
                 lambda input, weight, bias, stride, padding, dilation, groups: conv(input, weight, bias, stride, padding, dilation, False, None, groups))


def pool(self, ks, st, pd, dl, ceil, how, count_pad=True, divisor=None):
    n = len(ks)
    st = st or ks
    lead = self.shape[:self.rank - n]
    sp = self.shape[self.rank - n:]
    osz = []
    for m, k, s, p, d in zip(sp, ks, st, pd, dl):
        eff = d * (k - 1) + 1
        o = (m + 2 * p - eff + (s - 1 if ceil else 0)) // s + 1
        if ceil and (o - 1) * s >= m + p:
            o -= 1
        osz.append(o)
    out = []
    for i in indices(lead + tuple(osz)):
        es, cnt = [], 1
        for m, y, k, s, p in zip(sp, i[len(lead):], ks, st, pd):
            cnt *= min(y * s - p + k, m + p) - (y * s - p)
        for kk in indices(ks):
            q = [y * s - p + j * d for y, s, p, j, d in zip(i[len(lead):], st, pd, kk, dl)]
            if all(0 <= v < m for v, m in zip(q, sp)):
                es.append(self.at(i[:len(lead)] + tuple(q)))
        out.append(pset('max')(es) if how == 'max' else psum(es) * Poly.const(Fraction(1, divisor or (cnt if count_pad else len(es)))))
    return self.but(lead + tuple(osz), out)


P2 = [((1, 1, 4, 4), [2, 2], [2, 2], [0, 0], False), ((1, 2, 3, 4), [2, 3], [1, 1], [0, 0], False), ((1, 1, 5, 4), [3, 2], [2, 2], [1, 1], False), ((1, 1, 5, 5), [2, 2], [2, 2], [0, 0], True), ((1, 1, 4, 4), [3, 3], [1, 1], [1, 1], False),
      ((1, 1, 4, 4), [3, 3], [2, 2], [1, 1], True), ((1, 1, 5, 4), [2, 2], [], [0, 0], False), ((1, 1, 5, 5), [3, 3], [2, 2], [1, 1], False), ((1, 1, 4, 5), [2, 2], [2, 2], [1, 0], False), ((1, 1, 5, 5), [3, 3], [3, 3], [0, 0], True), ((2, 4, 4), [2, 2], [2, 2], [0, 0], False)]
P2 += [((1, 1, 4, 4), [2, 2], [1, 1], [1, 1], False), ((1, 1, 4, 3), [3, 2], [1, 1], [1, 1], False), ((1, 1, 3, 3), [3, 3], [1, 1], [1, 1], True), ((1, 1, 4, 3), [1, 3], [1, 1], [0, 1], False)]
for x, k, s, p, c in P2:
    case('aten::max_pool2d', {'self': In(*x), 'kernel_size': k, 'stride': s, 'padding': p, 'dilation': [1, 1], 'ceil_mode': c},
         lambda self, kernel_size, stride, padding, dilation, ceil_mode: pool(self, kernel_size, stride, padding, dilation, ceil_mode, 'max'))
    for cp, dv in ((True, None), (False, None), (True, 3), (False, 3), (True, k[0] * k[1]), (False, k[0] * k[1])):
        case('aten::avg_pool2d', {'self': In(*x), 'kernel_size': k, 'stride': s, 'padding': p, 'ceil_mode': c, 'count_include_pad': cp, 'divisor_override': dv},
             lambda self, kernel_size, stride, padding, ceil_mode, count_include_pad, divisor_override: pool(self, kernel_size, stride, padding, [1] * 2, ceil_mode, 'avg', count_include_pad, divisor_override))
case('aten::max_pool2d', {'self': In(1, 1, 5, 5), 'kernel_size': [2, 2], 'stride': [1, 1], 'padding': [0, 0], 'dilation': [2, 2], 'ceil_mode': False}, lambda self, kernel_size, stride, padding, dilation, ceil_mode: pool(self, kernel_size, stride, padding, dilation, ceil_mode, 'max'))
for x, k, s, p, c in (((1, 2, 4), [2], [2], [0], False), ((1, 1, 5), [3], [2], [1], False), ((1, 1, 5), [2], [2], [0], True), ((1, 1, 5), [3], [1], [1], False), ((1, 1, 5), [2], [], [0], False)):
    case('aten::max_pool1d', {'self': In(*x), 'kernel_size': k, 'stride': s, 'padding': p, 'dilation': [1], 'ceil_mode': c},
         lambda self, kernel_size, stride, padding, dilation, ceil_mode: pool(self, kernel_size, stride, padding, dilation, ceil_mode, 'max'))
    for cp in (True, False):
        case('aten::avg_pool1d', {'self': In(*x), 'kernel_size': k, 'stride': s, 'padding': p, 'ceil_mode': c, 'count_include_pad': cp},
             lambda self, kernel_size, stride, padding, ceil_mode, count_include_pad: pool(self, kernel_size, stride, padding, [1], ceil_mode, 'avg', count_include_pad))


def adaptive(how):
    def f(self, output_size):
        n = len(output_size)
        lead, sp = self.shape[:self.rank - n], self.shape[self.rank - n:]
        osz = tuple(m if o is None else o for m, o in zip(sp, output_size))
        out = []
        for i in indices(lead + osz):
            rs = [range(y * m // o, -(-(y + 1) * m // o)) for y, m, o in zip(i[len(lead):], sp, osz)]
            es = [self.at(i[:len(lead)] + tuple(q)) for q in itertools.product(*rs)]
            out.append(pset('max')(es) if how == 'max' else mean(es))
        r = self.but(lead + osz, out)
        return r if how == 'avg' else (r, None)
    return f


import itertools
for x, o in (((1, 2, 3, 3), [1, 1]), ((1, 1, 4, 4), [2, 2]), ((1, 1, 4, 6), [2, 3]), ((1, 1, 3, 2), [3, 2]), ((1, 1, 4, 4), [1, 2]), ((1, 1, 5, 4), [2, 2]), ((2, 3, 3), [1, 1]), ((1, 1, 4, 3), [4, 1])):
    case('aten::adaptive_avg_pool2d', {'self': In(*x), 'output_size': o}, adaptive('avg'))
    case('aten::adaptive_max_pool2d', {'self': In(*x), 'output_size': o}, adaptive('max'))
for x, o in (((1, 2, 4), [1]), ((1, 1, 4), [2]), ((1, 1, 5), [2])):
    case('aten::adaptive_avg_pool1d', {'self': In(*x), 'output_size': o}, adaptive('avg'))
    case('aten::adaptive_max_pool1d', {'self': In(*x), 'output_size': o}, adaptive('max'))
EPS = 0.125
HEPS = Fraction(1, 8)


def normed(es, e, g, b):
    v = (e - mean(es)) * (var(es, 0) + c_of(HEPS)).pow(-HALF)
    return v * g + b


for x in ((2, 3, 2), (2, 3), (1, 2, 2, 2)):
    for w, b in ((True, True), (False, False)):
        def bn(input, weight, bias, running_mean, running_var, **k):
            sh = [1, input.shape[1]] + [1] * (input.rank - 2)
            v = zipmap(BIN['*'], zipmap(BIN['-'], input, reshape(running_mean, sh)), reshape(running_var.but(el=[(e + c_of(HEPS)).pow(-HALF) for e in running_var.el]), sh))
            v = zipmap(BIN['*'], v, reshape(weight, sh)) if weight is not None else v
            return zipmap(BIN['+'], v, reshape(bias, sh)) if bias is not None else v
        n = x[1]
        case('aten::batch_norm', {'input': In(*x), 'weight': Par(n) if w else None, 'bias': Par(n) if b else None, 'running_mean': Par(n), 'running_var': Par(n), 'training': False, 'momentum': 0.1, 'eps': EPS, 'cudnn_enabled': True}, bn)
for x, nm in (((2, 3), [3]), ((2, 2, 3), [3]), ((2, 2, 2), [2, 2]), ((1, 2, 2, 2), [2])):
    for w, b in ((True, True), (True, False), (False, False)):
        def ln(input, normalized_shape, weight, bias, **k):
            n = len(normalized_shape)
            out = []
            for i in indices(input.shape):
                es = [input.at(i[:-n] + t) for t in indices(input.shape[-n:])]
                out.append(normed(es, input.at(i), weight.at(i[-n:]) if weight is not None else c_of(1), bias.at(i[-n:]) if bias is not None else c_of(0)))
            return input.but(el=out)
        case('aten::layer_norm', {'input': In(*x), 'normalized_shape': nm, 'weight': Par(*nm) if w else None, 'bias': Par(*nm) if b else None, 'eps': EPS, 'cudnn_enable': True}, ln)
for x in ((1, 2, 2, 2), (2, 2, 3), (1, 3, 2, 2)):
    for w in (True, False):
        def inorm(input, weight, bias, **k):
            out = []
            for i in indices(input.shape):
                es = [input.at(i[:2] + t) for t in indices(input.shape[2:])]
                out.append(normed(es, input.at(i), weight.el[i[1]] if weight is not None else c_of(1), bias.el[i[1]] if bias is not None else c_of(0)))
            return input.but(el=out)
        case('aten::instance_norm', {'input': In(*x), 'weight': Par(x[1]) if w else None, 'bias': Par(x[1]) if w else None, 'running_mean': None, 'running_var': None, 'use_input_stats': True, 'momentum': 0.1, 'eps': EPS, 'cudnn_enabled': True}, inorm)
for x, g in (((1, 4, 2, 1), 2), ((1, 2, 2, 2), 1), ((2, 4, 2), 2), ((1, 2, 2, 2), 2)):
    for w in (True, False):
        def gn(input, num_groups, weight, bias, **k):
            k = input.shape[1] // num_groups
            out = []
            for i in indices(input.shape):
                c0 = i[1] // k * k
                es = [input.at((i[0], c) + t) for c in range(c0, c0 + k) for t in indices(input.shape[2:])]
                out.append(normed(es, input.at(i), weight.el[i[1]] if weight is not None else c_of(1), bias.el[i[1]] if bias is not None else c_of(0)))
            return input.but(el=out)
        case('aten::group_norm', {'input': In(*x), 'num_groups': g, 'weight': Par(x[1]) if w else None, 'bias': Par(x[1]) if w else None, 'eps': EPS, 'cudnn_enabled': True}, gn)
for x, n in (((2, 3), 1), ((1, 2, 2, 2), 1), ((1, 2, 2, 2), 2), ((2, 3), 3), ((1, 3, 2), 3)):
    for w in (Par, In):
        case('aten::prelu', {'self': In(*x), 'weight': w(n)}, lambda self, weight: zipmap(lambda p, q: fun('LEAKY_RELU', p, q), self, reshape(weight, [len(weight.el)] + [1] * (self.rank - 2))))


# ---- resizing
def upsample(self, output_size, align_corners=False, how='nearest', **k):
    sp = self.shape[2:]
    x = self
    for ax, o in zip((2, 3), output_size):
        m = x.shape[ax]
        cols = []
        for y in range(o):
            if how == 'nearest':
                cols.append([(y * m // o, Fraction(1))])
                continue
            p = y * Fraction(m - 1, o - 1) if align_corners and o > 1 else Fraction(0) if align_corners else max(Fraction(0), (y + Fraction(1, 2)) * Fraction(m, o) - Fraction(1, 2))
            lo = int(p // 1)
            cols.append([(lo, 1 - (p - lo)), (min(lo + 1, m - 1), p - lo)])
        sh = x.shape[:ax] + (o,) + x.shape[ax + 1:]
        x = x.but(sh, [psum([x.at(i[:ax] + (j,) + i[ax + 1:]) * Poly.const(w) for j, w in cols[i[ax]]]) for i in indices(sh)])
    return x


for x, o in (((1, 2, 2, 2), [4, 4]), ((1, 1, 2, 3), [4, 6]), ((1, 1, 3, 3), [5, 4]), ((1, 1, 4, 4), [2, 2]), ((1, 1, 2, 2), [2, 2])):
    case('aten::upsample_nearest2d', {'self': In(*x), 'output_size': o, 'scales_h': None, 'scales_w': None}, upsample)
    for al in (True, False):
        case('aten::upsample_bilinear2d', {'self': In(*x), 'output_size': o, 'align_corners': al, 'scales_h': None, 'scales_w': None}, lambda self, output_size, align_corners, **k: upsample(self, output_size, align_corners, 'bilinear'))
    sc = [Fraction(q, m) for q, m in zip(o, x[2:])]
    if all(q in (1, 2, Fraction(1, 2)) for q in sc):
        case('aten::upsample_nearest2d', {'input': In(*x), 'output_size': None, 'scale_factors': [float(q) for q in sc]}, lambda input, output_size, scale_factors: upsample(input, [int(m * q) for m, q in zip(input.shape[2:], scale_factors)]))
        for al in (True, False):
            case('aten::upsample_bilinear2d', {'input': In(*x), 'output_size': None, 'align_corners': al, 'scale_factors': [float(q) for q in sc]},
                 lambda input, output_size, align_corners, scale_factors: upsample(input, [int(m * q) for m, q in zip(input.shape[2:], scale_factors)], align_corners, 'bilinear'))

# ---- indexing, masks, types


def at_index(self, ixs):
    """self[ixs] with index tensors (None: the whole axis)"""
    keys = [slice(None) if i is None else i.but(el=i.el) for i in ixs]
    from .arr import advanced
    return advanced(self, keys)


for sh, ix in (((4, 3), [[2, 0]]), ((4, 3), [[-1, 1, 0]]), ((2, 3), [None, [2, 1]]), ((2, 3), [None, [-2]]), ((2, 2, 3), [None, [1, 0]]), ((2, 2, 3), [None, None, [2, 2]]), ((4, 3), [[[0, 1], [2, 3]]]),
               ((3, 4), [[2, 0], [1, 3]]), ((3, 4), [[-1, 0], [1, -2]]), ((3, 4, 2), [[2, 0], [1, 3]]), ((2, 2, 2), [[0, 1], [1, 0], [1, 1]]), ((3, 4), [[2, 0], [1]]),
               ((3, 4), [[[2], [0]], [1, -1, 0]]), ((3, 4), [[1], [-1, 2]]), ((3, 4, 2), [[[2], [0]], [[1, 3]]]), ((3, 4, 2), [None, [1, 3], [0, -1]]), ((3, 4), [[[-1, 0], [1, -2]]]), ((2, 3, 2), [None, [[0, 1], [-1, 2]]])):
    case('aten::index', {'self': In(*sh), 'indices': L([Con(i, 'int64') if i is not None else None for i in ix])}, lambda self, indices: at_index(self, indices))
for sh, ix, vs in (((4, 3), [[2, 0]], (2, 3)), ((4, 3), [[1]], (1, 3)), ((3, 4), [[2, 0], [1, 3]], (2,)), ((4, 3), [[2, 0]], (3,)), ((4, 3), [[-1, 0]], (2, 3)), ((2, 2, 3), [[1]], (2, 3)),
                   ((3, 4), [[[2], [0]], [1, 3]], (2, 2)), ((3, 4), [[[2], [0]], [1, -1]], (2,)), ((3, 4), [[1], [-1, 2]], (1,)), ((4, 2), [[[0, 1], [2, -1]]], (2, 2, 2)), ((3, 4), [[2, 0]], (1, 4)), ((3, 4), [[2, 0]], ())):
    for V in (In, Par):
        def index_put(self, indices, values, accumulate):
            n = len(indices)
            from .arr import offset, bshape
            bs = ()
            for i in indices:
                bs = bshape(bs, i.shape)
            ixs = [broadcast(i, bs) for i in indices]
            v = broadcast(values, bs + self.shape[n:])
            el = list(self.el)
            for j in globals()['indices'](bs):
                at = tuple(int(i.at(j).c) % d for i, d in zip(ixs, self.shape))
                for t in globals()['indices'](self.shape[n:]):
                    el[offset(self.shape, at + t)] = v.at(j + t)
            return self.but(el=el)
        case('aten::index_put_', {'self': In(*sh), 'indices': L([Con(i, 'int64') for i in ix]), 'values': V(*vs), 'accumulate': False}, index_put)
for sh, d, ix, src in (((2, 3), 1, [[0, 2], [1, 0]], In(2, 2)), ((3, 2), 0, [[2, 0]], In(1, 2)), ((3, 2), -2, [[1, 0]], In(2, 2)), ((2, 3), 1, [[1], [2]], 2.5), ((2, 3), 1, [[0, 2], [1, 0]], Con([[1., 2.], [3., 4.]]))):
    def scatter(self, dim, index, src):
        d = dim % self.rank
        el = list(self.el)
        from .arr import offset
        for i in indices(index.shape):
            el[offset(self.shape, i[:d] + (int(index.at(i).c),) + i[d + 1:])] = src.at(i) if isinstance(src, Arr) else c_of(Fraction(src))
        return self.but(el=el)
    zeros = Con([[0.0] * sh[1]] * sh[0])
    case('aten::scatter_', {'self': zeros, 'dim': d, 'index': Con(ix, 'int64'), 'src': src}, scatter)


def choose(mask, a, b, constant=False):
    """mask ? a : b on elements, as the converter writes it: products with the mask as a number"""
    from .arr import bshape
    S = bshape(bshape(mask.shape, a.shape), b.shape)
    m, a, b = broadcast(mask, S), broadcast(a, S), broadcast(b, S)
    f = lambda e: e if e.is_const or constant else fun('CAST', e)
    return a.but(S, [f(k) * p + (c_of(1) - f(k)) * q for k, p, q in zip(m.el, a.el, b.el)])


B23 = In(2, 3, dtype='bool')
for x in (X, In(2, 3, dtype='int32')):
    for m in (B23, In(3, dtype='bool'), Par(2, 3, dtype='bool')):
        for v in (2, 1.5, Con(3.0 if x is X else 3, 'float32' if x is X else 'int32'), In(dtype=x.dtype)):
            if v == 1.5 and x is not X:
                continue
            case('aten::masked_fill', {'self': x, 'mask': m, 'value': v}, lambda self, mask, value, c=isinstance(m, Par): choose(mask, lift(value), self, c).but(dtype=self.dtype))
for m in (B23, Par(2, 3, dtype='bool'), In(1, 3, dtype='bool')):
    for a, b in ((X, Y), (X, In(3)), (X, Par(2, 3)), (Par(2, 3), X), (X, Con([0.0])), (Con([2.0]), X), (In(2, 3, dtype='int32'), In(2, 3, dtype='int32'))):
        case('aten::where', {'condition': m, 'self': a, 'other': b}, lambda condition, self, other, c=isinstance(m, Par): choose(condition, self, other, c))


def cast(a, to):
    to = {'float64': 'float32', 'int64': 'int64'}.get(to, to)
    return a if a.dtype == to else a.but(el=[e if e.is_const and to.startswith('float') else fun('CAST', e) for e in a.el], dtype=to)


for x, to in (('float32', 'int32'), ('float32', 'int64'), ('int32', 'float32'), ('bool', 'float32'), ('float32', 'float32'), ('int64', 'int32'), ('uint8', 'float32'), ('float32', 'bool')):
    case('aten::to', {'self': In(2, 3, dtype=x), 'dtype': 'torch.' + to, 'non_blocking': False, 'copy': False, 'memory_format': None}, lambda self, dtype, **k: cast(self, dtype[6:]))
    case('aten::type_as', {'self': In(2, 3, dtype=x), 'other': In(3, dtype=to)}, lambda self, other: cast(self, other.dtype))
for a, b in ((X, Y), (X, In(3)), (X, In(1, 3)), (X, In(2, 3, dtype='int32'))):
    case('aten::copy_', {'self': a, 'src': b, 'non_blocking': False}, lambda self, src, non_blocking: broadcast(cast(src, self.dtype), self.shape))
for sh, k, d in (((2, 4), 2, -1), ((4,), 3, 0), ((2, 2, 3), 1, 2), ((2, 4), 2, 0)):
    def topk(self, k, dim, largest, sorted):
        row = lambda i: tuple(self.at(i[:-1] + (j,)) for j in range(self.shape[-1]))
        sh = self.shape[:-1] + (k,)
        return (self.but(sh, [fun('LARGEST', c_of(i[-1]), frozenset(row(i))) for i in indices(sh)]), Arr(sh, [fun('LARGEST_AT', c_of(i[-1]), *row(i)) for i in indices(sh)], 'int64'))
    for lg, so in ((True, True), (False, True), (True, False)):
        if d in (-1, len(sh) - 1):
            case('aten::topk', {'self': In(*sh), 'k': k, 'dim': d, 'largest': lg, 'sorted': so}, topk)
for ts in ([(2, 3), (3,)], [(1, 3), (2, 1)], [(2, 3), (2, 3)], [(3,), (2, 2, 3)]):
    def bcast(tensors):
        from .arr import bshape
        S = ()
        for t in tensors:
            S = bshape(S, t.shape)
        return [broadcast(t, S) for t in tensors]
    case('aten::broadcast_tensors', {'tensors': L([In(*t) for t in ts])}, bcast)


def unfold(self, kernel_size, dilation, padding, stride):
    a = pad(self, [padding[1]] * 2 + [padding[0]] * 2)
    n, c, h, w = a.shape
    oh, ow = ((m - d * (k - 1) - 1) // s + 1 for m, k, d, s in zip((h, w), kernel_size, dilation, stride))
    kh, kw = kernel_size
    sh = (n, c * kh * kw, oh * ow)
    return a.but(sh, [a.at((i[0], i[1] // (kh * kw), i[2] // ow * stride[0] + i[1] // kw % kh * dilation[0], i[2] % ow * stride[1] + i[1] % kw * dilation[1])) for i in indices(sh)])


def fold(self, output_size, kernel_size, dilation, padding, stride):
    three = self.rank == 3
    a = self if three else reshape(self, (1,) + self.shape)
    (H, W), (kh, kw) = output_size, kernel_size
    oh, ow = ((m + 2 * p - d * (k - 1) - 1) // s + 1 for m, k, d, p, s in zip((H, W), kernel_size, dilation, padding, stride))
    if a.shape[2] != oh * ow:
        from .arr import NoShape
        raise NoShape('fold of %s' % (a.shape,))
    acc = {}
    for i in indices(a.shape):
        y = i[2] // ow * stride[0] + i[1] // kw % kh * dilation[0] - padding[0]
        x = i[2] % ow * stride[1] + i[1] % kw * dilation[1] - padding[1]
        if 0 <= y < H and 0 <= x < W:
            acc.setdefault((i[0], i[1] // (kh * kw), y, x), []).append(a.at(i))
    sh = (a.shape[0], a.shape[1] // (kh * kw), H, W)
    r = a.but(sh, [psum(acc.get(i, [])) for i in indices(sh)])
    return r if three else reshape(r, sh[1:])


for x, k, d, p, s in (((1, 1, 3, 3), [2, 2], [1, 1], [0, 0], [1, 1]), ((1, 2, 3, 4), [2, 1], [1, 1], [0, 0], [1, 2]), ((1, 1, 3, 3), [2, 2], [1, 1], [1, 1], [1, 1]), ((1, 1, 3, 4), [2, 2], [1, 1], [1, 0], [2, 1]), ((2, 1, 4, 3), [2, 2], [2, 1], [0, 0], [1, 1])):
    case('aten::im2col', {'self': In(*x), 'kernel_size': k, 'dilation': d, 'padding': p, 'stride': s}, unfold)
for x, o, k, d, p, s in (((1, 4, 4), [3, 3], [2, 2], [1, 1], [0, 0], [1, 1]), ((1, 4, 16), [3, 3], [2, 2], [1, 1], [1, 1], [1, 1]), ((4, 4), [3, 3], [2, 2], [1, 1], [0, 0], [1, 1]), ((1, 2, 4), [3, 2], [2, 1], [1, 1], [1, 0], [2, 1]), ((1, 2, 4), [2, 4], [1, 2], [1, 1], [0, 0], [1, 2])):
    case('aten::col2im', {'self': In(*x), 'output_size': o, 'kernel_size': k, 'dilation': d, 'padding': p, 'stride': s}, fold)
for ap in ('none', 'tanh'):
    case('aten::gelu', {'self': X, 'approximate': ap}, lambda self, approximate: el(lambda e: fun('GELU' if approximate == 'none' else 'GELU_TANH', e))(self))
case('aten::gelu', {'self': X}, lambda self: el(lambda e: fun('GELU', e))(self))
case('aten::gelu', {'self': X, 'approximate': 'none'}, lambda self, approximate: el(lambda e: e * fun('LOGISTIC', e * c_of(Fraction(851, 500))))(self), opts={'legacy_gelu': True})

# ---- operands of other types
I23, I3 = In(2, 3, dtype='int32'), In(3, dtype='int32')
RANK = ['bool', 'uint8', 'int8', 'int16', 'int32', 'int64', 'float32']


def promoted(self, other, div=False):
    """operands in the common type of the source operator: a number takes part with its kind only"""
    a = self if isinstance(self, Arr) else None
    b = other if isinstance(other, Arr) else None
    t = a.dtype if b is None else b.dtype if a is None else max(a.dtype, b.dtype, key=RANK.index)
    for v in (self, other):
        if isinstance(v, float):
            t = 'float32'
    if div:
        t = 'float32'
    f = lambda v: cast(v, t) if isinstance(v, Arr) else Arr((), [c_of(Fraction(v))], t)
    return f(self), f(other)


MIX = [(I23, I23), (I23, I3), (I23, 2), (I23, 1.5), (I23, X), (X, I23), (I23, Par(2, 3)), (Par(2, 3), I23), (X, Par(2, 3, dtype='int32')), (Par(2, 3, dtype='int32'), X), (I23, Par(3, dtype='int64')), (In(2, 3, dtype='int64'), I23), (In(2, 3, dtype='int64'), 3), (B23, X), (X, B23), (I23, Con(2.5))]
for n, f in (('add', BIN['+']), ('sub', BIN['-']), ('rsub', lambda x, y: y - x), ('mul', BIN['*']), ('div', BIN['/'])):
    for a, b in MIX:
        if isinstance(b, Con) and b.v == 2.5 or (B23 in (a, b) and n in ('sub', 'rsub')):
            continue
        sp = {'self': a, 'other': b}
        if n in ALPHA:
            sp['alpha'] = 1
        case('aten::' + n, sp, lambda self, other, alpha=1, f=f, n=n: bin_(f)(*promoted(self, other, n == 'div')), note='types')
for n, op in (('eq', 'EQUAL'), ('gt', 'GREATER'), ('le', 'LESS_EQUAL'), ('ne', 'NOT_EQUAL')):
    for a, b in MIX[:-1]:
        if B23 in (a, b):
            continue
        case('aten::' + n, {'self': a, 'other': b}, lambda self, other, op=op: bin_(lambda x, y: fun(op, x, y))(*promoted(self, other)), note='types')
for md, op in (('floor', 'FLOOR_DIV'), ('trunc', 'TRUNC_DIV')):
    for a, b in ((X, Y), (X, 2), (I23, I23), (I23, 2)):
        case('aten::div', {'self': a, 'other': b, 'rounding_mode': md}, lambda self, other, rounding_mode, op=op: bin_(lambda x, y: fun(op, x, y))(*promoted(self, other)))
case('aten::div', {'self': X, 'other': Y, 'rounding_mode': None}, lambda self, other, rounding_mode: bin_(BIN['/'])(self, other))
for a, b in ((I23, I23), (I23, 2), (I23, I3)):
    case('aten::floor_divide', {'self': a, 'other': b}, lambda self, other: bin_(lambda x, y: fun('FLOOR_DIV', x, y))(*promoted(self, other)), note='types')
    case('aten::remainder', {'self': a, 'other': b}, lambda self, other: bin_(lambda x, y: fun('FLOOR_MOD', x, y))(*promoted(self, other)), note='types')
for e in (2, 3):
    case('aten::pow', {'self': I23, 'exponent': e}, lambda self, exponent: el(lambda x: x.pow(exponent))(self), note='types')
for lo, hi in ((0, 3), (-1, 2), (None, 4)):
    case('aten::clamp', {'self': I23, 'min': lo, 'max': hi}, clamp, note='types')
for a, b in ((I23, I3), (I23, I23)):
    for n in ('max', 'min'):
        case('aten::' + n + 'imum', {'self': a, 'other': b}, lambda self, other, n=n: bin_(lambda x, y: pset(n)([x, y]))(self, other), note='types')
