"""What the functions of the framework compute on symbolic tensors: polynomials over atoms, with shapes (no values)."""
import math


class Val:
    """a tensor; several may share their content"""
    __slots__ = ('shape', 'box', 'ref')

    def __init__(self, shape, nf, kind='f', ref=None, box=None):
        self.shape, self.ref, self.box = tuple(shape), ref, box or [nf, kind]

    @property
    def nf(self):
        return self.box[0]

    @property
    def kind(self):
        return self.box[1]

    def write(self, v):
        self.box[:] = [v.nf, v.kind]


class Fail(Exception):
    """the call fails"""


class Unknown(Exception):
    pass


def rnd(c):
    return 0.0 if c == 0 else float('%.9g' % c)


def atom(*a):
    return ((((tuple(a),), 1.0)),)


def const(c):
    return () if c == 0 else (((), rnd(c)),)


def nf(v):
    if isinstance(v, Val):
        return v.nf
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, (int, float)):
        if math.isnan(v) or math.isinf(v):
            return atom('const', repr(v))
        return const(v)
    raise Unknown('operand %r' % (v,))


def key(m):
    return repr(m)


def padd(a, b, k=1.0):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0.0) + k * c
    return tuple(sorted(((m, rnd(c)) for m, c in d.items() if rnd(c) != 0), key=key))


def pmul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            q = tuple(sorted(m + n, key=key))
            d[q] = d.get(q, 0.0) + c * e
    return tuple(sorted(((m, rnd(c)) for m, c in d.items() if rnd(c) != 0), key=key))


def shape(v):
    return v.shape if isinstance(v, Val) else ()


def joined(*ss):
    n = max(map(len, ss))
    r = []
    for i in range(n):
        d = {s[i - n + len(s)] for s in ss if i - n + len(s) >= 0} - {1}
        if len(d) > 1:
            raise Fail('shapes %s do not broadcast' % (ss,))
        r.append(d.pop() if d else 1)
    return tuple(r)


def kind(*vs):
    ks = [v.kind if isinstance(v, Val) else ('b' if isinstance(v, bool) else 'i' if isinstance(v, int) else 'f') for v in vs]
    ts = [v.kind for v in vs if isinstance(v, Val)]
    if 'f' in ts:
        return 'f'
    return 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'


def tensor(v):
    if not isinstance(v, Val):
        raise Fail('%r is not a tensor' % (v,))
    return v


def bare(self, other=None):
    return other


def add(input, other, *, alpha=1):
    tensor(input)
    return Val(joined(shape(input), shape(other)), padd(nf(input), nf(other), alpha), kind(input, other))


def sub(input, other, *, alpha=1):
    tensor(input)
    return Val(joined(shape(input), shape(other)), padd(nf(input), nf(other), -alpha), kind(input, other))


def rsub(input, other, *, alpha=1):
    tensor(input)
    return Val(joined(shape(input), shape(other)), padd(nf(other), nf(input), -alpha), kind(input, other))


def radd(input, other):
    return add(input, other)


def mul(input, other):
    tensor(input)
    return Val(joined(shape(input), shape(other)), pmul(nf(input), nf(other)), kind(input, other))


def recip(v):
    n = nf(v)
    if len(n) == 0:
        return atom('recip', n)
    if len(n) == 1 and n[0][0] == ():
        return const(1.0 / n[0][1])
    return atom('recip', n)


def div(input, other, *, rounding_mode=None):
    r = pmul(nf(input), recip(other))
    if rounding_mode is not None:
        r = atom('round', rounding_mode, r)
    return Val(joined(shape(input), shape(other)), r, 'f' if rounding_mode is None else kind(input, other))


def rtruediv(input, other):
    return Val(joined(shape(input), shape(other)), pmul(nf(other), recip(input)), 'f')


def neg(input):
    return Val(input.shape, pmul(const(-1), input.nf), input.kind)


def clamp(input, min=None, max=None):
    if min is None and max is None:
        raise Fail('clamp without bounds')
    bs = [b.nf if isinstance(b, Val) else None if b is None or b in (float('inf'), float('-inf')) and (b > 0) == (b is max) else nf(b) for b in (min, max)]
    return Val(joined(*[shape(v) for v in (input, min, max)]), atom('clamp', input.nf, bs[0], bs[1]), kind(input))


def clamp_min(input, min):
    return clamp(input, min)


def clamp_max(input, max):
    return clamp(input, None, max)


def clamp_util(x, min_val, max_val):
    return clamp(x, min_val, max_val)


def relu(input, inplace=False):
    return clamp(input, 0.0)


def relu6(input, inplace=False):
    return clamp(input, 0.0, 6.0)


def trelu(input):
    return clamp(input, 0.0)


def unary(name, *names, **defaults):
    """an element-wise function with constant parameters"""
    def f(*a, **k):
        if not a and 'input' in k:
            a = (k.pop('input'),)
        if not a:
            raise Fail('%s without an operand' % name)
        d = dict(zip(names, a[1:]))
        if len(a) - 1 > len(names) or set(k) - set(names) or set(k) & set(d):
            raise Fail('%s cannot be called with %s' % (name, sorted(k)))
        d.update(k)
        d.pop('inplace', None)
        cs = tuple((n, float(d.get(n, defaults[n])) if isinstance(d.get(n, defaults[n]), (int, float)) else d.get(n, defaults[n])) for n in names if n != 'inplace')
        x = tensor(a[0])
        return Val(x.shape, atom(name, x.nf, cs), x.kind)
    return f


def dimmed(name, dtype='f'):
    def f(input, dim=None, keepdim=False, **kw):
        if dim is None:
            return Val((), atom(name, input.nf, None), dtype)
        ds = tuple(sorted(d % len(input.shape) for d in (dim if isinstance(dim, (list, tuple)) else [dim])))
        s = tuple(1 if i in ds else x for i, x in enumerate(input.shape) if i not in ds or keepdim)
        return Val(s, atom(name, input.nf, ds, bool(keepdim)), dtype)
    return f


def softmax(input, dim=None, dtype=None):
    return Val(input.shape, atom('softmax', input.nf, dim % len(input.shape)))


def glu(input, dim=-1):
    d = dim % len(input.shape)
    return Val(tuple(x // 2 if i == d else x for i, x in enumerate(input.shape)), atom('glu', input.nf, d))


def prelu(input, weight):
    return Val(input.shape, atom('prelu', input.nf, weight.nf))


def cat(tensors, dim=0):
    vs = list(tensors)
    n = len(vs[0].shape)
    if not -n <= dim < n:
        raise Fail('dimension %d of rank %d' % (dim, n))
    d = dim % n
    for v in vs:
        if len(v.shape) != n or any(a != b for i, (a, b) in enumerate(zip(v.shape, vs[0].shape)) if i != d):
            raise Fail('tensors of shapes %s are joined' % [w.shape for w in vs])
    s = tuple(sum(v.shape[d] for v in vs) if i == d else x for i, x in enumerate(vs[0].shape))
    return Val(s, atom('cat', d, tuple(v.nf for v in vs)), kind(*vs))


def tcat(tensors, dim=None, *, axis=None):
    return cat(tensors, dim if dim is not None else axis if axis is not None else 0)


def stack(tensors, dim=None, *, axis=None):
    dim = dim if dim is not None else axis if axis is not None else 0
    vs = list(tensors)
    return cat([unsqueeze(v, dim) for v in vs], dim)


def unsqueeze(input, dim):
    n = len(input.shape) + 1
    if not -n <= dim < n:
        raise Fail('dimension')
    d = dim % n
    return Val(input.shape[:d] + (1,) + input.shape[d:], atom('reshape', input.nf, input.shape[:d] + (1,) + input.shape[d:]), input.kind)


def reshaped(v, s):
    """shapes only: element order is kept"""
    base = v.nf
    if len(base) == 1 and base[0][1] == 1.0 and len(base[0][0]) == 1 and base[0][0][0][0] == 'reshape':
        a = base[0][0][0]
        if len(a) > 3 and a[3] == tuple(s):
            return Val(s, a[1], v.kind)
        return Val(s, atom('reshape', a[1], tuple(s), *a[3:]), v.kind)
    return Val(s, atom('reshape', base, tuple(s), v.shape), v.kind)


def unsqueeze(input, dim):      # noqa: F811
    n = len(input.shape) + 1
    if not -n <= dim < n:
        raise Fail('dimension %d of rank %d' % (dim, n))
    d = dim % n
    return reshaped(input, input.shape[:d] + (1,) + input.shape[d:])


def squeeze(input, dim):
    d = dim % len(input.shape)
    return reshaped(input, tuple(x for i, x in enumerate(input.shape) if i != d or x != 1))


def flatten(input, start_dim=0, end_dim=-1):
    e = end_dim % len(input.shape)
    return reshaped(input, input.shape[:start_dim] + (math.prod(input.shape[start_dim:e + 1]),) + input.shape[e + 1:])


def view(self, *s):
    s = list(s[0]) if len(s) == 1 and isinstance(s[0], (list, tuple)) else list(s)
    if any(isinstance(x, Val) for x in s):
        s = [x.nf[0][1] if isinstance(x, Val) and len(x.nf) == 1 and not x.nf[0][0] else x for x in s]
        if any(isinstance(x, Val) for x in s):
            raise Unknown('view')
        s = [int(x) for x in s]
    n = math.prod(self.shape)
    if -1 in s:
        s[s.index(-1)] = n // math.prod(x for x in s if x != -1)
    if math.prod(s) != n:
        raise Fail('view of %s as %s' % (self.shape, s))
    return reshaped(self, tuple(s))


def permute(self, *d):
    d = list(d[0]) if len(d) == 1 and isinstance(d[0], (list, tuple)) else list(d)
    return Val(tuple(self.shape[i] for i in d), atom('permute', self.nf, tuple(d)), self.kind)


def chunk(input, chunks, dim=0):
    d = dim % len(input.shape)
    n = input.shape[d]
    k = -(-n // chunks)
    return split(input, k, dim)


def split(tensor, split_size_or_sections, dim=0):
    d = dim % len(tensor.shape)
    n = tensor.shape[d]
    k = split_size_or_sections
    ss = list(k) if isinstance(k, (list, tuple)) else [min(k, n - i) for i in range(0, n, k)]
    r, at = [], 0
    for x in ss:
        r.append(Val(tensor.shape[:d] + (x,) + tensor.shape[d + 1:], atom('part', tensor.nf, d, at, at + x), tensor.kind))
        at += x
    return r


def sliced(v, idx):
    if isinstance(v, (list, tuple)):
        return v[idx]
    idx = list(idx) if isinstance(idx, (list, tuple)) else [idx]
    if Ellipsis in idx:
        i = idx.index(Ellipsis)
        idx[i:i + 1] = [slice(None)] * (len(v.shape) - sum(1 for x in idx if x is not None and x is not Ellipsis))
    out, steps, new, at = [], [], [], 0
    for x in idx:
        if x is None:
            new.append(len(out))
            out.append(1)
            continue
        if at >= len(v.shape):
            raise Fail('too many indices')
        n = v.shape[at]
        if isinstance(x, slice):
            r = range(*x.indices(n))
            out.append(len(r))
            steps.append((r.start, r.stop, r.step) if r != range(n) else None)
        elif isinstance(x, int) and not isinstance(x, bool):
            steps.append(x % n)
        else:
            raise Unknown('index %r' % (x,))
        at += 1
    for n in v.shape[at:]:
        out.append(n)
        steps.append(None)
    if all(s is None for s in steps):
        return reshaped(v, tuple(out)) if new else Val(out, v.nf, v.kind)
    parts = [s for s in steps if s is not None]
    d = steps.index(parts[0])
    if len(parts) == 1 and isinstance(parts[0], tuple) and parts[0][2] == 1 and not new:
        return Val(out, atom('part', v.nf, d, parts[0][0], parts[0][1]), v.kind)
    return Val(out, atom('index', v.nf, tuple(steps), tuple(new)), v.kind)


def pool(name, nd):
    def f(input, kernel_size, stride=None, padding=0, *a, **kw):
        tup = lambda x: tuple(x) * (nd if len(x) == 1 else 1) if isinstance(x, (list, tuple)) else (x,) * nd
        k = tup(kernel_size)
        s = k if stride is None or stride == [] else tup(stride)
        p = tup(padding)
        extra = tuple(a) + tuple(sorted(kw.items()))
        opt = dict(zip(('ceil_mode', 'count_include_pad', 'divisor_override') if name == 'avg' else ('dilation', 'ceil_mode', 'return_indices'), a))
        opt.update(kw)
        if set(opt) - {'ceil_mode', 'count_include_pad', 'divisor_override', 'dilation', 'return_indices'}:
            raise Fail('%s_pool cannot be called with %s' % (name, sorted(opt)))
        if opt.get('return_indices'):
            raise Unknown('indices of a pooling')
        if all(x == 1 for x in k) and all(x == 0 for x in p):
            n = len(input.shape) - nd
            r = sliced(input, [slice(None)] * n + [slice(None, None, x) for x in s])
            dv = opt.get('divisor_override')
            return r if dv is None else Val(r.shape, pmul(r.nf, const(1.0 / dv)), r.kind)
        sp = [(x + 2 * q - y) // z + 1 for x, y, z, q in zip(input.shape[-nd:], k, s, p)]
        return Val(input.shape[:-nd] + tuple(sp), atom(name + 'pool', input.nf, k, s, p, extra))
    return f


def pad(input, pad, mode='constant', value=None):
    s = list(input.shape)
    for i in range(len(pad) // 2):
        s[-1 - i] += pad[2 * i] + pad[2 * i + 1]
    return Val(s, atom('pad', input.nf, tuple(pad), mode, float(value or 0)), input.kind)


def matmul(input, other):
    a, b = input.shape, other.shape
    if len(a) < 2 or len(b) < 2 or a[-1] != b[-2]:
        raise Fail('matmul of %s and %s' % (a, b))
    return Val(joined(a[:-2] or (1,), b[:-2] or (1,))[:max(len(a), len(b)) - 2] + (a[-2], b[-1]), atom('matmul', input.nf, other.nf))


def pw(input, exponent):
    if isinstance(exponent, int) and 1 <= exponent <= 3:
        r = nf(input)
        for _ in range(exponent - 1):
            r = pmul(r, nf(input))
        return Val(input.shape, r, kind(input))
    return Val(joined(shape(input), shape(exponent)), atom('pow', nf(input), nf(exponent)), kind(input, exponent))


def cmp(name):
    def f(input, other):
        return Val(joined(shape(input), shape(other)), atom(name, nf(input), nf(other)), 'b')
    return f


def cast(k):
    def f(self, *a):
        return Val(self.shape, self.nf if self.kind == k else atom('cast', k, self.nf), k)
    return f


def to(self, dtype):
    return cast({'torch.float32': 'f', 'torch.int32': 'i', 'torch.int64': 'i'}[dtype])(self)


def expand_as(self, other):
    if joined(self.shape, other.shape) != tuple(other.shape):
        raise Fail('a tensor of shape %s is expanded to %s' % (self.shape, other.shape))
    return Val(other.shape, self.nf, self.kind)


def broadcast_tensors(*ts):
    s = joined(*[t.shape for t in ts])
    return [Val(s, t.nf, t.kind) for t in ts]


def same(self):
    return self


def where(condition, input, other):
    return Val(joined(shape(condition), shape(input), shape(other)), atom('where', nf(condition), nf(input), nf(other)), kind(input, other))


def maximum(name):
    def f(input, other):
        return Val(joined(input.shape, other.shape), atom(name, *sorted((input.nf, other.nf), key=repr)), kind(input, other))
    return f


def size(self, dim=None):
    if dim is None:
        return [size(self, i) for i in range(len(self.shape))]
    return Val((), const(self.shape[dim]), 'i')


def dropout(input, p=0.5, training=True, inplace=False):
    return Val(input.shape, atom('dropout', input.nf, float(p)))


def ones(*a):
    s = tuple(a[0]) if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
    return Val(s, const(1))


def zeros_like(input):
    return Val(input.shape, ())


def ones_like(input):
    return Val(input.shape, const(1))


def add_relu(x, y):
    return relu(add(x, y))


def ff_two(f):
    def g(x, y):
        return f(tensor(x), tensor(y))
    return g


def ff_scalar(f):
    def g(x, y):
        if isinstance(y, Val) and y.shape:
            raise Fail('a tensor of shape %s is used as a scalar' % (y.shape,))
        return f(tensor(x), y)
    return g


def ff_cat(x, dim=0):
    return cat(x, dim)


COMMON = {'add': add, 'sub': sub, 'subtract': sub, 'mul': mul, 'multiply': mul, 'div': div, 'divide': div, 'true_divide': div, 'neg': neg, 'negative': neg, 'rsub': rsub, 'clamp': clamp, 'clip': clamp,
          'clamp_min': clamp_min, 'clamp_max': clamp_max, 'relu': trelu, 'sigmoid': unary('sigmoid'), 'tanh': unary('tanh'), 'abs': unary('abs'), 'exp': unary('exp'), 'sqrt': unary('sqrt'), 'log': unary('log'),
          'rsqrt': unary('rsqrt'), 'reciprocal': unary('reciprocal'), 'sin': unary('sin'), 'softmax': softmax, 'log_softmax': softmax, 'sum': dimmed('sum'), 'mean': dimmed('mean'),
          'argmax': dimmed('argmax', 'i'), 'unsqueeze': unsqueeze, 'squeeze': squeeze, 'flatten': flatten, 'permute': permute, 'chunk': chunk, 'split': split, 'matmul': matmul, 'bmm': matmul, 'pow': pw,
          'norm': dimmed('norm'), 'where': where, 'max': maximum('max'), 'min': maximum('min'), 'prelu': prelu}
TENSOR = dict(COMMON, view=view, reshape=view, contiguous=same, expand_as=expand_as, float=cast('f'), long=cast('i'), int=cast('i'), to=to, size=size, data=same, shape=size)
for _n, _f in (('add', add), ('radd', radd), ('iadd', add), ('sub', sub), ('rsub', rsub), ('isub', sub), ('mul', mul), ('rmul', mul), ('imul', mul), ('truediv', div), ('itruediv', div), ('rtruediv', rtruediv),
               ('neg', neg), ('getitem', sliced), ('pow', pw), ('gt', cmp('gt')), ('lt', cmp('lt')), ('matmul', matmul)):
    TENSOR['__%s__' % _n] = _f
TORCH = dict(COMMON, cat=tcat, concat=tcat, stack=stack, broadcast_tensors=broadcast_tensors, ones=ones, zeros_like=zeros_like, ones_like=ones_like, reshape=view)
FUNCTIONAL = {'relu': relu, 'relu6': relu6, 'leaky_relu': unary('leaky_relu', 'negative_slope', 'inplace', negative_slope=0.01, inplace=False), 'elu': unary('elu', 'alpha', 'inplace', alpha=1.0, inplace=False),
              'glu': glu, 'sigmoid': unary('sigmoid'), 'tanh': unary('tanh'), 'hardswish': unary('hardswish', 'inplace', inplace=False), 'silu': unary('silu', 'inplace', inplace=False), 'softmax': softmax,
              'prelu': prelu, 'avg_pool1d': pool('avg', 1), 'avg_pool2d': pool('avg', 2), 'max_pool1d': pool('max', 1), 'max_pool2d': pool('max', 2), 'pad': pad, 'dropout': dropout,
              'hardsigmoid': unary('hardsigmoid', 'inplace', inplace=False)}
UTILS = {'clamp_with_fusion': clamp_util, 'clamp_with_fusion_': clamp_util}
FF = {'add': ff_two(add), 'mul': ff_two(mul), 'add_scalar': ff_scalar(add), 'mul_scalar': ff_scalar(mul), 'cat': ff_cat, 'add_relu': add_relu}
SPACES = {'torch.': TORCH, 'torch.Tensor.': TENSOR, 'torch.nn.functional.': FUNCTIONAL, 'tinynn.graph.quantization.utils.': UTILS}


def function(full):
    ns, _, n = full.rpartition('.')
    d = SPACES.get(ns + '.')
    if d is None:
        raise Unknown('function ' + full)
    f = d.get(n)
    if f is None and n.endswith('_') and not n.endswith('__'):
        f = d.get(n[:-1])
    if f is None and n.startswith('__') and ns == 'torch':
        raise Fail('torch has no %s' % n)
    if f is None:
        raise Unknown('function ' + full)
    return f


def apply(full, args, kwargs):
    f = function(full)
    try:
        return f(*args, **kwargs)
    except TypeError as e:
        raise Fail('%s: %s' % (full, e))
    except (AttributeError, IndexError, ValueError) as e:
        raise Fail('%s: %s: %s' % (full, type(e).__name__, e))


def layer(cls, args, kw):
    """the function of a layer of this class built with these arguments"""
    full = {'ReLU': 'relu', 'ReLU6': 'relu6', 'LeakyReLU': 'leaky_relu', 'ELU': 'elu', 'GLU': 'glu', 'Sigmoid': 'sigmoid', 'Tanh': 'tanh', 'Hardswish': 'hardswish', 'SiLU': 'silu', 'Dropout': 'dropout',
            'Softmax': 'softmax', 'MaxPool1d': 'max_pool1d', 'MaxPool2d': 'max_pool2d', 'AvgPool1d': 'avg_pool1d', 'AvgPool2d': 'avg_pool2d'}.get(cls)
    if cls in ('QuantStub', 'DeQuantStub', 'Identity'):
        return lambda x: Val(x.shape, x.nf, x.kind) if isinstance(x, Val) else x
    if full is None:
        return None
    if cls == 'Dropout':
        return lambda x: dropout(x, *args[:1], **{k: v for k, v in kw.items() if k == 'p'})
    return lambda x: apply('torch.nn.functional.' + full, [x] + list(args), kw)


def spatial(x):
    """the same tensor without the dimensions of extent one after the channels"""
    return reshaped(x, x.shape[:2] + tuple(d for d in x.shape[2:] if d != 1)) if 1 in x.shape[2:] else x


def linear(x, w, b):
    """w, b: (name, shape)"""
    if x.shape[-1] != w[1][1]:
        raise Fail('a linear layer with %d inputs takes shape %s' % (w[1][1], x.shape))
    return Val(x.shape[:-1] + (w[1][0],), atom('linear', x.nf, w, b), x.kind)


def conv2d(x, w, b, other):
    if len(x.shape) != 4 or x.shape[1] != w[1][1]:
        raise Fail('a convolution with weights of shape %s takes shape %s' % (w[1], x.shape))
    if x.shape[2:] == (1, 1) and w[1][2:] == (1, 1) and other in (((1, 1), (0, 0)), (1, 0)):
        y = linear(reshaped(x, x.shape[:2]), (w[0], w[1][:2]), b)
        return reshaped(y, y.shape + (1, 1))
    raise Unknown('convolution')


def batch_norm(x, nd, params):
    n = params[0]
    if len(x.shape) not in nd or x.shape[1] != n:
        raise Fail('a batch normalisation of %d channels takes shape %s' % (n, x.shape))
    v = spatial(x)
    r = Val(v.shape, atom('batch_norm', v.nf, params), x.kind)
    return reshaped(r, x.shape) if v.shape != x.shape else r


def show(v):
    if isinstance(v, (list, tuple)):
        return '[%s]' % ', '.join(map(show, v))
    if not isinstance(v, Val):
        return repr(v)
    return '%s of shape %s' % (shownf(v.nf), tuple(v.shape))


def shownf(n):
    def at(a):
        if a[0] == 'in':
            return str(a[1])
        return '%s(%s)' % (a[0], ', '.join(shownf(x) if isinstance(x, tuple) and (x == () or isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][1], float) and isinstance(x[0][0], tuple)) else str(x) for x in a[1:]))
    r = []
    for m, c in n:
        s = '*'.join(at(a) for a in m)
        r.append(('%g' % c if c != 1 or not s else '') + ('*' if c != 1 and s else '') + s)
    return ' + '.join(r) or '0'
