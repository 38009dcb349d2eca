"""Abstract arrays: the shape is known, every element is a symbolic expression (sum of products of atoms with rational
exponents).  numpy / torch operations act on the elements, so a result can be compared with a required formula element by
element, whatever sequence of array operations the code uses to compute it.  No array data is ever known and nothing is run.

`Arrays(I)` installs the domain in an interpreter (I.arrays)."""
import itertools
from fractions import Fraction
from .interp import V, K, T, Tup, Ref, NONE, Dead, Bi

ZERO = Fraction(0)
HALF = Fraction(1, 2)


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({frozenset(): c} if c else {})

    @staticmethod
    def atom(a, e=1):
        return Poly({frozenset([(a, Fraction(e))]): Fraction(1)})

    @property
    def is_const(self):
        return not self.t or (len(self.t) == 1 and frozenset() in self.t)

    @property
    def c(self):
        return self.t.get(frozenset(), ZERO)

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, ZERO) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        acc = {}
        extra = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                d = dict(m1)
                for a, e in m2:
                    e2 = d.get(a, ZERO) + e
                    if e2:
                        d[a] = e2
                    else:
                        del d[a]
                exp = None
                for a, e in d.items():
                    if isinstance(a, tuple) and a[0] == 'S' and e >= 1:
                        exp = (a, e)
                        break
                if exp:
                    a, e = exp
                    n = e.numerator // e.denominator
                    if e - n:
                        d[a] = e - n
                    else:
                        del d[a]
                    p = Poly({frozenset(d.items()): c1 * c2})
                    for _ in range(n):
                        p = p * a[1]
                    extra.append(p)
                    continue
                m = frozenset(d.items())
                v = acc.get(m, ZERO) + c1 * c2
                if v:
                    acc[m] = v
                else:
                    acc.pop(m, None)
        r = Poly(acc)
        for p in extra:
            r = r + p
        return r

    def pow(self, e):
        e = Fraction(e)
        if e == 0:
            return Poly.const(1)
        if e.denominator == 1 and e > 0:
            r = self
            for _ in range(int(e) - 1):
                r = r * self
            return r
        if not self.t:
            return Poly.atom(('pow0', e))
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if e.denominator == 1:
                return Poly({frozenset((a, x * e) for a, x in m): c ** int(e)})
            if self.is_const:
                r = float(c) ** float(e) if c > 0 else None
                if r is not None and Fraction(r).limit_denominator(10**6) ** e.denominator == c ** e.numerator:
                    return Poly.const(Fraction(r).limit_denominator(10**6))
            elif c == 1 and all(x == 1 or x.denominator != 1 for a, x in m):
                return Poly({frozenset((a, x * e) for a, x in m): Fraction(1)})
        return Poly.atom(('S', self), e)

    def __truediv__(self, o):
        return self * o.pow(-1)

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in self.t.items():
            fs = []
            for a, e in m:
                fs.append(aname(a) + ('' if e == 1 else '^%s' % e))
            fs.sort()
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append('*'.join(fs))
        return ' + '.join(sorted(out))


def aname(a):
    if isinstance(a, tuple):
        if a[0] == 'S':
            return '(%r)' % (a[1],)
        if a[0] == 'E':
            return '%s[%s]' % (a[1], ','.join(map(str, a[2])))
        if a[0] == 'F':
            return '%s(%s)' % (a[1], ', '.join(repr(x) for x in a[2:]))
    return str(a)


def fun(name, *args):
    """uninterpreted element function"""
    return Poly.atom(('F', name) + args)


class Arr(V):
    __slots__ = ('shape', 'el', 'dtype', 'lib', '_h')

    def __init__(self, shape, el, dtype=None, lib=None):
        self.shape = tuple(shape)
        self.el = tuple(el)
        self.dtype = dtype
        self.lib = lib
        self._h = None
        assert len(self.el) == size(self.shape), (self.shape, len(self.el))

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.shape, self.el, self.dtype))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Arr) and self.shape == o.shape and self.el == o.el and self.dtype == o.dtype

    def __repr__(self):
        return 'Arr%r<%s>' % (list(self.shape), ' ; '.join(repr(e) for e in self.el[:2]) + (' ...' if len(self.el) > 2 else ''))

    @property
    def rank(self):
        return len(self.shape)

    def at(self, idx):
        return self.el[offset(self.shape, idx)]

    def but(self, shape=None, el=None, **kw):
        return Arr(self.shape if shape is None else shape, self.el if el is None else el, kw.get('dtype', self.dtype), self.lib)

    def const(self):
        return all(e.is_const for e in self.el)

    def nested(self):
        def go(sh, off):
            if not sh:
                return num(self.el[off])
            st = size(sh[1:])
            return [go(sh[1:], off + i * st) for i in range(sh[0])]
        return go(self.shape, 0)


def num(e):
    c = e.c
    return int(c) if c.denominator == 1 else float(c)


def size(sh):
    n = 1
    for d in sh:
        n *= d
    return n


def indices(sh):
    return itertools.product(*[range(d) for d in sh])


def offset(sh, idx):
    o = 0
    for d, i in zip(sh, idx):
        o = o * d + i
    return o


def fresh(name, shape, dtype='float32', lib=None):
    """array of unknown elements"""
    return Arr(shape, [Poly.atom(('E', name, i)) for i in indices(shape)], dtype, lib)


def from_fn(shape, f, dtype='float32'):
    return Arr(shape, [f(*i) for i in indices(shape)], dtype)


def full(shape, c, dtype=None):
    return Arr(shape, [Poly.const(c) if not isinstance(c, Poly) else c] * size(shape), dtype)


class NoShape(Exception):
    """the operation cannot be done on these shapes (a run-time error of the analysed code)"""


class Unk(Exception):
    """not modelled"""


def bshape(a, b):
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    r = []
    for x, y in zip(a, b):
        if x != y and x != 1 and y != 1:
            raise NoShape('shapes %s and %s do not broadcast' % (a, b))
        r.append(y if x == 1 else x)
    return tuple(r)


def broadcast(a, shape):
    if a.shape == tuple(shape):
        return a
    if len(a.shape) > len(shape):
        raise NoShape('cannot broadcast %s to %s' % (a.shape, shape))
    sh = (1,) * (len(shape) - len(a.shape)) + a.shape
    for x, y in zip(sh, shape):
        if x != y and x != 1:
            raise NoShape('cannot broadcast %s to %s' % (a.shape, shape))
    return Arr(shape, [a.el[offset(sh, [0 if d == 1 else i for d, i in zip(sh, idx)])] for idx in indices(shape)], a.dtype, a.lib)


def zipmap(f, a, b):
    s = bshape(a.shape, b.shape)
    a2, b2 = broadcast(a, s), broadcast(b, s)
    return Arr(s, [f(x, y) for x, y in zip(a2.el, b2.el)], promote(a, b), a.lib or b.lib)


def promote(a, b):
    if a.dtype == b.dtype or b.dtype is None or b.dtype == 'bool':
        return a.dtype
    if a.dtype is None or a.dtype == 'bool':
        return b.dtype
    return None


def transpose(a, perm):
    if len(perm) != a.rank:
        raise NoShape('transpose of rank %d by %s' % (a.rank, list(perm)))
    perm = [p % a.rank for p in perm]
    if sorted(perm) != list(range(a.rank)):
        raise NoShape('%s is no permutation of the axes' % (perm,))
    sh = [a.shape[p] for p in perm]
    out = []
    for idx in indices(sh):
        src = [0] * a.rank
        for i, p in zip(idx, perm):
            src[p] = i
        out.append(a.at(src))
    return a.but(sh, out)


def reshape(a, sh):
    sh = list(sh)
    if sh.count(-1) == 1:
        k = size([d for d in sh if d != -1])
        if k == 0 or len(a.el) % k:
            raise NoShape('cannot reshape %s into %s' % (a.shape, sh))
        sh[sh.index(-1)] = len(a.el) // k
    if size(sh) != len(a.el) or any(d < 0 for d in sh):
        raise NoShape('cannot reshape %s into %s' % (a.shape, sh))
    return a.but(sh, a.el)


def axes_of(a, ax):
    if ax is None:
        return list(range(a.rank))
    ax = [ax] if isinstance(ax, int) else list(ax)
    for x in ax:
        if not -a.rank <= x < a.rank:
            raise NoShape('axis %s is out of range for rank %d' % (x, a.rank))
    return [x % a.rank for x in ax]


def reduce(a, ax, keep, f):
    ax = axes_of(a, ax)
    kept = [i for i in range(a.rank) if i not in ax]
    sh = [a.shape[i] for i in kept]
    groups = {}
    for idx, e in zip(indices(a.shape), a.el):
        groups.setdefault(tuple(idx[i] for i in kept), []).append(e)
    out = [f(groups.get(i, [])) for i in indices(sh)]
    return a.but([1 if i in ax else d for i, d in enumerate(a.shape)] if keep else sh, out)


def psum(es):
    r = Poly.const(0)
    for e in es:
        r = r + e
    return r


def pprod(es):
    r = Poly.const(1)
    for e in es:
        r = r * e
    return r


def pset(name):
    def f(es):
        if all(e.is_const for e in es):
            return Poly.const((max if name == 'max' else min)(e.c for e in es))
        return fun(name, frozenset(es)) if len(set(es)) > 1 else es[0]
    return f


def matmul(a, b):
    va, vb = a.rank == 1, b.rank == 1
    if va:
        a = a.but((1,) + a.shape)
    if vb:
        b = b.but(b.shape + (1,))
    if a.rank < 2 or b.rank < 2 or a.shape[-1] != b.shape[-2]:
        raise NoShape('cannot multiply %s by %s' % (a.shape, b.shape))
    lead = bshape(a.shape[:-2], b.shape[:-2])
    a, b = broadcast(a, lead + a.shape[-2:]), broadcast(b, lead + b.shape[-2:])
    sh = lead + (a.shape[-2], b.shape[-1])
    r = Arr(sh, [psum([a.at(i[:-1] + (k,)) * b.at(i[:-2] + (k, i[-1])) for k in range(a.shape[-1])]) for i in indices(sh)], a.dtype, a.lib)
    if va:
        r = r.but(r.shape[:-2] + r.shape[-1:])
    if vb:
        r = r.but(r.shape[:-1])
    return r


def concat(arrs, ax):
    rk = arrs[0].rank
    if any(a.rank != rk for a in arrs) or not -rk <= ax < rk:
        raise NoShape('cannot concatenate %s along %s' % ([a.shape for a in arrs], ax))
    ax %= rk
    for a in arrs:
        if any(x != y for i, (x, y) in enumerate(zip(a.shape, arrs[0].shape)) if i != ax):
            raise NoShape('cannot concatenate %s along %s' % ([a.shape for a in arrs], ax))
    sh = list(arrs[0].shape)
    sh[ax] = sum(a.shape[ax] for a in arrs)
    src = [(a, i) for a in arrs for i in range(a.shape[ax])]
    out = []
    for idx in indices(sh):
        a, i = src[idx[ax]]
        out.append(a.at(idx[:ax] + (i,) + idx[ax + 1:]))
    return arrs[0].but(sh, out)


def take(a, idx, ax):
    ax = axes_of(a, ax)[0]
    n = a.shape[ax]
    for i in idx:
        if not -n <= i < n:
            raise NoShape('index %d is out of range for axis %d of %s' % (i, ax, a.shape))
    sh = list(a.shape)
    sh[ax] = len(idx)
    return a.but(sh, [a.at(i[:ax] + (idx[i[ax]] % n,) + i[ax + 1:]) for i in indices(sh)])


def repeat_each(a, reps, ax):
    if ax is None:
        a, ax = a.but((len(a.el),)), 0
    ax = axes_of(a, ax)[0]
    if isinstance(reps, int):
        reps = [reps] * a.shape[ax]
    return take(a, [i for i, r in enumerate(reps) for _ in range(r)], ax)


def tile(a, reps):
    reps = list(reps)
    n = max(len(reps), a.rank)
    a = a.but((1,) * (n - a.rank) + a.shape)
    reps = [1] * (n - len(reps)) + reps
    for ax, r in enumerate(reps):
        if r != 1:
            a = take(a, list(range(a.shape[ax])) * r, ax)
    return a


def index(a, keys):
    """a[keys] for ints, slices, None, Ellipsis, lists (advanced index)"""
    keys = list(keys)
    n = sum(1 for k in keys if k is not None and k is not Ellipsis)
    if n > a.rank:
        raise NoShape('too many indices')
    if Ellipsis in [k for k in keys if k is Ellipsis]:
        i = [j for j, k in enumerate(keys) if k is Ellipsis][0]
        keys[i:i + 1] = [slice(None)] * (a.rank - n)
    keys += [slice(None)] * (a.rank - sum(1 for k in keys if k is not None))
    adv = [k for k in keys if isinstance(k, (list, Arr))]
    if len(adv) > 1 or any(isinstance(k, Arr) for k in adv):
        raise Unk()
    sel, newshape, d = [], [], 0
    for k in keys:
        if k is None:
            newshape.append(1)
            continue
        m = a.shape[d]
        d += 1
        if isinstance(k, slice):
            r = list(range(*k.indices(m)))
            newshape.append(len(r))
        elif isinstance(k, list):
            if k and all(isinstance(x, bool) for x in k):
                if len(k) != m:
                    raise NoShape('mask length')
                k = [i for i, x in enumerate(k) if x]
            r = k
            newshape.append(len(r))
        else:
            r = [k]
        for x in r:
            if not -m <= x < m:
                raise NoShape('index %s is out of range for %s' % (x, a.shape))
        sel.append([x % m for x in r])
    return newshape, sel


def advanced(a, keys):
    """a[keys] with several index arrays (known integers), slices in between"""
    keys = list(keys)
    if any(k is Ellipsis or k is None or isinstance(k, bool) for k in keys) or len(keys) > a.rank:
        raise Unk()
    keys += [slice(None)] * (a.rank - len(keys))
    pos, ix = [], []
    for d, k in enumerate(keys):
        if isinstance(k, slice):
            continue
        if isinstance(k, list):
            if any(isinstance(x, bool) for x in k):
                raise Unk()
            k = Arr((len(k),), [Poly.const(x) for x in k])
        elif isinstance(k, int):
            k = Arr((), [Poly.const(k)])
        pos.append(d)
        ix.append(k)
    sh = ()
    for k in ix:
        sh = bshape(sh, k.shape)
    ix = [broadcast(k, sh) for k in ix]
    rest = {d: list(range(*keys[d].indices(a.shape[d]))) for d in range(a.rank) if d not in pos}
    together = pos == list(range(pos[0], pos[0] + len(pos)))
    left = [d for d in rest if together and d < pos[0]]
    right = [d for d in rest if d not in left]
    osh = tuple(len(rest[d]) for d in left) + tuple(sh) + tuple(len(rest[d]) for d in right)
    out = []
    for i in indices(osh):
        c = [0] * a.rank
        for d, x in zip(left, i):
            c[d] = rest[d][x]
        j = i[len(left):len(left) + len(sh)]
        for d, k in zip(pos, ix):
            v = int(k.at(j).c)
            if not -a.shape[d] <= v < a.shape[d]:
                raise NoShape('index %d is out of range for axis %d of %s' % (v, d, a.shape))
            c[d] = v % a.shape[d]
        for d, x in zip(right, i[len(left) + len(sh):]):
            c[d] = rest[d][x]
        out.append(a.at(tuple(c)))
    return a.but(osh, out)


IDENT = {'copy', 'clone', 'detach', 'cpu', 'numpy', 'contiguous', 'requires_grad_', 'cuda', 'dequantize', 'to_dense', 'data', 'view_as', 'resolve_neg'}
CAST = {'float': 'float32', 'double': 'float64', 'half': 'float16', 'int': 'int32', 'long': 'int64', 'char': 'int8', 'byte': 'uint8', 'bool': 'bool'}
UNARY = {'sqrt': lambda e: e.pow(HALF), 'rsqrt': lambda e: e.pow(-HALF), 'square': lambda e: e * e, 'neg': lambda e: -e, 'negative': lambda e: -e,
         'reciprocal': lambda e: e.pow(-1), 'sigmoid': None, 'tanh': None, 'exp': None, 'log': None, 'round': None, 'floor': None, 'ceil': None,
         'sign': None, 'relu': None, 'relu6': None, 'rint': None, 'trunc': None, 'isnan': None, 'isinf': None, 'logical_not': None}


def pabs(e):
    if e.is_const:
        return Poly.const(abs(e.c))
    ev = (-e)
    return fun('abs', min(e, ev, key=repr))


BIN = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}


class Arrays:
    def __init__(self, I):
        self.I = I
        I.arrays = self

    # ---- conversions ---------------------------------------------------------------------------
    def poly(self, v):
        if isinstance(v, Arr) and len(v.el) == 1:
            return v.el[0]
        if isinstance(v, K) and isinstance(v.v, (int, float, bool)):
            if v.v != v.v or v.v in (float('inf'), float('-inf')):
                return Poly.atom(('const', repr(v.v)))
            return Poly.const(v.v)
        if isinstance(v, T):
            if v.op == 'bin' and v.args[0] in BIN:
                return BIN[v.args[0]](self.poly(v.args[1]), self.poly(v.args[2]))
            if v.op == 'un' and v.args[0] == '-':
                return -self.poly(v.args[1])
            return Poly.atom(v)
        raise Unk()

    def seq(self, st, v):
        v = self.I.norm(st, v)
        if isinstance(v, Arr):
            return None
        k = self.I.iter_known(st, v)
        if k is None or k[1]:
            return None
        return [self.I.norm(st, x) for x in k[0]]

    keep0 = False                   # torch numbers stay 0-d tensors

    def arr(self, st, v, dtype=None):
        """array value of a scalar, nested sequence or array; Unk when not known"""
        v = self.I.norm(st, v)
        if isinstance(v, Arr):
            return v
        if isinstance(v, K) and isinstance(v.v, (int, float)):
            return Arr((), [self.poly(v)], dtype)
        s = self.seq(st, v) if not (isinstance(v, K) and isinstance(v.v, str)) else None
        if s is not None:
            xs = [self.arr(st, x) for x in s]
            if not xs:
                return Arr((0,), [], dtype)
            if any(x.shape != xs[0].shape for x in xs):
                raise Unk()
            return Arr((len(xs),) + xs[0].shape, [e for x in xs for e in x.el], dtype or (xs[0].dtype if xs[0].shape else None))
        if isinstance(v, T) and v.op not in ('phi', 'ite'):
            return Arr((), [self.poly(v)], dtype)
        raise Unk()

    def ints(self, st, v):
        """list of ints / int"""
        v = self.I.norm(st, v)
        if isinstance(v, K) and isinstance(v.v, int):
            return int(v.v)
        if isinstance(v, K) and v.v is None:
            return None
        if isinstance(v, Arr):
            if not v.const():
                raise Unk()
            n = v.nested()
            return n
        s = self.seq(st, v)
        if s is None:
            raise Unk()
        out = [self.ints(st, x) for x in s]
        return out

    def dims(self, st, args):
        """shape given as one sequence or as separate ints"""
        if len(args) == 1:
            r = self.ints(st, args[0])
            return r if isinstance(r, list) else [r]
        return [self.ints(st, a) for a in args]

    def key(self, st, k):
        k = self.I.norm(st, k)
        if isinstance(k, K) and (k.v is None or k.v is Ellipsis or isinstance(k.v, int)):
            return k.v
        if isinstance(k, T) and k.op == 'slice':
            xs = [self.I.norm(st, a) for a in k.args]
            xs = [K(num(x.el[0])) if isinstance(x, Arr) and len(x.el) == 1 and x.const() else x for x in xs]
            if all(isinstance(x, K) for x in xs):
                return slice(*[x.v for x in xs])
            raise Unk()
        if isinstance(k, Arr):
            if k.const():
                n = k.nested()
                if isinstance(n, list) and any(isinstance(x, list) for x in n):
                    if k.dtype == 'bool':
                        raise Unk()
                    return k
                if k.dtype == 'bool' and isinstance(n, list):
                    n = [bool(x) for x in n]
                return n
            raise Unk()
        s = self.seq(st, k)
        if s is None:
            raise Unk()
        return [self.key(st, x) for x in s]

    def out(self, a):
        if a.shape == () and a.el[0].is_const and not (self.keep0 and (a.lib == 'torch' or self.keep0 == 'all') and a.dtype != 'bool'):
            return K(num(a.el[0])) if a.dtype != 'bool' else K(bool(a.el[0].c))
        return a

    def dead(self, st, why):
        raise Dead(st, T('shape error', (str(why),)))

    # ---- hooks of the interpreter ---------------------------------------------------------------
    def getattr(self, st, a, name):
        if name == 'shape':
            return Tup([K(d) for d in a.shape])
        if name in ('ndim',):
            return K(a.rank)
        if name == 'size' and a.lib != 'torch':
            return K(len(a.el))
        if name == 'T':
            return transpose(a, list(reversed(range(a.rank))))
        if name in ('data', 'real'):
            return a
        if name == 'dtype':
            return T('dtype', (a.dtype or '?',)) if a.dtype else T('attr', (a, 'dtype'))
        if name == 'is_quantized':
            return K(False)
        if name == 'device':
            return T('sym', ('device',))
        if name in ('requires_grad',):
            return T('sym', ('requires_grad',))
        if name == 'grad':
            return T('attr', (a, name))
        return T('attr', (a, name))

    def binop(self, st, op, a, b):
        try:
            x, y = self.arr(st, a), self.arr(st, b)
            if op in BIN:
                return self.out(zipmap(BIN[op], x, y))
            if op == '**':
                if len(y.el) == 1 and y.el[0].is_const:
                    return self.out(x.but(el=[e.pow(y.el[0].c) for e in x.el]))
                return self.out(zipmap(lambda p, q: fun('pow', p, q), x, y))
            if op == '@':
                return self.out(matmul(x, y))
            if op in ('//', '%'):
                def f(p, q):
                    if p.is_const and q.is_const and q.c:
                        return Poly.const(p.c // q.c if op == '//' else p.c % q.c)
                    return fun(op, p, q)
                return self.out(zipmap(f, x, y))
            return self.out(zipmap(lambda p, q: fun(op, p, q), x, y))
        except NoShape as e:
            self.dead(st, e)
        except Unk:
            return T('bin', (op, a, b))

    def unary(self, st, op, a):
        if op == '-':
            return a.but(el=[-e for e in a.el])
        if op == '~' and a.dtype == 'bool':
            return a.but(el=[Poly.const(1) - e for e in a.el])
        return a if op == '+' else T('un', (op, a))

    def compare(self, st, op, a, b):
        if op in ('is', 'is not'):
            r = isinstance(a, Arr) and isinstance(b, Arr) and a == b
            return K(r == (op == 'is'))
        if op in ('in', 'not in'):
            return T('cmp', (op, a, b))
        try:
            x, y = self.arr(st, a), self.arr(st, b)

            def f(p, q):
                d = p - q
                if d.is_const:
                    c = d.c
                    return Poly.const(int({'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]))
                return fun('cmp' + op, p, q)
            return self.out(zipmap(f, x, y).but(dtype='bool'))
        except NoShape as e:
            self.dead(st, e)
        except Unk:
            return T('cmp', (op, a, b))

    def getitem(self, st, a, key):
        try:
            k = self.I.norm(st, key)
            ks = [self.key(st, x) for x in k.items] if isinstance(k, Tup) else [self.key(st, k)]
            if sum(1 for x in ks if isinstance(x, (list, Arr))) > 1 or any(isinstance(x, Arr) for x in ks):
                return self.out(advanced(a, ks))
            sh, sel = index(a, ks)
            return self.out(a.but(sh, [a.at(i) for i in itertools.product(*sel)]))
        except NoShape as e:
            self.dead(st, e)
        except Unk:
            return T('item', (a, key))

    def setitem(self, st, a, key, v):
        """new array after a[key] = v, or None"""
        try:
            k = self.I.norm(st, key)
            ks = [self.key(st, x) for x in k.items] if isinstance(k, Tup) else [self.key(st, k)]
            sh, sel = index(a, ks)
            w = broadcast(self.arr(st, v), tuple(sh))
            el = list(a.el)
            for i, e in zip(itertools.product(*sel), w.el):
                el[offset(a.shape, i)] = e
            return a.but(el=el)
        except NoShape as e:
            self.dead(st, e)
        except Unk:
            return None

    def filled(self, st, a, v):
        if not isinstance(a, Arr):
            return None
        try:
            return a.but(el=[self.poly(self.I.norm(st, v))] * len(a.el))
        except Unk:
            return None

    def iter(self, st, a):
        if a.rank == 0:
            return None
        n = size(a.shape[1:])
        return [self.out(a.but(a.shape[1:], a.el[i * n:(i + 1) * n])) for i in range(a.shape[0])], ()

    def truth(self, a):
        if len(a.el) == 1 and a.el[0].is_const:
            return bool(a.el[0].c)
        return None

    # ---- functions -------------------------------------------------------------------------------
    def call(self, st, fn, args, kwargs):
        """result of a call with arrays involved, or NotImplemented"""
        I = self.I
        if not (isinstance(fn, T) and fn.op in ('ext', 'attr')):
            if isinstance(fn, Bi) and any(isinstance(I.norm(st, x), Arr) for x in args):
                return self.builtin(st, fn.name, [I.norm(st, x) for x in args], kwargs)
            return NotImplemented
        args = [I.norm(st, x) for x in args]
        kwargs = {k: I.norm(st, v) for k, v in kwargs.items()}
        if fn.op == 'attr':
            base, name, lib = I.norm(st, fn.args[0]), fn.args[1], None
            if isinstance(base, K) and isinstance(base.v, (bool, int)) and name in ('all', 'any') and not args:
                return K(bool(base.v))
            if not isinstance(base, Arr):
                return NotImplemented
            args = [base] + args
            method = True
        else:
            lib, _, name = fn.args[0].rpartition('.')
            if lib.split('.')[0] not in ('numpy', 'torch', 'math'):
                return NotImplemented
            method = False
            if lib == 'torch' and name in ('Size',):
                return args[0] if args else NotImplemented
            if lib == 'numpy' and name == 'broadcast_shapes':
                return self.broadcast_shapes(st, args)
            if lib == 'numpy' and name in ('all', 'any') and len(args) == 1 and isinstance(args[0], K) and isinstance(args[0].v, (bool, int)):
                return K(bool(args[0].v))
            if not any(isinstance(a, Arr) for a in list(args) + list(kwargs.values())) and name not in MAKERS:
                ok = False
                for a in args[:1]:
                    s = self.seq(st, a) if isinstance(a, (Tup, Ref)) else None
                    ok = ok or bool(s) and any(isinstance(x, Arr) for x in s)
                    ok = ok or lib == 'numpy' and s is not None and name in ('prod', 'sum', 'argsort', 'cumsum', 'diff', 'add', 'max', 'min', 'transpose', 'reshape', 'unique', 'sort')
                if not ok:
                    return NotImplemented
        try:
            r = self.func(st, name, args, kwargs, method, (lib or '').split('.')[0])
        except NoShape as e:
            self.dead(st, e)
        except (Unk, ZeroDivisionError, IndexError, KeyError, TypeError, ValueError):
            return NotImplemented
        if isinstance(r, Arr):
            return self.out(r) if not (name in ('tensor', 'array', 'Parameter')) else r
        return r

    def broadcast_shapes(self, st, args):
        try:
            shapes = [tuple(self.dims(st, [a])) for a in args]
        except Unk:
            return NotImplemented
        n = max(map(len, shapes), default=0)
        out = []
        for ds in zip(*[(1,) * (n - len(s)) + s for s in shapes]):
            d = {x for x in ds if x != 1}
            if len(d) > 1:
                raise Dead(st, T('excval', ('ValueError',)))
            out.append(d.pop() if d else 1)
        return Tup([K(x) for x in out])

    def builtin(self, st, n, A, kwargs):
        a = A[0]
        if n == 'len' and len(A) == 1 and a.rank:
            return K(a.shape[0])
        if n in ('int', 'float') and len(A) == 1 and isinstance(a, Arr):
            return a if not a.el[0].is_const else K((int if n == 'int' else float)(num(a.el[0])))
        if n == 'abs' and len(A) == 1:
            return a.but(el=[pabs(e) for e in a.el])
        if n in ('bool',) and self.truth(a) is not None:
            return K(self.truth(a))
        return NotImplemented

    def func(self, st, name, A, kw, method, lib):
        I = self.I
        a = A[0] if A else None
        r = A[1:]

        def opt(i, *names, d=None):
            if i is not None and i < len(r):
                return r[i]
            for n in names:
                if n in kw:
                    return kw[n]
            return d
        if name in MAKERS and not method:
            return self.make(st, name, A, kw, lib)
        if name in ('cat', 'concat', 'concatenate', 'stack', 'vstack', 'hstack'):
            xs = [self.arr(st, x) for x in (self.seq(st, a) or [])]
            if not xs:
                raise Unk()
            ax = self.ints(st, opt(0, 'dim', 'axis', d=K(0)))
            if name == 'stack':
                n = xs[0].rank + 1
                ax %= n
                xs = [x.but(x.shape[:ax] + (1,) + x.shape[ax:]) for x in xs]
            if name in ('vstack', 'hstack'):
                raise Unk()
            return concat(xs, ax)
        if not isinstance(a, Arr):
            if name in ('prod', 'sum', 'diff', 'cumsum', 'sort', 'abs', 'sqrt', 'argsort', 'matmul', 'mul', 'add', 'sub', 'div', 'multiply', 'divide', 'subtract', 'transpose', 'true_divide',
                        'maximum', 'minimum', 'max', 'min', 'isclose', 'expand_dims', 'reshape', 'pow', 'power', 'rsqrt'):
                a = self.arr(st, a)
            else:
                raise Unk()
        if name in ('copy', 'fill') and method and a.lib == 'torch' and r:          # copy_, fill_
            b = broadcast(self.arr(st, r[0]), a.shape)
            return a.but(el=b.el)
        if name in IDENT:
            return a
        if name in ('type', 'astype', 'to', 'type_as', 'view') and method:
            ks = [x for x in list(r) + list(kw.values())]
            dts = [self.dtype(x) for x in ks]
            if name == 'view' and (not ks or self.dtype(ks[0]) is None):
                return reshape(a, self.dims(st, r))
            dt = [d for d in dts if d]
            if name == 'view':
                raise Unk()
            if dt:
                return self.cast(a, dt[0])
            return a
        if name in CAST and method:
            return self.cast(a, CAST[name])
        if name in ('reshape', 'view', 'resize'):
            if method:
                return reshape(a, self.dims(st, r) if r else self.dims(st, [opt(None, 'shape', 'newshape')]))
            return reshape(a, self.dims(st, [opt(0, 'shape', 'newshape')]))
        if name in ('transpose', 'permute', 'swapaxes'):
            if name == 'transpose' and not r and not kw:
                return transpose(a, list(reversed(range(a.rank))))
            if name == 'swapaxes' or (name == 'transpose' and (lib == 'torch' or (method and len(r) == 2 and a.rank != 2))):
                i, j = axes_of(a, [self.ints(st, r[0]), self.ints(st, r[1])])
                p = list(range(a.rank))
                p[i], p[j] = p[j], p[i]
                return transpose(a, p)
            p = self.dims(st, r if r else [opt(None, 'axes', 'dims')])
            if name == 'transpose' and method and len(r) == 2 and a.rank == 2 and a.lib == 'torch':
                return transpose(a, [1, 0] if p[0] != p[1] else [0, 1])
            return transpose(a, p)
        if name == 't':
            return transpose(a, list(reversed(range(a.rank))))
        if name in ('flatten', 'ravel'):
            s = self.ints(st, opt(0, 'start_dim', d=K(0))) if a.lib == 'torch' or lib == 'torch' else 0
            return reshape(a, list(a.shape[:s]) + [-1])
        if name == 'squeeze':
            ax = self.ints(st, opt(0, 'dim', 'axis', d=NONE))
            ax = [i for i, d in enumerate(a.shape) if d == 1] if ax is None else [i for i in axes_of(a, ax) if a.shape[i] == 1]
            return a.but([d for i, d in enumerate(a.shape) if i not in ax])
        if name in ('unsqueeze', 'expand_dims'):
            ax = self.ints(st, opt(0, 'dim', 'axis'))
            for x in ([ax] if isinstance(ax, int) else ax):
                x %= a.rank + 1
                a = a.but(a.shape[:x] + (1,) + a.shape[x:])
            return a
        if name in ('sum', 'mean', 'prod', 'max', 'min', 'amax', 'amin', 'all', 'any', 'nansum'):
            if name in ('max', 'min') and r and isinstance(r[0], Arr):
                return zipmap(lambda x, y: pset(name)([x, y]), a, r[0])
            ax = opt(0, 'dim', 'axis', d=NONE)
            ax = self.ints(st, ax)
            kd = opt(1, 'keepdim', 'keepdims', d=K(False))
            if not isinstance(kd, K):
                raise Unk()
            if name in ('all', 'any'):
                f = (lambda es: Poly.const(int(all(e.c for e in es) if name == 'all' else any(e.c for e in es)))
                     if all(e.is_const for e in es) else fun(name, frozenset(es)))
                return reduce(a, ax, kd.v, f).but(dtype='bool')
            f = {'sum': psum, 'prod': pprod}.get(name)
            if name == 'mean':
                f = lambda es: psum(es) * Poly.const(Fraction(1, len(es)))
            if f is None:
                f = pset(name[-3:])
            res = reduce(a, ax, kd.v, f)
            if name in ('max', 'min') and ax is not None and (lib == 'torch' or a.lib == 'torch'):
                return Tup([res, T('arg' + name, (a,))])
            return res
        if name in ('norm', 'vector_norm'):
            p = opt(0, 'p', 'ord', d=K(2))
            ax = self.ints(st, opt(1, 'dim', 'axis', d=NONE))
            kd = opt(2, 'keepdim', 'keepdims', d=K(False))
            if isinstance(p, K) and p.v in ('fro', None):
                p = K(2)
            if not (isinstance(p, K) and isinstance(kd, K)):
                raise Unk()
            if p.v == 1:
                return reduce(a, ax, kd.v, lambda es: psum([pabs(e) for e in es]))
            if p.v == 2:
                return reduce(a, ax, kd.v, lambda es: psum([e * e for e in es]).pow(HALF))
            return reduce(a, ax, kd.v, lambda es: fun('norm', str(p.v), frozenset(es)))
        if name in ('matmul', 'dot', 'mm', 'bmm'):
            return matmul(a, self.arr(st, r[0]))
        ops = {'add': '+', 'sub': '-', 'subtract': '-', 'mul': '*', 'multiply': '*', 'div': '/', 'divide': '/', 'true_divide': '/',
               'add_': '+', 'sub_': '-', 'mul_': '*', 'div_': '/'}
        if name in ops and (r or kw):
            if kw:
                raise Unk()
            return zipmap(BIN[ops[name]], a, self.arr(st, r[0]))
        if name in ('pow', 'power', 'float_power'):
            res = self.binop(st, '**', a, opt(0, 'exponent'))
            return res
        if name == '__getitem__' and method and len(r) == 1 and not kw:
            return self.getitem(st, a, r[0])
        if name in UNARY:
            if name in ('isnan', 'isinf'):
                return a.but(el=[Poly.const(0) if e.is_const else fun(name, e) for e in a.el], dtype='bool')
            f = UNARY[name] or (lambda e: fun(name, e))
            return a.but(el=[f(e) for e in a.el])
        if name in ('abs', 'absolute', 'fabs'):
            return a.but(el=[pabs(e) for e in a.el])
        if name in ('repeat',):
            if method and a.lib == 'torch':
                return tile(a, self.dims(st, r))
            ax = self.ints(st, opt(1, 'axis', d=NONE))
            return repeat_each(a, self.ints(st, opt(0, 'repeats')), ax)
        if name == 'repeat_interleave':
            return repeat_each(a, self.ints(st, opt(0, 'repeats')), self.ints(st, opt(1, 'dim', d=NONE)))
        if name == 'tile':
            return tile(a, self.dims(st, r))
        if name in ('expand', 'broadcast_to'):
            d = self.dims(st, r)
            pad = len(d) - a.rank
            d = [a.shape[i - pad] if x == -1 and i >= pad else x for i, x in enumerate(d)]
            return broadcast(a, tuple(d))
        if name == 'expand_as':
            return broadcast(a, r[0].shape)
        if name in ('index_select',):
            return take(a, self.ints(st, opt(1, 'index')), self.ints(st, opt(0, 'dim')))
        if name == 'is_nonzero' and len(a.el) == 1 and a.const():
            return K(bool(a.el[0].c))
        if name == 'take' and len(r) == 1 and not kw and self.keep0 == 'all':
            ix = self.arr(st, r[0])
            return a.but(ix.shape, [a.el[int(e.c)] for e in ix.el])
        if name == 'take' and (len(r) > 1 or 'axis' in kw):
            return take(a, self.ints(st, opt(0, 'indices')), self.ints(st, opt(1, 'axis')))
        if name == 'unbind':
            ax = self.ints(st, opt(0, 'dim', 'axis', d=K(0))) % a.rank
            return Tup([take(a, [i], ax).but(shape=a.shape[:ax] + a.shape[ax + 1:]) for i in range(a.shape[ax])])
        if name in ('split', 'chunk', 'array_split', 'split_with_sizes'):
            ax = axes_of(a, self.ints(st, opt(1, 'dim', 'axis', d=K(0))))[0]
            n = a.shape[ax]
            s = self.ints(st, opt(0, 'split_size_or_sections', 'indices_or_sections', 'split_size', 'chunks', 'sections'))
            tor = lib == 'torch' or a.lib == 'torch'
            if isinstance(s, int):
                if name == 'chunk':
                    per = -(-n // s)
                    cuts = list(range(0, n, per)) + [n]
                elif tor:
                    cuts = list(range(0, n, s)) + [n]
                else:
                    if n % s and name == 'split':
                        raise NoShape('array split does not result in an equal division')
                    q, m = divmod(n, s)
                    cuts = [0]
                    for i in range(s):
                        cuts.append(cuts[-1] + q + (i < m))
            elif tor:
                cuts = [0]
                for x in s:
                    cuts.append(cuts[-1] + x)
            else:
                cuts = [0] + s + [n]
            parts = [take(a, list(range(x, y)), ax) for x, y in zip(cuts, cuts[1:])]
            return Tup(parts) if tor else I.new_list(st, parts)
        if name in ('size', 'shape'):
            if r:
                return K(a.shape[axes_of(a, self.ints(st, r[0]))[0]])
            return Tup([K(d) for d in a.shape])
        if name in ('dim', 'ndimension', 'ndim'):
            return K(a.rank)
        if name in ('numel', 'nelement'):
            return K(len(a.el))
        if name == 'item':
            if len(a.el) != 1:
                raise NoShape('item() of %s elements' % len(a.el))
            return Arr((), a.el, a.dtype)
        if name == 'tolist':
            def go(x):
                return self.out(x) if not x.shape else I.new_list(st, [go(y if isinstance(y, Arr) else Arr((), [self.poly(y)])) for y in self.iter(st, x)[0]])
            return go(a)
        if name in ('clamp', 'clip', 'clamp_'):
            lo, hi = opt(0, 'min', 'a_min', d=NONE), opt(1, 'max', 'a_max', d=NONE)
            f = lambda e: fun('clip', e, self.cval(lo), self.cval(hi))
            return a.but(el=[f(e) for e in a.el])
        if name in ('maximum', 'minimum'):
            return zipmap(lambda x, y: pset(name[:3])([x, y]), a, self.arr(st, r[0]))
        if name in ('flip',):
            for ax in axes_of(a, self.ints(st, opt(0, 'dims', 'axis', d=NONE))):
                a = take(a, list(reversed(range(a.shape[ax]))), ax)
            return a
        if name == 'argsort' and a.const() and a.rank == 1:
            v = [num(e) for e in a.el]
            o = sorted(range(len(v)), key=lambda i: v[i])
            return Arr((len(o),), [Poly.const(x) for x in o], 'int64')
        if name == 'cumsum' and a.rank == 1:
            out, acc = [], Poly.const(0)
            for e in a.el:
                acc = acc + e
                out.append(acc)
            return a.but(el=out)
        if name == 'sort' and a.const() and a.rank == 1 and not method and lib == 'numpy':
            return a.but(el=[Poly.const(x) for x in sorted(e.c for e in a.el)])
        if name in ('new_zeros', 'new_ones', 'zeros_like', 'ones_like', 'full_like', 'empty_like', 'new_full'):
            sh = a.shape if name.endswith('_like') else self.dims(st, r)
            c = 1 if 'ones' in name else 0 if 'zeros' in name else None
            if name == 'new_full':
                c = self.poly(opt(1, 'fill_value'))
                sh = self.dims(st, r[:1])
            dt = self.dtype(kw['dtype']) if 'dtype' in kw else a.dtype
            if name == 'full_like':
                return Arr(sh, [self.poly(opt(0, 'fill_value'))] * size(sh), dt, a.lib)
            if c is None:
                raise Unk()
            return Arr(sh, [c if isinstance(c, Poly) else Poly.const(c)] * size(sh), dt, a.lib)
        if name == 'pad' and not method and lib == 'numpy':
            p = self.ints(st, r[0])
            fill = kw.get('constant_values')
            fill = Poly.const(0) if fill is None else self.arr(st, fill).el[0]
            if set(kw) - {'constant_values'} or len(r) > 1 or not isinstance(p, list) or not isinstance(p[0], list):
                raise Unk()
            for ax, (lo, hi) in enumerate(p):
                parts = []
                for n in (lo, hi):
                    sh = list(a.shape)
                    sh[ax] = n
                    parts.append(Arr(sh, [fill] * size(sh), a.dtype))
                a = concat([parts[0], a, parts[1]], ax)
            return a
        if name in ('Parameter', 'from_numpy', 'ascontiguousarray', 'asarray', 'array', 'tensor', 'as_tensor', 'Tensor', 'FloatTensor') :
            return a
        if name in ('array_equal', 'equal'):
            b = self.arr(st, r[0])
            if b.shape != a.shape:
                return K(False)
            if a.el == b.el:
                return K(True)
            if a.const() and b.const():
                return K(False)
            raise Unk()
        if name in ('isclose', 'allclose'):
            b = self.arr(st, r[0])
            if a.const() and b.const():
                x = zipmap(lambda p, q: Poly.const(int(abs(p.c - q.c) <= Fraction(1, 10**8) + Fraction(1, 10**5) * abs(q.c))), a, b).but(dtype='bool')
                return x if name == 'isclose' else K(all(e.c for e in x.el))
            raise Unk()
        if name == 'where' and not r and not kw and a.const():
            nz = [i for i in indices(a.shape) if a.at(i).c]
            return Tup([Arr((len(nz),), [Poly.const(i[d]) for i in nz], 'int64') for d in range(a.rank)])
        if name == 'where' and (len(r) == 2 or 'self' in kw or 'input' in kw) and not method:
            xs = [a] + [self.arr(st, v) for v in (r or [kw.get('input', kw.get('self')), kw['other']])]
            sh = zipmap(lambda p, q: p, zipmap(lambda p, q: p, xs[0], xs[1]), xs[2]).shape
            c, x, y = [broadcast(v, sh) for v in xs]
            return Arr(sh, [(q if p.c else t) if p.is_const else fun('SELECT', p, q, t) for p, q, t in zip(c.el, x.el, y.el)], x.dtype or y.dtype, lib or None)
        if name == 'searchsorted' and a.const() and a.rank == 1:
            so = opt(2, 'sorter', d=NONE)
            if isinstance(opt(1, 'side', d=K('left')), K) and opt(1, 'side', d=K('left')).v == 'left':
                vals = [num(e) for e in a.el] if so == NONE else [num(a.el[i]) for i in self.ints(st, so)]
                v = self.arr(st, r[0])
                if vals != sorted(vals):
                    raise Unk()
                return v.but(el=[Poly.const(sum(1 for x in vals if x < e.c)) for e in v.el], dtype='int64')
        if name in ('diff',) and a.rank == 1 and not r and not kw:
            return a.but((max(0, len(a.el) - 1),), [y - x for x, y in zip(a.el, a.el[1:])])
        if name == 'nonzero' and a.const() and 'torch' in (lib, a.lib) and self.keep0 == 'all':
            r = [i for i, e in zip(indices(a.shape), a.el) if e.c]
            return Arr((len(r), a.rank), [Poly.const(x) for i in r for x in i], 'int64', 'torch')
        if name == 'nonzero' and a.const() and a.rank == 1:
            z = Arr((sum(1 for e in a.el if e.c),), [Poly.const(i) for i, e in enumerate(a.el) if e.c], 'int64')
            return z.but((z.shape[0], 1)) if lib == 'torch' or a.lib == 'torch' else Tup([z])
        raise Unk()

    def finfo(self, v, name):
        mx = {'float32': 3.4028234663852886e+38, 'float16': 65504.0}.get(self.dtype(v.args[1][0]) if len(v.args[1]) == 1 else None)
        if name == 'eps' and mx is not None:
            return K(2.0 ** -23 if mx > 1e6 else 2.0 ** -10)
        return None if mx is None or name not in ('min', 'max') else K(mx if name == 'max' else -mx)

    def cval(self, v):
        try:
            return self.poly(v)
        except Unk:
            return v

    def cast(self, a, dt):
        if a.dtype == dt:
            return a
        if dt and dt.startswith('int') or dt == 'uint8':
            return a.but(el=[Poly.const(int(e.c)) if e.is_const else e if (a.dtype or '').startswith(('int', 'uint', 'bool')) or isint(e) else fun('trunc', e) for e in a.el], dtype=dt)
        return a.but(dtype=dt)

    def dtype(self, v):
        if isinstance(v, K) and isinstance(v.v, str):
            return v.v if v.v[:3] in ('int', 'uin', 'flo', 'boo') else None
        if isinstance(v, T) and v.op == 'ext' and v.args[0].split('.')[0] in ('numpy', 'torch'):
            n = v.args[0].split('.')[-1]
            return {'float': 'float32', 'double': 'float64', 'half': 'float16', 'long': 'int64', 'int': 'int32', 'FloatTensor': 'float32',
                    'LongTensor': 'int64', 'bool_': 'bool'}.get(n, n if n[:3] in ('int', 'uin', 'flo', 'boo', 'qui', 'qin') else None)
        if isinstance(v, T) and v.op == 'dtype':
            return v.args[0]
        if isinstance(v, T) and v.op == 'call' and isinstance(v.args[0], T) and v.args[0].op == 'ext' and v.args[0].args[0] == 'numpy.dtype' and len(v.args[1]) == 1:
            return self.dtype(v.args[1][0])
        if isinstance(v, Arr):
            return v.dtype
        if isinstance(v, Bi):
            return {'int': 'int64', 'float': 'float64', 'bool': 'bool'}.get(v.name)
        return None

    def make(self, st, name, A, kw, lib):
        dt = self.dtype(kw['dtype']) if 'dtype' in kw else None
        L = lib if lib in ('torch', 'numpy') else None
        if name in ('array', 'asarray', 'tensor', 'as_tensor', 'Tensor', 'Parameter', 'FloatTensor', 'from_numpy', 'ascontiguousarray', 'LongTensor'):
            if not A:
                raise Unk()
            if name == 'array' and len(A) > 1:
                dt = dt or self.dtype(A[1])
            v = self.I.norm(st, A[0])
            if isinstance(v, T):
                raise Unk()
            a = self.arr(st, v)
            a = Arr(a.shape, a.el, a.dtype, L)
            return self.cast(a, dt) if dt else a
        if name in ('zeros', 'ones', 'empty', 'full'):
            n = 1
            if name == 'full':
                sh = self.dims(st, A[:1])
                return Arr(sh, [self.poly(A[1] if len(A) > 1 else kw['fill_value'])] * size(sh), dt, L)
            if name == 'empty':
                raise Unk()
            A = [a for a in A if self.dtype(a) is None]
            sh = self.dims(st, A if A else [kw.get('size', kw.get('shape'))])
            return Arr(sh, [Poly.const(int(name == 'ones'))] * size(sh), dt or 'float32', L)
        if name == 'arange':
            v = [int(a.v) if isinstance(a, K) and isinstance(a.v, float) and a.v == int(a.v) else self.ints(st, a) for a in (self.I.norm(st, a) for a in A)]
            if any(not isinstance(x, int) for x in v):
                raise Unk()
            r = list(range(*v))
            return Arr((len(r),), [Poly.const(x) for x in r], dt or 'int64', L)
        if name == 'eye':
            n = self.ints(st, A[0])
            return Arr((n, n), [Poly.const(int(i == j)) for i in range(n) for j in range(n)], dt or 'float32', L)
        raise Unk()


def isint(e):
    """is the expression integer valued (rounded values and sums of them)"""
    for m, c in e.t.items():
        if c.denominator != 1:
            return False
        for a, x in m:
            if not (isinstance(a, tuple) and a[0] == 'F' and a[1] in ('round', 'rint', 'trunc', 'floor', 'ceil', 'clip') and x.denominator == 1 and x > 0):
                return False
            if a[1] == 'clip' and not isint(a[2]):
                return False
    return True


MAKERS = {'array', 'asarray', 'tensor', 'as_tensor', 'zeros', 'ones', 'full', 'arange', 'eye', 'Parameter', 'empty', 'Tensor', 'FloatTensor', 'LongTensor',
          'from_numpy', 'ascontiguousarray'}
