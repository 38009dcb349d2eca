"""Bench for the source operator converters: one framework graph node with symbolic tensor data is translated by the converter class
found in OPERATOR_CONVERTER_DICT, and the function the produced target operators compute is read off the graph."""
import os
from fractions import Fraction
from .interp import K, T, BM, Tup, Ref, NONE, Dead, Cls, Fn, State
from .arr import Arr, Poly, Unk, NoShape, fun, fresh, pset, num, indices
from .qtensors import QTensors
from .sem import ValueBench, VScene, Sem, lit
from .topo import Undecided
from .repo import AnalysisBroken

TORCH = 'tinynn.converter.operators.torch'


ORDER = ['bool', 'uint8', 'int8', 'int16', 'int32', 'int64', 'float16', 'float32', 'float64']


def result_type(vals):
    """type of an operation on tensors and numbers: a number or a tensor without dimensions counts only if its kind is higher"""
    kind = lambda d: 0 if d == 'bool' else 2 if d.startswith('float') else 1
    full, zero = [], []
    for v in vals:
        if isinstance(v, Arr):
            if v.dtype not in ORDER:
                return None
            (full if v.rank else zero).append(v.dtype)
        elif isinstance(v, K) and isinstance(v.v, (bool, int, float)):
            zero.append('bool' if isinstance(v.v, bool) else 'int64' if isinstance(v.v, int) else 'float32')
        else:
            return None
    top = lambda ds: max(ds, key=ORDER.index)
    if {'int8', 'uint8'} <= set(full):
        return None
    if not full:
        return top(zero)
    t = top(full)
    return t if not zero or kind(top(zero)) <= kind(t) else top(zero)


class In:
    """tensor computed at run time"""
    def __init__(self, *shape, dtype='float32', q=None):
        self.shape, self.dtype, self.q = shape, dtype, q


class Par(In):
    """constant tensor of unknown data"""


class Con:
    """constant tensor of known data"""
    def __init__(self, v, dtype='float32'):
        self.v, self.dtype = v, dtype


class L(list):
    """a list of tensors made by prim::ListConstruct"""


class Same:
    """the same tensor as another argument"""
    def __init__(self, name):
        self.name = name


class Bench(ValueBench):
    """the tensor constructor itself is interpreted, not summarised; nothing is run to trace the node"""

    def __init__(self, ctx):
        super().__init__(ctx)
        I = self.I
        self.Q = QTensors(I)
        I.repo.add_model('verif_jit', os.path.join(os.path.dirname(__file__), 'models', 'jit.py'))
        I.arrays.keep0 = 'all'
        I.strict = True
        self.Node, self.Value = I.lookup('verif_jit.Node'), I.lookup('verif_jit.Value')
        self.Sig = I.lookup('verif_jit.Signature')
        base = I.lookup(TORCH + '.base.OperatorConverter')
        if not isinstance(base, Cls) or self.Node is None:
            raise AnalysisBroken('OperatorConverter not found')
        self.base = base
        self.run_fn = I.class_attr(base, 'run')[0]
        self.outs = None
        self.table = None
        ga = I.arrays.getattr

        def getattr_(st, a, name):
            if name == 'is_quantized':
                return K((a.dtype or '').startswith(('quint', 'qint')))
            if name == 'itemsize':
                return K({'8': 1, '6': 2, '2': 4, '4': 8}.get((a.dtype or 'float32')[-1], 4))
            return ga(st, a, name)
        I.arrays.getattr = getattr_

    def hook(self, I, st, fn, args, kwargs, node, mod):
        if fn == self.run_fn or isinstance(fn, BM) and fn.fn == self.run_fn:
            s = fn.self if isinstance(fn, BM) else args[0]
            I.setattr(st, s, 'output_tensors', I.new_list(st, list(self.outs)), None, None)
            return NONE
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] == 'torch.nn.functional.avg_pool2d' and len(args) >= 2:
            from .convcases import pool
            x = I.norm(st, args[0])
            kw = dict(zip(('kernel_size', 'stride', 'padding', 'ceil_mode', 'count_include_pad'), args[1:]))
            kw.update(kwargs)
            two = lambda n, d: (lambda r: r if isinstance(r, list) else [r] * 2)(I.arrays.ints(st, kw[n])) if n in kw else d
            fl = {n: I.norm(st, kw.get(n, K(d))) for n, d in (('ceil_mode', False), ('count_include_pad', True))}
            if isinstance(x, Arr) and x.rank in (3, 4) and all(isinstance(v, K) for v in fl.values()):
                k = two('kernel_size', None)
                return pool(x, k, two('stride', k), two('padding', [0, 0]), [1, 1], fl['ceil_mode'].v, 'avg', fl['count_include_pad'].v)
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] in ('torch.nn.functional.unfold', 'torch.nn.functional.fold'):
            from .convcases import unfold, fold
            x = I.norm(st, args[0])
            o = [I.arrays.ints(st, a) for a in args[1:]]
            if isinstance(x, Arr) and len(o) == 4 + (fn.args[0][-6:] != 'unfold') and not kwargs:
                return (unfold if len(o) == 4 else fold)(x, *o)
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] == 'torch.nn.functional.pad' and len(args) == 2 and not kwargs:
            from .convcases import pad
            x, p = I.norm(st, args[0]), I.arrays.ints(st, args[1])
            if isinstance(x, Arr) and isinstance(p, list) and min(p, default=0) >= 0:
                return pad(x, p)
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] == 'torch.gather' and len(args) == 3 and not kwargs:
            x, d, ix = (I.norm(st, a) for a in args)
            if isinstance(x, Arr) and isinstance(d, K) and isinstance(ix, Arr) and ix.const():
                d = d.v % x.rank
                return x.but(ix.shape, [x.at(i[:d] + (int(ix.at(i).c),) + i[d + 1:]) for i in indices(ix.shape)])
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] == 'inspect.signature' and len(args) == 1:
            f = args[0].fn if isinstance(args[0], BM) else args[0]
            if isinstance(f, Fn):
                ar = f.node.args
                return I.call(st, self.Sig, [I.new_dict(st, [(K(a.arg), K(True)) for a in ar.posonlyargs + ar.args + ar.kwonlyargs])], {}, None, None)
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] in ('torch.promote_types', 'numpy.promote_types') and len(args) == 2:
            d = [I.arrays.dtype(I.norm(st, a)) for a in args]
            if all(x in ORDER for x in d):
                if set(d) == {'int8', 'uint8'}:
                    return T('dtype', ('int16',))
                return T('dtype', (max(d, key=ORDER.index),))
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] == 'torch.result_type' and len(args) == 2 and not kwargs:
            r = result_type([I.norm(st, a) for a in args])
            if r is not None:
                return T('dtype', (r,))
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] == 'numpy.broadcast_arrays' and not kwargs:
            xs = [I.norm(st, a) for a in args]
            if all(isinstance(x, Arr) for x in xs):
                from .arr import bshape, broadcast
                sh = ()
                for x in xs:
                    sh = bshape(sh, x.shape)
                return Tup([broadcast(x, sh) for x in xs])
        if isinstance(fn, T) and fn.op == 'attr' and isinstance(fn.args[0], Arr) and fn.args[1] == 'is_floating_point':
            return K((fn.args[0].dtype or 'float32').startswith('float'))
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] in ('torch.empty', 'numpy.empty') and args:
            sh = I.iter_known(st, args[0])
            if sh is not None and all(isinstance(x, K) for x in sh[0]):
                return fresh('uninitialised', [x.v for x in sh[0]], 'float32', fn.args[0].split('.')[0])
        return NotImplemented

    def recorded(self, scene, sem):
        """a number may be recorded as a tensor of one element"""
        return [m for m in super().recorded(scene, sem) if not m.endswith('[1] recorded, its value has []')]

    def cls_of(self, kind):
        if self.table is None:
            I = self.I
            d = I.lookup(TORCH + '.OPERATOR_CONVERTER_DICT')
            st = State()
            d = I.norm(st, I.getattr(st, I.lookup(TORCH), 'OPERATOR_CONVERTER_DICT')) if d is None else d
            self.table = (st, d)
        st, d = self.table
        return self.I.getitem(st, d, K(kind))


    def kinds(self):
        self.cls_of('aten::add')
        st, d = self.table
        ks = self.I.iter_known(st, d)
        if ks is None:
            raise AnalysisBroken('OPERATOR_CONVERTER_DICT cannot be enumerated')
        return [k.v for k in ks[0] if isinstance(k, K)]


class Scene(VScene):
    def __init__(self, bench, kind, spec, opts=None):
        super().__init__(bench)
        self.kind, self.cfg = kind, opts or {}
        bench.Q.facts(self.st)
        self.names, self.inputs, self.args = [], [], []
        self.made = {}
        for n, v in spec.items():
            self.names.append(n)
            self.inputs.append(self.argument(n, v))

    def argument(self, n, v):
        """makes the argument; returns what the framework passes; self.made[n]: what it is (Arr, list of Arr, Python value)"""
        I, st = self.I, self.st
        if isinstance(v, Same):
            self.made[n] = self.made[v.name]
            self.same = (n, v.name)
            return self.inputs[self.names.index(v.name)]
        if isinstance(v, L):
            r = [self.argument('%s.%d' % (n, i), x) for i, x in enumerate(v)]
            self.made[n] = [self.made['%s.%d' % (n, i)] for i in range(len(v))]
            names = ['%s.%d' % (n, i) for i in range(len(v))]
            self.m(self.cg, 'add_iterable_pair', I.new_list(st, [K(x) for x in names]), I.new_list(st, [K(n)]), K('output'))
            return I.new_list(st, r)
        if isinstance(v, Con):
            a = lit(v.v, v.dtype)
            self.made[n] = a
            return Arr(a.shape, a.el, a.dtype, 'torch')
        if isinstance(v, Par):
            a = fresh(n, v.shape, v.dtype, 'torch')
            self.made[n] = a
            return a
        if v is None:
            self.made[n] = None
            return NONE
        if isinstance(v, In):
            self.inp(n, v.shape, v.dtype)
            self.made[n] = self.leaves[n]
            return fresh('traced ' + n, v.shape, v.dtype, 'torch')
        self.made[n] = v
        return self.lift(v)

    def lift(self, v):
        if isinstance(v, (list, tuple)):
            x = [self.lift(e) for e in v]
            return self.I.new_list(self.st, x) if isinstance(v, list) else Tup(x)
        if isinstance(v, str) and v.startswith('torch.'):
            return self.I.ext(v)
        return K(v)

    def convert(self, cls, outs, attrs=None):
        """outs: traced results (Arr or list of Arr per output).  Returns the output names."""
        I, st, b = self.I, self.st, self.t
        names = {}
        vals = []
        for n in self.names:
            m = self.same[1] if getattr(self, 'same', (None,))[0] == n else n
            if m not in names:
                names[m] = I.call(st, b.Value, [K(m)], {}, None, None)
            vals.append(names[m])
        on = ['out%d' % i for i in range(len(outs))] if len(outs) > 1 else ['out']
        node = I.call(st, b.Node, [K(self.kind), I.new_list(st, vals), I.new_list(st, [I.call(st, b.Value, [K(x)], {}, None, None) for x in on])], {}, None, None)
        tm = I.new_dict(st, [(K(n), v) for n, v in zip(self.names, self.inputs)])
        b.outs = [self.traced(n, outs[0].but(dtype='int64') if o is None else o) for n, o in zip(on, outs)]
        args = I.new_dict(st, [(K(n.split('#')[0]), K(i)) for i, n in enumerate(self.names)])
        at = I.new_dict(st, [(K(k), Tup([K(v), K('i')])) for k, v in (attrs or {}).items()])
        I.events.clear()
        I.nsteps = 0
        self.before = self.snapshot()
        kw = {k: self.lift(v) for k, v in self.cfg.items()}
        I.assume = self.assume
        try:
            o = I.call(st, cls, [node, tm, NONE], kw, None, None)
            I.call(st, I.getattr(st, o, 'parse'), [node, at, args, self.cg], {}, None, None)
        finally:
            I.assume = None
        self.result = I.norm(st, I.getattr(st, o, 'output_tensors'))
        return on

    def traced(self, n, o):
        if isinstance(o, list):
            return self.I.new_list(self.st, [self.traced('%s.%d' % (n, i), x) for i, x in enumerate(o)])
        return fresh('traced ' + n, o.shape, o.dtype or 'float32', 'torch')

    def produced(self, n):
        """names of the tensors an output name stands for; None if the graph does not know it"""
        st, I = self.st, self.I
        it = self.dict_of('iterable_map')
        if n in it:
            return [I.norm(st, x).v for x in I.iter_known(st, it[n])[0]]
        return [n] if n in self.dict_of('tensor_node_map') else None

    def dict_of(self, m):
        from checks.P01 import dict_items
        r = {}
        for k, v in dict_items(self.I, self.st, self.I.norm(self.st, self.get(self.cg, m))):
            if not isinstance(k, K):
                raise Undecided('a name is not known')
            r[k.v] = v
        return r


# ---- canonical expressions -----------------------------------------------------------------------
def c_of(x):
    return Poly.const(x)


def relu(e):
    return pset('max')([e, c_of(0)])


def clip(e, lo, hi):
    return pset('min')([pset('max')([e, c_of(lo)]), c_of(hi)])


class Canon:
    """brings element expressions into one form: activations expand to min/max, constants are rounded to single precision"""

    def __init__(self, ints=()):
        self.memo = {}
        self.memo2 = {}
        self.ints = set(ints)

    def rnd(self, c):
        if c.denominator == 1 and abs(c) < 10 ** 6:
            return c
        return Fraction('%.4e' % float(c))

    def poly(self, p):
        if p in self.memo:
            return self.memo[p]
        r = Poly({})
        for m, c in p.t.items():
            e = c_of(c)
            for a, x in sorted(m, key=lambda t: str(t)):
                e = e * self.atom(a).pow(x)
            r = r + e
        r = Poly({m: self.rnd(c) for m, c in r.t.items() if abs(c) > Fraction(1, 10 ** 12)})
        r = self.merge(r)
        self.memo[p] = r
        return r

    def merge(self, p):
        return p

    def arg(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, frozenset):
            return frozenset(self.arg(y) for y in x)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return x

    def atom(self, a):
        if a in self.memo2:
            return self.memo2[a]
        r = self.atom_(a)
        self.memo2[a] = r
        return r

    def atom_(self, a):
        if not isinstance(a, tuple):
            return Poly.atom(a)
        if a[0] == 'S':
            return self.poly(a[1])
        if a[0] != 'F':
            return Poly.atom(a)
        n, r = a[1], [self.arg(x) for x in a[2:]]
        f = self.known(n, r)
        return f if f is not None else Poly.atom(('F', n) + tuple(r))

    def known(self, n, r):
        if n == 'CAST' and all(c.denominator == 1 and all(isinstance(a, tuple) and a[0] == 'E' and a[1] in self.ints for a, x in m) for m, c in r[0].t.items()):
            return r[0]
        if n == 'RELU':
            return self.ext('max', [r[0], c_of(0)])
        if n == 'RELU6':
            return self.ext('min', [self.ext('max', [r[0], c_of(0)]), c_of(6)])
        if n == 'RELU_N1_TO_1':
            return self.ext('min', [self.ext('max', [r[0], c_of(-1)]), c_of(1)])
        if n == 'RELU_0_TO_1':
            return self.ext('min', [self.ext('max', [r[0], c_of(0)]), c_of(1)])
        if n == 'HARD_SWISH':
            return self.poly(r[0] * self.known('RELU6', [r[0] + c_of(3)]) * c_of(Fraction(1, 6)))
        if n in ('max', 'min') and len(r) == 1 and isinstance(r[0], frozenset):
            return self.ext(n, list(r[0]))
        if n in ('abs', 'ABS'):
            return fun('abs', min(r[0], self.poly(-r[0]), key=repr))
        if n == 'POW' and r[1].is_const and (r[1].c.denominator == 1 or r[1].c == Fraction(1, 2)):
            return r[0].pow(r[1].c)
        if n in LOWER:
            return fun(LOWER[n], *r)
        if n in ('PRELU', 'LEAKY_RELU'):
            return fun('LEAKY_RELU', *r)
        return None

    def ext(self, n, es):
        """flattened maximum / minimum"""
        out = set()
        cs = []
        for e in es:
            k = next(iter(e.t.items())) if len(e.t) == 1 else None
            at = None
            if k and k[1] == 1 and len(k[0]) == 1:
                (x, p), = k[0]
                if p == 1 and isinstance(x, tuple) and x[:2] == ('F', n) and len(x) == 3 and isinstance(x[2], frozenset):
                    at = x[2]
            for y in at or [e]:
                (cs.append(y.c) if y.is_const else out.add(y))
        if cs:
            out.add(c_of((max if n == 'max' else min)(cs)))
        return fun(n, frozenset(out)) if len(out) > 1 else next(iter(out))


LOWER = {'sigmoid': 'LOGISTIC', 'tanh': 'TANH', 'exp': 'EXP', 'log': 'LOG', 'floor': 'FLOOR', 'ceil': 'CEIL', 'sign': 'SIGN', 'round': 'ROUND', 'sin': 'SIN', 'cos': 'COS'}
