"""Layers of torch.nn as analysed code sees them: instances of the classes in sa/models/nn.py whose parameters are arrays of symbolic elements."""
import os
from .interp import State, K, T, Fn, BM, Cls, Ref, Tup, NONE, Bi, Dead
from .arr import Arr, Arrays, Poly, Unk, full
from .repo import AnalysisBroken

LAYERS = ['Module', 'Linear', 'Conv1d', 'Conv2d', 'Conv3d', 'ConvTranspose1d', 'ConvTranspose2d', 'ConvTranspose3d', 'BatchNorm1d', 'BatchNorm2d', 'BatchNorm3d', 'LayerNorm',
          'PReLU', 'RNN', 'LSTM', 'GRU']


class Par(Arr):
    """a tensor that is a torch.nn.Parameter; results of operations on it are plain tensors"""
    __slots__ = ()

    def but(self, shape=None, el=None, **kw):
        return Arr(self.shape if shape is None else shape, self.el if el is None else el, kw.get('dtype', self.dtype), self.lib)

    __hash__ = Arr.__hash__


def fresh(name, shape, dtype='float32'):
    n = 1
    for d in shape:
        n *= d
    return Arr(tuple(shape), [Poly.atom((name, i)) for i in range(n)], dtype, 'torch')


class Modules:
    def __init__(self, ctx, steps=1500000):
        self.ctx = ctx
        self.I = I = ctx.interp(steps=steps)
        if I.arrays is None:
            Arrays(I)
        I.repo.add_model('verif_nn', os.path.join(os.path.dirname(__file__), 'models', 'nn.py'))
        I.hooks.insert(0, self.hook)
        self.n = 0
        for k in LAYERS:
            c = I.lookup('verif_nn.' + k)
            if not isinstance(c, Cls):
                raise AnalysisBroken('no model of torch.nn.%s' % k)
            I.known_ext['torch.nn.' + k] = c
            I.known_ext['torch.nn.modules.' + k] = c

    def hook(self, I, st, fn, args, kwargs, node, mod):
        if isinstance(fn, T) and fn.op == 'ext':
            n = fn.args[0]
            if n.startswith('verif_torch.'):
                k = n[12:]
                a = I.norm(st, args[0]) if args else None
                if k == 'Parameter':
                    return self.par(st, a)
                sh = [x.v for x in I.iter_known(st, a)[0]] if not isinstance(a, K) else [a.v]
                if k == 'uninit':
                    self.n += 1
                    p = fresh('init%d' % self.n, sh)
                    return Par(p.shape, p.el, p.dtype, 'torch')
                return Arr(sh, [Poly.const(k == 'ones')] * len(fresh('x', sh).el), 'float32', 'torch')
            if n in ('torch.nn.Parameter', 'torch.nn.parameter.Parameter') and args:
                return self.par(st, I.norm(st, args[0]))
        if isinstance(fn, Bi) and fn.name == 'type' and len(args) == 1:
            a = I.norm(st, args[0])
            if isinstance(a, Arr):
                return I.ext('torch.nn.Parameter' if isinstance(a, Par) else 'torch.Tensor')
            if isinstance(a, Cls) or isinstance(a, T) and a.op == 'ext' and a.args[0].startswith('torch.nn.'):
                return Bi('type')
        if isinstance(fn, Bi) and fn.name == 'isinstance' and len(args) == 2:
            a = I.norm(st, args[0])
            if isinstance(a, Arr):
                cs = I.iter_known(st, args[1])
                cs = cs[0] if cs is not None else [args[1]]
                ok = [I.ext('torch.Tensor')] + ([I.ext(x) for x in ('torch.nn.Parameter', 'torch.nn.parameter.Parameter', 'verif_torch.Parameter')] if isinstance(a, Par) else [])
                return K(any(I.norm(st, c) in ok for c in cs))
        return NotImplemented

    @staticmethod
    def par(st, a):
        if not isinstance(a, Arr):
            return T('call', (T('ext', ('torch.nn.Parameter',)), (a,), ()))
        return Par(a.shape, a.el, a.dtype, 'torch')

    def make(self, st, kind, *args, **kw):
        """layer torch.nn.<kind>(...) whose parameters and statistics are fresh symbols named after them"""
        I = self.I
        m = I.call(st, I.known_ext['torch.nn.' + kind], [self.val(a) for a in args], {k: self.val(v) for k, v in kw.items()}, None, None)
        m = I.norm(st, m)
        o = I.obj(st, m)
        at = dict(o.attrs)
        for n, v in list(at.items()):
            v = I.norm(st, v)
            if isinstance(v, Arr) and v.shape != ():
                f = fresh('%s.%s' % (kind, n), v.shape)
                at[n] = Par(f.shape, f.el, f.dtype, 'torch') if isinstance(v, Par) else f
        I.put(st, m, o.but(attrs=at))
        return m

    def val(self, v):
        if isinstance(v, tuple):
            return Tup([self.val(x) for x in v])
        return K(v) if v is None or isinstance(v, (bool, int, float, str)) else v

    def attrs(self, st, m):
        """name -> value of a layer"""
        return {k: self.I.norm(st, v) for k, v in self.I.obj(st, m).attrs.items()}


Par.__name__ = 'Arr'            # the interpreter recognises arrays by this name
