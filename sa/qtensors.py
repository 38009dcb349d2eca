"""Quantised framework tensors and the bytes of arrays for abstract runs: a quantised tensor is an Arr whose element type is 'quint8' or
'qint8' and whose elements are the integer representation; its scale, zero point and axis are facts given per scene."""
from .interp import K, T, Bi, Tup, Ref, NONE, Cls
from .arr import Arr, Poly, Unk, fun, num

WRAP = {'uint8': 8, 'int8': 8, 'int16': 16, 'uint16': 16, 'int32': 32, 'int64': 64}


def congruent(p, q, dtype):
    """same value in an integer type of that width (differences of whole multiples of 2**bits do not show)"""
    d = p - q
    bits = WRAP.get(dtype)
    if bits is None:
        return not d.t
    return all(c.denominator == 1 and c % (1 << bits) == 0 and all(integral(a) and x.denominator == 1 and x > 0 for a, x in m) for m, c in d.t.items())


def integral(a):
    return isinstance(a, tuple) and (a[0] == 'E' or a[0] == 'F' and a[1] in ('isneg', 'ishigh', 'round', 'rint', 'trunc', 'floor', 'ceil'))


class QTensors:
    def __init__(self, I):
        self.I = I
        self.params = {}
        I.hooks.append(self.hook)

    def facts(self, st):
        """what the type objects of arrays are"""
        I = self.I
        for t, m in (('numpy.ndarray', 'numpy'), ('torch.Tensor', 'torch')):
            st.eq[I.ext(t + '.__module__')] = K(m)

    def describe(self, a, **kw):
        self.params[(a.shape, a.el)] = kw

    def hook(self, I, st, fn, args, kwargs, node, mod):
        A = [I.norm(st, a) for a in args]
        if isinstance(fn, Bi):
            if fn.name == 'type' and len(A) == 1 and isinstance(A[0], Arr):
                return I.ext('torch.Tensor' if A[0].lib == 'torch' else 'numpy.ndarray')
            if fn.name == 'str' and len(A) == 1 and isinstance(A[0], T) and A[0].op == 'dtype':
                return K(A[0].args[0])
            if fn.name == 'isinstance' and len(A) == 2 and isinstance(A[0], Arr) and isinstance(A[1], T) and A[1].op == 'ext':
                n = A[1].args[0]
                return K({'torch.Tensor': A[0].lib == 'torch', 'numpy.ndarray': A[0].lib != 'torch'}.get(n, False))
        if isinstance(fn, T) and fn.op == 'ext' and A and isinstance(A[0], Arr) and fn.args[0] == 'torch.int_repr':
            return self.int_repr(A[0])
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] == 'numpy.frombuffer' and A and isinstance(A[0], T) and A[0].op == 'bytes':
            d = I.arrays.dtype(A[1] if len(A) > 1 else kwargs.get('dtype', K('float64')))
            if d == A[0].args[0].dtype:
                a = A[0].args[0]
                return a.but((len(a.el),))
        if isinstance(fn, T) and fn.op == 'attr' and isinstance(fn.args[0], Arr):
            return self.method(st, fn.args[0], fn.args[1], A, kwargs)
        return NotImplemented

    def int_repr(self, a):
        return Arr(a.shape, a.el, {'quint8': 'uint8', 'qint8': 'int8', 'qint32': 'int32'}.get(a.dtype, a.dtype), 'torch')

    def method(self, st, a, name, A, kw):
        I = self.I
        if name == 'tobytes' and not A:
            return T('bytes', (a,))
        if name == 'int_repr' and not A:
            return self.int_repr(a)
        if name == 'numpy' and a.lib == 'torch':
            return Arr(a.shape, a.el, a.dtype, 'numpy')
        if name == 'view' and len(A) == 1 and I.arrays.dtype(A[0]):
            d = I.arrays.dtype(A[0])
            if d == a.dtype:
                return a
            if {d, a.dtype} == {'int8', 'uint8'}:
                f = 'isneg' if a.dtype == 'int8' else 'ishigh'
                s = 256 if a.dtype == 'int8' else -256
                return a.but(el=[e + Poly.const(s) * fun(f, e) for e in a.el], dtype=d)
        q = self.params.get((a.shape, a.el))
        if q is not None and not A and not kw:
            if name == 'q_scale' and 'scale' in q:
                return q['scale']
            if name == 'q_zero_point' and 'zero_point' in q:
                return q['zero_point']
            if name == 'qscheme':
                return I.ext('torch.' + q['scheme'])
            if name == 'q_per_channel_scales' and 'scales' in q:
                return q['scales']
            if name == 'q_per_channel_zero_points' and 'zero_points' in q:
                return q['zero_points']
            if name == 'q_per_channel_axis' and 'axis' in q:
                return K(q['axis'])
            if name.startswith('q_'):
                from .interp import Dead
                raise Dead(st, T('call', (T('ext', ('RuntimeError',)), (K('%s of a tensor of another scheme' % name),), ())))
        return NotImplemented
