"""Model of tensors and layers as the quantiser sees them while it rewrites a graph (interpreted abstractly, never executed)."""


import torch


def joined(a, b):
    r = []
    n = max(len(a), len(b))
    for i in range(n):
        x = a[i - n + len(a)] if i - n + len(a) >= 0 else 1
        y = b[i - n + len(b)] if i - n + len(b) >= 0 else 1
        r.append(y if x == 1 else x)
    return tuple(r)


class Tensor(torch._C.TensorBase):
    def __init__(self, name='y', shape=(1, 3), dtype='float32'):
        self.name = name
        self.shape = shape
        self.dtype = dtype

    def is_floating_point(self):
        return self.dtype == torch.float32

    @property
    def is_leaf(self):
        return False

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def device(self):
        return 'cpu'

    @property
    def data(self):
        return self

    def dim(self):
        return len(self.shape)

    def copy_(self, other):
        return self

    def size(self, i=None):
        if i is None:
            return self.shape
        return self.shape[i]

    def nelement(self):
        n = 1
        for x in self.shape:
            n = n * x
        return n

    numel = nelement

    def other(self, o):
        if isinstance(o, Tensor):
            return Tensor(self.name, joined(self.shape, o.shape), self.dtype)
        return Tensor(self.name, self.shape, self.dtype)

    def __mul__(self, o):
        return self.other(o)

    def __rmul__(self, o):
        return self.other(o)

    def __neg__(self):
        return self.other(1)

    def mul(self, o):
        return self.other(o)

    def neg(self):
        return self.other(1)

    def contiguous(self):
        return Tensor(self.name, self.shape, self.dtype)

    def clone(self):
        return Tensor(self.name, self.shape, self.dtype)

    def detach(self):
        return Tensor(self.name, self.shape, self.dtype)

    def expand_as(self, o):
        return Tensor(self.name, o.shape, self.dtype)

    def unsqueeze(self, dim):
        d = dim + len(self.shape) + 1 if dim < 0 else dim
        return Tensor(self.name, tuple(self.shape[:d]) + (1,) + tuple(self.shape[d:]), self.dtype)

    def unsqueeze_(self, dim):
        d = dim + len(self.shape) + 1 if dim < 0 else dim
        self.shape = tuple(self.shape[:d]) + (1,) + tuple(self.shape[d:])
        return self

    def squeeze(self, dim):
        return Tensor(self.name, tuple([x for i, x in enumerate(self.shape) if i != dim]), self.dtype)

    def __getitem__(self, i):
        return Tensor(self.name, tuple(self.shape) + (1, 1), self.dtype)


class Parameter(Tensor):
    def __init__(self, name='fresh', shape=(1, 3), dtype='float32'):
        if isinstance(name, Tensor):
            super().__init__(name.name, name.shape, name.dtype)
        else:
            super().__init__(name, shape, dtype)


def is_floating_point(t):
    return t.is_floating_point()


def unsqueeze(t, dim):
    return t.unsqueeze(dim)


def squeeze(t, dim):
    return t.squeeze(dim)


def flatten(t, start_dim=0):
    n = 1
    for x in t.shape[start_dim:]:
        n = n * x
    return Tensor(t.name, tuple(t.shape[:start_dim]) + (n,), t.dtype)


def broadcast_tensors(a, b):
    s = joined(a.shape, b.shape)
    return (Tensor(a.name, s, a.dtype), Tensor(b.name, s, b.dtype))


def reshape(t, shape):
    return Tensor(t.name, tuple(shape), t.dtype)


def neg(t):
    return t.neg()


def mul(t, o):
    return t.mul(o)


class Module:
    def __init__(self, *args, **kw):
        self.training = False
        self.args = args

    def children(self):
        return []

    def named_modules(self):
        return [('', self)]

    def state_dict(self):
        return {}

    def load_state_dict(self, d):
        return None


class ReLU(Module):
    __constants__ = ['inplace']

    def __init__(self, inplace=False):
        super().__init__()
        self.inplace = inplace


class ReLU6(Module):
    __constants__ = ['inplace']

    def __init__(self, inplace=False):
        super().__init__()
        self.inplace = inplace


class SiLU(ReLU):
    pass


class Hardswish(ReLU):
    pass


class LeakyReLU(Module):
    __constants__ = ['inplace', 'negative_slope']

    def __init__(self, negative_slope=0.01, inplace=False):
        super().__init__()
        self.negative_slope = negative_slope
        self.inplace = inplace


class ELU(Module):
    __constants__ = ['alpha', 'inplace']

    def __init__(self, alpha=1.0, inplace=False):
        super().__init__()
        self.alpha = alpha
        self.inplace = inplace


class PReLU(Module):
    __constants__ = ['num_parameters']

    def __init__(self, num_parameters=1, init=0.25):
        super().__init__()
        self.num_parameters = num_parameters
        self.weight = Parameter('prelu', (num_parameters,))


class GLU(Module):
    __constants__ = ['dim']

    def __init__(self, dim=-1):
        super().__init__()
        self.dim = dim


class Sigmoid(Module):
    pass


class Tanh(Module):
    pass


class Dropout(Module):
    __constants__ = ['p', 'inplace']

    def __init__(self, p=0.5, inplace=False):
        super().__init__()
        self.p = p
        self.inplace = inplace


class Identity(Module):
    pass


class QuantStub(Module):
    pass


class DeQuantStub(Module):
    pass


class FloatFunctional(Module):
    pass


class Softmax(Module):
    def __init__(self, dim=None):
        super().__init__()
        self.dim = dim


class Pool(Module):
    def __init__(self, kernel_size, stride=None, padding=0):
        super().__init__()
        self.kernel_size = kernel_size
        self.stride = kernel_size if stride is None else stride
        self.padding = padding


class MaxPool1d(Pool):
    pass


class MaxPool2d(Pool):
    pass


class AvgPool1d(Pool):
    pass


class AvgPool2d(Pool):
    pass


class Conv1d(Module):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True):
        super().__init__()
        self.out_channels = out_channels
        self.groups = groups
        self.padding = padding
        self.stride = stride
        self.weight = Parameter('fresh', (out_channels, in_channels, 1, 1))
        self.bias = Parameter('fresh', (out_channels,)) if bias else None


class Conv2d(Conv1d):
    pass


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        super().__init__()
        self.in_features = in_features
        self.out_features = out_features
        self.weight = Parameter('fresh', (out_features, in_features))
        self.bias = Parameter('fresh', (out_features,)) if bias else None


class BatchNorm1d(Module):
    def __init__(self, num_features, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True):
        super().__init__()
        self.num_features = num_features
        self.eps = eps
        self.momentum = momentum
        self.affine = affine
        self.track_running_stats = track_running_stats
        self.weight = Parameter('ones', (num_features,)) if affine else None
        self.bias = Parameter('zeros', (num_features,)) if affine else None
        self.running_mean = Tensor('zeros', (num_features,)) if track_running_stats else None
        self.running_var = Tensor('ones', (num_features,)) if track_running_stats else None
        self.num_batches_tracked = Tensor('zero', ()) if track_running_stats else None

    def state_dict(self):
        d = {}
        if self.affine:
            d['weight'] = self.weight
            d['bias'] = self.bias
        if self.track_running_stats:
            d['running_mean'] = self.running_mean
            d['running_var'] = self.running_var
            d['num_batches_tracked'] = self.num_batches_tracked
        return d

    def load_state_dict(self, d):
        if self.affine != ('weight' in d):
            raise RuntimeError('keys do not match')
        if self.track_running_stats != ('running_mean' in d):
            raise RuntimeError('keys do not match')
        if self.affine:
            self.weight = d['weight']
            self.bias = d['bias']
        if self.track_running_stats:
            self.running_mean = d['running_mean']
            self.running_var = d['running_var']
            self.num_batches_tracked = d['num_batches_tracked']


class BatchNorm2d(BatchNorm1d):
    pass


class Config:
    def __init__(self, d):
        self.d = d

    def get(self, k, default=None):
        return self.d.get(k, default)

    def setdefault(self, k, v):
        return self.d.setdefault(k, v)

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def __contains__(self, k):
        return k in self.d

    def __delitem__(self, k):
        self.d.pop(k)

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)

    def yaml_add_eol_comment(self, *args):
        pass
