"""Model of further torch.nn layers and of the quantisation helpers (interpreted abstractly, never executed). Observers and fake quantisation are the identity."""
import torch
from verif_torch import Parameter, uninit
from verif_nn import Module as _Base


class Module(_Base):
    def __call__(self, *args, **kwargs):
        return self.forward(*args, **kwargs)


class QuantStub(Module):
    def forward(self, x):
        return x


class DeQuantStub(Module):
    def forward(self, x):
        return x


class Identity(Module):
    def forward(self, x):
        return x


class Sigmoid(Module):
    def forward(self, x):
        return torch.sigmoid(x)


class Tanh(Module):
    def forward(self, x):
        return torch.tanh(x)


class ReLU(Module):
    def __init__(self, inplace=False):
        super().__init__()
        self.inplace = inplace

    def forward(self, x):
        return torch.relu(x)


class ReLU6(Module):
    def __init__(self, inplace=False):
        super().__init__()
        self.inplace = inplace

    def forward(self, x):
        return torch.relu6(x)


class Hardsigmoid(Module):
    def __init__(self, inplace=False):
        super().__init__()

    def forward(self, x):
        return torch.relu6(x + 3) / 6


class SiLU(Module):
    def __init__(self, inplace=False):
        super().__init__()


class GLU(Module):
    def __init__(self, dim=-1):
        super().__init__()
        self.dim = dim


class RMSNorm(Module):
    def __init__(self, normalized_shape, eps=None, elementwise_affine=True, device=None, dtype=None):
        super().__init__()
        if isinstance(normalized_shape, int):
            normalized_shape = (normalized_shape,)
        self.normalized_shape = tuple(normalized_shape)
        self.eps = eps
        self.elementwise_affine = elementwise_affine
        self.weight = uninit(self.normalized_shape) if elementwise_affine else None


class QLinear(Module):
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features = in_features
        self.out_features = out_features
        self.weight = uninit((out_features, in_features))
        self.bias = uninit((out_features,)) if bias else None

    def forward(self, x):
        y = torch.matmul(x, self.weight.t())
        return y if self.bias is None else y + self.bias


class FloatFunctional(Module):
    def add(self, x, y):
        return x + y

    def add_scalar(self, x, y):
        return x + y

    def mul(self, x, y):
        return x * y

    def mul_scalar(self, x, y):
        return x * y

    def add_relu(self, x, y):
        return torch.relu(x + y)

    def cat(self, xs, dim=0):
        return torch.cat(xs, dim)


class ModuleList(Module):
    def __init__(self, modules=()):
        super().__init__()
        self._items = list(modules)

    def __iter__(self):
        return iter(list(self._items))

    def __getitem__(self, i):
        return self._items[i]

    def __setitem__(self, i, m):
        self._items[i] = m

    def __len__(self):
        return len(self._items)

    def append(self, m):
        self._items.append(m)


class Sequential(Module):
    def __init__(self, *modules):
        super().__init__()
        self._items = list(modules)

    def __getitem__(self, i):
        return self._items[i]

    def __len__(self):
        return len(self._items)


class _FusedModule(Sequential):
    pass


class LSTMLayer(Module):
    @classmethod
    def from_float(cls, other, layer_idx=0, qconfig=None, **kwargs):
        m = cls()
        m.other = other
        m.idx = layer_idx
        m.batch_first = kwargs.get('batch_first', other.batch_first)
        return m


class QLSTM(Module):
    _FLOAT_MODULE = torch.nn.LSTM

    def __init__(self, input_size, hidden_size, num_layers=1, bias=True, batch_first=False, dropout=0.0, bidirectional=False, device=None, dtype=None):
        super().__init__()
        self.input_size = input_size
        self.hidden_size = hidden_size
        self.num_layers = num_layers
        self.bias = bias
        self.batch_first = batch_first
        self.dropout = float(dropout)
        self.bidirectional = bidirectional
        self.layers = ModuleList([None for i in range(num_layers)])
