"""Model of the parts of torch.nn the analysed code touches (interpreted abstractly, never executed): constructors and attributes of torch 2.5."""
from verif_torch import Parameter, uninit, zeros, ones


def _tup(x, n):
    if isinstance(x, (tuple, list)):
        return tuple(x)
    return (x,) * n


class Handle:
    def __init__(self):
        self.removed = False

    def remove(self):
        self.removed = True


class Module:
    def __init__(self):
        self.training = True

    def register_buffer(self, name, tensor, persistent=True):
        setattr(self, name, tensor)

    def register_parameter(self, name, param):
        setattr(self, name, param)

    def add_module(self, name, module):
        setattr(self, name, module)

    def register_forward_pre_hook(self, hook):
        return Handle()

    def register_forward_hook(self, hook):
        return Handle()

    def named_parameters(self):
        return [(n, v) for n, v in self.__dict__.items() if isinstance(v, Parameter)]

    def parameters(self):
        return [v for n, v in self.named_parameters()]

    def train(self, mode=True):
        self.training = mode
        return self

    def eval(self):
        return self.train(False)

    def to(self, *args, **kwargs):
        return self


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features = in_features
        self.out_features = out_features
        self.weight = uninit((out_features, in_features))
        self.bias = uninit((out_features,)) if bias else None


class _ConvNd(Module):
    def __init__(self, in_channels, out_channels, kernel_size, stride, padding, dilation, transposed, output_padding, groups, bias, padding_mode, device=None, dtype=None):
        super().__init__()
        if in_channels % groups != 0:
            raise ValueError('in_channels must be divisible by groups')
        if out_channels % groups != 0:
            raise ValueError('out_channels must be divisible by groups')
        self.in_channels = in_channels
        self.out_channels = out_channels
        self.kernel_size = kernel_size
        self.stride = stride
        self.padding = padding
        self.dilation = dilation
        self.transposed = transposed
        self.output_padding = output_padding
        self.groups = groups
        self.padding_mode = padding_mode
        if transposed:
            self.weight = uninit((in_channels, out_channels // groups) + tuple(kernel_size))
        else:
            self.weight = uninit((out_channels, in_channels // groups) + tuple(kernel_size))
        self.bias = uninit((out_channels,)) if bias else None


def _pad(p, n):
    return p if isinstance(p, str) else _tup(p, n)


class Conv1d(_ConvNd):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode='zeros', device=None, dtype=None):
        super().__init__(in_channels, out_channels, _tup(kernel_size, 1), _tup(stride, 1), _pad(padding, 1), _tup(dilation, 1), False, _tup(0, 1), groups, bias, padding_mode)


class Conv2d(_ConvNd):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode='zeros', device=None, dtype=None):
        super().__init__(in_channels, out_channels, _tup(kernel_size, 2), _tup(stride, 2), _pad(padding, 2), _tup(dilation, 2), False, _tup(0, 2), groups, bias, padding_mode)


class Conv3d(_ConvNd):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode='zeros', device=None, dtype=None):
        super().__init__(in_channels, out_channels, _tup(kernel_size, 3), _tup(stride, 3), _pad(padding, 3), _tup(dilation, 3), False, _tup(0, 3), groups, bias, padding_mode)


class _ConvTransposeNd(_ConvNd):
    pass


class ConvTranspose1d(_ConvTransposeNd):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, output_padding=0, groups=1, bias=True, dilation=1, padding_mode='zeros', device=None, dtype=None):
        super().__init__(in_channels, out_channels, _tup(kernel_size, 1), _tup(stride, 1), _tup(padding, 1), _tup(dilation, 1), True, _tup(output_padding, 1), groups, bias, padding_mode)


class ConvTranspose2d(_ConvTransposeNd):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, output_padding=0, groups=1, bias=True, dilation=1, padding_mode='zeros', device=None, dtype=None):
        super().__init__(in_channels, out_channels, _tup(kernel_size, 2), _tup(stride, 2), _tup(padding, 2), _tup(dilation, 2), True, _tup(output_padding, 2), groups, bias, padding_mode)


class ConvTranspose3d(_ConvTransposeNd):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, output_padding=0, groups=1, bias=True, dilation=1, padding_mode='zeros', device=None, dtype=None):
        super().__init__(in_channels, out_channels, _tup(kernel_size, 3), _tup(stride, 3), _tup(padding, 3), _tup(dilation, 3), True, _tup(output_padding, 3), groups, bias, padding_mode)


class _NormBase(Module):
    def __init__(self, num_features, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True, device=None, dtype=None):
        super().__init__()
        self.num_features = num_features
        self.eps = eps
        self.momentum = momentum
        self.affine = affine
        self.track_running_stats = track_running_stats
        self.weight = uninit((num_features,)) if affine else None
        self.bias = uninit((num_features,)) if affine else None
        self.running_mean = zeros(num_features) if track_running_stats else None
        self.running_var = ones(num_features) if track_running_stats else None
        self.num_batches_tracked = zeros(()) if track_running_stats else None


class _BatchNorm(_NormBase):
    pass


class BatchNorm1d(_BatchNorm):
    pass


class BatchNorm2d(_BatchNorm):
    pass


class BatchNorm3d(_BatchNorm):
    pass


class LayerNorm(Module):
    def __init__(self, normalized_shape, eps=1e-5, elementwise_affine=True, bias=True, device=None, dtype=None):
        super().__init__()
        if isinstance(normalized_shape, int):
            normalized_shape = (normalized_shape,)
        self.normalized_shape = tuple(normalized_shape)
        self.eps = eps
        self.elementwise_affine = elementwise_affine
        self.weight = uninit(self.normalized_shape) if elementwise_affine else None
        self.bias = uninit(self.normalized_shape) if elementwise_affine and bias else None


class PReLU(Module):
    def __init__(self, num_parameters=1, init=0.25, device=None, dtype=None):
        super().__init__()
        self.num_parameters = num_parameters
        self.init = init
        self.weight = uninit((num_parameters,))


class RNNBase(Module):
    def __init__(self, mode, input_size, hidden_size, num_layers=1, bias=True, batch_first=False, dropout=0.0, bidirectional=False, proj_size=0, device=None, dtype=None):
        super().__init__()
        self.mode = mode
        self.input_size = input_size
        self.hidden_size = hidden_size
        self.num_layers = num_layers
        self.bias = bias
        self.batch_first = batch_first
        self.dropout = float(dropout)
        self.bidirectional = bidirectional
        self.proj_size = proj_size
        if mode == 'LSTM':
            gate_size = 4 * hidden_size
        elif mode == 'GRU':
            gate_size = 3 * hidden_size
        else:
            gate_size = hidden_size
        real = proj_size if proj_size > 0 else hidden_size
        dirs = 2 if bidirectional else 1
        for layer in range(num_layers):
            for d in range(dirs):
                suffix = '_reverse' if d == 1 else ''
                isize = input_size if layer == 0 else real * dirs
                setattr(self, f'weight_ih_l{layer}{suffix}', uninit((gate_size, isize)))
                setattr(self, f'weight_hh_l{layer}{suffix}', uninit((gate_size, real)))
                if bias:
                    setattr(self, f'bias_ih_l{layer}{suffix}', uninit((gate_size,)))
                    setattr(self, f'bias_hh_l{layer}{suffix}', uninit((gate_size,)))
                if proj_size > 0:
                    setattr(self, f'weight_hr_l{layer}{suffix}', uninit((proj_size, hidden_size)))


class RNN(RNNBase):
    def __init__(self, input_size, hidden_size, num_layers=1, nonlinearity='tanh', bias=True, batch_first=False, dropout=0.0, bidirectional=False, device=None, dtype=None):
        super().__init__('RNN_TANH' if nonlinearity == 'tanh' else 'RNN_RELU', input_size, hidden_size, num_layers, bias, batch_first, dropout, bidirectional)
        self.nonlinearity = nonlinearity


class LSTM(RNNBase):
    def __init__(self, input_size, hidden_size, num_layers=1, bias=True, batch_first=False, dropout=0.0, bidirectional=False, proj_size=0, device=None, dtype=None):
        super().__init__('LSTM', input_size, hidden_size, num_layers, bias, batch_first, dropout, bidirectional, proj_size)


class GRU(RNNBase):
    def __init__(self, input_size, hidden_size, num_layers=1, bias=True, batch_first=False, dropout=0.0, bidirectional=False, device=None, dtype=None):
        super().__init__('GRU', input_size, hidden_size, num_layers, bias, batch_first, dropout, bidirectional)
