import torch


class _P:
    def __init__(self, func, args, keywords):
        self.func = func
        self.args = args
        self.keywords = keywords


class Factory:
    """torch's _PartialWrapper"""

    def __init__(self, p):
        self.p = p
        self.callable_args = {}

    def with_args(self, *args, **kwargs):
        return Factory(_P(self, args, kwargs))

    def with_callable_args(self, **kwargs):
        return self


def build(f, kwargs):
    if isinstance(f, Factory):
        kw = dict(f.p.keywords)
        kw.update(kwargs)
        return build(f.p.func, kw)
    return f(**kwargs)


class ObserverBase:
    @classmethod
    def with_args(cls, *args, **kwargs):
        return Factory(_P(cls, args, kwargs))

    def __init__(self, dtype=torch.quint8, qscheme=torch.per_tensor_affine, reduce_range=False, quant_min=None, quant_max=None, eps=None, is_dynamic=False):
        self.dtype = dtype
        self.qscheme = qscheme
        self.reduce_range = reduce_range
        self.ch_axis = None
        self.per_channel = False
        lo, hi = (-128, 127) if dtype is torch.qint8 else (0, 255)
        if quant_min is not None and quant_max is not None:
            assert quant_min <= 0 <= quant_max
            assert quant_min < quant_max
            lo, hi = quant_min, quant_max
            if reduce_range:
                lo, hi = lo // 2, hi // 2
        elif reduce_range:
            lo, hi = (-64, 63) if dtype is torch.qint8 else (0, 127)
        self.quant_min = lo
        self.quant_max = hi
        self.min_val = None
        self.max_val = None

    def apply(self, f):
        f(self)
        return self


class MinMaxObserver(ObserverBase):
    pass


class MovingAverageMinMaxObserver(ObserverBase):
    def __init__(self, averaging_constant=0.01, **kw):
        super().__init__(**kw)


class HistogramObserver(ObserverBase):
    def __init__(self, bins=2048, **kw):
        super().__init__(**kw)


class PerChannelMinMaxObserver(ObserverBase):
    def __init__(self, ch_axis=0, qscheme=torch.per_channel_affine, **kw):
        super().__init__(qscheme=qscheme, **kw)
        self.ch_axis = ch_axis
        self.per_channel = True


class MovingAveragePerChannelMinMaxObserver(PerChannelMinMaxObserver):
    def __init__(self, averaging_constant=0.01, **kw):
        super().__init__(**kw)


class FakeQuantizeBase:
    @classmethod
    def with_args(cls, *args, **kwargs):
        return Factory(_P(cls, args, kwargs))

    def apply(self, f):
        f(self)
        return self


class FakeQuantize(FakeQuantizeBase):
    def __init__(self, observer=MovingAverageMinMaxObserver, quant_min=None, quant_max=None, is_dynamic=False, **observer_kwargs):
        if quant_min is not None and quant_max is not None:
            assert quant_min <= quant_max
            dtype = observer_kwargs.get('dtype', torch.quint8)
            if isinstance(observer, Factory):
                dtype = observer.p.keywords.get('dtype', dtype)
            lo, hi = (-128, 127) if dtype is torch.qint8 else (0, 255)
            assert lo <= quant_min
            assert quant_max <= hi
            observer_kwargs['quant_min'] = quant_min
            observer_kwargs['quant_max'] = quant_max
        self.activation_post_process = build(observer, observer_kwargs)
        self.quant_min = self.activation_post_process.quant_min
        self.quant_max = self.activation_post_process.quant_max
        self.dtype = self.activation_post_process.dtype
        self.qscheme = self.activation_post_process.qscheme
        self.ch_axis = self.activation_post_process.ch_axis
        self.reduce_range = self.activation_post_process.reduce_range


class FusedMovingAvgObsFakeQuantize(FakeQuantize):
    pass


class QConfig:
    def __init__(self, activation, weight):
        self.activation = activation
        self.weight = weight


default_weight_fake_quant = FakeQuantize.with_args(observer=MovingAverageMinMaxObserver, quant_min=-128, quant_max=127, dtype=torch.qint8, qscheme=torch.per_tensor_symmetric,
                                                   reduce_range=False)
default_per_channel_weight_fake_quant = FakeQuantize.with_args(observer=MovingAveragePerChannelMinMaxObserver, quant_min=-128, quant_max=127, dtype=torch.qint8,
                                                               qscheme=torch.per_channel_symmetric, reduce_range=False, ch_axis=0)
default_fused_wt_fake_quant = FusedMovingAvgObsFakeQuantize.with_args(observer=MovingAverageMinMaxObserver, quant_min=-128, quant_max=127, dtype=torch.qint8,
                                                                      qscheme=torch.per_tensor_symmetric)
default_fused_per_channel_wt_fake_quant = FusedMovingAvgObsFakeQuantize.with_args(observer=MovingAveragePerChannelMinMaxObserver, quant_min=-128, quant_max=127, dtype=torch.qint8,
                                                                                  qscheme=torch.per_channel_symmetric)
default_weight_observer = MinMaxObserver.with_args(dtype=torch.qint8, qscheme=torch.per_tensor_symmetric)
default_per_channel_weight_observer = PerChannelMinMaxObserver.with_args(dtype=torch.qint8, qscheme=torch.per_channel_symmetric)
default_dynamic_qconfig = QConfig(None, default_weight_observer)


def get_default_qat_qconfig(backend='x86', version=1):
    if backend not in ('fbgemm', 'x86', 'qnnpack', 'onednn'):
        raise AssertionError('backend')
    if version not in (0, 1):
        raise AssertionError('version')
    fq = FusedMovingAvgObsFakeQuantize if version == 1 else FakeQuantize
    reduce = backend in ('fbgemm', 'x86')
    if backend == 'qnnpack':
        w = default_fused_wt_fake_quant if version == 1 else default_weight_fake_quant
    else:
        w = default_fused_per_channel_wt_fake_quant if version == 1 else default_per_channel_weight_fake_quant
    return QConfig(fq.with_args(observer=MovingAverageMinMaxObserver, quant_min=0, quant_max=255, reduce_range=reduce), w)


def get_default_qconfig(backend='x86', version=0):
    if backend not in ('fbgemm', 'x86', 'qnnpack', 'onednn'):
        raise AssertionError('backend')
    if version != 0:
        raise AssertionError('version')
    return QConfig(HistogramObserver.with_args(reduce_range=backend in ('fbgemm', 'x86')), default_weight_observer if backend == 'qnnpack' else default_per_channel_weight_observer)


def disable_observer(m):
    pass


class Tree:
    def __init__(self, **kw):
        self.parts = kw

    def children(self):
        return list(self.parts.values())

    def named_children(self):
        return list(self.parts.items())

    def modules(self):
        r = [self]
        for c in self.parts.values():
            r = r + c.modules()
        return r

    def named_modules(self, prefix=''):
        r = [(prefix, self)]
        for n, c in self.parts.items():
            r = r + c.named_modules((prefix + '.' if prefix else '') + n)
        return r

    def apply(self, f):
        for c in self.parts.values():
            c.apply(f)
        f(self)
        return self


class Root(Tree):
    pass


class Sequential(Tree):
    pass


class Conv1d(Tree):
    pass


class Conv2d(Tree):
    pass


class ConvTranspose2d(Tree):
    pass


class ConvBn1d(Tree):
    pass


class ConvBn2d(Tree):
    pass


class ConvBnReLU1d(Tree):
    pass


class ConvBnReLU2d(Tree):
    pass


class ConvReLU1d(Tree):
    pass


class ConvReLU2d(Tree):
    pass


class Linear(Tree):
    pass


class LinearReLU(Tree):
    pass


class ReLU(Tree):
    pass


class LSTM(Tree):
    pass


class Identity:
    def forward(self, x):
        return x


class Tensors:
    pass
