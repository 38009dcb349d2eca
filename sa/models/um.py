"""Model of torch modules with training flags, hooks and buffers (interpreted abstractly, never executed)."""


import torch


class Tensor(torch._C.TensorBase):
    shape = (1, 3)

    def __init__(self, name='y', device='cpu'):
        self.name = name
        self.device = device

    def to(self, *args, **kw):
        return Tensor(self.name + "'", 'cpu')

    def detach(self):
        return self

    def clone(self):
        return Tensor(self.name, self.device)

    def numpy(self):
        return self.name

    def is_floating_point(self):
        return True


class Parameter(Tensor):
    pass


class Size:
    pass


class Functional:
    pass


class Flag:
    def __init__(self, v):
        self.v = v

    def clone(self):
        return Flag(self.v)

    def detach(self):
        return self


class Handle:
    def __init__(self, mod, hook):
        self.mod = mod
        self.hook = hook

    def remove(self):
        self.mod.hooks.remove(self.hook)


class PreHandle(Handle):
    def remove(self):
        self.mod.pre_hooks.remove(self.hook)


class Module:
    def __init__(self, **kw):
        self.training = True
        self.hooks = []
        self.pre_hooks = []
        self.device = 'cpu'
        for k, v in kw.items():
            setattr(self, k, v)

    def children(self):
        r = []
        for k, v in self.__dict__.items():
            if isinstance(v, Module) and v not in r:
                r.append(v)
        return r

    def named_children(self):
        r = []
        seen = []
        for k, v in self.__dict__.items():
            if isinstance(v, Module) and v not in seen:
                seen.append(v)
                r.append((k, v))
        return r

    def named_modules(self, memo=None, prefix=''):
        if memo is None:
            memo = []
        r = []
        if self not in memo:
            memo.append(self)
            r.append((prefix, self))
            for k, v in self.__dict__.items():
                if isinstance(v, Module):
                    r = r + v.named_modules(memo, (prefix + '.' if prefix else '') + k)
        return r

    def modules(self):
        return [m for n, m in self.named_modules()]

    def parameters(self, recurse=True):
        return []

    def named_parameters(self, prefix='', recurse=True):
        return []

    def buffers(self, recurse=True):
        return []

    def named_buffers(self, prefix='', recurse=True):
        return []

    def register_parameter(self, name, p):
        setattr(self, name, p)

    def register_buffer(self, name, p, persistent=True):
        setattr(self, name, p)

    def apply(self, f):
        for c in self.children():
            c.apply(f)
        f(self)
        return self

    def train(self, mode=True):
        self.training = mode
        for c in self.children():
            c.train(mode)
        return self

    def eval(self):
        return self.train(False)

    def requires_grad_(self, requires_grad=True):
        return self

    def to(self, *args, **kwargs):
        return self

    def cpu(self):
        return self

    def register_forward_hook(self, hook):
        self.hooks.append(hook)
        return Handle(self, hook)

    def register_forward_pre_hook(self, hook):
        self.pre_hooks.append(hook)
        return PreHandle(self, hook)

    def state_dict(self):
        return {}

    def load_state_dict(self, d, strict=True):
        return None

    def __call__(self, *args):
        y = args[0]
        for h in list(self.pre_hooks):
            h(self, args)
        if hasattr(self, 'forward'):
            y = self.forward(*args)
        else:
            for c in self.children():
                y = c(y)
        for h in list(self.hooks):
            z = h(self, args, y)
            if z is not None:
                y = z
        return y


class Sequential(Module):
    pass


class FakeQuantize(Module):
    def __init__(self, on=1, obs=1):
        super().__init__()
        self.fake_quant_enabled = Flag(on)
        self.observer_enabled = Flag(obs)
        self.updates = 0

    def forward(self, x):
        if self.observer_enabled.v == 1:
            self.updates = self.updates + 1
        return x


class BatchNorm1d(Module):
    def __init__(self, num_features, *args, **kw):
        super().__init__()
        self.num_features = num_features
        self.running_mean = Tensor('mean')
        self.running_var = Tensor('var')
        self.weight = Tensor('weight')
        self.bias = Tensor('bias')
        self.updates = 0

    def forward(self, x):
        if self.training:
            self.updates = self.updates + 1
        return x


class BatchNorm2d(BatchNorm1d):
    pass


class Conv1d(Module):
    def __init__(self, out_channels=4):
        super().__init__()
        self.out_channels = out_channels


class Conv2d(Conv1d):
    pass


class Record:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __dir__(self):
        return [k for k in self.__dict__]


def disable_fake_quant(m):
    if isinstance(m, FakeQuantize):
        m.fake_quant_enabled.v = 0


def disable_observer(m):
    if isinstance(m, FakeQuantize):
        m.observer_enabled.v = 0


def enable_fake_quant(m):
    if isinstance(m, FakeQuantize):
        m.fake_quant_enabled.v = 1


def enable_observer(m):
    if isinstance(m, FakeQuantize):
        m.observer_enabled.v = 1


class Array:
    def __init__(self, shape, dtype):
        self.shape = shape
        self.dtype = dtype


class DTensor:
    def __init__(self, shape, dtype, grad=False):
        self.shape = shape
        self.dtype = 'torch.' + dtype
        self.grad = grad

    def detach(self):
        return DTensor(self.shape, self.dtype[6:])

    def dim(self):
        return len(self.shape)

    def size(self):
        return self.shape

    def is_floating_point(self):
        return 'float' in self.dtype

    def cpu(self):
        return self

    def numpy(self):
        if self.grad:
            raise RuntimeError('requires grad')
        if 'torch.q' in self.dtype:
            raise TypeError('unsupported ScalarType')
        return Array(self.shape, self.dtype[6:])


class PObj:
    """a class or namespace of the framework whose attributes may be replaced"""


class UserModel(Module):
    def forward(self, *args):
        import verif_user
        verif_user.point('before the layers')
        y = args[0]
        for c in self.children():
            y = c(y)
            verif_user.point('after a layer')
        return y


class UserLayer(Module):
    def forward(self, x):
        import verif_user
        verif_user.point('inside a layer')
        return Tensor('y')


class UserNest(UserLayer):
    def forward(self, x):
        import verif_user
        y = self.inner(x)
        verif_user.point('after the inner layer')
        return y
