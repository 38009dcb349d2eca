MOD = 'tinynn/graph/modifier.py'
TR = 'tinynn/graph/tracer.py'
QZ = 'tinynn/graph/quantization/quantizer.py'
QM = 'tinynn/graph/quantization/qat_modules.py'
BNR = 'tinynn/util/bn_restore.py'
BP = 'tinynn/prune/base_pruner.py'
PR = '''
import torch, torch.nn as nn, os
from tinynn.prune import OneShotChannelPruner
torch.manual_seed(0)
def prune(model, x, **cfg):
    model.eval()
    c = {'sparsity': 0.5, 'metrics': 'l2_norm'}
    c.update(cfg)
    os.chdir(os.environ.get('DEMO_TMP', '.'))
    p = OneShotChannelPruner(model, x, c)
    p.prune()
    return p
'''
SEEDS = [
 dict(id='p01-norm-weight', property='P01',
      edits=[(MOD, '''            bn.weight = torch.nn.Parameter(bn.weight[preserve_idx])
            if''', '''            bn.weight = torch.nn.Parameter(bn.weight[: len(preserve_idx)])
            if''')],
      needs='a normalisation layer whose weights differ between channels', breaks='the weights of the first channels are kept, not those of the kept ones',
      demo=PR + '''
m = nn.Sequential(nn.Conv2d(3, 8, 1), nn.BatchNorm2d(8), nn.ReLU(), nn.Conv2d(8, 5, 1))
with torch.no_grad():
    m[1].weight.copy_(torch.arange(8.) + 1)
    m[1].bias.copy_(torch.arange(8.) + 1)
    m[0].weight.mul_(torch.tensor([1., 9, 1, 9, 1, 9, 1, 9]).view(8, 1, 1, 1))
prune(m, torch.randn(1, 3, 4, 4))
assert m[1].weight.numel() == 4, m[1]
assert torch.equal(m[1].weight, m[1].bias), (m[1].weight, m[1].bias)
'''),
 dict(id='p04-subclass-types', property='P04',
      edits=[(BP, '''        for cls in reversed(type(self).__mro__):
            if hasattr(cls, '__annotations__') and cls != BasePruner:
                type_dict.update(cls.__annotations__)
''', '''        if '__annotations__' in vars(type(self)):
            type_dict.update(type(self).__annotations__)
''')],
      needs='a pruner derived from another one without annotations of its own', breaks='options of a wrong type are accepted',
      demo='''
import torch, torch.nn as nn
from tinynn.prune.oneshot_pruner import OneShotChannelPruner
class Mine(OneShotChannelPruner):
    center: int
m = nn.Sequential(nn.Conv2d(3, 8, 1), nn.ReLU(), nn.Conv2d(8, 5, 1)).eval()
try:
    Mine(m, torch.randn(1, 3, 4, 4), {'sparsity': 0.5, 'metrics': 'l2_norm', 'multiple': 'four'})
except Exception as e:
    assert 'multiple' in str(e), e
else:
    raise AssertionError('accepted')
'''),
 dict(id='q02-eps-momentum', property='Q02',
      edits=[(QM, '''            conv.padding,
            conv.output_padding,
            conv.groups,
            conv.bias is not None,
            conv.dilation,
            conv.padding_mode,
            bn.eps,
            bn.momentum,
            False,
            qconfig,
        )
        qat_convbn.weight = conv.weight
        qat_convbn.bias = conv.bias
        qat_convbn.bn.weight = bn.weight
        qat_convbn.bn.bias = bn.bias
        qat_convbn.bn.running_mean = bn.running_mean
        qat_convbn.bn.running_var = bn.running_var
''', '''            conv.padding,
            conv.output_padding,
            conv.groups,
            conv.bias is not None,
            conv.dilation,
            conv.padding_mode,
            bn.momentum,
            bn.eps,
            False,
            qconfig,
        )
        qat_convbn.weight = conv.weight
        qat_convbn.bias = conv.bias
        qat_convbn.bn.weight = bn.weight
        qat_convbn.bn.bias = bn.bias
        qat_convbn.bn.running_mean = bn.running_mean
        qat_convbn.bn.running_var = bn.running_var
''')],
      needs='a transposed convolution fused with a batch normalisation', breaks='eps and momentum of the normalisation are swapped',
      demo='''
import torch, torch.nn as nn
from tinynn.graph.quantization import qat_modules as q, fused_modules as fm
m = fm.ConvTransposeBn2d(nn.ConvTranspose2d(3, 4, 2), nn.BatchNorm2d(4, eps=0.25, momentum=0.5))
m.qconfig = torch.ao.quantization.get_default_qat_qconfig('qnnpack')
r = q.ConvTransposeBn2d.from_float(m)
assert r.bn.eps == 0.25 and r.bn.momentum == 0.5, (r.bn.eps, r.bn.momentum)
'''),
 dict(id='q04-narrow-weight', property='Q04',
      edits=[(QZ, '''                            m.quant_min = -127
                            m.quant_max = 127
                            observer.quant_min = -127
                            observer.quant_max = 127

        self.extra_qat_fusion_postprocess(graph)''', '''                            observer.quant_min = -127
                            observer.quant_max = 127

        self.extra_qat_fusion_postprocess(graph)'''),
             (QZ, '''                    observer=torch_q.MovingAveragePerChannelMinMaxObserver.with_args(quant_min=-127, quant_max=127),
                    quant_min=-127,''', '''                    observer=torch_q.MovingAveragePerChannelMinMaxObserver.with_args(quant_min=-127, quant_max=127),
                    quant_min=-128,''')],
      needs='per-channel weights', breaks='fake quantisation of weights clamps at -128 although the observer and the format use -127',
      demo='''
import torch, torch.nn as nn, os
from tinynn.graph.quantization.quantizer import QATQuantizer
m = nn.Sequential(nn.Conv2d(3, 4, 1), nn.ReLU())
w = os.environ.get('DEMO_TMP', '.')
q = QATQuantizer(m, torch.randn(1, 3, 4, 4), work_dir=w, config={'backend': 'qnnpack', 'per_tensor': False})
g = q.quantize()
n = 0
for k, v in g.named_modules():
    if k.endswith('.weight_fake_quant'):
        n += 1
        assert (v.quant_min, v.quant_max) == (-127, 127), (k, v.quant_min, v.quant_max)
assert n
'''),
 dict(id='u01-restore-copy', property='U01',
      edits=[(BNR, '''    model = copy.deepcopy(origin_model)
    for name, mod in model.named_modules():
        if isinstance(mod, support_conv_cls) and name in layer_fused_bn:''', '''    model = copy.copy(origin_model)
    for name, mod in model.named_modules():
        if isinstance(mod, support_conv_cls) and name in layer_fused_bn:''')],
      needs='the model given is used again after restoring its normalisation', breaks='the layers of the model of the user are replaced',
      demo='''
import torch, torch.nn as nn
from tinynn.util.bn_restore import model_restore_bn
class M(nn.Module):
    def __init__(self):
        super().__init__()
        self.l = nn.Sequential(nn.Conv2d(3, 4, 1), nn.ReLU())
    def forward(self, x):
        return self.l(x)
m = M()
model_restore_bn(m, 'cpu', lambda n: n(torch.randn(8, 3, 4, 4)))
assert type(m.l[0]) is nn.Conv2d, m
'''),
 dict(id='t01-current-graph', property='T01',
      edits=[(TR, '''    old_graph = current_graph.get_value()
    current_graph(new_graph)
    try:
        yield current_graph.get_value()
    finally:
        current_graph(old_graph)
''', '''    old_graph = current_graph.get_value()
    current_graph(new_graph)
    yield current_graph.get_value()
    current_graph(old_graph)
''')],
      needs='an error while the graph of another trace is active', breaks='the other graph stays the current one',
      demo='''
from tinynn.graph import tracer as t
o = object()
class E(Exception):
    pass
try:
    with t.override_current_trace_graph(o):
        raise E()
except E:
    pass
assert t.current_graph.get_value() is not o
'''),
 dict(id='t02-remove-index', property='T02',
      edits=[(TR, '''                    old_idx = n.prev_indices[i]
                    n.prev_indices[i] = index_dict[pt]
                    new_idx = n.prev_indices[i]
                    # Rewrite func calls in next nodes''', '''                    old_idx = n.prev_indices[i]
                    new_idx = index_dict[pt]
                    # Rewrite func calls in next nodes''')],
      needs='a removed node between one of several results of a function and a module', breaks='the module reads the whole list of results, or another result',
      demo='''
import torch, torch.nn as nn
from tinynn.graph.tracer import trace
class M(nn.Module):
    def __init__(self):
        super().__init__()
        self.d = nn.Dropout()
        self.l = nn.Linear(2, 2)
    def forward(self, x):
        a, b = torch.chunk(x, 2, 1)
        return self.l(self.d(b)) + a
m = M().eval()
x = torch.randn(3, 4)
with torch.no_grad():
    want = m(x)
g = trace(m, x)
n = [n for n in g.forward_nodes if n.type() is nn.Dropout]
assert len(n) == 1
g.remove_node(n[0])
import os
os.chdir(os.environ.get('DEMO_TMP', '.'))
code = os.path.join(os.getcwd(), 'gen.py')
g.generate_code(code, os.path.join(os.getcwd(), 'gen.pth'), 'Gen')
import importlib.util as u
s = u.spec_from_file_location('gen', code)
k = u.module_from_spec(s)
s.loader.exec_module(k)
r = k.Gen()
r.load_state_dict(torch.load('gen.pth')) if os.path.exists('gen.pth') else None
with torch.no_grad():
    got = r.eval()(x)
assert torch.allclose(got, want), (got, want)
'''),
]
