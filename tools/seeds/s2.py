OPT = 'tinynn/converter/operators/optimize.py'
AT = 'tinynn/converter/operators/torch/aten.py'
MOD = 'tinynn/graph/modifier.py'
VER = 'tinynn/converter/operators/op_version.py'
HYB = 'tinynn/converter/operators/hybrid_quantizer.py'
TB = 'tinynn/converter/operators/tflite/base.py'
CB = 'tinynn/converter/base.py'
CMP = '''
import torch, torch.nn as nn, os, numpy as np
import torch.nn.functional as F
from tinynn.converter import TFLiteConverter
from tinynn.converter.schemas.tflite import schema_generated as s
torch.manual_seed(0)
def convert(m, x, **kw):
    p = os.path.join(os.environ.get('DEMO_TMP', '.'), 'm.tflite')
    if isinstance(m, nn.Module):
        m.eval()
    kw.setdefault('nchw_transpose', False)
    TFLiteConverter(m, x, p, **kw).convert()
    return p
def model_of(p):
    return s.Model.GetRootAsModel(open(p, 'rb').read(), 0)
def run(p, x):
    import tensorflow as tf
    I = tf.lite.Interpreter(model_path=p, experimental_op_resolver_type=tf.lite.experimental.OpResolverType.BUILTIN_WITHOUT_DEFAULT_DELEGATES)
    I.allocate_tensors()
    for d, v in zip(I.get_input_details(), x):
        I.set_tensor(d['index'], v.numpy())
    I.invoke()
    return [I.get_tensor(d['index']) for d in I.get_output_details()]
def same(m, *x, **kw):
    want = m(*x)
    want = list(want) if isinstance(want, (tuple, list)) else [want]
    for g, w in zip(run(convert(m, x, **kw), x), want):
        w = w.detach().numpy()
        assert g.shape == w.shape and np.allclose(g, w, atol=1e-4), (g.shape, w.shape, np.abs(g - w).max() if g.shape == w.shape else '')
'''
PR = '''
import torch, torch.nn as nn, os
from tinynn.prune import OneShotChannelPruner
torch.manual_seed(0)
def prune(model, x, **cfg):
    model.eval()
    c = {'sparsity': 0.5, 'metrics': 'l2_norm'}
    c.update(cfg)
    os.chdir(os.environ.get('DEMO_TMP', '.'))
    p = OneShotChannelPruner(model, x, c)
    p.prune()
    return p
'''
SEEDS = [
 dict(id='c03-flip-three', property='C03',
      edits=[(AT, '''                graph_converter.add_operator(tfl.ReverseV2Operator([actual_input, dim_tensor], [transform]))
                actual_input = transform
            outputs''', '''                graph_converter.add_operator(tfl.ReverseV2Operator([actual_input, dim_tensor], [transform]))
            actual_input = transform
            outputs''')],
      needs='flip along three or more axes', breaks='only the last two of the axes are reversed',
      demo=CMP + '''
same(lambda x: torch.flip(x, [0, 1]) + 1, torch.randn(2, 3, 4))
same(lambda x: torch.flip(x, [0, 1, 2]) + 1, torch.randn(2, 3, 4))
'''),
 dict(id='c02-repeat-ones', property='C02',
      edits=[(AT, '''        actual_input = input_tensor
        if input_tensor.buffer is None:
            outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
            repeats = self.input_tensors[1]
''', '''        actual_input = input_tensor
        repeats = self.input_tensors[1]
        if input_tensor.buffer is None and any(r != 1 for r in repeats):
            outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
''')],
      needs='repeat with a factor of one on every axis', breaks='no operator produces the result; what reads it sees a constant of the traced values',
      demo=CMP + '''
class M(nn.Module):
    def forward(self, x):
        return x.repeat(1, 1, 1) * 2.0
m = M()
x = torch.randn(2, 3, 4)
p = convert(m, x)
y = torch.randn(2, 3, 4)
assert np.allclose(run(p, [y])[0], m(y).numpy(), atol=1e-5)
'''),
 dict(id='c15-index-prefix', property='C15',
      edits=[(OPT, """            if self.fuse_input_indices is not None:
                if i not in self.fuse_input_indices:
                    continue

            node_name = self.graph.tensor_node_map[name]
            node = self.graph.graph.vs.find(name=node_name)
            assert""", """            if self.fuse_input_indices is not None:
                if i >= len(self.fuse_input_indices):
                    continue

            node_name = self.graph.tensor_node_map[name]
            node = self.graph.graph.vs.find(name=node_name)
            assert""")],
      needs='fuse_input_indices that are not the first inputs, with other io types requested', breaks='the type of another input than the requested one is changed, or the conversion fails',
      demo=CMP + """
class M(nn.Module):
    def __init__(self):
        super().__init__()
        self.p, self.q, self.d = torch.quantization.QuantStub(), torch.quantization.QuantStub(), torch.quantization.DeQuantStub()
        self.a, self.b = nn.Linear(4, 3), nn.Linear(4, 3)
        self.f = torch.nn.quantized.FloatFunctional()
    def forward(self, x, y):
        return self.d(self.f.add(self.a(self.p(x)), self.b(self.q(y))))
torch.backends.quantized.engine = 'qnnpack'
m = M().eval()
m.qconfig = torch.quantization.get_default_qconfig('qnnpack')
m = torch.quantization.prepare(m)
x = (torch.randn(2, 4), torch.randn(2, 4))
m(*x)
m = torch.quantization.convert(m)
def types(**kw):
    g = model_of(convert(m, x, fuse_quant_dequant=True, quantize_target_type='uint8', fuse_output_indices=[0], **kw)).Subgraphs(0)
    return [g.Tensors(i).Type() for i in g.InputsAsNumpy()]
T = s.TensorType
assert types(fuse_input_indices=[1]) == [T.FLOAT32, T.UINT8]
assert types(fuse_input_indices=[1], quantize_input_output_type='int8') == [T.FLOAT32, T.INT8]
"""),
 dict(id='c16-narrow-range', property='C16',
      edits=[(HYB, '''    else:
        quant_min, quant_max = -127, 127

    if axis is not None:''', '''    else:
        quant_min, quant_max = -128, 127

    if axis is not None:''')],
      needs='a weight whose value of largest magnitude is negative', breaks='quantised weights take the value -128 and the scale no longer maps the largest magnitude to 127',
      demo=CMP + '''
m = nn.Linear(4, 3)
with torch.no_grad():
    m.weight.copy_(torch.tensor([[-1.0, 0.5, 0.25, 0.75], [0.5, 0.25, 0.125, 0.3], [0.9, -0.2, 0.1, 0.4]]))
p = convert(m, torch.randn(1, 4), hybrid_quantization_from_float=True, quantize_target_type='int8')
md = model_of(p)
g = md.Subgraphs(0)
n = 0
for i in range(g.TensorsLength()):
    t = g.Tensors(i)
    if t.Type() == s.TensorType.INT8 and md.Buffers(t.Buffer()).DataLength() > 0:
        w = md.Buffers(t.Buffer()).DataAsNumpy().view('int8')
        n += 1
        assert w.min() >= -127, w
        assert abs(float(t.Quantization().Scale(0)) * 127 - 1.0) < 1e-4, t.Quantization().Scale(0)
assert n
'''),
 dict(id='p02-deconv1d-dims', property='P02',
      edits=[(MOD, '''    if type(module) in [nn.ConvTranspose1d]:
        return torch.norm(tensor, p=1, dim=[0, 2])''', '''    if type(module) in [nn.ConvTranspose1d]:
        return torch.norm(tensor, p=1, dim=[1, 2])''')],
      needs='the l1 metric on a ConvTranspose1d layer with as many inputs as outputs', breaks='the importance of the input channels is used for the output channels',
      demo='''
import torch, torch.nn as nn
from tinynn.graph import modifier as M
m = nn.ConvTranspose1d(4, 4, 3)
w = m.weight.detach()
i = {}
M.update_weight_metric(i, M.l1_norm, m, 'x')
want = torch.stack([w[:, c].abs().sum() for c in range(4)])
assert torch.allclose(i['x'].detach(), want, atol=1e-5), (i['x'], want)
'''),
 dict(id='c10-activ-readers', property='C10',
      edits=[(OPT, '''        and source_vertex['op'].fusedActivationFunction == ActivationFunctionType.NONE
        and source_vertex.outdegree() == 1
    )


def is_requantize_node''', '''        and source_vertex['op'].fusedActivationFunction == ActivationFunctionType.NONE
        and sum(1 for e in source_vertex.out_edges() if graph_converter.vs[e.target]['node_type'] >= 0) == 1
    )


def is_requantize_node''')],
      needs='a layer whose result is both a model output and the input of its activation', breaks='the output of the model before the activation is lost or changed',
      demo=CMP + '''
class M(nn.Module):
    def __init__(self):
        super().__init__()
        self.l = nn.Linear(4, 3)
    def forward(self, x):
        y = self.l(x)
        return y, torch.relu(y)
same(M(), torch.randn(2, 4))
'''),
 dict(id='c11-gather-axis', property='C11',
      edits=[(OPT, '''        and source_vertex['op'].axis == target_vertex['op'].axis
        and source_vertex['op'].batchDims == target_vertex['op'].batchDims''', '''        and source_vertex['op'].batchDims == target_vertex['op'].batchDims''')],
      needs='two chained index selections on different axes', breaks='both are merged into one selection on one axis',
      demo=CMP + '''
same(lambda x: x.index_select(1, torch.tensor([2, 0, 1])).index_select(2, torch.tensor([1, 2, 0])) * 2, torch.randn(2, 3, 3))
'''),
 dict(id='c12-rev-eps', property='C12',
      edits=[(OPT, """    shape = [1, -1] + [1] * (len(weight.shape) - 2)

    inv = 1 / np.sqrt(var + eps)
""", """    shape = [1, -1] + [1] * (len(weight.shape) - 2)

    inv = 1 / np.sqrt(np.maximum(var, eps))
""")],
      needs='a batch normalisation with a small variance in front of a convolution', breaks='the weight of the convolution is scaled by another factor than the normalisation applies',
      demo=CMP + """
class M(nn.Module):
    def __init__(self):
        super().__init__()
        self.b, self.c = nn.BatchNorm2d(3, eps=1e-2), nn.Conv2d(3, 4, 1)
        with torch.no_grad():
            self.b.running_mean.copy_(torch.randn(3)); self.b.bias.copy_(torch.randn(3)); self.b.running_var.copy_(torch.tensor([0.01, 0.02, 1.0]))
    def forward(self, x):
        return self.c(self.b(x))
same(M().eval(), torch.randn(1, 3, 4, 4))
"""),
 dict(id='c14-transpose-rank', property='C14',
      edits=[(VER, '''        elif op.op.code == ExtendedOperator.TRANSPOSE:
            if len(op.inputs[0].shape) > 4:
                op.op.version = 4
            elif str(op.inputs[0].dtype) == 'bool':''', '''        elif op.op.code == ExtendedOperator.TRANSPOSE:
            if len(op.inputs[0].shape) > 5:
                op.op.version = 4
            elif str(op.inputs[0].dtype) == 'bool':''')],
      needs='a transpose of a tensor of five dimensions', breaks='the operator is written under a version that knows four dimensions at most',
      demo=CMP + '''
p = convert(lambda x: x.permute(4, 2, 0, 3, 1) * 2, torch.randn(2, 3, 4, 5, 6))
md = model_of(p)
v = [md.OperatorCodes(i).Version() for i in range(md.OperatorCodesLength()) if md.OperatorCodes(i).BuiltinCode() == s.BuiltinOperator.TRANSPOSE]
assert v == [4], v
'''),
 dict(id='c13-splitv-dim', property='C13',
      edits=[(OPT, """                old_dim = op.inputs[2].tensor
                new_dim = np.where(inv_perm_arr == old_dim)[0][0]""", """                old_dim = op.inputs[2].tensor
                new_dim = inv_perm_arr[old_dim]""")],
      needs='parts of unequal sizes of a convolution result that are processed in channel-last layout', breaks='the split goes along another axis than before',
      demo=CMP + """
class M(nn.Module):
    def __init__(self):
        super().__init__()
        self.a, self.b, self.c = nn.Conv2d(3, 4, 1), nn.Conv2d(1, 2, 1), nn.Conv2d(3, 2, 1)
    def forward(self, x):
        p, q = torch.split(self.a(x), [1, 3], 1)
        return self.b(p) + self.c(q)
same(M(), torch.randn(1, 3, 4, 4))
"""),
 dict(id='c08-int16-io', property='C08',
      edits=[(CB, """            if quantize_input_output_type == 'int16' and quantize_target_type != 'int16':""",
                  """            if quantize_input_output_type == 'int16' and quantize_target_type == 'uint8':""")],
      needs='int16 inputs and outputs requested for an int8 model', breaks='the combination is accepted at construction',
      demo="""
import torch, torch.nn as nn, os
from tinynn.converter import TFLiteConverter
p = os.path.join(os.environ.get('DEMO_TMP', '.'), 'm.tflite')
for t in ('uint8', 'int8'):
    try:
        TFLiteConverter(nn.Linear(3, 3).eval(), torch.randn(1, 3), p, fuse_quant_dequant=True, quantize_target_type=t, quantize_input_output_type='int16')
    except (AttributeError, AssertionError, ValueError):
        continue
    raise SystemExit('accepted: ' + t)
TFLiteConverter(nn.Linear(3, 3).eval(), torch.randn(1, 3), p, fuse_quant_dequant=True, quantize_target_type='int8', quantize_input_output_type='uint8')
"""),
 dict(id='c07-output-indices', property='C07',
      edits=[(CB, """                self.fuse_input_indices,
                self.fuse_output_indices,
                self.max_transpose_dims,""", """                self.fuse_input_indices,
                self.fuse_output_indices or self.fuse_input_indices,
                self.max_transpose_dims,""")],
      needs='fuse_input_indices given without fuse_output_indices', breaks='the indices of the inputs are used for the outputs as well',
      demo="""
import torch, torch.nn as nn, os, inspect
import tinynn.converter.base as B
from tinynn.converter import TFLiteConverter
O = B.GraphOptimizer
seen = []
class R(O):
    def __init__(self, *a, **k):
        b = inspect.signature(O.__init__).bind(self, *a, **k)
        b.apply_defaults()
        seen.append(dict(b.arguments))
        super().__init__(*a, **k)
B.GraphOptimizer = R
p = os.path.join(os.environ.get('DEMO_TMP', '.'), 'm.tflite')
TFLiteConverter(nn.Linear(3, 3).eval(), torch.randn(1, 3), p, fuse_quant_dequant=True, fuse_input_indices=[0]).convert()
assert len(seen) == 1
assert seen[0]['fuse_input_indices'] == [0] and seen[0]['fuse_output_indices'] is None, seen[0]
"""),
 dict(id='c01-custom-namespace', property='C01',
      edits=[(CB, """            converter_type = OPERATOR_CONVERTER_DICT.get(k, None)
            if converter_type is None:
                ops.append(k)""", """            converter_type = OPERATOR_CONVERTER_DICT.get(k, None)
            if converter_type is None and k.split('::')[0] in ('aten', 'prim', 'quantized'):
                ops.append(k)""")],
      needs='a traced operator of another namespace than the built-in ones', breaks='the conversion goes on and writes a model in which the operator is missing',
      demo="""
import torch, torch.nn as nn, os
from tinynn.converter import TFLiteConverter
lib = torch.library.Library('demolib', 'DEF')
lib.define('twice(Tensor x) -> Tensor')
lib.impl('twice', lambda x: x * 2, 'CPU')
class M(nn.Module):
    def forward(self, x):
        return torch.ops.demolib.twice(x) + 1
p = os.path.join(os.environ.get('DEMO_TMP', '.'), 'm.tflite')
import tinynn.converter.base as B
O, built = B.GraphOptimizer, []
class R(O):
    def __init__(self, *a, **k):
        built.append(1)
        super().__init__(*a, **k)
B.GraphOptimizer = R
try:
    TFLiteConverter(M().eval(), torch.randn(1, 3), p).convert()
except Exception as e:
    assert not os.path.exists(p) and not built, 'the half-built graph was optimised'
else:
    raise SystemExit('no error')
"""),
]
