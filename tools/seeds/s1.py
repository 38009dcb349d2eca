G = 'tinynn/converter/operators/tflite/generated_ops.py'
SG = 'tinynn/converter/schemas/tflite/schema_generated.py'
OPT = 'tinynn/converter/operators/optimize.py'
GR = 'tinynn/converter/operators/graph.py'
LEVEL = '''
import torch, torch.nn as nn, os
from tinynn.converter import TFLiteConverter
from tinynn.converter.schemas.tflite import schema_generated as s
def convert(m, x, **kw):
    p = os.path.join(os.environ.get('DEMO_TMP', '.'), 'm.tflite')
    m.eval()
    TFLiteConverter(m, x, p, **kw).convert()
    b = open(p, 'rb').read()
    return s.Model.GetRootAsModel(b, 0), p
def codes(model):
    g = model.Subgraphs(0)
    return [max(model.OperatorCodes(g.Operators(i).OpcodeIndex()).BuiltinCode(),
                model.OperatorCodes(g.Operators(i).OpcodeIndex()).DeprecatedBuiltinCode()) for i in range(g.OperatorsLength())]
'''
SEEDS = [
 dict(id='c04-cumsum-options', property='C04',
      edits=[(G, '''        tflite.CumsumOptionsAddExclusive(builder, self.exclusive)
        tflite.CumsumOptionsAddReverse(builder, self.reverse)''',
              '''        tflite.CumsumOptionsAddExclusive(builder, self.reverse)
        tflite.CumsumOptionsAddReverse(builder, self.exclusive)''')],
      needs='a CUMSUM operator created with exclusive != reverse', breaks='the two options are written to each other\'s field',
      demo='''
import flatbuffers
from tinynn.converter.operators import tflite as tfl
from tinynn.converter.schemas.tflite import schema_generated as s
op = tfl.CumsumOperator([], [], exclusive=True, reverse=False)
b = flatbuffers.Builder(0)
b.Finish(op.build(b))
o = s.Operator.GetRootAs(bytes(b.Output()), 0) if hasattr(s.Operator, 'GetRootAs') else s.Operator.GetRootAsOperator(bytes(b.Output()), 0)
t = o.BuiltinOptions()
c = s.CumsumOptions()
c.Init(t.Bytes, t.Pos)
assert bool(c.Exclusive()) is True and bool(c.Reverse()) is False, (c.Exclusive(), c.Reverse())
'''),
 dict(id='c05-leaky-default', property='C05',
      edits=[(SG, 'def LeakyReluOptionsAddAlpha(builder, alpha): builder.PrependFloat32Slot(0, alpha, 0.0)',
              'def LeakyReluOptionsAddAlpha(builder, alpha): builder.PrependFloat32Slot(0, alpha, 1.0)')],
      needs='a leaky_relu whose slope is exactly the wrong default (1.0)',
      breaks='the slope is left out of the file and read back as 0',
      demo=LEVEL + '''
import numpy as np
m = nn.LeakyReLU(1.0)
x = torch.linspace(-2, 2, 8).view(1, 8)
model, p = convert(m, x)
g = model.Subgraphs(0)
t = g.Operators(0).BuiltinOptions()
o = s.LeakyReluOptions()
o.Init(t.Bytes, t.Pos)
assert abs(o.Alpha() - 1.0) < 1e-6, o.Alpha()
'''),
 dict(id='c06-unused-inputs', property='C06',
      edits=[(GR, '''                tensor = self.tensor_map[name]
                tensor.index = tensor_idx
                tensor_idx += 1
                tensors.append(tensor)
                item_idx = inputs.index(name)''', '''                tensor = self.tensor_map[name]
                tensor.index = tensor_idx
                tensors.append(tensor)
                tensor_idx = len(tensors) if tensor.buffer is not None else tensor_idx
                item_idx = inputs.index(name)''')],
      needs='a model with at least two inputs that no operator reads',
      breaks='both unused inputs are given the same tensor index',
      demo=LEVEL + '''
class M(nn.Module):
    def forward(self, a, b, c):
        return a + 1.0
model, p = convert(M(), (torch.rand(1, 3), torch.rand(1, 4), torch.rand(1, 5)), optimize=0)
g = model.Subgraphs(0)
idx = [g.Inputs(i) for i in range(g.InputsLength())]
shapes = [tuple(g.Tensors(i).ShapeAsNumpy()) for i in idx]
assert shapes == [(1, 3), (1, 4), (1, 5)], shapes
'''),
 dict(id='c09-slice-gate', property='C09',
      edits=[(OPT, '''    @class_conditional(lambda self: self.level >= GraphOptimizer.COMMON_OPTIMIZE)
    def fuse_simple_slice_pass(self):''', '''    @class_conditional(lambda self: self.level >= GraphOptimizer.FUSE_BN)
    def fuse_simple_slice_pass(self):''')],
      needs='two chained slices converted at level 2',
      breaks='a rewrite of the common level runs at the batch-norm level',
      demo=LEVEL + '''
class M(nn.Module):
    def forward(self, x):
        return x[:, 2:9][:, 1:4]
n = [len(codes(convert(M(), torch.rand(2, 12, 5), optimize=l)[0])) for l in (1, 2)]
assert n[0] == n[1], n
'''),
 dict(id='c09-order-requant', property='C09',
      edits=[(OPT, '''        # Fuse quant/dequant nodes
        self.fuse_quant_dequant_nodes()

        # Input output quantize type
        self.quantize_input_output_type_pass()
''', '''        # Input output quantize type
        self.quantize_input_output_type_pass()

        # Fuse quant/dequant nodes
        self.fuse_quant_dequant_nodes()
''')],
      needs='fuse_input_indices together with quantize_input_output_type on a quantised model',
      breaks='the input/output type rewriting does not see the boundary left by the quantize/dequantize fusion',
      demo=LEVEL + '''
import numpy as np
class M(nn.Module):
    def __init__(self):
        super().__init__()
        self.q, self.d = torch.quantization.QuantStub(), torch.quantization.DeQuantStub()
        self.c = nn.Conv2d(3, 4, 1)
    def forward(self, x):
        return self.d(self.c(self.q(x)))
torch.backends.quantized.engine = 'qnnpack'
m = M().eval()
m.qconfig = torch.quantization.get_default_qconfig('qnnpack')
m = torch.quantization.prepare(m)
m(torch.rand(1, 3, 4, 4))
m = torch.quantization.convert(m)
model, p = convert(m, torch.rand(1, 3, 4, 4), quantize_target_type='uint8', fuse_quant_dequant=True,
                   quantize_input_output_type='int8')
g = model.Subgraphs(0)
types = [g.Tensors(g.Inputs(0)).Type(), g.Tensors(g.Outputs(0)).Type()]
assert types == [s.TensorType.INT8] * 2, types
'''),
]
