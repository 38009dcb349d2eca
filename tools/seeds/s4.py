QZ = 'tinynn/graph/quantization/quantizer.py'
G = '''
import torch, torch.nn as nn, torch.nn.functional as F, os, importlib.util as u, logging
logging.disable(50)
from ruamel.yaml import CommentedMap
from tinynn.graph.quantization.quantizer import QATQuantizer
from tinynn.graph.tracer import trace
torch.manual_seed(0)
os.chdir(os.environ.get('DEMO_TMP', '.'))
def check(m, *X):
    m.eval()
    want = m(*[t.clone() for t in X])
    g = trace(m, X)
    q = QATQuantizer(m, X, work_dir='out', config={'ignore_layerwise_config': True})
    q.layerwise_config = CommentedMap()
    q.rewrite_quantize_graph(g)
    g.generate_code('out/z.py', 'out/z.pth', 'G')
    s = u.spec_from_file_location('gz', 'out/z.py')
    mod = u.module_from_spec(s)
    s.loader.exec_module(mod)
    r = mod.G()
    r.load_state_dict(torch.load('out/z.pth'))
    got = r.eval()(*X)
    for a, b in zip(got if isinstance(got, (tuple, list)) else [got], want if isinstance(want, (tuple, list)) else [want]):
        assert a.shape == b.shape and torch.allclose(a, b, atol=1e-6), (a, b)
os.makedirs('out', exist_ok=True)
'''
SEEDS = [
 dict(id='q03-rtruediv', property='Q03',
      edits=[(QZ, '''                    and cur_module.func_type != '__rtruediv__'
''', '')],
      needs='a constant divided by a tensor in a model to be quantised', breaks='c / x is rewritten as x * (1 / c)',
      demo=G + '''
class M(nn.Module):
    def forward(self, x):
        return 2 / x
check(M(), torch.rand(1, 4) + 1)
'''),
 dict(id='q03-pool-kernel', property='Q03',
      edits=[(QZ, '''                    is_match = all((ks == 1 for ks in kernel_size))''', '''                    is_match = any((ks == 1 for ks in kernel_size))''')],
      needs='a pooling with a kernel of extent one in one dimension only', breaks='the pooling is replaced by a slice',
      demo=G + '''
class M(nn.Module):
    def forward(self, x):
        return F.max_pool2d(x, (1, 3), (1, 2))
check(M(), torch.randn(1, 2, 4, 7))
'''),
 dict(id='q03-add-relu-readers', property='Q03',
      edits=[(QZ, '''                if cur_module.kind != 'add' or len(node.next_nodes) != 1:''', '''                if cur_module.kind != 'add' or len(node.next_nodes) < 1:''')],
      needs='a sum that is read by a ReLU and by something else', breaks='every reader of the sum gets the rectified values',
      demo=G + '''
class M(nn.Module):
    def forward(self, x, y):
        a = x + y
        return F.relu(a), a.sigmoid()
check(M(), torch.randn(2, 4), torch.randn(2, 4))
'''),
 dict(id='q03-bn1d-eps', property='Q03',
      edits=[(QZ, '''                    mod.num_features,
                    mod.eps,
                    mod.momentum,
''', '''                    mod.num_features,
                    momentum=mod.momentum,
''')],
      needs='a one-dimensional batch normalisation with an eps of its own that does not follow a fully connected layer', breaks='the rewritten layer uses the default eps',
      demo=G + '''
m = nn.Sequential(nn.BatchNorm1d(3, eps=0.5))
check(m, torch.randn(2, 3, 5))
'''),
]
