"""Q03: graph rewrites done for quantisation preserve the computed function."""
import ast
import textwrap
from sa.framework import parallel
from sa.interp import State, K, T, Tup, Ref, Bi, NONE, TRUE, FALSE, Dead, Cls, Fn
from sa.arr import Unk, NoShape
from sa.repo import AnalysisBroken
from checks import U01, T01, T02
from checks.T02 import Flow
from checks import Q03ops as ops
from checks.Q03ops import Val

TITLE = 'graph rewrites done for quantisation preserve the computed function'
EXPLANATION = ('Abstract interpretation of rewrite_quantize_graph on small traced graphs, one for each call form of each rewritten operator (positional and keyword arguments, reversed operands, scalars as the '
               'tracer writes them, repeated operands, results of multi-output nodes, broadcasting, in-place forms, shared consumers), for combinations of them and with single nodes left unquantised. The '
               'forward code that the generator produces from the rewritten graph is parsed and evaluated over symbolic tensors (polynomials over the other operators, with shapes), as is the original '
               'expression, and both must agree.')
TR = 'tinynn.graph.tracer.'
QM = 'tinynn.graph.quantization.quantizer.'
LAYERS = ('ReLU', 'ReLU6', 'SiLU', 'Hardswish', 'LeakyReLU', 'ELU', 'PReLU', 'GLU', 'Sigmoid', 'Tanh', 'Dropout', 'Identity', 'Softmax', 'MaxPool1d', 'MaxPool2d', 'AvgPool1d', 'AvgPool2d', 'Conv1d', 'Conv2d',
          'Linear', 'BatchNorm1d', 'BatchNorm2d', 'Module', 'Parameter')



FIELDS = ('tensor_pre_node_dict', 'tensor_pre_index_dict')


class Bench(T02.Bench):
    def extra(self):
        """the classes that the tables of the quantiser name, before its module is loaded"""
        I = self.I
        import os
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'models')
        I.repo.add_model('verif_q', os.path.join(d, 'q.py'))
        g = lambda n: self.need('verif_q.' + n)
        for n in LAYERS:
            I.known_ext['torch.nn.' + n] = I.known_ext['torch.nn.modules.' + n] = g(n)
        for n in ('QuantStub', 'DeQuantStub'):
            for p in ('torch.quantization.', 'torch.ao.quantization.'):
                I.known_ext[p + n] = g(n)
        I.known_ext['torch.Tensor'] = g('Tensor')
        I.known_ext['torch.__version__'] = K('2.5.1')
        for n in ('float32', 'float64', 'float16', 'int32', 'int64', 'bool', 'uint8'):
            I.known_ext['torch.' + n] = K('torch.' + n)

    def __init__(self, ctx):
        super().__init__(ctx)
        g = lambda n: self.need('verif_q.' + n)
        I = self.I
        self.extra()
        I.known_ext['torch.nn.Parameter'] = g('Parameter')
        I.known_ext['torch.nn.quantized.FloatFunctional'] = I.known_ext['torch.ao.nn.quantized.FloatFunctional'] = g('FloatFunctional')
        for n in ('is_floating_point', 'unsqueeze', 'squeeze', 'broadcast_tensors', 'flatten', 'reshape', 'neg', 'mul'):
            I.known_ext['torch.' + n] = g(n)
        I.hooks.insert(0, self.qhook)
        I.oracle = self.oracle
        self.creation = ['torch.' + x for x in ('ones', 'zeros', 'ones_like', 'zeros_like', 'arange', 'full', 'empty', 'rand', 'randn')]

    def oracle(self, st, t):
        s = str(t)
        if s.startswith('isinstance('):
            return False
        return T01.oracle(st, t)

    def qhook(self, I, st, fn, args, kwargs, node, mod):
        if isinstance(fn, Bi) and fn.name == 'eval' and len(args) >= 1:
            v = I.norm(st, args[0])
            if not isinstance(v, K):
                raise Unk('eval of %s' % v)
            try:
                e = ast.parse(v.v.strip(), mode='eval').body
            except SyntaxError:
                raise Dead(st, T('excval', ('SyntaxError in %s' % v.v,)))
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and I.norm(st, I.ev(st, n, mod)).__class__ is T and I.norm(st, I.ev(st, n, mod)).op == 'undef':
                    raise Dead(st, T('excval', ('NameError: %s' % n.id,)))
            return I.ev(st, e, mod)
        if isinstance(fn, Fn) and fn.qual.endswith('.load_creation_func_names'):
            return I.new_list(st, [K(x) for x in self.creation])
        return NotImplemented


SHAPES = {'x': (2, 4, 6, 6), 'y': (2, 4, 6, 6), 'b': (2, 1, 6, 6), 'v': (4, 6, 6), 's': (2, 4, 1, 1), 'w': (2, 4, 6, 1), 'r': (6,), 'm': (2, 4), 'i': (2, 4, 6, 6), 'l': (2, 4, 3), 'k': (2, 5, 4)}
MODS = {'c': ('Module',), 'd': ('Module',), 'relu': ('ReLU',), 'relu6': ('ReLU6',), 'pool': ('MaxPool2d', 1, 2), 'apool': ('AvgPool2d', 1), 'bpool': ('AvgPool2d', (1, 1), (2, 3)), 'cpool': ('MaxPool2d', 2),
        'soft': ('Softmax', 1), 'drop': ('Dropout', 0.3), 'ident': ('Identity',),
        'fc': ('Linear', 4, 3), 'fcn': ('Linear', 4, 3, False), 'fcs': ('Linear', 4, 4), 'bn': ('BatchNorm1d', 3, 1e-3, 0.2), 'bna': ('BatchNorm1d', 3, 1e-4, 0.3, False), 'bnt': ('BatchNorm1d', 3, 1e-2, 0.4, True, False),
        'bnb': ('BatchNorm1d', 4, 1e-3, 0.2), 'bnc': ('BatchNorm1d', 4, 1e-4, 0.3, False), 'bnd': ('BatchNorm1d', 4, 1e-2, None), 'bne': ('BatchNorm1d', 5, 1e-2, 0.5)}
PARAMS = ('weight', 'bias', 'running_mean', 'running_var', 'num_batches_tracked')
OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Pow: 'pow', ast.MatMult: 'matmul'}


class Graph(T02.Graph):
    """the traced graph of a python expression"""

    def __init__(self, B, text):
        self.env, self.vals = {}, {}
        super().__init__(B, [])
        I, st = B.I, self.st
        I.call(st, B.need(TR + 'current_graph'), [self.g], {}, None, None)
        mod = ast.parse(text)
        used = {n.id for n in ast.walk(mod) if isinstance(n, ast.Name)}
        for n in sorted(SHAPES):
            if n in used and n not in {t.id for s in mod.body if isinstance(s, ast.Assign) for t in s.targets}:
                self.input(n)
        self.inputs = [n for n in sorted(SHAPES) if n in self.env]
        out = None
        for s in mod.body:
            if isinstance(s, ast.Assign):
                self.env[s.targets[0].id] = self.ev(s.value)
            elif isinstance(s, ast.AugAssign):
                a = self.env[s.target.id]
                self.env[s.target.id] = self.traced('torch.Tensor.__i%s__' % OPS[type(s.op)], True, [a, self.ev(s.value)], {})
            else:
                out = self.ev(s.value)
        outs = list(out) if isinstance(out, tuple) else [out]
        self.want = []
        for o in outs:
            nd = self.tn(I.call(st, B.need(TR + 'TraceFunction'), [K('output')], {}, None, None))
            self.fn('add_output_node', nd, self.ref_of(o))
            self.want.append(self.frozen(o))
        self.call('recompute_forward_order')
        I.call(st, B.need(TR + 'current_graph'), [NONE], {}, None, None)
        for n in ('global_functions', 'global_nodes'):
            I.call(st, I.getattr(st, self.at(self.g, n), 'clear'), [], {}, None, None)

    def frozen(self, o):
        return [self.frozen(x) for x in o] if isinstance(o, (list, tuple)) else Val(o.shape, o.nf, o.kind)

    def names(self):
        return [n.v for n in (self.at(x, 'unique_name') for x in self.seq(self.g, 'forward_nodes')) if isinstance(n, K)]

    def tn(self, m):
        return self.B.I.norm(self.st, self.B.I.call(self.st, self.B.need(TR + 'TraceNode'), [m], {}, None, None))

    def tensor(self, shape=(1,), kind='f'):
        self.n += 1
        return U01_new(self.B, self.st, 'Tensor', K('t%d' % self.n), Tup([K(x) for x in shape]), K({'f': 'torch.float32', 'i': 'torch.int64', 'b': 'torch.bool'}[kind]))

    def module(self, m):
        if m not in self.mods:
            I = self.B.I
            v = U01_new(self.B, self.st, MODS[m][0], *[Tup([K(y) for y in x]) if isinstance(x, tuple) else K(x) for x in MODS[m][1:]])
            ident = self.ident(v)
            for d in ('module_unique_name_dict', 'module_original_name_dict'):
                I.setitem(self.st, self.at(self.g, d), ident, K(m), None, None)
            self.mods[m] = v
            if MODS[m][0] in ('Linear', 'BatchNorm1d'):
                for n in PARAMS:
                    if n in I.obj(self.st, v).attrs and self.at(v, n) != NONE:
                        I.setattr(self.st, self.at(v, n), 'name', K('%s.%s' % (m, n)), None, None)
        return self.mods[m]

    def input(self, n):
        I, st = self.B.I, self.st
        nd = self.tn(I.call(st, self.B.need(TR + 'TraceFunction'), [K('input')], {}, None, None))
        v = Val(SHAPES[n], ops.atom('in', n), 'i' if n == 'i' else 'f')
        v.ref = self.tensor(v.shape, v.kind)
        self.fn('add_input_node', nd, v.ref)
        self.env[n] = v

    def ref_of(self, a):
        if isinstance(a, Val):
            return a.ref
        if isinstance(a, list):
            return self.B.I.new_list(self.st, [self.ref_of(x) for x in a])
        if isinstance(a, tuple):
            return Tup([self.ref_of(x) for x in a])
        return NONE if a is None else K(a)

    def flat(self, a):
        if isinstance(a, Val):
            return [a]
        if isinstance(a, (list, tuple)):
            return [y for x in a for y in self.flat(x)]
        return []

    def finish(self, nd, ins, r, inplace):
        I, st = self.B.I, self.st
        if inplace:
            # the tracer gives the result an identity of its own
            ins[0].write(r)
            r = Val(ins[0].shape, None, box=ins[0].box)
        for v in self.flat(r):
            v.ref = self.tensor(v.shape, v.kind)
        self.fn('add_forward_node', nd, I.new_list(st, [v.ref for v in ins]), self.ref_of(r))
        return r

    def traced(self, full, cls, args, kw, prop=False):
        I, st = self.B.I, self.st
        r = ops.apply(full, args, kw)
        f = I.call(st, self.B.need(TR + 'TraceFunction'), [K(full)], {'is_class': K(cls), 'is_property': K(prop)}, None, None)
        I.call(st, I.getattr(st, f, 'parse_args'), [self.ref_of(a) for a in args], {k: self.ref_of(v) for k, v in kw.items()}, None, None)
        n = full.rpartition('.')[2]
        inplace = n.endswith('_') and (not n.endswith('__') or n.startswith('__i') and n[3:-2] in OPS.values()) or full.startswith('torch.nn.functional.') and kw.get('inplace') is True
        ins = self.flat(args) + self.flat(list(kw.values()))
        return self.finish(self.tn(I.norm(st, f)), ins, r, inplace)

    def ev(self, e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.env[e.id]
        if isinstance(e, ast.List):
            return [self.ev(x) for x in e.elts]
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x) for x in e.elts)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            return self.traced('torch.Tensor.__neg__', True, [v], {}) if isinstance(v, Val) else -v
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            n = OPS[type(e.op)]
            if isinstance(a, Val):
                return self.traced('torch.Tensor.__%s__' % n, True, [a, b], {})
            return self.traced('torch.Tensor.__r%s__' % n, True, [b, a], {})
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value)
            if isinstance(v, Val):
                return self.traced('torch.Tensor.__getitem__', True, [v, self.ev(e.slice)], {})
            return v[self.ev(e.slice)]
        if isinstance(e, ast.Compare):
            return self.traced('torch.Tensor.__%s__' % {ast.Gt: 'gt', ast.Lt: 'lt'}[type(e.ops[0])], True, [self.ev(e.left), self.ev(e.comparators[0])], {})
        if isinstance(e, ast.Attribute):
            return self.traced('torch.Tensor.' + e.attr, True, [self.ev(e.value)], {}, True)
        if isinstance(e, ast.Call):
            args = [self.ev(a) for a in e.args]
            kw = {k.arg: self.ev(k.value) for k in e.keywords}
            f = e.func
            if isinstance(f, ast.Name):
                if f.id == 'float':
                    return float(args[0])
                m = self.module(f.id)
                x = args[0]
                return self.finish(self.tn(m), [x], self.layer(f.id)(x), False)
            if isinstance(f.value, ast.Name) and f.value.id in ('torch', 'F'):
                return self.traced(('torch.' if f.value.id == 'torch' else 'torch.nn.functional.') + f.attr, False, args, kw)
            return self.traced('torch.Tensor.' + f.attr, True, [self.ev(f.value)] + args, kw)
        raise AnalysisBroken(ast.dump(e))

    def layer(self, m):
        if MODS[m][0] == 'Module':
            return lambda x: Val(x.shape, ops.atom('layer ' + m, x.nf))
        if MODS[m][0] in ('Linear', 'BatchNorm1d'):
            return self.of_attrs(self.mods[m])
        return ops.layer(MODS[m][0], list(MODS[m][1:]), {})

    # ---------------------------------------------------------------------------------- afterwards
    def result(self):
        """what the code generated from the graph computes"""
        self.call('recompute_forward_order')
        code = self.call('__gen_forward_code')
        if not isinstance(code, K):
            raise Unk('code: %s' % str(code)[:100])
        self.code = code.v
        f = ast.parse(textwrap.dedent(code.v)).body[0]
        env = {a.arg: Val(SHAPES[n], ops.atom('in', n), 'i' if n == 'i' else 'f') for a, n in zip(f.args.args[1:], self.inputs)}
        if len(env) != len(self.inputs):
            raise Flow('the generated code has %d inputs instead of %d' % (len(env), len(self.inputs)))
        self.run = env
        for s in f.body:
            if isinstance(s, ast.Return):
                v = self.rev(s.value)
                return list(v) if isinstance(s.value, ast.Tuple) else [v]
            if isinstance(s.value, ast.Constant) and s.value.value is None:
                for t in s.targets:
                    env.pop(t.id, None)
                continue
            v = self.rev(s.value)
            for t in s.targets:
                env[t.id] = v
        raise Flow('no return')

    def rev(self, e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in self.run:
                return self.run[e.id]
            raise Flow('"%s" is used but not defined' % e.id)
        if isinstance(e, (ast.List, ast.Tuple)):
            return [self.rev(x) for x in e.elts] if isinstance(e, ast.List) else tuple(self.rev(x) for x in e.elts)
        if isinstance(e, ast.UnaryOp):
            return -self.rev(e.operand)
        if isinstance(e, ast.Slice):
            return slice(*[None if x is None else self.rev(x) for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Subscript):
            v = self.rev(e.value)
            i = self.rev(e.slice)
            if v is None:
                raise Flow('it takes an item of None')
            return ops.sliced(v, i)
        if isinstance(e, ast.Attribute):
            return ops.apply('torch.Tensor.' + e.attr, [self.rev(e.value)], {})
        if isinstance(e, ast.Call):
            args = [self.rev(a) for a in e.args]
            kw = {k.arg: self.rev(k.value) for k in e.keywords}
            t = ast.unparse(e.func)
            if t == 'float':
                return float(args[0])
            return self.apply(t, e.func, args, kw)
        raise Flow('expression %s' % ast.unparse(e))

    def apply(self, t, f, args, kw):
        p = t.split('.')
        if p[0] == 'self':
            if len(p) == 3:
                if p[2] not in ops.FF:
                    raise Flow('%s is called' % t)
                try:
                    return ops.FF[p[2]](*args, **kw)
                except TypeError as x:
                    raise ops.Fail('FloatFunctional.%s: %s' % (p[2], x))
            if len(args) != 1 or kw:
                raise Flow('the layer %s is called with %d arguments' % (p[1], len(args)))
            if not isinstance(args[0], Val):
                raise Flow('the layer %s is called with %s' % (p[1], args[0]))
            return self.stage(p[1])(args[0])
        if p[0] in ('torch', 'tinynn'):
            r = ops.apply(t, args, kw)
        else:
            v = self.rev(f.value)
            if v is None:
                raise Flow('it calls %s of None' % f.attr)
            if not isinstance(v, Val):
                raise Flow('it calls %s of %s' % (f.attr, v))
            args = [v] + args
            r = ops.apply('torch.Tensor.' + f.attr, args, kw)
        n = p[-1]
        if n.endswith('_') and (not n.endswith('__') or n.startswith('__i') and n[3:-2] in OPS.values()) or kw.get('inplace') is True:
            args[0].write(r)
            return args[0]
        return r

    def of_attrs(self, m):
        """the function of a layer with parameters"""
        cls = self.B.I.obj(self.st, m).cls.name

        def plain(v):
            if isinstance(v, K):
                return v.v
            o = self.B.I.obj(self.st, v) if isinstance(v, Ref) else v
            xs = getattr(o, 'items', None)
            if xs is None:
                raise Unk('attribute %s' % v)
            return tuple(plain(self.B.I.norm(self.st, x)) for x in xs)

        def get(n):
            return plain(self.at(m, n))

        def param(n):
            p = self.at(m, n)
            return None if p == NONE else (plain(self.at(p, 'name')), plain(self.at(p, 'shape')))
        if cls == 'Linear':
            w, b = param('weight'), param('bias')
            return lambda x: ops.linear(x, w, b)
        if cls == 'Conv2d':
            w, b, other = param('weight'), param('bias'), (get('stride'), get('padding'))
            if get('groups') != 1:
                raise Unk('groups')
            return lambda x: ops.conv2d(x, w, b, other)
        if cls in ('BatchNorm1d', 'BatchNorm2d'):
            ps = tuple(get(n) for n in ('num_features', 'eps', 'momentum', 'affine', 'track_running_stats')) + tuple(param(n) for n in PARAMS)
            return lambda x: ops.batch_norm(x, (2, 3) if cls == 'BatchNorm1d' else (4,), ps)
        return None

    def stage(self, name):
        """the function of a layer of the rewritten graph"""
        nd = self.node(name)
        m = self.at(nd, 'module')
        for k, v in self.mods.items():
            if v.id == m.id:
                return self.layer(k)
        fn = self.of_attrs(m)
        if fn is not None:
            return fn
        I, st = self.B.I, self.st
        lines = self.B.I.obj(st, I.norm(st, self.B.need(TR + 'module_constructor_lines')))
        own = [I.norm(st, v) for k, v in lines.items if I.norm(st, k) == self.ident(m)]
        if not own or not isinstance(own[0], K):
            raise Flow('the layer %s has no constructor' % name)
        e = ast.parse(own[0].v, mode='eval').body
        cls = ast.unparse(e.func).rpartition('.')[2]
        have = self.B.I.obj(st, m).cls.name
        if cls != have and not (cls in ('DeQuantStub', 'QuantStub') and have == 'Identity'):
            raise Flow('the layer %s is a %s, but its constructor is %s' % (name, have, own[0].v))
        fn = ops.layer(cls, [self.rev(a) for a in e.args], {k.arg: self.rev(k.value) for k in e.keywords})
        if fn is None:
            raise ops.Unknown('layer ' + own[0].v)
        inplace = any(k.arg == 'inplace' and ast.unparse(k.value) == 'True' for k in e.keywords)

        def call(x):
            r = fn(x)
            if inplace:
                x.write(r)
                return x
            return r
        return call


def U01_new(B, st, kind, *args):
    return B.I.norm(st, B.I.call(st, B.need('verif_q.' + kind), list(args), {}, None, None))


def quantizer(B, st, config):
    I = B.I
    cfg = I.new_dict(st, [(K(k), v) for k, v in config.items()])
    return I.new_inst(st, B.need(QM + 'QATQuantizer'), {'backend': K('qnnpack'), 'layerwise_default': TRUE, 'layerwise_config': cfg, 'fused_layerwise_config': TRUE,
                                                        'quantize_op_action': I.new_dict(st, []), 'set_quantizable_op_stats': FALSE, 'effective_layers': I.new_list(st, [])})


def differs(got, want):
    if isinstance(got, (list, tuple)) != isinstance(want, list) or isinstance(want, list) and len(got) != len(want):
        return True
    if isinstance(want, list):
        return any(differs(a, b) for a, b in zip(got, want))
    return not isinstance(got, Val) or got.nf != want.nf or tuple(got.shape) != tuple(want.shape) or got.kind != want.kind


def judge(G, when):
    try:
        got = G.result()
    except (Flow, ops.Fail) as f:
        return '%s the generated code fails: %s' % (when, f)
    except SyntaxError as f:
        return '%s the generated code cannot be parsed: %s' % (when, f)
    if len(got) != len(G.want):
        return '%s there are %d results instead of %d' % (when, len(got), len(G.want))
    for k, (a, b) in enumerate(zip(got, G.want)):
        if differs(a, b):
            return '%s result %d is %s instead of %s' % (when, k, ops.show(a)[:160], ops.show(b)[:160])
    return None


def case(x):
    B, it = x
    B.I.nsteps, B.calls = 0, {}
    bad, und, names = [], [], []
    try:
        try:
            G = Graph(B, it.text)
        except ops.Fail as f:
            raise Unk('the expression itself fails: %s' % f)
        f = judge(G, 'before the rewrite')
        if f:
            raise Unk(f)
        q = quantizer(B, G.st, it.config)
        c = B.need(QM + 'QATQuantizer')
        f, _ = B.I.class_attr(c, 'rewrite_quantize_graph')
        B.I.call(G.st, f, [q, G.g], {}, None, None)
        # the names that the configuration file written by the quantiser lists
        names = [n for n in G.names() if not n.startswith(('fake_quant', 'fake_dequant', 'float_functional'))]
        r = judge(G, 'after the rewrite')
        if r:
            bad.append(r)
    except Dead as d:
        bad.append('the rewrite fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape, ops.Unknown) as u:
        und.append(str(u)[:300])
    finally:
        B.I.close()
    return {'it': it, 'bad': bad, 'und': und, 'names': names, 'analysed': sorted(map(str, B.I.analysed))}


class Item:
    def __init__(self, text, config=None, group='form'):
        self.text, self.config, self.group = text, config or {}, group

    def name(self):
        return self.text + (' with %s unquantised' % ', '.join(self.config) if self.config else '')


FORMS = """
-x
x.neg()
(x + y).neg_() + y
torch.neg(x)
torch.negative(x)
x / 2
x / 2.5
x / 1e-5
x / 1e5
x.div(2)
x.div(other=2)
torch.div(x, 2, rounding_mode='floor')
torch.div(x, 2, rounding_mode='trunc')
x.div(2.0, rounding_mode='floor')
torch.true_divide(x, 2)
torch.divide(x, 2)
x.true_divide(3)
2 / x
1e-5 / x
x / -3
x / y
(x + y).div_(2) + y
(x + y).div_(2)
x - y
x - x
y - y + x
x - 1
x - 1.5
x - 1e-5
1 - x
1e-5 - x
1.5 - x
-2 - x
x.sub(y)
x.sub(y, alpha=2)
torch.sub(x, y, alpha=2)
torch.sub(x, 2, alpha=3)
torch.sub(x, other=y)
torch.sub(input=x, other=y)
torch.sub(x, other=2)
x.sub(2)
(x + y).sub_(y)
(x + y).sub_(2)
torch.rsub(x, y)
torch.rsub(x, 2)
torch.subtract(x, y)
x + y
x + x
x + 2
2 + x
1e-5 + x
x.add(y, alpha=2)
torch.add(x, y, alpha=2)
torch.add(x, 2, alpha=2)
torch.add(x, other=2)
torch.add(x, other=y)
torch.add(input=x, other=y)
(x + y).add_(y)
(x + y).add_(2)
x * y
x * 3
3 * x
-1.5e-7 * x
torch.mul(x, 2)
torch.mul(x, other=y)
(x + y).mul_(y)
torch.multiply(x, y)
torch.stack([x, y])
torch.stack((x, y), 1)
torch.stack((x, y), dim=-1)
torch.stack((x, y), dim=-2)
torch.stack([x, x, y], 2)
torch.stack(tensors=[x, y], dim=1)
torch.stack([x + 1, y], axis=1)
torch.stack(x.chunk(2, 1), 0)
torch.stack([v, x[1]], 0)
torch.cat([x, y])
torch.cat([x, y], 1)
torch.cat([x, y], dim=-1)
torch.cat(tensors=[x, y], dim=1)
torch.cat([x, y], axis=1)
torch.concat([x, y], 1)
x.clamp(0)
x.clamp(min=0)
x.clamp(max=6)
x.clamp(0, 6)
x.clamp(0., 6.)
x.clamp(max=6, min=0)
x.clamp(-1, 1)
x.clamp(1e-5)
x.clamp(None, 3)
x.clamp(min=-1)
torch.clamp(x, 0, 6)
torch.clamp(input=x, min=0, max=6)
torch.clamp(x, min=-1, max=1)
torch.clamp(x, max=1)
torch.clamp(x, y, y + 1)
torch.clamp(x, min=y)
torch.clip(x, 0, 6)
(x + y).clamp_(0, 6)
(x + y).clamp_(0)
(x + y).clamp_(-1, 1)
(x + y).clamp_(min=-2)
x.clamp_min(0)
x.clamp_min(1)
torch.clamp_min(x, 0)
torch.clamp_min(x, min=0)
x.clamp_max(3)
torch.clamp_max(x, 3)
torch.clamp_max(x, max=6)
(x + y).clamp_min_(0)
(x + y).clamp_min_(2)
(x + y).clamp_max_(2)
torch.clamp(x, min=float('-inf'), max=3)
F.relu(x)
F.relu(x.exp(), inplace=True)
F.relu(x.exp(), True)
torch.relu(x)
x.relu()
(x + y).relu_()
F.relu6(x)
F.relu6(x.exp(), inplace=True)
F.leaky_relu(x)
F.leaky_relu(x, 0.3)
F.leaky_relu(x, negative_slope=0.3)
F.leaky_relu(x.exp(), 0.3, True)
F.leaky_relu(x.exp(), inplace=True)
F.leaky_relu(input=x, negative_slope=0.2)
F.elu(x)
F.elu(x, 0.5)
F.elu(x, alpha=0.5)
F.elu(x.exp(), inplace=True)
F.elu(x.exp(), 0.5, True)
F.glu(x)
F.glu(x, 1)
F.glu(x, dim=1)
F.glu(x, -2)
F.sigmoid(x)
torch.sigmoid(x)
x.sigmoid()
(x + y).sigmoid_()
torch.tanh(x)
x.tanh()
(x + y).tanh_()
F.hardswish(x)
F.hardswish(x.exp(), True)
F.silu(x)
F.silu(x.exp(), inplace=True)
F.prelu(x, y.mean().view(1))
F.avg_pool2d(x, 1)
F.avg_pool2d(x, 1, 2)
F.avg_pool2d(x, 1, stride=2)
F.avg_pool2d(x, kernel_size=1, stride=2)
F.avg_pool2d(x, (1, 1), (2, 3))
F.avg_pool2d(x, 1, 2, divisor_override=3)
F.avg_pool2d(v, 1, 2)
F.max_pool2d(x, 1, 2)
F.max_pool2d(x, 1)
F.max_pool2d(x, kernel_size=1, stride=2)
F.max_pool2d(x, 1, 2, ceil_mode=True)
F.max_pool2d(v, 1, 2)
F.avg_pool1d(v, 1, 2)
F.max_pool1d(v, 1, 2)
F.avg_pool2d(x, 1, [2])
F.avg_pool2d(x, [1], 2)
x + b
b + y
x + v
v + y
(x + v).relu()
F.relu(x + y)
F.relu6(x + y)
(x + y).clamp(0, 6)
(x + y).clamp(-1, 1)
F.relu(x + 1)
F.relu(x.add(y, alpha=2))
F.relu(torch.add(x, y, alpha=2))
F.pad(x, (1, 1)) + 1
F.pad(x, (1, 1, 2, 2), value=1.0)
F.pad(x, (1, 1), mode='reflect')
F.pad(input=x, pad=(1, 1))
x.abs() + y
torch.abs(x) - y.abs()
x.softmax(1) + x
torch.sqrt(x.abs()) + y
torch.matmul(x, y) + x
torch.matmul(x, x) + x
x.sum() + y
x * x.size(0)
x.size(0) * x
x.view(x.size(0), -1) + 1
x + torch.ones(2, 4, 6, 6)
torch.zeros_like(x) + y
x.long() + 1
x.argmax(1)
(x > 0).float() * y
(x > 0) * y
x ** 2 + y
x.pow(2) - y
x.exp() / 2
x.chunk(2, 1)[0] - x.chunk(2, 1)[1]
x.chunk(2, 1)[0].softmax(1) + x.chunk(2, 1)[1]
a = x.chunk(2, 1); a[0] - a[1]
a = x.chunk(2, 1); a[0].softmax(1) + a[1].exp()
a = x.chunk(2, 1); torch.stack([a[1], a[0]], 1)
a = x.chunk(2, 1); a[0] / 2 + a[1] * a[0]
a = torch.split(x, [1, 3], 1); a[0] + a[1]
a = torch.split(x, [1, 3], 1); a[1] + a[0]
a = torch.split(x, [1, 3], 1); a[1] * a[0] - a[0]
a = x.exp(); a - a / 2
a = x + y; (a, -a)
a = x + y; (a.exp(), a - y)
a = x + y; (a.exp(), a.softmax(1))
a = x + y; a.exp() - a
[x, y]
[x - y, x + y]
(x, x)
x
torch.where(x > 0, x, y)
torch.max(x, y) - torch.min(x, y)
F.dropout(x, 0.3, False)
x.mean((2, 3), keepdim=True) * y
x.mean((2, 3), keepdim=True) - y
y - x.mean((2, 3), keepdim=True)
x.norm() * y
x.flatten(1) - 1
x.permute(0, 2, 3, 1) + y.permute(0, 2, 3, 1)
x.add(1).add(2).sub(3)
x.unsqueeze(1) - y
torch.stack([x, y]).sum(0) - x
torch.sub(other=x, input=y)
torch.add(other=x, input=y, alpha=3)
x.sub(1.5, alpha=2)
torch.div(input=x, other=4)
x.div(4, rounding_mode=None)
x * -2
x.mul(0.5)
torch.mul(other=x, input=y)
x.rsub(y)
torch.clamp_min(x, y)
torch.clamp_max(x, max=y)
x.clamp(max=float('inf'), min=0)
x.clamp(0, 6.5)
x.clamp(0.5, 6)
x.clamp(-6, 6)
x.clamp(min=0.0, max=6.0)
x.clamp_min(min=0)
x.clamp_min(0.5)
a = x + y; a.clamp_(0, 6); a * y
a = x + y; a.clamp_(-1); a * y
a = x + y; a.add_(y); a * y
a = x + y; a.mul_(2); a - y
a = x + y; a.sub_(2); a - y
a = x + y; a.div_(4); a - y
a = x + y; a += y; a.exp() + a
a = x + y; a *= 3; a.exp() + a
a = x + y; a -= y; a.exp() + a
a = x + y; a /= 2; a.exp() + a
a = x + y; a.relu_(); a + x
a = x + y; a.sigmoid_(); a + x
a = x + y; F.relu(a, inplace=True); a + x
a = x + y; F.relu(a) + a
a = x + y; F.relu(a) * F.relu(a)
a = x + y; (F.relu(a), a)
a = x + y; (F.relu(a), a.exp())
a = F.relu(x + y); (a, a)
relu(x + y)
relu(ident(x + y))
F.relu(ident(x + y))
a = ident(x + y); F.relu(a) + a
a = x + y; relu(ident(a)) + ident(a)
relu6(x + y)
relu(x.add(y, alpha=2))
relu(x + 2)
relu(x - y)
x.add(y).relu().add(y).relu()
pool(x)
apool(x)
bpool(x)
cpool(x)
F.avg_pool2d(x, 1, 2, 0, False, True, 3)
F.avg_pool2d(x, (1, 1), [2, 1])
F.max_pool2d(x, [1, 1], (3,))
F.avg_pool2d(x, 2, 1)
F.max_pool2d(x, 2)
F.avg_pool2d(x, (1, 2), 1)
F.max_pool2d(x, 1, stride=(1, 2))
F.avg_pool2d(x, stride=3, kernel_size=1)
soft(x) + y
soft(c(x))
drop(x) + y
F.dropout(x, 0.3)
F.dropout(x, p=0.1, inplace=False) + y
F.dropout(x)
c(x) + d(y)
c(x) - c(y)
c(c(x))
F.elu(input=x, alpha=0.3)
F.glu(dim=2, input=x)
F.leaky_relu(x, 0)
x.sigmoid() * x
torch.sigmoid(input=x)
x.tanh() - x
F.hardsigmoid(x) * 2
F.silu(x) / 3
F.prelu(x, y.mean().view(1)) + 1
w + r
w * r
s * v
w - r
s - v
r - w
x - w
w - x
m.unsqueeze(2).unsqueeze(3) * x
x + 1 + b
x.add(b, alpha=2)
b.add(x, alpha=2)
x.sub(w, alpha=3)
F.relu(b + x)
F.relu(w + r)
torch.stack([x, y, x], dim=-3)
torch.stack([b, b], -4)
torch.stack((x, y), 4)
torch.stack([x, x], 1)
torch.stack(dim=1, tensors=(x, y))
torch.stack([x.exp(), y], 1) + 1
a = x.chunk(2, 1); torch.stack(a, 1)
a = x.chunk(2, 1); torch.cat(a, 0)
a = x.chunk(2, 1); torch.cat([a[1], a[0]], 1) - x
a = x.chunk(2, 1); torch.cat([a[1].exp(), a[0]], 1)
a = x.chunk(2, 1); a[1] - a[0]
a = x.chunk(2, 1); a[1].sub(a[0], alpha=2)
a = x.chunk(2, 1); (a[1] / 2, a[0])
a = x.chunk(2, 1); (a[1].exp(), a[0].softmax(1), a[1] + a[0])
a = torch.split(x, [1, 3], 1); (a[0] * a[1], a[0])
a = torch.split(x, [1, 3], 1); F.relu(a[0] + a[1])
a = torch.split(x, [1, 3], 1); a[1] - a[0]
a = torch.split(x, [1, 3], 1); a[0] - a[1]
a = torch.split(x, [1, 3], 1); a[0].exp() - a[1].clamp(0, 6)
i + 1
i.float() + x
i.float() / 2
i - 1
-i
x.int() + 2
x.long().float() - y
(x, i)
(i, x - y, i + 1)
[x.long(), y]
x.argmax(1) + i.argmax(1)
x.argmax(1).float() - 1
torch.where(x > 0, x - 1, y)
x + torch.zeros_like(y)
x - torch.ones(2, 4, 6, 6)
torch.ones(4, 6, 6) - x
x.view(2, -1) - 2
x.flatten(1) / 4
x.permute(0, 2, 3, 1) - 1
x.mean((2, 3), keepdim=True) / 2
a = x.exp(); a - a + y
a = x.exp(); a + a
a = x.exp(); a * a - a
a = x * y; (a, a, -a)
a = x * y; (a.exp(), a / 2, a.clamp(0, 6))
a = x.exp(); b = a.softmax(1); a - b
a = x.exp(); b = a + y; a - b.exp()
a = x.softmax(1); a.exp()
a = x.softmax(1); (a.exp(), a.sqrt())
a = c(x); (a.exp(), a)
a = c(x); a.exp() + a
c(x).softmax(1).exp()
a = x; -a
pool(x) + F.avg_pool2d(y, 1, 2)
a = x + y; b = a.add_(1); a.mul_(2); b + a
a = x.exp(); a.add_(1); (a, a.mul(2))
a = x + y; b = relu(a); a.mul_(2); torch.cat([a, b, a], 1)
a = x.chunk(2, 1); a[0].exp().add_(1) + a[1]
fc(m)
fc(k)
bn(fc(m))
bn(fcn(m))
bna(fc(m))
bna(fcn(m))
bnt(fc(m))
relu(bn(fc(m)))
F.relu(bna(fcn(m)))
F.relu6(bn(fc(m)))
bn(fc(m)).clamp(-1, 1)
a = fc(m); (bn(a), a)
a = bn(fc(m)); (a.exp(), a + 1)
a = fc(m); bn(a) + a
bnb(fcs(m)) + m
bnb(fcs(bnb(fcs(m))))
bnb(fcs(m.exp()) + m)
a = m.chunk(2, 0); bnb(fcs(a[0])) - a[1]
a = fcs(m); bnb(a) + bnc(a)
bne(fcs(k))
bnb(l)
bnc(l)
bnd(l)
bnb(l.exp())
F.relu(bnb(l))
relu(bnc(l)) + l
a = bnb(l); (a.exp(), a)
bnb(bnc(l))
bnb(l + 1) * l
a = l.chunk(2, 0); bnb(a[0]) + bnc(a[1])
a = l.exp(); bnb(a) + bnc(a)
bnb(m)
bnb(m.exp())
F.relu(bnc(m))
a = bnb(m); (a, a + m)
bnb(c(m))
""".strip().splitlines()
# one operation on p, combined below with every other one
STEPS = ('-p', 'p / 2', 'p - q', 'q - p', 'p - 1', '1 - p', 'p + q', '2 * p', 'p * q', 'p.add(q, alpha=2)', 'torch.stack([p, q], 1)[0]', 'torch.cat([p, q], 1).chunk(2, 1)[0]', 'p.clamp(0, 6)', 'p.clamp(min=-1)',
         'p.clamp(-1, 1)', 'F.relu(p)', 'relu(p)', 'ident(p)', 'F.leaky_relu(p, 0.3)', 'F.avg_pool2d(p, 1)', 'p.exp()', 'p.softmax(1)', 'c(p)', 'p + b', 'p.sub(q, alpha=2)', 'F.sigmoid(p)', 'F.dropout(p)',
         'p.exp().add_(q)', 'p.exp().relu_()', 'p.chunk(2, 1)[0] - p.chunk(2, 1)[1] + q.chunk(2, 1)[0]', 'p.float()', 'F.pad(p, (0, 0))', 'p.mean((2, 3), keepdim=True) * p')


def combined(tier):
    import re
    put = lambda t, p, q: re.sub(r'\bq\b', q, re.sub(r'\bp\b', p, t))
    for f in STEPS:
        for g in STEPS:
            if '[0]' in f:
                continue
            yield 'a = %s; %s' % (put(f, 'x', 'y'), put(g, 'a', 'y'))
            yield 'a = %s; %s' % (put(f, 'x', 'y'), put(g, 'a', 'x'))
            yield 'a = %s; (%s, a)' % (put(f, 'x', 'y'), put(g, 'a', 'y'))
            if tier != 'quick':
                yield 'a = %s; d = %s; %s' % (put(f, 'x', 'y'), put(g, 'a', 'y'), put('p * q + d', 'a', 'd'))


def cases(tier):
    """the forms, compositions of two operations (for the quick tier those of every third pair)"""
    forms = list(dict.fromkeys(FORMS))
    two = [t for i, t in enumerate(combined(tier)) if tier != 'quick' or i % 3 == i // 3 % 3]
    return forms, two


def run(ctx):
    ctx.rule('form', 'the rewritten graph computes what the call form computes', 100)
    ctx.rule('config', 'with one node left unquantised the rewritten graph computes the same', 60)
    ctx.rule('pair', 'the rewritten graph of two operations in a row computes the same', 100)
    B = Bench(ctx)
    f = B.I.class_attr(B.need(QM + 'QATQuantizer'), 'rewrite_quantize_graph')[0]
    where = '%s:%d QATQuantizer.rewrite_quantize_graph' % (B.I.repo.module(f.mod).rel(), f.node.lineno)
    forms, two = cases(ctx.tier)

    def judged(rule, its):
        names = []
        for r in parallel([(B, it) for it in its], case):
            n = r['it'].name()
            ctx.analysed |= set(r['analysed'])
            ctx.ob(rule, n)
            if r['bad']:
                ctx.finding(rule, n, where, r['bad'][0])
            elif r['und']:
                ctx.skip(n, r['und'][0])
            names.append((r['it'].text, r['names']))
        return names
    one = judged('form', [Item(t) for t in forms])
    judged('config', [Item(t, {n: FALSE}) for t, names in one for n in names])
    judged('pair', [Item(t) for t in two])
