"""T02: graph edits keep forward and backward links in step."""
import ast
import textwrap
from sa.framework import parallel
from sa.interp import State, K, T, Tup, Ref, Bi, NONE, TRUE, FALSE, Dead
from sa.arr import Unk, NoShape
from sa.repo import AnalysisBroken
from checks import U01, T01

TITLE = 'graph edits keep forward and backward links in step'
EXPLANATION = ('Abstract interpretation of the edits of TraceGraph (insert after, before and between, replace, remove, fuse, subgraph extraction, added inputs and outputs) on small traced graphs built by the '
               'constructors of the tracer itself: chains, branches, repeated operands, multi-output nodes, shared modules, constants, list outputs; single edits and sequences of two. After each edit the '
               'predecessor and successor lists are compared, every tensor a node reads must be produced by one of its predecessors, removed nodes must be gone, and the forward code that the generator '
               'produces from the edited graph is parsed and its data flow is compared with the data flow that the edit stands for.')
TR = 'tinynn.graph.tracer.'
TG = TR + 'TraceGraph.'

# ('in', name) ('const', name) ('mod', module, inputs[, node]) ('fn', full name, class method?, inputs, constants, label, outputs) ('prop', ...) ('out', input or list)
RELU = ('fn', 'torch.relu', False)
ADD = ('fn', 'torch.Tensor.__add__', True)
MUL = ('fn', 'torch.mul', False)
GRAPHS = {
    'chain': [('in', 'x'), ('mod', 'c', ['x']), RELU + (['c'], (), 'r'), ('mod', 'd', ['r']), ('out', 'd')],
    'branch': [('in', 'x'), ('mod', 'c', ['x']), ('mod', 'd', ['c']), ADD + (['d', 'c'], (), 'a'), ('mod', 'e', ['a']), ('out', 'e')],
    'fork': [('in', 'x'), ('mod', 'c', ['x']), RELU + (['c'], (), 'r'), ('mod', 'd', ['c']), MUL + (['r', 'd'], (), 'm'), ('out', 'm'), ('out', 'r')],
    'twice': [('in', 'x'), ('mod', 'c', ['x']), MUL + (['c', 'c'], (), 'm'), ADD + (['m', 'm'], (), 'a'), ('out', 'a')],
    'two inputs': [('in', 'x'), ('in', 'y'), ADD + (['x', 'y'], (), 'a'), MUL + (['y', 'a'], (), 'm'), ('mod', 'd', ['m']), ('out', ['d', 'a'])],
    'split': [('in', 'x'), ('mod', 'c', ['x']), ('fn', 'torch.chunk', False, ['c'], (2,), 's', 2), RELU + ([('s', 0)], (), 'r'), MUL + ([('s', 1), 'r'], (), 'm'), ('mod', 'd', ['m']), ('out', 'd')],
    'split and joined': [('in', 'x'), ('mod', 'c', ['x']), ('fn', 'torch.chunk', False, ['c'], (2,), 's', 2), ('fn', 'torch.cat', False, [[('s', 0), ('s', 1), 'c']], (), 'j'), ('mod', 'd', ['j']), ('out', 'd')],
    'split and swapped': [('in', 'x'), ('fn', 'torch.chunk', False, ['x'], (2,), 's', 2), ('fn', 'torch.cat', False, [['x', ('s', 1), ('s', 0), ('s', 1)]], (), 'j'), ('mod', 'd', [('s', 0)]), ADD + (['j', 'd'], (), 'a'), ('out', 'a')],
    'split out': [('in', 'x'), ('fn', 'torch.chunk', False, ['x'], (2,), 's', 2), ('mod', 'd', [('s', 1)]), ('out', [('s', 0), 'd']), ('out', 'd')],
    'shared': [('in', 'x'), ('mod', 'c', ['x']), RELU + (['c'], (), 'r'), ('mod', 'c', ['r'], 'c_1'), ADD + (['c_1', 'r'], (), 'a'), ('out', ['a'])],
    'constant': [('in', 'x'), ('const', 'k'), ('mod', 'c', ['x']), ADD + (['c', 'k'], (), 'a'), MUL + (['k', 'a'], (), 'm'), ('mod', 'd', ['m']), ('out', 'd')],
    'property': [('in', 'x'), ('mod', 'c', ['x']), ('prop', 'torch.Tensor.data', True, ['c'], (), 'p'), ('fn', 'torch.Tensor.view', True, ['p'], (-1, 4), 'v'), ('fn', 'torch.clamp', False, ['v'], (0, 6), 'l'), ADD + (['l', 'p'], (), 'a'), ('out', 'a')],
    'diamond': [('in', 'x'), ('mod', 'c', ['x']), ('mod', 'd', ['c']), ('mod', 'e', ['c']), MUL + (['e', 'd'], (), 'm'), ('mod', 'f', ['m']), ADD + (['f', 'c'], (), 'a'), ('out', ['a', 'c', 'a'])],
    'two heads': [('in', 'x'), ('mod', 'c', ['x']), RELU + (['c'], (), 'r'), ADD + (['r', 'c'], (), 'a'), RELU + (['a'], (), 'q'), ('mod', 'd', ['q']), ('out', 'd'), ('out', 'q')],
}


class Bench(T01.Bench):
    def __init__(self, ctx):
        super().__init__(ctx)
        for n, m in (('torch.nn.Parameter', 'Parameter'), ('torch.Size', 'Size'), ('torch.nn.quantized.FloatFunctional', 'Functional')):
            self.I.known_ext[n] = self.need('verif_um.' + m)


class Spec:
    """what a graph computes: node -> (operation, inputs), and the outputs"""

    def __init__(self):
        self.nodes, self.inputs, self.outputs = {}, [], []
        self.kind = {}

    def copy(self):
        s = Spec()
        s.nodes = {k: dict(v, ins=list(v['ins'])) for k, v in self.nodes.items()}
        s.inputs = list(self.inputs)
        s.outputs = [(list(r), v) for r, v in self.outputs]
        s.kind = dict(self.kind)
        return s

    def term(self, ref, memo):
        n, path = ref
        if n not in memo:
            if n in self.inputs:
                memo[n] = ('input', self.inputs.index(n))
            elif self.kind.get(n) == 'const':
                memo[n] = ('self', n)
            else:
                d = self.nodes[n]
                memo[n] = d['build']([self.term(r, memo) for r in d['ins']])
        t = memo[n]
        for i in path:
            t = ('item', t, i)
        return t

    def result(self):
        memo = {}
        outs = []
        for refs, rev in self.outputs:
            v = [self.term(r, memo) for r in refs]
            outs.append(('list', tuple(v)) if rev else v[0])
        return outs, {n: self.term((n, ()), memo) for n in self.nodes}

    def uses(self, n):
        return [(m, i, r) for m, d in self.nodes.items() for i, r in enumerate(d['ins']) if r[0] == n] + [(k, i, r) for k, (refs, _) in enumerate(self.outputs) for i, r in enumerate(refs) if r[0] == n]

    def redirect(self, f):
        """apply f(consumer, ref) to every use"""
        for m, d in self.nodes.items():
            d['ins'] = [f(m, r) for r in d['ins']]
        for k, (refs, _) in enumerate(self.outputs):
            refs[:] = [f(k, r) for r in refs]


def mod_term(m):
    return lambda ins: ('call', ('self', m), tuple(ins), ())


def fn_term(full, cls, prop, shape, consts):
    """shape: nested positions of the inputs"""
    def build(ins):
        def fill(s):
            return ('list', tuple(fill(x) for x in s)) if isinstance(s, list) else ins[s]
        args = [fill(s) for s in shape] + [('const', c) for c in consts]
        name = full.rpartition('.')[2]
        if prop:
            return ('attr', args[0], name)
        if cls:
            return ('call', ('attr', args[0], name), tuple(args[1:]), ())
        return ('call', ('path', full), tuple(args), ())
    return build


def parse(code, label):
    """(outputs, node -> term) of the generated forward function; label: attribute of the generated module -> module"""
    f = ast.parse(textwrap.dedent(code)).body[0]
    env = {a.arg: ('input', i) for i, a in enumerate(f.args.args[1:])}
    defs = dict(env)
    gone = set()

    def ev(e):
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in ('torch', 'tinynn', 'math', 'float'):
                return ('path', e.id)
            raise Flow('"%s" is used %s' % (e.id, 'after it is released' if e.id in gone else 'but never defined'))
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == 'self':
                return ('self', label.get(e.attr, e.attr))
            v = ev(e.value)
            return ('path', v[1] + '.' + e.attr) if v[0] == 'path' else ('attr', v, e.attr)
        if isinstance(e, ast.Call):
            return ('call', ev(e.func), tuple(ev(a) for a in e.args), tuple((k.arg, ev(k.value)) for k in e.keywords))
        if isinstance(e, ast.Subscript):
            s = e.slice
            if isinstance(s, ast.Constant):
                return ('item', ev(e.value), s.value)
            return ('getitem', ev(e.value), ast.dump(s))
        if isinstance(e, (ast.List, ast.Tuple)):
            return ('list' if isinstance(e, ast.List) else 'tuple', tuple(ev(x) for x in e.elts))
        if isinstance(e, ast.Constant):
            return ('const', e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return ('const', -e.operand.value)
        raise Flow('expression %s' % ast.dump(e))

    for s in f.body:
        if isinstance(s, ast.Return):
            v = s.value
            if v is None:
                return [], defs
            if isinstance(v, ast.Tuple):
                return [ev(x) for x in v.elts], defs
            return [ev(v)], defs
        if isinstance(s.value, ast.Constant) and s.value.value is None:
            for t in s.targets:
                env.pop(t.id, None)
                gone.add(t.id)
            continue
        v = ev(s.value)
        for t in s.targets:
            env[t.id] = defs[t.id] = v
    raise Flow('no return')


class Flow(Exception):
    pass


def show(t):
    k = t[0]
    if k == 'input':
        return 'input%d' % t[1]
    if k == 'self':
        return t[1]
    if k == 'item':
        return '%s[%s]' % (show(t[1]), t[2])
    if k == 'const':
        return repr(t[1])
    if k == 'path':
        return t[1].replace('torch.', '')
    if k == 'attr':
        return '%s.%s' % (show(t[1]), t[2])
    if k in ('list', 'tuple'):
        return '[%s]' % ', '.join(map(show, t[1]))
    if k == 'call':
        return '%s(%s)' % (show(t[1]), ', '.join(map(show, t[2])))
    return str(t)


class Graph:
    """a traced graph in the interpreter with its specification"""

    def __init__(self, B, stmts):
        I = B.I
        self.B, self.st = B, State()
        st = self.st
        cls = B.need('tinynn.graph.tracer.TraceGraph')
        lst = lambda: I.new_list(st, [])
        dct = lambda: I.new_dict(st, [])
        at = {n: dct() for n in ('global_functions', 'global_nodes', 'module_unique_name_dict', 'module_original_name_dict', 'parameter_original_name_dict', 'parameter_unique_name_dict', 'parameter_module_dict',
                                 'nodes_map', 'tensor_pre_node_dict', 'tensor_pre_index_dict', 'tensor_parameter_dict')}
        at.update({n: lst() for n in ('traced_modules', 'related_modules', 'input_nodes', 'forward_nodes', 'output_nodes', 'constant_nodes', 'other_init_nodes')})
        at.update({'module': U01.new(B, st, 'Module'), 'dummy_input': NONE, 'eliminate_dead_graph': FALSE, 'inited': TRUE, 'quantized': FALSE, 'code': K('None'), 'patch_torch_size': FALSE,
                   'used_namespaces': I.norm(st, I.call(st, Bi('set'), [], {}, None, None))})
        self.g = I.new_inst(st, cls, at)
        I.call(st, B.need(TR + 'current_graph'), [self.g], {}, None, None)
        self.spec = Spec()
        self.mods, self.tens, self.refs, self.n = {}, {}, {}, 0
        for s in stmts:
            self.add(s)
        self.call('recompute_forward_order')
        I.call(st, B.need(TR + 'current_graph'), [NONE], {}, None, None)
        # numbering starts again after tracing
        for n in ('global_functions', 'global_nodes'):
            I.call(st, I.getattr(st, at[n], 'clear'), [], {}, None, None)

    def call(self, name, *args, **kw):
        I = self.B.I
        c = self.B.need(TG[:-1])
        f, _ = I.class_attr(c, name)
        if f is None:
            f, _ = I.class_attr(c, '_TraceGraph' + name)
        if f is None:
            raise AnalysisBroken(TG + name + ' not found')
        return I.norm(self.st, I.call(self.st, f, [self.g] + list(args), kw, None, None))

    def fn(self, name, *args):
        return self.B.I.norm(self.st, self.B.I.call(self.st, self.B.need(TR + name), list(args), {}, None, None))

    def at(self, v, n):
        r = U01.at(self.B, self.st, v, n)
        if r is None:
            raise Unk('no attribute %s' % n)
        return r

    def seq(self, v, n):
        return U01.seq(self.B, self.st, self.at(v, n), n)

    def name(self, node):
        v = self.at(node, 'unique_name')
        if not isinstance(v, K):
            raise Unk('name %s' % v)
        return v.v

    def tensor(self):
        self.n += 1
        return U01.new(self.B, self.st, 'Tensor', K('t%d' % self.n))

    def module(self, m):
        if m not in self.mods:
            v = U01.new(self.B, self.st, 'Module')
            I = self.B.I
            ident = I.norm(self.st, I.call(self.st, Bi('id'), [v], {}, None, None))
            for d in ('module_unique_name_dict', 'module_original_name_dict'):
                I.setitem(self.st, self.at(self.g, d), ident, K(m), None, None)
            self.mods[m] = v
        return self.mods[m]

    def ref(self, r):
        """reference of the little language -> (node, path), tensor"""
        n, i = r if isinstance(r, tuple) else (r, None)
        n = self.refs.get(n, n)
        ts = self.tens[n]
        return ((n, () if i is None else (i,)), ts[0 if i is None else i])

    def func(self, full, cls, prop, args, consts=(), prefix=None):
        """the interpreted TraceFunction of a call"""
        I, st = self.B.I, self.st
        kw = {'is_class': K(cls), 'is_property': K(prop)}
        if prefix:
            kw['prefix'] = K(prefix)
        f = I.call(st, self.B.need(TR + 'TraceFunction'), [K(full)], kw, None, None)
        I.call(st, I.getattr(st, f, 'parse_args'), args + [K(c) for c in consts], {}, None, None)
        return I.norm(st, f)

    def add(self, s):
        I, st = self.B.I, self.st
        TN = self.B.need(TR + 'TraceNode')
        node = lambda m: I.norm(st, I.call(st, TN, [m], {}, None, None))
        if s[0] in ('in', 'const'):
            if s[0] == 'in':
                nd = node(I.call(st, self.B.need(TR + 'TraceFunction'), [K('input')], {}, None, None))
            else:
                c = I.new_inst(st, self.B.need(TR + 'ConstantNode'), {'unique_name': K(s[1]), 'original_name': K(s[1])})
                nd = node(c)
            n = self.name(nd)
            self.tens[n] = [self.tensor()]
            self.refs[s[1]] = n
            self.fn('add_input_node' if s[0] == 'in' else 'add_constant_node', nd, self.tens[n][0])
            self.spec.kind[n] = s[0]
            if s[0] == 'in':
                self.spec.inputs.append(n)
            return
        if s[0] == 'out':
            nd = node(I.call(st, self.B.need(TR + 'TraceFunction'), [K('output')], {}, None, None))
            rs = [self.ref(r) for r in (s[1] if isinstance(s[1], list) else [s[1]])]
            self.fn('add_output_node', nd, I.new_list(st, [t for _, t in rs]) if isinstance(s[1], list) else rs[0][1])
            self.spec.outputs.append(([r for r, _ in rs], isinstance(s[1], list)))
            return
        if s[0] == 'mod':
            nd = node(self.module(s[1]))
            rs = [self.ref(r) for r in s[2]]
            self.new_node(nd, rs, mod_term(s[1]), 1)
            self.spec.kind[self.name(nd)] = 'mod'
            self.refs[s[3] if len(s) > 3 else s[1]] = self.name(nd)
            return
        flat, shape, args = [], [], []
        for a in s[3]:
            if isinstance(a, list):
                shape.append(list(range(len(flat), len(flat) + len(a))))
                rs = [self.ref(r) for r in a]
                flat += rs
                args.append(I.new_list(st, [t for _, t in rs]))
            else:
                shape.append(len(flat))
                flat.append(self.ref(a))
                args.append(flat[-1][1])
        f = self.func(s[1], s[2], s[0] == 'prop', args, s[4])
        nd = node(f)
        nout = s[6] if len(s) > 6 else 1
        self.new_node(nd, flat, fn_term(s[1], s[2], s[0] == 'prop', shape, s[4]), nout)
        self.spec.kind[self.name(nd)] = 'fn'
        self.refs[s[5]] = self.name(nd)

    def new_node(self, nd, rs, build, nout):
        I, st = self.B.I, self.st
        n = self.name(nd)
        self.tens[n] = [self.tensor() for _ in range(nout)]
        out = self.tens[n][0] if nout == 1 else I.new_list(st, list(self.tens[n]))
        self.fn('add_forward_node', nd, I.new_list(st, [t for _, t in rs]), out)
        self.spec.nodes[n] = {'build': build, 'ins': [r for r, _ in rs], 'nout': nout}

    def near(self, e, before):
        """the nodes an edit concerns and their neighbours"""
        sp = self.spec
        own = {x for x in list(sp.nodes) + sp.inputs if x not in before} | {x for x in e[1:] if isinstance(x, str)}
        r = set(own)
        for n, d in sp.nodes.items():
            if n in own:
                r |= {x[0] for x in d['ins']}
            if own & {x[0] for x in d['ins']}:
                r.add(n)
        return r

    def node(self, n):
        d = self.B.I.obj(self.st, self.at(self.g, 'nodes_map'))
        for k, v in d.items:
            if isinstance(k, K) and k.v == n:
                return self.B.I.norm(self.st, v)
        raise Unk('no node %s' % n)

    def ident(self, v):
        return self.B.I.norm(self.st, self.B.I.call(self.st, Bi('id'), [v], {}, None, None))


def options(sp, depth):
    """the edits that apply to a specified graph"""
    r = []
    fwd = list(sp.nodes)
    nout = lambda n: sp.nodes[n]['nout'] if n in sp.nodes else 1
    for n in sp.inputs + [k for k, v in sp.kind.items() if v == 'const'] + fwd:
        if sp.uses(n):
            r.append(('insert_after', n, 'mod'))
            if nout(n) == 1:
                r.append(('insert_after', n, 'fn'))
    for n in fwd:
        ins = sp.nodes[n]['ins']
        for p in dict.fromkeys(x[0] for x in ins):
            paths = list(dict.fromkeys(x[1] for x in ins if x[0] == p))
            if len(paths) == 1:
                r.append(('insert_between', p, n, 'mod', True, None))
                r.append(('insert_between', p, n, 'fn', True, None))
                if not paths[0]:
                    r.append(('insert_between', p, n, 'mod', False, None))
            for q in paths:
                r.append(('insert_between', p, n, 'mod', True, q))
                others = [m for m in fwd if m != n and (p, q) in sp.nodes[m]['ins']]
                if others and depth == 1:
                    r.append(('insert_between_shared', p, n, others[0], q))
            if len(paths) > 1 and depth == 1:
                r.append(('insert_between_all', p, n, tuple(paths)))
        if len(ins) == 1:
            r.append(('insert_before', n, 'mod'))
        if len(ins) == 1 and nout(n) == 1:
            r.append(('remove_node', n))
        r.append(('replace_node_module', n))
        if nout(n) == 1 and sp.kind.get(n) == 'fn' and depth == 1:
            u = sp.uses(n)
            if len({m for m, _, _ in u}) == 1 and isinstance(u[0][0], str) and len(sp.nodes[u[0][0]]['ins']) == 1 and len(u) == 1:
                r.append(('fuse_nodes_to_func', n, u[0][0]))
        if depth == 1:
            for i in range(nout(n)) if nout(n) > 1 else (None,):
                r.append(('insert_new_after', n, i))
            r.append(('add_outputs_for_tensors', n, nout(n)))
    for k, (refs, rev) in enumerate(sp.outputs):
        if rev:
            r.append(('insert_before_output', k, len(refs)))
        else:
            r.append(('insert_before_output', k, None))
    if depth == 1:
        for a in fwd:
            for b in fwd:
                if a != b and extract(sp, [a], [b]):
                    r.append(('reset_input_output_for_graph', (a,), (b,)))
        for a in fwd:
            for b in fwd:
                for c in fwd:
                    if len({a, b, c}) == 3:
                        if a < b and extract(sp, [a, b], [c]):
                            r.append(('reset_input_output_for_graph', (a, b), (c,)))
                        if b < c and extract(sp, [a], [b, c]):
                            r.append(('reset_input_output_for_graph', (a,), (b, c)))
    return r


def extract(sp, ins, outs):
    """the nodes between, when the graph below outs starts at ins alone and needs all of ins"""
    seen, todo = set(), list(outs)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in ins:
            continue
        if n not in sp.nodes:
            return None
        todo += [r[0] for r in sp.nodes[n]['ins']]
    if not set(ins) <= seen:
        return None
    # nothing between the inputs and what is above them
    for n in ins:
        up, todo = set(), [r[0] for r in sp.nodes[n]['ins']]
        while todo:
            m = todo.pop()
            if m not in up:
                up.add(m)
                todo += [r[0] for r in sp.nodes[m]['ins']] if m in sp.nodes else []
        if up & seen or any(sp.kind.get(r[0]) == 'const' for r in sp.nodes[n]['ins']):
            return None
    return seen


def apply(G, e, k):
    """perform the edit in the interpreter and on the specification"""
    I, st, sp = G.B.I, G.st, G.spec
    op = e[0]
    cur = lambda v: I.call(st, G.B.need(TR + 'current_graph'), [v], {}, None, None)

    def inserted(kind, src):
        """a new module or function over the tensors src; its name comes from the node made for it"""
        if kind == 'mod':
            return G.module('z%d' % k), mod_term('z%d' % k), {}
        cur(G.g)
        f = G.func('torch.unsqueeze', False, False, [src], (k + 1,), 'fuse_')
        cur(NONE)
        return f, fn_term('torch.unsqueeze', False, False, [0], (k + 1,)), {'next_tensors': I.new_list(st, [G.tensor()])}

    def made(before):
        new = [x for x in names(G) if x not in before]
        if len(new) != 1:
            raise Bad('the edit registers the nodes %s instead of one' % new)
        return new[0]

    before = names(G)
    if op == 'insert_after':
        n = e[1]
        nd = G.node(n)
        m, build, kw = inserted(e[2], G.seq(nd, 'next_tensors')[0])
        G.call(op, nd, m, **kw)
        z = made(before)
        sp.redirect(lambda c, r: (z, r[1]) if r[0] == n else r)
        sp.nodes[z] = {'build': build, 'ins': [(n, ())], 'nout': sp.nodes[n]['nout'] if n in sp.nodes else 1}
        sp.kind[z] = e[2]
    elif op == 'insert_between':
        _, p, n, kind, move, q = e
        nd = G.node(n)
        paths = [r for r in sp.nodes[n]['ins'] if r[0] == p]
        path = q if q is not None else paths[0][1]
        t = tensor_of(G, n, (p, path))
        m, build, kw = inserted(kind, t)
        if q is not None:
            kw['tensor_ptrs'] = I.norm(st, I.call(st, Bi('set'), [I.new_list(st, [G.ident(t)])], {}, None, None))
        if move:
            kw['move_idx'] = TRUE
        G.call(op, G.node(p), nd, m, **kw)
        z = made(before)
        sp.redirect(lambda c, r: (z, ()) if c == n and r == (p, path) else r)
        sp.nodes[z] = {'build': build, 'ins': [(p, path)], 'nout': 1}
        sp.kind[z] = kind
    elif op == 'insert_between_all':
        _, p, n, paths = e
        nd = G.node(n)
        for j, q in enumerate(paths):
            b4 = names(G)
            t = tensor_of(G, n, (p, q))
            m = G.module('z%d_%d' % (k, j))
            ptrs = I.norm(st, I.call(st, Bi('set'), [I.new_list(st, [G.ident(t)])], {}, None, None))
            G.call('insert_between', G.node(p), nd, m, move_idx=TRUE, tensor_ptrs=ptrs)
            z = made(b4)
            sp.redirect(lambda c, r: (z, ()) if c == n and r == (p, q) else r)
            sp.nodes[z] = {'build': mod_term('z%d_%d' % (k, j)), 'ins': [(p, q)], 'nout': 1}
            sp.kind[z] = 'mod'
    elif op == 'insert_between_shared':
        _, p, n, n2, q = e
        order = sorted((n, n2), key=list(sp.nodes).index)
        x = None
        for c0 in order:
            t = tensor_of(G, c0, (p, q))
            ptrs = I.norm(st, I.call(st, Bi('set'), [I.new_list(st, [G.ident(t)])], {}, None, None))
            G.call('insert_between', G.node(p), G.node(c0), G.module('z%d' % k) if x is None else x, move_idx=TRUE, tensor_ptrs=ptrs)
            z = made(before)
            x = G.node(z)
        sp.redirect(lambda c, r: (z, ()) if c in order and r == (p, q) else r)
        sp.nodes[z] = {'build': mod_term('z%d' % k), 'ins': [(p, q)], 'nout': 1}
        sp.kind[z] = 'mod'
    elif op == 'insert_before':
        n = e[1]
        G.call(op, G.node(n), G.module('z%d' % k), move_idx=TRUE)
        z = made(before)
        src = sp.nodes[n]['ins'][0]
        sp.nodes[n]['ins'] = [(z, ())]
        sp.nodes[z] = {'build': mod_term('z%d' % k), 'ins': [src], 'nout': 1}
        sp.kind[z] = 'mod'
    elif op == 'insert_before_output':
        nd = G.seq(G.g, 'output_nodes')[e[1]]
        refs, rev = sp.outputs[e[1]]
        if e[2] is None:
            G.call('insert_before', nd, G.module('z%d' % k), move_idx=TRUE)
            new = [made(before)]
        else:
            ms = [G.module('z%d_%d' % (k, j)) for j in range(e[2])]
            G.call('insert_before', nd, I.new_list(st, ms), move_idx=TRUE)
            new = [x for x in names(G) if x not in before]
            if len(new) != e[2]:
                raise Bad('the edit registers the nodes %s instead of %d' % (new, e[2]))
        for j, z in enumerate(new):
            sp.nodes[z] = {'build': mod_term(z), 'ins': [refs[j]], 'nout': 1}
            sp.kind[z] = 'mod'
            refs[j] = (z, ())
    elif op == 'remove_node':
        n = e[1]
        G.call(op, G.node(n))
        src = sp.nodes[n]['ins'][0]
        del sp.nodes[n]
        sp.redirect(lambda c, r: (src[0], src[1] + r[1]) if r[0] == n else r)
    elif op == 'replace_node_module':
        n = e[1]
        nd = G.node(n)
        G.call(op, nd, G.module('z%d' % k))
        z = made([x for x in before if x != n])
        d = sp.nodes.pop(n)
        sp.nodes[z] = dict(d, build=mod_term('z%d' % k))
        sp.kind[z] = 'mod'
        sp.redirect(lambda c, r: (z, r[1]) if r[0] == n else r)
    elif op == 'fuse_nodes_to_func':
        a, b = e[1:]
        G.call(op, I.new_list(st, [G.node(a), G.node(b)]), K('torch.fused'), K('fused'), K('fused'), FALSE)
        d = sp.nodes[a]
        if not G.fusable(a):
            raise Unk('fusion')
        d['build'] = G.fused(a)
        del sp.nodes[b]
        sp.redirect(lambda c, r: (a, r[1]) if r[0] == b else r)
    elif op == 'insert_new_after':
        _, n, i = e
        nd = G.node(n)
        t = G.seq(nd, 'next_tensors')[i or 0]
        z = G.call(op, nd, G.module('z%d' % k), I.new_list(st, [t]), I.new_list(st, [K(i)]))
        if G.name(z) != made(before):
            raise Bad('the edit returns another node than the one it registers')
        z = G.name(z)
        sp.nodes[z] = {'build': mod_term('z%d' % k), 'ins': [(n, () if i is None else (i,))], 'nout': 1}
        sp.kind[z] = 'mod'
    elif op == 'add_outputs_for_tensors':
        _, n, cnt = e
        G.call(op, I.new_list(st, G.seq(G.node(n), 'next_tensors')))
        for i in range(cnt):
            sp.outputs.append(([(n, () if cnt == 1 else (i,))], False))
    elif op == 'reset_input_output_for_graph':
        keep = extract(sp, list(e[1]), list(e[2]))
        G.call(op, I.new_list(st, [K(x) for x in e[1]]), I.new_list(st, [K(x) for x in e[2]]))
        G.spec = cut(sp, keep, e[1], e[2])
    else:
        raise AnalysisBroken(op)


def cut(sp, keep, ins, outs):
    """the specification of an extracted subgraph: one input per tensor the first nodes read"""
    r = Spec()
    r.kind = dict(sp.kind)
    r.nodes = {n: dict(d, ins=list(d['ins'])) for n, d in sp.nodes.items() if n in keep}
    # inputs in the order of the start nodes as listed, one for each different tensor they read
    seen = {}
    for n in ins:
        for ref in sp.nodes[n]['ins']:
            if ref not in seen:
                i = seen[ref] = 'input_%d_f' % len(r.inputs)
                r.inputs.append(i)
                r.kind[i] = 'in'
        r.nodes[n]['ins'] = [(seen[ref], ()) for ref in sp.nodes[n]['ins']]
    for n in outs:
        nout = sp.nodes[n]['nout']
        for i in range(nout):
            r.outputs.append(([(n, () if nout == 1 else (i,))], False))
    return r


def tensor_of(G, n, ref):
    ins = G.spec.nodes[n]['ins']
    ts = G.seq(G.node(n), 'prev_tensors')
    if len(ts) != len(ins):
        raise Unk('%s has %d inputs and %d tensors' % (n, len(ins), len(ts)))
    return ts[ins.index(ref)]


def names(G):
    d = G.B.I.obj(G.st, G.at(G.g, 'nodes_map'))
    if d.rest:
        raise Unk('nodes_map')
    return [k.v for k, _ in d.items]


class Bad(Exception):
    pass


def check(G, when):
    """the first inconsistency of the edited graph, or None"""
    I, st = G.B.I, G.st
    nodes = []
    for part in ('input_nodes', 'constant_nodes', 'forward_nodes', 'output_nodes'):
        nodes += G.seq(G.g, part)
    ids = [x.id for x in nodes]
    if len(set(ids)) != len(ids):
        n = next(x for x in nodes if ids.count(x.id) > 1)
        return '%s the node %s is listed twice' % (when, G.name(n))
    nm = names(G)
    reg = {k: G.node(k).id for k in nm}
    for x in nodes:
        if reg.get(G.name(x)) != x.id:
            return '%s the node %s is not registered under its name' % (when, G.name(x))
    live = {x.id: x for x in nodes}
    prev = {x.id: G.seq(x, 'prev_nodes') for x in nodes}
    nxt = {x.id: G.seq(x, 'next_nodes') for x in nodes}
    for x in nodes:
        for what, links, back in (('predecessor', prev, nxt), ('successor', nxt, prev)):
            for y in links[x.id]:
                if y.id not in live:
                    return '%s the node %s still lists the removed node %s as a %s' % (when, G.name(x), G.name(y), what)
                if x.id not in [w.id for w in back[y.id]]:
                    return '%s the node %s lists %s as a %s, but not the other way round' % (when, G.name(x), G.name(y), what)

    def flat(ts):
        r = []
        for t in ts:
            k = I.iter_known(st, t) if not (isinstance(t, Ref) and I.obj(st, t).kind == 'inst') else None
            r += flat([I.norm(st, y) for y in k[0]]) if k is not None else [t]
        return r
    for x in nodes:
        have = {t.id for y in prev[x.id] for t in flat(G.seq(y, 'next_tensors')) if isinstance(t, Ref)}
        for i, t in enumerate(G.seq(x, 'prev_tensors')):
            if isinstance(t, Ref) and t.id not in have:
                return '%s input %d of the node %s is a tensor that none of its predecessors produces' % (when, i, G.name(x))
        for t in flat(G.seq(x, 'next_tensors')):
            d = I.obj(st, G.at(G.g, 'tensor_pre_node_dict'))
            own = [v for k_, v in d.items if I.norm(st, k_) == G.ident(t)]
            if own and I.norm(st, own[0]) != K(G.name(x)):
                return '%s a result of the node %s is recorded as a result of %s' % (when, G.name(x), I.norm(st, own[0]))
    return None


def flow(G, when):
    G.call('recompute_forward_order')
    code = G.call('__gen_forward_code')
    if not isinstance(code, K):
        raise Unk('code: %s' % code)
    want_out, want = G.spec.result()
    label = {}
    own = {v.id: k for k, v in G.mods.items()}
    for x in G.seq(G.g, 'forward_nodes'):
        m = G.at(x, 'module')
        if isinstance(m, Ref) and m.id in own:
            label[G.name(x)] = own[m.id]
    try:
        out, defs = parse(code.v, label)
    except Flow as f:
        return '%s the generated code is wrong: %s' % (when, f)
    except SyntaxError as f:
        return '%s the generated code cannot be parsed: %s' % (when, f)
    for n, t in want.items():
        if n not in defs:
            return '%s the generated code does not compute %s' % (when, n)
        if defs[n] != t:
            return '%s %s is %s instead of %s' % (when, n, show(defs[n])[:120], show(t)[:120])
    for n in defs:
        if n not in want and n not in G.spec.inputs and G.spec.kind.get(n) != 'const' and not defs[n][0] == 'input':
            return '%s the generated code still computes %s' % (when, n)
    if out != want_out:
        return '%s the graph returns (%s) instead of (%s)' % (when, ', '.join(map(show, out))[:150], ', '.join(map(show, want_out))[:150])
    return None


class Item:
    def __init__(self, g, edits):
        self.g, self.edits = g, edits

    def name(self):
        return '%s on the graph "%s"' % (' then '.join('%s%s' % (e[0].partition('_output')[0] if e[0].endswith('_output') else e[0].partition('_shared')[0].partition('_all')[0], str(tuple(e[1:]))) for e in self.edits), self.g)


def fusable(self, a):
    return True


def fused(self, a):
    """the fused call: the arguments of the first node with the name of the fused function"""
    old = self.spec.nodes[a]['build']

    def build(ins):
        t = old(ins)
        if t[0] == 'call' and t[1][0] == 'attr':
            return ('call', ('path', 'torch.fused'), (t[1][1],) + t[2], t[3])
        return ('call', ('path', 'torch.fused')) + t[2:]
    return build


Graph.fusable, Graph.fused = fusable, fused


def case(x):
    B, it = x
    B.I.nsteps, B.calls = 0, {}
    bad, und, more = [], [], []
    name = it.edits[-1][0] if it.edits else 'recompute_forward_order'
    base = {'insert_between_shared': 'insert_between', 'insert_between_all': 'insert_between', 'insert_before_output': 'insert_before'}.get(name, name)
    try:
        G = Graph(B, GRAPHS[it.g])
        f = flow(G, 'before any edit')
        if f:
            raise Unk('%s: %s' % (it.g, f))
        for k, e in enumerate(it.edits):
            known = set(G.spec.nodes) | set(G.spec.inputs)
            when = 'after the edit' if k == len(it.edits) - 1 else 'after the first edit'
            try:
                apply(G, e, k)
            except Bad as b:
                bad.append('%s %s' % (when, b))
                break
            r = check(G, when) or flow(G, when)
            if r:
                bad.append(r)
                break
        else:
            if it.more:
                more = options(G.spec, len(it.edits) + 1)
                if it.edits:
                    # the second edit concerns what the first one touched
                    close = G.near(it.edits[-1], known)
                    more = [m for m in more if {x for x in m[1:] if isinstance(x, str)} & close or m[0] == 'insert_before_output']
    except Dead as d:
        bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape) as u:
        (bad if 'elem<None>' in str(u) else und).append('it iterates over None' if 'elem<None>' in str(u) else str(u)[:200])
    finally:
        B.I.close()
    f = U01.entry(B, TG + base)
    f = getattr(f, 'fn', f)
    where = '%s:%d TraceGraph.%s' % (B.I.repo.module(f.mod).rel(), f.node.lineno, base)
    return {'it': it, 'where': where, 'name': it.name(), 'bad': bad, 'und': und, 'more': more, 'analysed': sorted(map(str, B.I.analysed))}


def with_more(it, more):
    it.more = more
    return it


QUICK = ('branch', 'split', 'two inputs')
PAIRS = ('chain', 'branch', 'twice', 'split', 'two inputs', 'split out', 'constant', 'two heads', 'split and joined')


def run(ctx):
    ctx.rule('edit', 'one edit of a traced graph keeps links, tensors and generated code in step', 60)
    ctx.rule('edits', 'two edits in a row keep links, tensors and generated code in step', 100)
    B = Bench(ctx)
    first = []
    starts = [with_more(Item(g, ()), 1) for g in GRAPHS]
    pairs = QUICK if ctx.tier == 'quick' else PAIRS
    for r in parallel([(B, it) for it in starts], case):
        ctx.analysed |= set(r['analysed'])
        if r['und'] or r['bad']:
            ctx.skip(r['name'], (r['und'] + r['bad'])[0])
        first += [with_more(Item(r['it'].g, (e,)), r['it'].g in pairs) for e in r['more']]
    second = []
    for rule, its in (('edit', first), ('edits', second)):
        for r in parallel([(B, it) for it in its], case):
            ctx.analysed |= set(r['analysed'])
            ctx.ob(rule, r['name'])
            if r['bad']:
                ctx.finding(rule, r['name'], r['where'], r['bad'][0])
            elif r['und']:
                ctx.skip(r['name'], r['und'][0])
            elif rule == 'edit':
                second += [with_more(Item(r['it'].g, r['it'].edits + (e,)), 0) for e in r['more']]
