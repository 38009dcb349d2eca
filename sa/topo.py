"""Abstract runs of graph-editing code on small graphs of known shape: vertices, edges and tensor names are known, the operators'
contents (shapes, data, quantisation, options) are symbolic unless a scenario fixes them.  igraph is replaced by sa/models/ig.py."""
import os
from .interp import State, K, T, Fn, BM, Cls, Ref, Tup, NONE, Part, Bi, Dead, subterms
from .repo import AnalysisBroken

OPS = 'tinynn.converter.operators.'
MOD = OPS + 'optimize'
OPT = MOD + '.GraphOptimizer'


class Scene:
    def __init__(self, topo, opts=None):
        self.t, self.I = topo, topo.I
        self.st = st = State()
        self.g = self.I.call(st, topo.Graph, [], {}, None, None)
        self.cg = self.I.call(st, topo.CG, [], {}, None, None)
        self.I.setattr(st, self.cg, 'graph', self.g, None, None)
        self.tensors, self.vertices, self.ops = {}, {}, {}
        self.opts = opts or {}

    # ---- building ------------------------------------------------------------------------------
    def get(self, o, k):
        return self.I.getattr(self.st, o, k)

    def item(self, o, k):
        return self.I.getitem(self.st, o, K(k))

    def m(self, o_, meth, *a, **k):
        if isinstance(o_, Ref) and meth == '__setitem__':
            return self.I.setitem(self.st, o_, a[0], a[1], None, None)
        return self.I.call(self.st, self.get(o_, meth), list(a), k, None, None)

    def tensor(self, name, const=False, **attrs):
        if name in self.tensors:
            return self.tensors[name]
        I = self.I
        d = {'name': K(name), 'buffer': I.sym('buffer:' + name) if const else NONE, 'tensor': I.sym('data:' + name),
             'index': K(0), 'is_variable': K(False)}
        if const:
            self.st.eq[self.t.mk_is_none(d['buffer'])] = K(False)
        d.update(attrs)
        if name in self.t.shapes:
            d['shape'] = Tup([K(x) for x in self.t.shapes[name]])
        r = I.new_inst(self.st, self.t.Tensor, d, open=I.sym('tensor:' + name))
        self.tensors[name] = r
        return r

    def add(self, name, type_, outs, op=None):
        I, st = self.I, self.st
        kw = {'name': K(name), 'node_type': self.t.code(type_), 'outputs': I.new_list(st, [K(o) for o in outs]), 'label': K(name)}
        if op is not None:
            kw['op'] = op
        v = self.m(self.g, 'add_vertex', **kw)
        self.vertices[name] = v
        for o in outs:
            if type_ == 'OUTPUT_NODE':
                break
            self.m(self.get(self.cg, 'tensor_node_map'), '__setitem__', K(o), K(name))
            self.m(self.get(self.cg, 'tensor_map'), '__setitem__', K(o), self.tensors[o])
        return v

    def input(self, name):
        self.tensor(name)
        self.m(self.get(self.cg, 'inputs'), 'append', K(name))
        return self.add(name, 'INPUT_NODE', [name])

    def const(self, name, **attrs):
        self.tensor(name, True, **attrs)
        return self.add(name, 'CONSTANT_NODE', [name])

    def op(self, name, code, ins, outs, out_attrs=None, **attrs):
        """operator vertex; unknown input names become constants"""
        I, st = self.I, self.st
        for i in ins:
            if i not in self.tensors:
                self.const(i)
        for o in outs:
            self.tensor(o, False, **(out_attrs or {}))
        cls = self.t.opclass(code)
        opc = I.new_inst(st, self.t.OpCode, {'code': self.t.code(code), 'version': K(1), 'index': K(0), 'custom_code': NONE})
        d = {'op': opc, 'inputs': I.new_list(st, [self.tensors[i] for i in ins]), 'outputs': I.new_list(st, [self.tensors[o] for o in outs]),
             'extra_hints': I.new_dict(st, []), 'intermediates': I.new_list(st, [])}
        d.update(attrs)
        op = I.new_inst(st, cls, d, open=I.sym('op:' + name))
        self.ops[name] = op
        v = self.add(name, code, outs, op)
        for i in ins:
            self.edge(self.producer(i), v, i, i)
        return v

    def producer(self, tname):
        n = self.I.getitem(self.st, self.get(self.cg, 'tensor_node_map'), K(tname))
        return self.vertices[n.v]

    def edge(self, s, d, name, label):
        return self.m(self.g, 'add_edge', s, d, name=K(name), label=K(label))

    def output(self, tname):
        on = tname + '_output'
        k = 1
        while on in self.vertices:
            on = '%s_output_%d' % (tname, k)
            k += 1
        v = self.add(on, 'OUTPUT_NODE', [on])
        self.m(self.get(self.cg, 'tensor_node_map'), '__setitem__', K(on), K(on))
        self.m(self.get(self.cg, 'tensor_map'), '__setitem__', K(on), self.tensors[tname])
        self.edge(self.producer(tname), v, on, tname)
        outs = self.get(self.cg, 'outputs')
        if not any(x == K(tname) for x in self.items(outs)):
            self.m(outs, 'append', K(tname))
        return v

    # ---- running -------------------------------------------------------------------------------
    def optimizer(self):
        I = self.I
        o = dict(level=K(5), fuse_quant=K(True), group_conv_rewrite=K(True), rewrite_quantizable=K(True), tflite_micro_rewrite=K(True),
                 quantize_input_output_type=NONE, fuse_input_indices=NONE, fuse_output_indices=NONE, max_transpose_dims=K(4),
                 bypass_elementwise_passthrough_constraint=K(False), group_tensors=K(True), conv_transpose_with_bias=K(True),
                 hybrid_int16_lstm=K(False), graph=self.cg, fuse_tensor_count=K(1), fuse_attr_count=K(1))
        o.update(self.opts)
        return I.new_inst(self.st, self.t.cls, o)

    def run(self, name, *args, **kwargs):
        """run a pass; returns True when it can finish normally"""
        I = self.I
        self.before = self.snapshot()
        s = self.optimizer()
        I.events.clear()
        I.nsteps = 0
        I.assume = self.assume
        try:
            I.call(self.st, self.get(s, name), list(args), kwargs, None, None)
        except Dead as d:
            self.dead = d
            return False
        finally:
            I.assume = None
        return True

    decide = None
    prefer = None
    undecided = None

    def assume(self, t):
        if t.op == 'cmp' and t.args[0] in ('is', 'is not') and t.args[2] == NONE and isinstance(t.args[1], T) and t.args[1].op == 'sym' and \
                str(t.args[1].args[0]).split(':')[0] in ('data', 'buffer', 'tensor', 'op'):
            return K(t.args[0] == 'is not')
        if self.decide is None:
            return None
        r = self.decide(t)
        return r if r is None or not isinstance(r, bool) else K(r)

    # ---- observing -----------------------------------------------------------------------------
    def items(self, ref):
        if isinstance(ref, Tup):
            return list(ref.items)
        o = self.I.obj(self.st, ref) if isinstance(ref, Ref) else None
        if o is None or o.kind not in ('list', 'set') or o.rest:
            raise Undecided('collection is not exact: %r' % (ref,))
        return list(o.items)

    def alive(self, x):
        a = self.get(x, 'alive')
        if not isinstance(a, K):
            raise Undecided('deletion depends on unknown facts')
        return a.v

    def edges(self):
        return [e for e in self.items(self.get(self.g, 'edges')) if self.alive(e)]

    def verts(self):
        return [v for v in self.items(self.get(self.g, 'vertices')) if self.alive(v)]

    def kname(self, v):
        if not isinstance(v, K):
            raise Undecided('name not known: %r' % (v,))
        return v.v

    def ntype(self, v):
        k = self.item(v, 'node_type')
        if not isinstance(k, K):
            raise Undecided('node type not known')
        return k.v

    def snapshot(self):
        """structure of the graph: vertex name -> dict(type, op, ins, outs, succ)"""
        r = {}
        for v in self.verts():
            op = self.item(v, 'op')
            d = {'type': self.ntype(v), 'op': op if isinstance(op, Ref) else None,
                 'outs': [self.kname(x) for x in self.items(self.item(v, 'outputs'))], 'ins': [], 'v': v}
            if d['op'] is not None:
                d['ins'] = [self.kname(self.get(t, 'name')) for t in self.items(self.get(op, 'inputs'))]
                d['oplist'] = [self.kname(self.get(t, 'name')) for t in self.items(self.get(op, 'outputs'))]
            r[self.kname(self.item(v, 'name'))] = d
        es = []
        for e in self.edges():
            es.append((self.kname(self.item(self.get(e, 'source_vertex'), 'name')), self.kname(self.item(self.get(e, 'target_vertex'), 'name')),
                       self.kname(self.item(e, 'name')), self.kname(self.item(e, 'label'))))
        return {'v': r, 'e': sorted(es), 'inputs': [self.kname(x) for x in self.items(self.get(self.cg, 'inputs'))],
                'outputs': [self.kname(x) for x in self.items(self.get(self.cg, 'outputs'))]}

    def value(self, snap, tname, mutated=(), depth=30):
        """symbolic value of a tensor in a snapshot: ('leaf', name) | (op name/ref, index, (args...))"""
        for n, d in snap['v'].items():
            if d['type'] == self.t.code('OUTPUT_NODE').v:
                continue
            if tname in d['outs']:
                if d['op'] is None:
                    return ('leaf', tname)
                if depth == 0:
                    return ('cycle',)
                return (self.opname(d['op']), d['outs'].index(tname), tuple(self.value(snap, i, mutated, depth - 1) for i in d['ins']))
        return ('dangling', tname)

    def opname(self, ref):
        for n, r in self.ops.items():
            if r == ref:
                return n
        return 'new:%s' % self.I.obj(self.st, ref).cls.name if self.I.obj(self.st, ref).cls else 'new'

    def malformed(self, snap=None):
        """structural problems: inputs without producer or edge, outputs without producer"""
        s = snap or self.snapshot()
        OUT = self.t.code('OUTPUT_NODE').v
        prod = {}
        for n, d in s['v'].items():
            if d['type'] == OUT:
                continue
            for o in d['outs']:
                if o in prod:
                    yield '%s is produced by both %s and %s' % (o, prod[o], n)
                prod[o] = n
        for n, d in s['v'].items():
            if d['op'] is not None:
                if d['outs'] != d['oplist']:
                    yield 'vertex %s lists outputs %s but its operator produces %s' % (n, d['outs'], d['oplist'])
                need = {}
                for i in d['ins']:
                    need[i] = need.get(i, 0) + 1
                for i in need:
                    if i not in prod:
                        yield '%s reads %s, which nothing produces' % (n, i)
                    elif not any(a == prod[i] and b == n and nm == i for a, b, nm, lb in s['e']):
                        yield '%s reads %s from %s without an edge' % (n, i, prod[i])
            if d['type'] == OUT:
                ins = [(a, nm, lb) for a, b, nm, lb in s['e'] if b == n]
                if not ins:
                    yield 'model output %s has no producer' % n
                for a, nm, lb in ins:
                    if lb not in s['v'][a]['outs']:
                        yield 'model output %s is attached to %s, which does not produce %s' % (n, a, lb)
                    if nm != n:
                        yield 'model output %s is attached by an edge named %s' % (n, nm)
        have = {lb for a, b, nm, lb in s['e'] if s['v'][b]['type'] == OUT}
        for o in s['outputs']:
            if o not in have:
                yield 'model output %s is gone' % o
            elif o in prod:
                pass
        for a, b, nm, lb in s['e']:
            if s['v'][b]['type'] != OUT and s['v'][b]['op'] is not None and nm not in s['v'][b]['ins']:
                yield 'edge %s from %s to %s names a tensor %s does not read' % (nm, a, b, b)


def is_call(t, *names):
    """is t a call of an external function with one of these dotted names, or a method of that name"""
    if not (isinstance(t, T) and t.op == 'call'):
        return False
    f = t.args[0]
    if isinstance(f, T) and f.op == 'ext':
        return f.args[0] in names
    if isinstance(f, T) and f.op == 'attr':
        return '.' + f.args[1] in names
    return isinstance(f, Bi) and f.name in names


class Undecided(Exception):
    pass


class Topo:
    def __init__(self, ctx, steps=1500000):
        self.ctx = ctx
        self.I = I = ctx.interp(steps=steps)
        I.repo.add_model('verif_ig', os.path.join(os.path.dirname(__file__), 'models', 'ig.py'))
        self.cls = I.lookup(OPT)
        self.mod = I.repo.module(MOD)
        self.Graph = I.lookup('verif_ig.Graph')
        self.CG = I.lookup(OPS + 'graph.CommonGraph')
        self.Tensor = I.lookup(OPS + 'tflite.base.Tensor')
        self.OpCode = I.lookup(OPS + 'tflite.base.OpCode')
        self.ext = I.lookup(OPS + 'base.ExtendedOperator')
        self.codes = {}
        I.hooks.append(self.hook)

    def hook(self, I, st, fn, args, kwargs, node, mod):
        """summary of Tensor(data, name, has_buffer, quantization): the constructor itself is judged by C06"""
        if isinstance(fn, Cls) and fn == self.Tensor and args:
            f, _ = I.class_attr(fn, '__init__')
            names = [a.arg for a in f.node.args.args][1:] if f is not None else []
            d = dict(zip(names, args))
            d.update(kwargs)
            if not {'tensor', 'name'} <= set(d):
                return NotImplemented
            hb = I.truth(st, d.get('has_buffer', K(True)))
            n = d['name']
            self.fresh += 1
            buf = NONE if hb is False else I.sym('buffer:%s' % (n.v if isinstance(n, K) else self.fresh))
            if hb is not False:
                st.eq[self.mk_is_none(buf)] = K(False)
            data = d['tensor']
            return I.new_inst(st, self.Tensor, {'name': n, 'tensor': data, 'buffer': buf, 'quantization': d.get('quantization', NONE),
                                                'index': K(0), 'is_variable': K(False)}, open=I.sym('new tensor %d' % self.fresh))
        return NotImplemented

    fresh = 0
    shapes = {}

    def mk_is_none(self, v):
        return self.I.mk('cmp', 'is', v, NONE)

    def code(self, name):
        if name not in self.codes:
            v = self.I.getattr(State(), self.ext, name)
            if not isinstance(v, K):
                raise AnalysisBroken('operator code %s not known: %r' % (name, v))
            self.codes[name] = v
        return self.codes[name]

    CLASSES = {'GENERIC_CONV': 'transformable.GenericConvOperator', 'GENERIC_DECONV': 'transformable.GenericTransposeConvOperator',
               'BATCH_NORM': 'transformable.BatchNormOperator'}

    def opclass(self, code):
        n = ''.join(p.capitalize() for p in code.lower().split('_'))
        return self.I.lookup(OPS + 'tflite.' + self.CLASSES.get(code, 'generated_ops.' + n + 'Operator'))

    def explore(self, build, run, limit=24, depth=60):
        """trace partitioning over the facts a scene leaves open: yields (scene, finished, decisions, complete).  `build()` makes a
        scene, `run(scene)` runs the code under analysis."""
        queue, seen = [()], 0
        while queue and seen < limit:
            pre = queue.pop(0)
            seen += 1
            sc = build()
            made = []

            memo = {}

            def oracle(st, atom):
                if atom in memo:
                    return memo[atom]
                memo[atom] = r = ask(atom)
                return r

            def ask(atom):
                if len(made) >= depth:
                    raise Undecided('too many open facts')
                r = sc.prefer(atom) if sc.prefer else None
                forced = r is not None
                if r is None:
                    i = len([m for m in made if not m[2]])
                    r = pre[i] if i < len(pre) else True
                made.append((atom, r, forced))
                return r
            self.I.oracle = oracle
            try:
                fin = run(sc)
            except Undecided as u:
                fin, sc.undecided = None, str(u)
            finally:
                self.I.oracle = None
            free = [m for m in made if not m[2]]
            for i in range(len(pre), len(free)):
                queue.append(tuple(m[1] for m in free[:i]) + (not free[i][1],))
            yield sc, fin, made, not queue

    def line(self, name):
        for n in self.cls.node.body:
            if getattr(n, 'name', None) == name:
                return '%s:%d' % (self.mod.rel(), n.lineno)
        return self.mod.rel()
