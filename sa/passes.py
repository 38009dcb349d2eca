"""Abstract runs of the graph-rewriting passes on one symbolic edge SRC -> DST.

The edge/vertex selection of a pass is replaced by one symbolic candidate for which its own filter predicate is evaluated;
everything else (the pass body, the sequence helpers, the graph-editing methods of CommonGraph) is interpreted.  Facts about the
candidate (its number of consumers, constness of operands, pending activations, ...) are put into the abstract state; `effects`
are the graph edits reachable under them."""
from .interp import State, K, T, Fn, BM, Cls, Ref, Tup, NONE, Part, Bi, Dead, subterms
from .repo import AnalysisBroken

MOD = 'tinynn.converter.operators.optimize'
OPT = MOD + '.GraphOptimizer'
EDITS = {'add_edge', 'add_edges', 'delete_vertices', 'delete_edges'}


class Passes:
    def __init__(self, ctx, steps=400000):
        self.ctx = ctx
        self.I = I = ctx.interp(steps=steps)
        self.cls = I.lookup(OPT)
        self.mod = I.repo.module(MOD)
        self.graph_cls = I.lookup('tinynn.converter.operators.graph.CommonGraph')
        self.ext = I.lookup('tinynn.converter.operators.base.ExtendedOperator')
        self.SRC, self.DST, self.E, self.IG = I.sym('SRC'), I.sym('DST'), I.sym('E'), I.sym('IG')
        self.cand = []
        I.hooks.append(self.hook)
        I.assume = self.canon

    # --- vocabulary -------------------------------------------------------------------------------
    def code(self, name):
        st = State()
        v = self.I.getattr(st, self.ext, name)
        return v

    def item(self, v, k):
        return self.I.getitem(State(), v, K(k))

    def attr(self, v, k):
        return self.I.getattr(State(), v, k)

    def op(self, v):
        return self.item(v, 'op')

    def inp(self, v, i):
        return self.item(self.attr(self.op(v), 'inputs'), i)

    def out(self, v, i=0):
        return self.item(self.attr(self.op(v), 'outputs'), i)

    def outdeg(self, v):
        return self.I.call(State(), self.attr(v, 'outdegree'), [], {}, None, None)

    # --- engine glue ------------------------------------------------------------------------------
    def canon(self, t):
        if t.op in ('item', 'getitem', 'sub', 'index') or True:
            a = t.args
            if len(a) >= 2 and t.op in ('item',):
                if isinstance(a[0], T) and a[0].op == 'attr' and a[0].args == (self.IG, 'vs'):
                    if a[1] == self.src_i:
                        return self.SRC
                    if a[1] == self.dst_i:
                        return self.DST
        if t.op == 'attr' and t.args[0] == self.E:
            if t.args[1] == 'source_vertex':
                return self.SRC
            if t.args[1] == 'target_vertex':
                return self.DST
        return None

    @property
    def src_i(self):
        return T('attr', (self.E, 'source'))

    @property
    def dst_i(self):
        return T('attr', (self.E, 'target'))

    def hook(self, I, st, fn, args, kwargs, node, mod):
        if isinstance(fn, T) and fn.op == 'attr' and fn.args[1] == 'select' and isinstance(fn.args[0], T) and fn.args[0].op == 'attr':
            base, kind = fn.args[0].args
            if base == self.IG and kind in ('es', 'vs') and args:
                c = self.E if kind == 'es' else self.SRC
                self.selected += 1
                r = I.call(st, args[0], [c], {}, node, mod)
                t = I.truth(st, r)
                self.preds.append((t, r))
                if t is False:
                    return I.new_list(st, [])
                if t is None:
                    I.assume_fact(st, I.norm(st, r), True)
                return I.new_list(st, [c])
        return NotImplemented

    # --- runs -------------------------------------------------------------------------------------
    def run(self, name, facts=(), eqs=(), opts=None, kwargs=None, lists=()):
        """-> (effects, state).  facts: [(term, bool)], eqs: [(term, value)], lists: [(term, n)] (known length)"""
        I = self.I
        st = State()
        self.selected, self.preds = 0, []
        for t, v in facts:
            I.assume_fact(st, t, v)
        for t, v in eqs:
            st.eq[t] = v
        g = I.new_inst(st, self.graph_cls, {'graph': self.IG}, open=I.sym('CG'))
        o = dict(level=K(5), fuse_quant=K(True), group_conv_rewrite=K(True), rewrite_quantizable=K(True), tflite_micro_rewrite=K(True),
                 quantize_input_output_type=K('int8'), fuse_input_indices=NONE, fuse_output_indices=NONE, max_transpose_dims=K(4),
                 bypass_elementwise_passthrough_constraint=K(False), group_tensors=K(True), conv_transpose_with_bias=K(True),
                 hybrid_int16_lstm=K(False), graph=g, fuse_tensor_count=K(1), fuse_attr_count=K(1))
        o.update(opts or {})
        s = I.new_inst(st, self.cls, o)
        f, _ = I.class_attr(self.cls, name)
        if f is None:
            return None
        I.events.clear()
        I.nsteps = 0
        try:
            I.call(st, I.getattr(st, s, name), [], dict(kwargs or {}), None, None)
        except Dead:
            pass
        return self.effects(st)

    def effects(self, st):
        I, out = self.I, []
        for e in I.events:

            if e.kind == 'call' and isinstance(e.fn, T) and e.fn.op == 'attr' and e.fn.args[1] in EDITS:
                if e.fn.args[1].startswith('delete') and e.args and self.empty(e, st):
                    continue
                out.append((e.fn.args[1], e))
            elif e.kind in ('setitem', 'setattr', 'delitem') and isinstance(e.fn, T) and self.rooted(e.fn):
                out.append((e.kind + ' ' + repr(e.args[0])[:30], e))
        return out

    def empty(self, e, st):
        a = e.args[0]
        if isinstance(a, Tup):
            return not a.items
        if isinstance(a, Ref):
            o = st.heap.get(a.id)
            return o is not None and o.kind in ('list', 'set') and not o.items and not o.rest
        return False

    def rooted(self, t):
        return any(x in (self.SRC, self.DST, self.E, self.IG) for x in subterms(t))

    def line(self, name):
        for n in self.cls.node.body:
            if getattr(n, 'name', None) == name:
                return '%s:%d' % (self.mod.rel(), n.lineno)
        return self.mod.rel()
