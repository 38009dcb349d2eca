"""C09: the optimisation level and options gate the graph rewrites."""
from sa.framework import load_table
from sa.interp import State, K, T, Fn, BM, Cls, Ref, NONE, subterms, Dead, guarded_off
from sa.repo import AnalysisBroken

TITLE = 'optimisation level gating and pass order'
EXPLANATION = ('GraphOptimizer.optimize() is executed abstractly for every optimisation level and option setting, with the '
               'pass bodies replaced by a record of the call; the set of passes whose body is reached and their order are '
               'compared with the documented level of each pass and the ordering constraints between passes.')
MOD = 'tinynn.converter.operators.optimize'
OPT = MOD + '.GraphOptimizer'
LEVELS = {'NO_OPTIMIZE': 0, 'FOLD_BUFFER': 1, 'FUSE_BN': 2, 'COMMON_OPTIMIZE': 3, 'BRANCH_OPTIMIZE': 4,
          'BRANCH_OPTIMIZE_EXTENDED': 5, 'ALL_OPTIMIZE': 5}
# pass -> ('level', n) or ('option', attribute, value that switches it on) or ('always',)
PASSES = {
    'output_list_unpack_pass': 0, 'input_transpose_pass': 0, 'output_transpose_pass': 0, 'connect_unused_tensors_pass': 0,
    'transform_graph': 0, 'cleanup_dead_nodes': 0,
    'fold_reshape_buffer': 1, 'fold_transpose_buffer': 1,
    'fuse_conv_fc_bn': 2, 'fuse_bn_conv': 2,
    'fuse_activation': 3, 'fuse_same_padding': 3, 'fuse_same_padding_slicing': 3, 'fuse_requantize': 3,
    'fuse_reciprocal_sqrt': 3, 'remove_tile_before_binary_elementwise_ops': 3, 'fuse_conv2d_gather': 3,
    'fuse_gather_conv2d': 3, 'fuse_simple_transpose_pass': 3, 'fuse_simple_gather_pass': 3, 'fuse_dequant_quant_pass': 3,
    'fuse_simple_reshape_pass': 3, 'fuse_simple_slice_pass': 3, 'transpose_to_reshape_pass': 3, 'remove_noop_pass': 3,
    'fuse_wrapped_reshape_within_transpose_pass': 3, 'fuse_bmm_add_pass': 3,
    'branch_reshape_expand_pass': 4, 'branch_transpose_expand_pass': 4, 'elementwise_reshape_transpose_passthrough_pass': 4,
    'elementwise_op_transpose_passthrough_pass': 4, 'elementwise_op_reshape_passthrough_pass': 4,
    'elementwise_op_quantize_passthrough_pass': 'rewrite_quantizable', 'group_tensors_pass': 'group_tensors',
    'lower_transpose_dim_pass': 'max_transpose_dims', 'group_conv_rewrite_pass': 'group_conv_rewrite',
    'group_deconv_rewrite_pass': 'group_conv_rewrite', 'cat_split_pass': 'tflite_micro_rewrite',
    'split_requantize': 'tflite_micro_rewrite', 'quantize_input_output_type_pass': 'quantize_input_output_type',
    'fuse_quant_dequant_nodes': 'fuse_quant',
}
OPTIONS = {'rewrite_quantizable': 'rewrite_quantizable', 'group_tensors': 'group_tensors',
           'max_transpose_dims': 'max_transpose_dims', 'group_conv_rewrite': 'group_conv_rewrite',
           'tflite_micro_rewrite': 'tflite_micro_rewrite', 'quantize_input_output_type': 'quantize_input_output_type',
           'fuse_quant': 'fuse_quant'}
ON = {'max_transpose_dims': K(4), 'quantize_input_output_type': K('int8')}
OFF = {'max_transpose_dims': K(-1), 'quantize_input_output_type': NONE}
INT_PASSES = ('elementwise_reshape_transpose_passthrough_pass', 'elementwise_op_transpose_passthrough_pass',
              'elementwise_op_reshape_passthrough_pass')
# (a, b, why): some run of a precedes the first run of b
BEFORE_FIRST = [
    ('output_list_unpack_pass', 'transform_graph', 'outputs are flattened before any conversion'),
    ('input_transpose_pass', 'transform_graph', 'inputs get their layout before conversion'),
    ('output_transpose_pass', 'transform_graph', 'outputs get their layout before conversion'),
    ('connect_unused_tensors_pass', 'transform_graph', 'unused tensors are connected before conversion'),
    ('input_transpose_pass', 'fuse_simple_transpose_pass', 'input transposes exist before they are merged'),
    ('fold_reshape_buffer', 'fuse_conv_fc_bn', 'fusions need folded constants'),
    ('fold_transpose_buffer', 'fuse_conv_fc_bn', 'fusions need folded constants'),
    ('fold_reshape_buffer', 'fuse_activation', 'fusions need folded constants'),
    ('fold_transpose_buffer', 'fuse_bn_conv', 'fusions need folded constants'),
    ('fuse_conv_fc_bn', 'fuse_activation', 'a fused activation would separate the layer from its batch-norm'),
    ('fuse_conv_fc_bn', 'transform_graph', 'batch-norms are expanded by the transformation'),
    ('fuse_bn_conv', 'transform_graph', 'batch-norms are expanded by the transformation'),
    ('fuse_conv_fc_bn', 'fuse_bn_conv', 'a batch-norm is folded into the preceding layer first'),
    ('fuse_dequant_quant_pass', 'fuse_conv_fc_bn', 'redundant conversions are removed before fusion'),
    ('transform_graph', 'fuse_bmm_add_pass', 'pass works on transformed operators'),
    ('transform_graph', 'transpose_to_reshape_pass', 'pass works on transformed operators'),
    ('transform_graph', 'fuse_same_padding', 'pass works on transformed operators'),
    ('transform_graph', 'fuse_conv2d_gather', 'pass works on transformed operators'),
    ('transform_graph', 'group_conv_rewrite_pass', 'pass works on transformed operators'),
    ('transform_graph', 'group_deconv_rewrite_pass', 'pass works on transformed operators'),
    ('transform_graph', 'lower_transpose_dim_pass', 'pass works on transformed operators'),
    ('transform_graph', 'group_tensors_pass', 'pass works on final tensors'),
    ('fuse_quant_dequant_nodes', 'quantize_input_output_type_pass', 'io types change after boundary nodes are removed'),
]
# (a, b, why): some run of b follows the last run of a
AFTER_LAST = [
    ('transform_graph', 'fuse_activation', 'activations of transformed operators are fused'),
    ('transform_graph', 'fold_reshape_buffer', 'constants of transformed operators are folded'),
    ('transform_graph', 'fold_transpose_buffer', 'constants of transformed operators are folded'),
    ('transform_graph', 'fuse_simple_transpose_pass', 'transposes added by the transformation are merged'),
    ('transform_graph', 'fuse_simple_reshape_pass', 'reshapes added by the transformation are merged'),
]


def run(ctx):
    ctx.rule('level-constants', 'the level constants are ordered as documented', 6)
    ctx.rule('gate', 'a pass body runs exactly at its documented level or with its option', 150)
    ctx.rule('order', 'passes run in the order the ones after them rely on', 40)
    ctx.rule('result', 'a pass that counts rewrites yields the number 0 when it is gated off', 3)
    I = ctx.interp()
    cls = I.lookup(OPT)
    m = I.repo.module(MOD)
    for n, v in LEVELS.items():
        got, _ = I.class_attr(cls, n)
        ctx.expect(got == K(v), 'level-constants', n, '%s:%d' % (m.rel(), cls.node.lineno), 'level %s is %s, documented %s' % (n, got, v))
    calls = []

    def hook(I2, st, fn, args, kwargs, node, mod):
        f = fn.fn if isinstance(fn, BM) else fn
        if isinstance(f, Fn) and f.qual.startswith(OPT + '.'):
            nm = f.qual[len(OPT) + 1:]
            if nm in PASSES and f.cls is not None:
                full = [fn.self] + list(args) if isinstance(fn, BM) else list(args)
                if guarded_off(I2, st, f, full, kwargs):
                    return K(0) if nm in INT_PASSES else NONE
                calls.append((nm, node, st.pc, f))
                return I2.mk('sym', 'result:' + nm) if nm in INT_PASSES else NONE
        return NotImplemented
    I.hooks.append(hook)
    have = [p for p in PASSES if I.class_attr(cls, p)[0] is not None]
    lines = {p: I.class_attr(cls, p)[0] for p in have}
    for p in PASSES:
        if p not in have:
            raise AnalysisBroken('pass %s vanished' % p)

    def loc(p):
        for n in cls.node.body:
            if getattr(n, 'name', None) == p:
                return '%s:%d' % (m.rel(), n.lineno)
        return m.rel()

    opts_all = sorted(set(OPTIONS))
    settings = [('none', {}), ('all', {o: True for o in opts_all})]
    settings += [(o, {o: True}) for o in opts_all]
    if ctx.thorough:
        settings += [('all-but-' + o, {x: x != o for x in opts_all}) for o in opts_all]
    for level in range(0, 6):
        for sname, s in settings:
            if sname not in ('none', 'all') and level not in (0, 5) and not ctx.thorough:
                continue
            st = State()
            attrs = {'level': K(level)}
            for o in opts_all:
                on = s.get(o, False)
                attrs[OPTIONS[o]] = (ON.get(o, K(True)) if on else OFF.get(o, K(False)))
            self_ = construct(I, st, cls, level, s)
            del calls[:]
            try:
                I.call(st, I.getattr(st, self_, 'optimize'), [], {}, None, None)
            except Dead:
                ctx.finding('gate', 'optimize(level=%d,%s)' % (level, sname), loc('optimize'), 'always raises')
                continue
            ran = [c[0] for c in calls]
            for p, g in PASSES.items():
                want = (level >= g) if isinstance(g, int) else bool(s.get(g))
                ctx.expect((p in ran) == want, 'gate', p, loc(p),
                           lambda: 'at level %d with options %s the body %s, documented: %s' % (
                               level, sname, 'runs' if p in ran else 'does not run',
                               'from level %d' % g if isinstance(g, int) else 'only with option ' + g),
                           instance='%s@%d/%s' % (p, level, sname))
            if not ran:
                continue
            ctx.expect(ran[-1] == 'cleanup_dead_nodes', 'order', 'cleanup_dead_nodes:last', loc('optimize'),
                       'the last pass is %s' % ran[-1], instance='last@%d/%s' % (level, sname))
            for a, b, why in BEFORE_FIRST:
                if a in ran and b in ran:
                    ctx.expect(ran.index(a) < ran.index(b), 'order', '%s<%s' % (a, b), loc('optimize'),
                               '%s first runs before %s (%s)' % (b, a, why), instance='%s<%s@%d/%s' % (a, b, level, sname))
            for a, b, why in AFTER_LAST:
                if a in ran and b in ran:
                    last_a = len(ran) - 1 - ran[::-1].index(a)
                    ctx.expect(b in ran[last_a:], 'order', '%s>%s' % (b, a), loc('optimize'),
                               '%s does not run after %s (%s)' % (b, a, why), instance='%s>%s@%d/%s' % (b, a, level, sname))
            # level-gated and always-on passes run unconditionally (not depending on another pass' result)
    for p in INT_PASSES:
        st = State()
        self_ = construct(I, st, cls, 0, {})
        r = I.call(st, I.getattr(st, self_, p), [], {}, None, None)
        ctx.expect(r == K(0), 'result', p, loc(p), 'yields %s when gated off; the pass loop adds the counts' % r)
    ctx.use(I)


def construct(I, st, cls, level, s):
    """a GraphOptimizer built by its own constructor with the given options (bound by parameter name)"""
    init, _ = I.class_attr(cls, '__init__')
    names = [a.arg for a in init.node.args.args][1:]
    kw = {'level': K(level), 'fuse_quant': K(bool(s.get('fuse_quant'))),
          'group_conv_rewrite': K(bool(s.get('group_conv_rewrite'))),
          'rewrite_quantizable': K(bool(s.get('rewrite_quantizable'))),
          'tflite_micro_rewrite': K(bool(s.get('tflite_micro_rewrite'))),
          'quantize_input_output_type': K('int8') if s.get('quantize_input_output_type') else NONE,
          'max_transpose_dims': K(4 if s.get('max_transpose_dims') else -1),
          'group_tensors': K(bool(s.get('group_tensors')))}
    args = []
    for n in names:
        if n in kw:
            args.append(kw[n])
        elif n == 'graph':
            args.append(I.sym('graph'))
        else:
            args.append(I.sym('opt:' + n))
    missing = [k for k in kw if k not in names]
    if missing:
        raise AnalysisBroken('GraphOptimizer constructor has no parameter %s' % missing)
    return I.instantiate(st, cls, args, {}, None, None)
