"""C07: converter options reach the component they configure."""
import re
from sa.interp import Bi, State, K, T, Fn, BM, Cls, Ref, Tup, NONE, Dead, subterms
from sa.repo import AnalysisBroken

TITLE = 'option plumbing of the converter'
EXPLANATION = ('TFLiteConverter.__init__ and convert() are executed abstractly with one distinct symbol per option; every '
               'construction of a configurable component (operator translators, tensors, graph optimiser, weight quantisers, '
               'versioner, configuration writer) is intercepted and each of its parameters, bound by name, must carry the '
               'symbol of the option it is documented to be configured by; constructors must store each parameter under its '
               'own name; default values and their documentation are compared with the frozen public interface.')
BASE = 'tinynn.converter.base'
CONV = BASE + '.TFLiteConverter'
OPMOD = 'tinynn.converter.operators.'
OPT = OPMOD + 'optimize.GraphOptimizer'
HYB = OPMOD + 'hybrid_quantizer.HybridQuantizer'
HALF = OPMOD + 'half_quantizer.HalfQuantizer'
VER = OPMOD + 'op_version.OPVersioner'
OPC = OPMOD + 'torch.base.OperatorConverter'
TENS = OPMOD + 'tflite.base.Tensor'
REQ = object()
# the public interface: option -> default
DEFAULTS = {
    'model': REQ, 'dummy_input': REQ, 'tflite_path': REQ, 'input_transpose': None, 'output_transpose': None,
    'nchw_transpose': True, 'dump_jit_model_path': None, 'dump_dummy_input_path': None, 'dump_config_path': None,
    'strict_symmetric_check': False, 'preserve_tensors': False, 'optimize': 5, 'quantize_target_type': 'uint8',
    'quantize_input_output_type': None, 'hybrid_quantization_from_float': False, 'hybrid_per_channel': False,
    'hybrid_asymmetric_inputs': True, 'hybrid_quantize_weight_type': None, 'fuse_quant_dequant': False,
    'fuse_input_indices': None, 'fuse_output_indices': None, 'gc_when_reload': False, 'group_conv_rewrite': False,
    'rewrite_quantizable': False, 'tflite_micro_rewrite': False, 'map_bilstm_to_lstm': False, 'float16_quantization': False,
    'enable_mtk_ops': False, 'conv_transpose_with_bias': True, 'max_transpose_dims': -1, 'hybrid_conv': True,
    'hybrid_int16_lstm': False, 'unroll_rnn': False, 'separated_rnn_gate_calc': False,
    'bypass_elementwise_passthrough_constraint': False, 'hybrid_gen_single_op_models': False, 'hybrid_config': None,
    'group_tensors': False, 'missing_outputs_as_constants': False, 'legacy_gelu': False,
}
# component -> parameter -> option (or special)
OPTIMIZER = {
    'level': 'optimize', 'fuse_quant': 'fuse_quant_dequant', 'group_conv_rewrite': 'group_conv_rewrite',
    'rewrite_quantizable': 'rewrite_quantizable', 'tflite_micro_rewrite': 'tflite_micro_rewrite',
    'quantize_input_output_type': 'quantize_input_output_type', 'fuse_input_indices': 'fuse_input_indices',
    'fuse_output_indices': 'fuse_output_indices', 'max_transpose_dims': 'max_transpose_dims',
    'bypass_elementwise_passthrough_constraint': 'bypass_elementwise_passthrough_constraint',
    'group_tensors': 'group_tensors', 'conv_transpose_with_bias': 'conv_transpose_with_bias',
    'hybrid_int16_lstm': 'hybrid_int16_lstm',
}
HYBRID = {'asymmetric': 'hybrid_asymmetric_inputs', 'q_type': '@hybrid_q_type', 'per_channel': 'hybrid_per_channel',
          'enable_conv': 'hybrid_conv', 'enable_int16_lstm': 'hybrid_int16_lstm',
          'gen_single_op_models': 'hybrid_gen_single_op_models', 'config': 'hybrid_config'}
TRANSLATOR = {'asymmetric': '!strict_symmetric_check', 'q_type': '@q_type', 'hybrid_q_type': '@hybrid_q_type',
              'map_bilstm_to_lstm': 'map_bilstm_to_lstm', 'enable_mtk_ops': 'enable_mtk_ops',
              'hybrid_asymmetric_inputs': 'hybrid_asymmetric_inputs', 'unroll_rnn': 'unroll_rnn',
              'separated_rnn_gate_calc': 'separated_rnn_gate_calc', 'conv_transpose_with_bias': 'conv_transpose_with_bias',
              'legacy_gelu': 'legacy_gelu'}
NP = {'uint8': 'numpy.uint8', 'int8': 'numpy.int8', 'int16': 'numpy.int16'}


def params(fn):
    a = fn.node.args
    return [x.arg for x in a.posonlyargs + a.args]


def bound(I, cls, args, kwargs):
    """parameter name -> value for a constructor call"""
    init, _ = I.class_attr(cls, '__init__')
    if not isinstance(init, Fn):
        return None
    names = params(init)[1:]
    d = dict(zip(names, args))
    d.update(kwargs)
    for n, v in zip(names[len(names) - len(init.defaults):], init.defaults):
        d.setdefault(n, v)
    return d


def run(ctx):
    ctx.rule('defaults', 'option has the documented default value', 30)
    ctx.rule('documentation', 'the default stated in the documentation of an option is its default', 15)
    ctx.rule('plumbing', 'component parameter is configured by its option', 36)
    ctx.rule('stored', 'component keeps a constructor parameter as given', 25)
    ctx.rule('tensor', 'tensors are created with the quantisation convention of the converter', 8)
    ctx.rule('types', 'type options select the numpy type of that name', 8)
    ctx.rule('transpose', 'layout options reach the graph', 6)
    ctx.rule('component', 'components run exactly when their option asks for it', 6)
    I = ctx.interp()
    cls = I.lookup(CONV)
    m = ctx.repo.module(BASE)
    I.module(BASE)
    init, _ = I.class_attr(cls, '__init__')
    line = '%s:%d' % (m.rel(), init.node.lineno)
    cv, _ = I.class_attr(cls, 'convert')
    cline = '%s:%d' % (m.rel(), cv.node.lineno)
    defaults(ctx, I, cls, init, line)
    opts = [p for p in params(init)[1:]]
    NOTSYM = {'quantize_target_type': K('int8'), 'quantize_input_output_type': K('int8'), 'hybrid_quantize_weight_type': K('uint8'),
              'nchw_transpose': K(True), 'dump_jit_model_path': NONE, 'dump_config_path': NONE, 'dump_dummy_input_path': NONE,
              'hybrid_per_channel': K(False), 'fuse_quant_dequant': K(True), 'strict_symmetric_check': K(False)}

    def make(st, **over):
        args = []
        for p in opts:
            args.append(over.get(p) if p in over else NOTSYM.get(p, I.sym('opt:' + p)))
        I.assume = None
        return I.instantiate(st, cls, args, {}, None, None)

    seen = {'opt': [], 'hyb': [], 'half': [], 'ver': [], 'tr': [], 'tensor': [], 'calls': []}

    def hook(I2, st, fn, args, kwargs, node, mod):
        f = fn.fn if isinstance(fn, BM) else fn
        if isinstance(f, Cls):
            k = {OPT: 'opt', HYB: 'hyb', HALF: 'half', VER: 'ver', TENS: 'tensor'}.get(f.qual)
            if k:
                seen[k].append((bound(I2, f, args, kwargs), st.pc, node))
                if k == 'tensor':
                    return I2.mk('sym', 'tensor%d' % len(seen[k]))
                seen['calls'].append((k + '.__init__', st.pc))
                return I2.sym('component:' + k, None)
        if isinstance(f, T) and f.op == 'attr' and isinstance(f.args[0], T) and f.args[0].op == 'sym' \
                and str(f.args[0].args[0]).startswith('component:'):
            seen['calls'].append((f.args[0].args[0][10:] + '.' + f.args[1], st.pc))
            return NONE
        if isinstance(f, Fn) and f.qual.startswith(CONV + '.') and isinstance(fn, BM):
            nm = f.qual[len(CONV) + 1:]
            if nm.startswith('init_'):
                seen['calls'].append((nm, st.pc))
                return NONE
            if nm == 'unsupported_operations':
                seen['calls'].append((nm, st.pc))
                return I2.new_list(st, [])
        if isinstance(f, Fn) and f.cls is not None and f.qual.startswith(OPMOD + 'graph.CommonGraph.') and isinstance(fn, BM):
            nm = f.qual.rsplit('.', 1)[1]
            if nm in ('convert', 'add_nodes', 'add_outputs'):
                seen['calls'].append(('graph.' + nm, st.pc))
                return NONE
        return NotImplemented
    I.hooks.append(hook)

    def conv(**over):
        st = State()
        for k in seen:
            del seen[k][:]
        s = make(st, **over)
        try:
            I.call(st, I.getattr(st, s, 'convert'), [], {}, None, None)
        except Dead:
            return None, None
        return st, s

    def expected(opt, over):
        neg = opt.startswith('!')
        opt = opt.lstrip('!')
        if opt == '@q_type':
            return T('ext', (NP[over.get('quantize_target_type', K('int8')).v],))
        if opt == '@hybrid_q_type':
            w = over.get('hybrid_quantize_weight_type', K('uint8'))
            if w == NONE:
                w = over.get('quantize_target_type', K('int8'))
            return T('ext', (NP[w.v],))
        v = over.get(opt, NOTSYM.get(opt, I.sym('opt:' + opt)))
        if neg:
            return K(not v.v) if isinstance(v, K) else I.neg(v)
        return v
    on = dict(hybrid_quantization_from_float=K(True), float16_quantization=K(True))
    variants = [
        ('symbolic', dict(on)),
        ('strict', dict(on, strict_symmetric_check=K(True), quantize_target_type=K('int16'), quantize_input_output_type=K('int16'),
                        hybrid_quantize_weight_type=K('int8'))),
        ('unfused', dict(on, fuse_quant_dequant=K(False), quantize_input_output_type=NONE, hybrid_per_channel=K(True),
                         hybrid_quantize_weight_type=NONE)),
        ('uint8', dict(on, quantize_target_type=K('uint8'), quantize_input_output_type=K('uint8'), hybrid_quantize_weight_type=NONE)),
    ]
    for vn, over in variants:
        st, s = conv(**over)
        if st is None:
            ctx.finding('plumbing', 'convert(%s)' % vn, cline, 'a supported combination of options always raises')
            continue
        for k, comp, table in (('opt', 'GraphOptimizer', OPTIMIZER), ('hyb', 'HybridQuantizer', HYBRID)):
            if not seen[k]:
                ctx.finding('component', comp, cline, '%s is never constructed by convert()' % comp)
                continue
            for b, pc, node in seen[k]:
                g = b.get('graph')
                ctx.expect(g == I.getattr(st, s, 'common_graph'), 'plumbing', comp + '.graph', cline,
                           '%s works on %s, not on the graph of this converter' % (comp, g), instance='%s.graph@%s' % (comp, vn))
                for p, o in table.items():
                    w = expected(o, over)
                    ctx.expect(b.get(p) == w, 'plumbing', '%s.%s' % (comp, p), cline,
                               'parameter %s of %s is configured with %s, expected option %s (%s)' % (p, comp, b.get(p), o, w),
                               instance='%s.%s@%s' % (comp, p, vn))
        for k, comp in (('half', 'HalfQuantizer'), ('ver', 'OPVersioner')):
            for b, pc, node in seen[k]:
                g = (b or {}).get('graph')
                ctx.expect(g == I.getattr(st, s, 'common_graph'), 'plumbing', comp + '.graph', cline,
                           '%s works on %s' % (comp, g), instance='%s.graph@%s' % (comp, vn))
    # which components run
    for hyb in (True, False):
        for half in (True, False):
            for mo in (True, False):
                over = dict(hybrid_quantization_from_float=K(hyb), float16_quantization=K(half), missing_outputs_as_constants=K(mo))
                st, s = conv(**over)
                if st is None:
                    ctx.finding('component', 'convert', cline, 'always raises with %s' % over)
                    continue
                names = [c for c, _ in seen['calls']]
                tag = 'hybrid=%s half=%s missing=%s' % (hyb, half, mo)
                for nm, want in (('opt.optimize', True), ('hyb.quantize', hyb), ('half.quantize', half), ('ver.process', True),
                                 ('graph.convert', True)):
                    ctx.expect((nm in names) == want, 'component', nm, cline, '%s is %scalled with %s' % (nm, '' if nm in names else 'not ', tag),
                               instance='%s@%s' % (nm, tag))
                order = [x for x in ('opt.optimize', 'hyb.quantize', 'half.quantize', 'ver.process', 'graph.convert') if x in names]
                got = sorted(order, key=lambda x: names.index(x))
                ctx.expect(got == order, 'component', 'order', cline, 'components run in the order %s' % got, instance='order@' + tag)
                for q in ('hyb.quantize', 'half.quantize'):
                    if q in names:
                        ctx.expect('opt.cleanup_dead_nodes' in names[names.index(q):], 'component', q + ':cleanup', cline,
                                   'constants replaced by %s are not cleaned up afterwards' % q, instance=q + ':cleanup@' + tag)
                ctx.expect(('graph.add_outputs' in names and 'graph.add_nodes' in names) == mo, 'component', 'missing outputs', cline,
                           'missing outputs %s added as constants with %s' % ('are' if 'graph.add_outputs' in names else 'are not', tag),
                           instance='missing@' + tag)
                for b, pc, node in seen['tensor']:
                    tensor_args(ctx, b, K(True), T('ext', (NP['int8'],)), 'convert: missing outputs', cline)
    I.hooks.remove(hook)
    types(ctx, I, make, line)
    stored(ctx, I, m)
    translators(ctx, I, make, expected, m, variants)
    helpers(ctx, I)
    layout(ctx, I, make, m, expected)
    ctx.use(I)


def tensor_args(ctx, b, asym, qt, what, line):
    ctx.expect(b.get('asymmetric') == asym, 'tensor', what + ':asymmetric', line, 'tensor created with asymmetric=%s, expected %s' % (b.get('asymmetric'), asym))
    ctx.expect(b.get('q_type') == qt, 'tensor', what + ':q_type', line, 'tensor created with q_type=%s, expected %s' % (b.get('q_type'), qt))


def defaults(ctx, I, cls, init, line):
    a = init.node.args
    names = params(init)[1:]
    dv = dict(zip(names[len(names) - len(init.defaults):], init.defaults))
    for k, v in getattr(init, 'kwdefaults', {}).items() if isinstance(getattr(init, 'kwdefaults', None), dict) else ():
        dv[k] = v
        names.append(k)
    for o, w in DEFAULTS.items():
        if o not in names:
            ctx.finding('defaults', o, line, 'the option vanished from the constructor')
            continue
        if w is REQ:
            continue
        ctx.expect(dv.get(o) == K(w), 'defaults', o, line, 'default is %s, the public interface says %r' % (dv.get(o), w))
    import ast
    doc = ast.get_docstring(init.node) or ''
    doc = re.sub(r'\\\n\s*', ' ', doc)
    for mm in re.finditer(r'^\s*(\w+)(?: \(.*\))?:(.*(?:\n(?!\s*\w+(?: \(.*\))?:).*)*)', doc, re.M):
        o, text = mm.group(1), ' '.join(mm.group(2).split())
        d = re.search(r"Defaults to (`[^`]*`|'[^']*'|None|True|False|-?\d+)", text)
        if not d or o not in dv:
            continue
        s = d.group(1).strip('`')
        if s == 'GraphOptimizer.ALL_OPTIMIZE':
            want = 5
        else:
            try:
                want = ast.literal_eval(s)
            except (ValueError, SyntaxError):
                continue
        ctx.expect(dv[o] == K(want), 'documentation', o, line, 'documented default %r, actual default %s' % (want, dv[o]))


def types(ctx, I, make, line):
    for o, attr in (('quantize_target_type', 'q_type'), ('hybrid_quantize_weight_type', 'hybrid_q_type')):
        for t in ('uint8', 'int8', 'int16'):
            st = State()
            over = {o: K(t), 'hybrid_quantization_from_float': K(False), 'strict_symmetric_check': K(True), 'quantize_input_output_type': NONE}
            s = make(st, **over)
            v = I.getattr(st, s, attr)
            ctx.expect(v == T('ext', (NP[t],)), 'types', '%s=%s' % (o, t), line, '%s becomes %s' % (attr, v))
    for t in ('uint8', 'int8', 'int16'):
        st = State()
        s = make(st, quantize_target_type=K(t), hybrid_quantize_weight_type=NONE, strict_symmetric_check=K(True),
                 quantize_input_output_type=NONE, hybrid_quantization_from_float=K(False))
        v = I.getattr(st, s, 'hybrid_q_type')
        ctx.expect(v == T('ext', (NP[t],)), 'types', 'weight type from target type ' + t, line, 'hybrid_q_type becomes %s' % v)


def stored(ctx, I, m):
    for q, table in ((OPT, OPTIMIZER), (HYB, HYBRID), (OPC, TRANSLATOR)):
        cls = I.lookup(q)
        init, _ = I.class_attr(cls, '__init__')
        names = params(init)[1:]
        line = '%s:%d' % (init.mod.rel() if hasattr(init.mod, 'rel') else ctx.repo.module(q.rsplit('.', 1)[0]).rel(), init.node.lineno)
        st = State()
        args = []
        for n in names:
            if n in ('node', 'tensor_map'):
                args.append(I.sym(n))
            else:
                args.append(I.sym('p:' + n))
        s = I.new_inst(st, cls, {})
        I.call(st, BM(init, s), args, {}, None, None)
        held = I.obj(st, s).attrs
        for p in table:
            w = I.sym('p:' + p)
            got = held.get(p)
            ok = got == w
            if got is None:
                ok = any(v == w for v in held.values())
            elif not ok and q == HYB and p == 'config':
                ok = isinstance(got, T) and w in set(subterms(got)) or isinstance(got, Ref)
            ctx.expect(ok, 'stored', '%s.%s' % (cls.name, p), line, 'parameter %s is kept as %s' % (p, got))


def translators(ctx, I, make, expected, m, variants):
    """both construction sites of operator translators in init_operations"""
    f, _ = I.class_attr(I.lookup(CONV), 'init_operations')
    line = '%s:%d' % (m.rel(), f.node.lineno)
    deq = I.lookup(OPMOD + 'torch.aten.ATenDequantizeOperator')
    q = I.lookup(OPMOD + 'torch.aten.ATenQuantizePerTensorOperator')
    add = I.lookup(OPMOD + 'torch.aten.ATenAddOperator')
    nt = I.lookup(OPMOD + 'torch.base.NoTrackOperator')
    rp = I.lookup(OPMOD + 'torch.base.TrackRevQParamsOperator')
    tp = I.lookup(OPMOD + 'torch.base.TrackQParamsOperator')
    opc = I.lookup(OPC)
    want = {'dequantize': [deq, tp], 'quantize': [q, rp], 'op': [add, nt]}
    for kind, c0 in (('dequantize', deq), ('quantize', q), ('op', add)):
        for vn, over in variants:
            st = State()
            s = make(st, **over)
            got = []

            def hook(I2, st2, fn, args, kwargs, node, mod):
                f2 = fn.fn if isinstance(fn, BM) else fn
                if isinstance(f2, Cls) and opc in mro(I2, f2):
                    got.append((f2, bound(I2, f2, args, kwargs)))
                    return I2.new_inst(st2, f2, {'input_names': I2.new_list(st2, [K('n0')]),
                                                 'output_names': I2.new_list(st2, [K('n1')]), 'output_nodes': I2.new_list(st2, []),
                                                 'output_tensors': I2.new_list(st2, [I2.sym('t')])}, open=I2.sym('converter'))
                if isinstance(fn, BM) and isinstance(f2, Fn) and f2.cls is not None and f2.node.name in (
                        'parse', 'fetch_all_attrs', 'fetch_annotated_args', 'run', 'get_output_tensors', 'prepare_scope_tensors'):
                    return I2.new_list(st2, [I2.sym('t')]) if f2.node.name == 'get_output_tensors' else NONE
                if isinstance(fn, T) and fn.op == 'attr' and fn.args[1] == 'get' and len(args) == 2 and args[0] == K('kind:x'):
                    return c0
                if isinstance(fn, T) and fn.op == 'attr' and fn.args[1] == 'kind':
                    return K('kind:x')
                if isinstance(fn, T) and fn.op == 'attr' and fn.args[1] == 'nodes':
                    return I2.new_list(st2, [I2.sym('node')])
                return NotImplemented

            def hook2(I2, st2, fn, args, kwargs, node, mod):
                # OPERATOR_CONVERTER_DICT.get(kind, ...)
                if isinstance(fn, BM) is False and isinstance(fn, T) and fn.op == 'attr' and fn.args[1] == 'get' and args and args[0] == K('kind:x'):
                    return c0
                return NotImplemented
            I.hooks[:0] = [hook, hook2]
            try:
                I.setattr(st, s, 'graph', I.sym('jit_graph'), None, None)
                I.call(st, I.getattr(st, s, 'init_operations'), [], {}, None, None)
            except Dead:
                ctx.finding('plumbing', 'init_operations', line, 'always raises')
                continue
            finally:
                I.hooks.remove(hook)
                I.hooks.remove(hook2)
            cl = []
            for c, b in got:
                if c not in cl:
                    cl.append(c)
                for p, o in TRANSLATOR.items():
                    w = expected(o, over)
                    ctx.expect(b is not None and b.get(p) == w, 'plumbing', 'translator(%s).%s' % (c.name, p), line,
                               'parameter %s of the operator translator is %s, expected option %s (%s)' % (p, b and b.get(p), o, w),
                               instance='translator(%s).%s@%s' % (c.name, p, vn))
            ctx.expect(cl == want[kind], 'plumbing', 'untracked ' + kind, line,
                       'an untracked %s operator is translated by %s, expected %s' % (kind, [c.name for c in cl], [c.name for c in want[kind]]),
                       instance='untracked %s@%s' % (kind, vn))


def mro(I, c):
    out, work = [], [c]
    while work:
        x = work.pop(0)
        if isinstance(x, Cls) and x not in out:
            out.append(x)
            work.extend(x.bases)
    return out


def helpers(ctx, I):
    """tensors created by the operator translators"""
    tb = I.lookup(OPC)
    st0 = State()
    mod = ctx.repo.module(OPMOD + 'torch.base')
    for name, args in (('find_or_create_input', lambda I, st, g: [K(0), g]),
                       ('create_transform_tensor', lambda I, st, g: [I.sym('data')]),
                       ('create_attr_tensor', lambda I, st, g: [I.sym('data')]),
                       ('to_tfl_tensors', lambda I, st, g: [I.new_list(st, [K('a'), K('b')]), I.new_list(st, [I.sym('ta'), I.sym('tb')])]),
                       ('to_tfl_tensors', lambda I, st, g: [I.new_list(st, [K('a'), K('b')]), I.new_list(st, [I.sym('ta'), I.sym('tb')]), K(True)]),
                       ):
        st = State()
        g = I.new_inst(st, I.lookup(OPMOD + 'graph.CommonGraph'), {'tensor_map': I.new_dict(st, [])})
        fn, _ = I.class_attr(tb, name)
        line = '%s:%d' % (mod.rel(), fn.node.lineno)
        s = I.new_inst(st, tb, {'asymmetric': I.sym('A'), 'q_type': I.sym('Q'), 'hybrid_q_type': I.sym('H'),
                                'input_names': I.new_list(st, [K('in')]), 'input_tensors': I.new_list(st, [I.sym('it')]),
                                'output_names': I.new_list(st, [K('out')]), 'attr_count': K(0), 'transform_count': K(0)},
                       open=I.sym('self'))
        made = []

        def hook(I2, st2, fn2, a2, k2, node, mod2):
            if isinstance(fn2, Cls) and fn2.qual == TENS:
                made.append(bound(I2, fn2, a2, k2))
                return I2.sym('T')
            return NotImplemented
        I.hooks.insert(0, hook)
        try:
            I.call(st, BM(fn, s), args(I, st, g), {}, None, None)
        finally:
            I.hooks.remove(hook)
        if not made:
            ctx.finding('tensor', name, line, 'creates no tensor')
        for b in made:
            tensor_args(ctx, b, I.sym('A'), I.sym('Q'), name, line)
            wantb = {'find_or_create_input': K(True), 'create_transform_tensor': K(False), 'create_attr_tensor': K(True)}.get(name)
            if wantb is None:
                wantb = K(len(args(I, State(), g)) == 3)
            ctx.expect(b.get('has_buffer') == wantb, 'tensor', '%s:has_buffer(%s)' % (name, wantb), line,
                       'tensor created with has_buffer=%s, expected %s' % (b.get('has_buffer'), wantb))


def layout(ctx, I, make, m, expected):
    cls = I.lookup(CONV)
    f, _ = I.class_attr(cls, 'init_input_transpose')
    line = '%s:%d' % (m.rel(), f.node.lineno)
    # nchw_transpose off: both ignored
    st = State()
    s = make(st, nchw_transpose=K(False))
    for a in ('input_transpose', 'output_transpose'):
        ctx.expect(I.getattr(st, s, a) == K(False), 'transpose', 'nchw_transpose=False:' + a, line, '%s is %s' % (a, I.getattr(st, s, a)))
    st = State()
    s = make(st)
    for a in ('input_transpose', 'output_transpose'):
        ctx.expect(I.getattr(st, s, a) == I.sym('opt:' + a), 'transpose', 'nchw_transpose=True:' + a, line, '%s is %s' % (a, I.getattr(st, s, a)))
    # normalisation of input_transpose
    cases = [('True', K(True), [K(True)] * 3), ('False', K(False), [K(False)] * 3),
             ('list', [K(True), K(False), NONE], [K(True), K(False), '4d']), ('None', NONE, ['4d', '4d', '4d'])]
    for nm, v, want in cases:
        st = State()
        val = I.new_list(st, v) if isinstance(v, list) else v
        s = make(st, input_transpose=val)
        flat = [I.sym('flat%d' % i) for i in range(3)]
        I.setattr(st, s, 'flatten_inputs', I.new_list(st, flat), None, None)
        I.assume = lambda t: K(True) if isinstance(t, T) and t.op == 'call' and t.args[0] == Bi('isinstance') and t.args[1][0] in flat and 'torch.Tensor' in repr(t.args[1][1]) else None
        dims = {}

        def hook(I2, st2, fn, args, kwargs, node, mod):
            if isinstance(fn, T) and fn.op == 'attr' and fn.args[1] in ('dim', 'ndimension') and fn.args[0] in flat:
                return K({0: 4, 1: 3, 2: 4}[flat.index(fn.args[0])])
            return NotImplemented
        I.hooks.insert(0, hook)
        try:
            I.call(st, I.getattr(st, s, 'init_input_transpose'), [], {}, None, None)
        finally:
            I.hooks.remove(hook)
        r = I.iter_known(st, I.getattr(st, s, 'input_transpose'))
        w = [K(i != 1) if x == '4d' else x for i, x in enumerate(want)]
        got = list(r[0]) if r else None
        ctx.expect(got == w, 'transpose', 'input_transpose=' + nm, line, 'inputs of rank 4, 3, 4 get the flags %s, expected %s' % (got, w))
        I.assume = None
    # common graph gets them; input tensors follow the quantisation convention
    f, _ = I.class_attr(cls, 'init_common_graph')
    line = '%s:%d' % (m.rel(), f.node.lineno)
    for strict in (False, True):
        st = State()
        s = make(st, strict_symmetric_check=K(strict))
        I.setattr(st, s, 'graph', I.sym('jit'), None, None)
        I.setattr(st, s, 'flatten_inputs', I.new_list(st, [I.sym('f0'), I.sym('f1')]), None, None)
        I.setattr(st, s, 'input_transpose', I.new_list(st, [I.sym('t0'), I.sym('t1')]), None, None)
        made = []

        def hook(I2, st2, fn, args, kwargs, node, mod):
            if isinstance(fn, Cls) and fn.qual == TENS:
                made.append(bound(I2, fn, args, kwargs))
                return I2.mk('sym', 'T%d' % len(made))
            if isinstance(fn, T) and fn.op == 'attr' and fn.args[1] == 'debugName':
                return K('name:' + repr(fn.args[0]))
            if isinstance(fn, T) and fn.op == 'attr' and fn.args[0] == I2.sym('jit') and fn.args[1] in ('inputs', 'outputs'):
                n = 3 if fn.args[1] == 'inputs' else 2
                return I2.new_list(st2, [I2.sym('%s%d' % (fn.args[1], i)) for i in range(n)])
            if isinstance(fn, BM) and isinstance(fn.fn, Fn) and fn.fn.qual.endswith('CommonGraph.add_nodes'):
                made.append(('nodes', [I2.frz(st2, a) for a in args]))
                return NONE
            return NotImplemented
        I.hooks.insert(0, hook)
        try:
            I.call(st, I.getattr(st, s, 'init_common_graph'), [], {}, None, None)
        finally:
            I.hooks.remove(hook)
        g = I.getattr(st, s, 'common_graph')
        for a, w in (('inputs', [K('name:$inputs1'), K('name:$inputs2')]), ('outputs', [K('name:$outputs0'), K('name:$outputs1')]),
                     ('input_transpose', [I.sym('t0'), I.sym('t1')])):
            v = I.iter_known(st, I.getattr(st, g, a))
            got = list(v[0]) if v else None
            ctx.expect(got is not None and [repr(x) for x in got] == [repr(x) for x in w], 'transpose', 'graph.' + a, line,
                       'the graph gets %s, expected %s' % (got, w), instance='graph.%s strict=%s' % (a, strict))
        v = I.getattr(st, g, 'output_transpose')
        ctx.expect(v == I.sym('opt:output_transpose'), 'transpose', 'graph.output_transpose', line, 'the graph gets %s' % v,
                   instance='graph.output_transpose strict=%s' % strict)
        ts = [b for b in made if isinstance(b, dict)]
        ctx.expect([b.get('tensor') for b in ts] == [I.sym('f0'), I.sym('f1')], 'tensor', 'graph inputs', line,
                   'graph inputs are created from %s' % [b.get('tensor') for b in ts], instance='graph inputs strict=%s' % strict)
        for b in ts:
            tensor_args(ctx, b, K(not strict), T('ext', (NP['int8'],)), 'graph inputs strict=%s' % strict, line)
            ctx.expect(b.get('has_buffer') == K(False), 'tensor', 'graph inputs:has_buffer', line, 'graph input has a constant buffer')
