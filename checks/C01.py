"""C01: unsupported operators stop the conversion before a model is written."""
from sa.interp import State, K, T, Fn, BM, Cls, Ref, NONE, Dead, subterms, Bi
from checks.C07 import CONV, BASE, OPMOD, OPT, HYB, HALF, VER, OPC, mro, params

TITLE = 'unsupported operators stop the conversion'
EXPLANATION = ('convert() is executed abstractly with a list of unsupported operators that is known to be non-empty: no path '
               'may finish normally, and no component that rewrites the graph or writes the model may have been called before '
               'the exception. unsupported_operations() and init_operations() are executed on abstract graphs with known and '
               'unknown operator kinds, at top level and in nested blocks, and the reported list is compared with the unknown '
               'kinds. Finally every use of the model path in the converter package is traced to the one writer.')


def run(ctx):
    ctx.rule('stops', 'conversion of a model with unsupported operators cannot finish', 4)
    ctx.rule('before', 'nothing is rewritten or written before the unsupported operators are reported', 4)
    ctx.rule('reported', 'exactly the operators without a translator are reported', 6)
    ctx.rule('untranslated', 'an operator without a translator adds no target operator', 1)
    ctx.rule('writer', 'the model file is only written by the final serialisation', 2)
    I = ctx.interp()
    cls = I.lookup(CONV)
    m = ctx.repo.module(BASE)
    I.module(BASE)
    line = lambda n: '%s:%d' % (m.rel(), I.class_attr(cls, n)[0].node.lineno) if isinstance(I.class_attr(cls, n)[0], Fn) else m.rel()
    init, _ = I.class_attr(cls, '__init__')
    names = params(init)[1:]
    MUST = ('init_operations',)

    def make(st, **over):
        d = {'quantize_target_type': K('int8'), 'quantize_input_output_type': NONE, 'hybrid_quantize_weight_type': K('int8'),
             'dump_config_path': NONE, 'dump_jit_model_path': NONE, 'dump_dummy_input_path': NONE}
        d.update(over)
        return I.instantiate(st, cls, [d.get(p, I.sym('opt:' + p)) for p in names], {}, None, None)
    calls = []
    unsupported = [None]

    def hook(I2, st, fn, args, kwargs, node, mod):
        f = fn.fn if isinstance(fn, BM) else fn
        if isinstance(f, Cls) and f.qual in (OPT, HYB, HALF, VER):
            calls.append(f.name + '()')
            return I2.sym('component:' + f.name)
        if isinstance(f, T) and f.op == 'attr' and isinstance(f.args[0], T) and f.args[0].op == 'sym' \
                and str(f.args[0].args[0]).startswith('component:'):
            calls.append(f.args[0].args[0][10:] + '.' + f.args[1])
            return NONE
        if isinstance(f, Fn) and isinstance(fn, BM):
            nm = f.node.name if hasattr(f.node, 'name') else ''
            if f.qual.startswith(CONV + '.') and nm.startswith('init_'):
                calls.append(nm)
                return NONE
            if f.qual.startswith(CONV + '.') and nm == 'unsupported_operations':
                calls.append(nm)
                return I2.new_list(st, [K(x) for x in unsupported[0]])
            if f.qual.startswith(OPMOD + 'graph.CommonGraph.'):
                calls.append('graph.' + nm)
                return NONE
        if isinstance(f, (Bi, T)) and f in (Bi('open'), T('ext', ('open',)), T('ext', ('io.open',))):
            calls.append('open')
        return NotImplemented
    BAD = ('GraphOptimizer', 'HybridQuantizer', 'HalfQuantizer', 'OPVersioner', 'graph.', 'open')
    for hyb in (True, False):
        for half in (True, False):
            for mo in (True, False):
                for ops in (['foo::bar'], ['foo::bar', 'foo::baz'], []):
                    st = State()
                    del calls[:]
                    unsupported[0] = ops
                    tag = 'unsupported=%d hybrid=%s half=%s missing_outputs=%s' % (len(ops), hyb, half, mo)
                    I.hooks.append(hook)
                    try:
                        s = make(st, hybrid_quantization_from_float=K(hyb), float16_quantization=K(half),
                                 missing_outputs_as_constants=K(mo))
                        del calls[:]
                        exc = None
                        try:
                            I.call(st, I.getattr(st, s, 'convert'), [], {}, None, None)
                        except Dead as d:
                            exc = d
                    finally:
                        I.hooks.remove(hook)
                    if ops:
                        ctx.expect(exc is not None, 'stops', 'convert', line('convert'),
                                   'convert() can finish normally with unsupported operators', instance=tag)
                        bad = [c for c in calls if c.startswith(BAD)]
                        ctx.expect(not bad, 'before', 'convert', line('convert'), 'with unsupported operators convert() still calls %s' % bad,
                                   instance=tag)
                    else:
                        ctx.expect(exc is None and 'graph.convert' in calls, 'before', 'convert:supported', line('convert'),
                                   'a supported model is not written (%s)' % exc, instance=tag)
                    if 'unsupported_operations' in calls:
                        k = calls.index('unsupported_operations')
                        for b in MUST:
                            ctx.expect(b in calls[:k], 'before', 'unsupported_operations after ' + b, line('convert'),
                                       'unsupported operators are collected before %s, which expands nested blocks' % b, instance=tag + b)
                    else:
                        ctx.finding('before', 'unsupported_operations', line('convert'), 'convert() does not look for unsupported operators')
    reported(ctx, I, cls, make, line)
    writer(ctx, I)
    ctx.use(I)


def reported(ctx, I, cls, make, line):
    nt = I.lookup(OPMOD + 'torch.base.NoTrackOperator')
    opc = I.lookup(OPC)
    kinds = {}
    nested = {}
    parsed = []

    def hook(I2, st, fn, args, kwargs, node, mod):
        f = fn.fn if isinstance(fn, BM) else fn
        if isinstance(fn, T) and fn.op == 'attr':
            if fn.args[1] == 'kind' and fn.args[0] in kinds:
                return K(kinds[fn.args[0]])
            if fn.args[1] == 'nodes' and fn.args[0] == I2.sym('jit'):
                return I2.new_list(st, list(top))
        if isinstance(f, Cls) and opc in mro(I2, f):
            n = args[0] if args else kwargs.get('node')
            parsed.append((n, f))
            return I2.new_inst(st, f, {'input_names': I2.new_list(st, [K('i')]), 'output_names': I2.new_list(st, [K('o')]),
                                       'output_nodes': I2.new_list(st, nested.get(n, [])),
                                       'output_tensors': I2.new_list(st, [I2.sym('t')])}, open=I2.sym('converter'))
        if isinstance(fn, BM) and isinstance(f, Fn) and f.cls is not None and getattr(f.node, 'name', '') in (
                'parse', 'fetch_all_attrs', 'fetch_annotated_args', 'run', 'get_output_tensors', 'prepare_scope_tensors'):
            return I2.new_list(st, [I2.sym('t')]) if f.node.name == 'get_output_tensors' else NONE
        return NotImplemented
    cases = [
        ('none', ['aten::add', 'prim::Constant'], {}, []),
        ('first', ['foo::bar', 'aten::add'], {}, ['foo::bar']),
        ('last', ['aten::add', 'prim::Constant', 'foo::bar'], {}, ['foo::bar']),
        ('several', ['foo::bar', 'aten::add', 'foo::baz', 'foo::bar'], {}, ['foo::bar', 'foo::baz', 'foo::bar']),
        ('prim', ['prim::Foo', 'aten::add'], {}, ['prim::Foo']),
        ('near name', ['aten::add__', 'aten::Add', 'quantized::aten::add'], {}, ['aten::add__', 'aten::Add', 'quantized::aten::add']),
        ('nested', ['prim::PythonOp', 'aten::add'], {0: ['prim::Param', 'foo::bar', 'prim::Return']}, ['foo::bar']),
        ('nested supported', ['prim::PythonOp', 'aten::add'], {0: ['prim::Param', 'aten::sin', 'prim::Return']}, []),
        ('nested if', ['prim::If', 'aten::add'], {0: ['foo::bar']}, ['foo::bar']),
    ]
    for nm, ks, nest, want in cases:
        st = State()
        top = [I.sym('node%d' % i) for i in range(len(ks))]
        kinds.clear()
        nested.clear()
        del parsed[:]
        kinds.update(zip(top, ks))
        for i, l in nest.items():
            ns = [I.sym('node%d_%d' % (i, j)) for j in range(len(l))]
            nested[top[i]] = ns
            kinds.update(zip(ns, l))
        I.hooks.append(hook)
        try:
            s = make(st)
            I.setattr(st, s, 'graph', I.new_inst(st, None, {}, open=I.sym('jit')), None, None)
            try:
                I.call(st, I.getattr(st, s, 'init_operations'), [], {}, None, None)
            except Dead as d:
                ctx.finding('reported', nm, line('init_operations'), 'translating the operators %s always raises' % ks)
                continue
            for u in (True, False):
                r = I.call(st, I.getattr(st, s, 'unsupported_operations'), [], {'unique': K(u)}, None, None)
                v = I.iter_known(st, r)
                got = sorted(x.v for x in v[0]) if v and all(isinstance(x, K) for x in v[0]) and not v[1] else None
                w = sorted(set(want)) if u else sorted(want)
                ctx.expect(got == w, 'reported', 'unsupported_operations:' + nm, line('unsupported_operations'),
                           'for operators %s %s the report is %s, expected %s' % (ks, list(nest.values()), got if got is not None else I.frz(st, r), w),
                           instance='%s unique=%s' % (nm, u))
            if not nest:      # default of unique
                r = I.call(st, I.getattr(st, s, 'unsupported_operations'), [], {}, None, None)
                v = I.iter_known(st, r)
                ctx.expect(bool(v) and bool(v[0]) == bool(want), 'reported', 'unsupported_operations()', line('unsupported_operations'),
                           'for %s the report is %s' % (ks, I.frz(st, r)), instance='%s default' % nm)
            for n, c in parsed:
                if kinds.get(n) in want:
                    ctx.expect(c == nt, 'untranslated', kinds[n], line('init_operations'),
                               'operator %s without a translator is handled by %s' % (kinds[n], c.name), instance=nm + str(n))
        finally:
            I.hooks.remove(hook)


def writer(ctx, I):
    """who opens a file for writing in the converter package"""
    import ast
    ok = {OPMOD + 'graph': {'convert'}}
    n = 0
    for name in sorted(ctx.repo.paths):
        if not name.startswith('tinynn.converter'):
            continue
        m = ctx.repo.module(name)
        stack = []

        def visit(node, fn):
            nonlocal n
            for c in ast.iter_child_nodes(node):
                f2 = fn
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f2 = c.name
                if isinstance(c, ast.Call):
                    nm = c.func.id if isinstance(c.func, ast.Name) else (c.func.attr if isinstance(c.func, ast.Attribute) else '')
                    if nm in ('open', 'write_bytes', 'write_text', 'FileIO'):
                        mode = ''
                        if nm == 'open' and len(c.args) > 1 and isinstance(c.args[1], ast.Constant):
                            mode = str(c.args[1].value)
                        for kw in c.keywords:
                            if kw.arg == 'mode' and isinstance(kw.value, ast.Constant):
                                mode = str(kw.value.value)
                        if nm != 'open' or any(ch in mode for ch in 'wax+'):
                            n += 1
                            tp = any(isinstance(x, (ast.Name, ast.Attribute)) and 'tflite_path' in (getattr(x, 'id', '') or getattr(x, 'attr', ''))
                                     for a in c.args for x in ast.walk(a))
                            ctx.expect(not tp or name == OPMOD + 'graph', 'writer', '%s.%s' % (name, f2), '%s:%d' % (m.rel(), c.lineno),
                                       'the model file is opened for writing outside the final serialisation', instance='%s:%s' % (name, n))
                visit(c, f2)
        visit(m.tree, '')
    # the writer itself: everything that can fail on the graph happens before the file is opened
    g = I.lookup(OPMOD + 'graph.CommonGraph')
    f, _ = I.class_attr(g, 'convert')
    m = ctx.repo.module(OPMOD + 'graph')
    line = '%s:%d' % (m.rel(), f.node.lineno)
    order = []

    def hook(I2, st, fn, args, kwargs, node, mod):
        f2 = fn.fn if isinstance(fn, BM) else fn
        if isinstance(fn, BM) and isinstance(f2, Fn) and f2.qual.startswith(OPMOD + 'graph.CommonGraph.') and f2.node.name != 'convert':
            order.append(f2.node.name)
            if f2.node.name == 'collect_tensor_buffers':
                from sa.interp import Tup
                return Tup(tuple(I2.sym('c%d' % i) for i in range(4)))
            return I2.sym('r:' + f2.node.name)
        if fn in (Bi('open'), T('ext', ('open',)), T('ext', ('io.open',))):
            order.append('open')
        return NotImplemented
    st = State()
    s = I.new_inst(st, g, {}, open=I.sym('graph'))
    I.hooks.append(hook)
    try:
        I.call(st, BM(f, s), [I.sym('path')], {}, None, None)
    except Dead:
        ctx.finding('writer', 'CommonGraph.convert', line, 'always raises')
    finally:
        I.hooks.remove(hook)
    need = ['collect_tensor_buffers', 'collect_operators', 'build_model', 'open']
    got = [x for x in order if x in need]
    first = [order.index(x) if x in order else 99 for x in need]
    ctx.expect('open' in order and all(first[i] < first[3] for i in range(3)), 'writer', 'CommonGraph.convert:order', line,
               'the model file is opened before the model is complete: %s' % got)
    ctx.expect('build_model' in order, 'writer', 'CommonGraph.convert', line, 'calls %s' % order)
