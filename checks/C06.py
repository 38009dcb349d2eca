"""C06: tensors, buffers and the graph are serialised faithfully."""
import ast
from sa.framework import load_table
from sa.interp import State, K, T, Cls, Ref, Tup, Obj, subterms, NONE, Fn, BM
from sa.fb import FB
from sa.repo import AnalysisBroken
from checks.C04 import asarray, type_assume

TITLE = 'tensor, buffer and graph serialisation'
EXPLANATION = ('The build() methods of tensors, quantisation parameters, buffers, sub-graphs and the model, and the index '
               'assignment of CommonGraph are executed abstractly; the tables they write are compared with what the file '
               'format requires for each field, for every combination of optional parts; the dtype tables are folded and '
               'compared with the format\'s TensorType enumeration.')
BASE = 'tinynn.converter.operators.tflite.base'
GRAPH = 'tinynn.converter.operators.graph.CommonGraph'
TORCH = {'bool': 'BOOL', 'int16': 'INT16', 'int32': 'INT32', 'int64': 'INT64', 'qint8': 'INT8', 'quint8': 'UINT8',
         'float16': 'FLOAT16', 'half': 'FLOAT16', 'float32': 'FLOAT32', 'float': 'FLOAT32', 'float64': 'FLOAT64',
         'double': 'FLOAT64', 'int8': 'INT8', 'uint8': 'UINT8', 'long': 'INT64', 'int': 'INT32', 'short': 'INT16',
         'complex64': 'COMPLEX64', 'complex128': 'COMPLEX128', 'qint32': 'INT32'}
NP = {'bool': 'BOOL', 'int16': 'INT16', 'int32': 'INT32', 'int64': 'INT64', 'int8': 'INT8', 'uint8': 'UINT8',
      'float16': 'FLOAT16', 'float32': 'FLOAT32', 'float64': 'FLOAT64', 'complex64': 'COMPLEX64',
      'complex128': 'COMPLEX128', 'uint16': 'UINT16', 'uint32': 'UINT32', 'uint64': 'UINT64'}


def run(ctx):
    tab = load_table('tflite_schema.json')
    tt = tab['enums']['TensorType']
    I = ctx.interp()
    fb = FB(I, tab['tables'])
    ctx.rule('dtype-map', 'array-library and framework element types map to the file format\'s tensor type of that width and kind', 15)
    ctx.rule('tensor', 'name, shape, type, buffer, variable flag and quantisation of a tensor are its own', 8)
    ctx.rule('quantization', 'scale, zero point and channel axis are written to their own fields with the format\'s width', 6)
    ctx.rule('buffer', 'the buffer data is the tensor\'s own bytes', 2)
    ctx.rule('subgraph', 'inputs, outputs, tensors and operators of the graph in order', 4)
    ctx.rule('model', 'buffers, operator codes and sub-graphs in order; file identifier', 5)
    ctx.rule('index', 'indices written refer to the objects written at that position', 6)

    def where(qual):
        n = I.lookup(qual)
        n = n.fn if isinstance(n, BM) else n
        m = I.repo.module(n.mod)
        return '%s:%d' % (m.rel(), n.node.lineno)

    # dtype maps
    st = State()
    for name, oracle in (('numpy_tflite_dtype_mappings', NP), ('torch_tflite_dtype_mappings', TORCH)):
        d = I.lookup(BASE + '.' + name)
        o = I.obj(st, d)
        if o.rest or not o.items:
            raise AnalysisBroken('%s is not a literal table' % name)
        for k, v in o.items:
            key = k.v if isinstance(k, K) else repr(k).split('.')[-1]
            loc = I.repo.module(BASE).rel()
            want = oracle.get(key)
            ctx.expect(isinstance(v, K) and want is not None and v.v == tt[want], 'dtype-map', '%s[%s]' % (name, key), loc,
                       'element type %s is written as tensor type %s, expected %s' % (key, v, want))

    def none_assume(nonnull):
        def f(t):
            if isinstance(t, T) and t.op == 'cmp' and t.args[0] in ('is', 'is not', '==', '!=') and K(None) in t.args[1:]:
                other = [a for a in t.args[1:] if a != K(None)]
                if other and other[0] in nonnull:
                    return K(t.args[0] in ('is not', '!='))
            return type_assume(t)
        return f

    # Tensor.build
    tq = BASE + '.Tensor'
    tcls = I.lookup(tq)
    npmap = I.obj(st, I.lookup(BASE + '.numpy_tflite_dtype_mappings'))
    for has_buf in (True, False):
        for has_q in (True, False):
            for dt in (['float32', 'int8'] if not ctx.thorough else [k.v for k, _ in npmap.items]):
                fb.reset()
                st = State()
                buf = I.new_inst(st, I.lookup(BASE + '.Buffer'), {'data': I.sym('data'), 'index': I.sym('buffer_index')}) \
                    if has_buf else NONE
                q = I.new_inst(st, I.lookup(BASE + '.QuantizationParameters'),
                               {'scale': K(0.5), 'zero_point': I.sym('zp'), 'dim': NONE}) if has_q else NONE
                inst = I.new_inst(st, tcls, {'name': I.sym('name'), 'shape': I.sym('shape'), 'dtype': K(dt), 'buffer': buf,
                                             'quantization': q, 'is_variable': I.sym('is_variable'),
                                             'index': I.sym('index'), 'tensor': I.sym('data')})
                I.assume = none_assume(())
                r = I.call(st, I.getattr(st, inst, 'build'), [fb.builder], {}, None, None)
                I.assume = None
                t = fb.tables.get(I.frz(st, r))
                cname = 'Tensor.build(buffer=%s, quantization=%s, %s)' % (has_buf, has_q, dt)
                loc = where(tq + '.build')
                if getattr(t, 'name', None) != 'Tensor':
                    ctx.finding('tensor', cname, loc, 'does not return a Tensor table')
                    continue
                sh = fb.tables.get(t.value('Shape'))
                checks = {
                    'Name': fb.tables.get(t.value('Name')) == ('string', I.sym('name')),
                    'Shape': isinstance(sh, tuple) and asarray(sh[1]) == (I.sym('shape'), 'int32'),
                    'Type': t.value('Type') == K(tt[NP[dt]]),
                    'Buffer': t.value('Buffer') == (I.sym('buffer_index') if has_buf else K(0)),
                    'IsVariable': t.value('IsVariable') == I.sym('is_variable'),
                    'Quantization': (getattr(fb.tables.get(t.value('Quantization')), 'name', None) == 'QuantizationParameters'
                                     if has_q else ('Quantization' not in t.fields or t.value('Quantization') == K(0))),
                }
                for f, ok in checks.items():
                    ctx.expect(ok, 'tensor', 'Tensor.build:%s' % f, loc, 'field %s of a tensor (%s) is written as %s'
                               % (f, cname, [str(fb.tables.get(x[1], x[1])) for x in t.fields.get(f, [])]),
                               instance=cname + ':' + f)
                for f in t.fields:
                    ctx.expect(f in checks, 'tensor', 'Tensor.build:%s' % f, loc, 'unexpected field %s' % f,
                               instance=cname + ':only:' + f)

    # QuantizationParameters.build
    qn = BASE + '.QuantizationParameters'
    for scal in (True, False):
        for dim in (True, False):
            fb.reset()
            st = State()
            sc = K(0.5) if scal else I.new_list(st, [I.sym('s0'), I.sym('s1')])
            zp = K(3) if scal else I.new_list(st, [I.sym('z0'), I.sym('z1')])
            try:
                inst = I.instantiate(st, I.lookup(qn), [sc, zp, I.sym('dim') if dim else NONE], {}, None, None)
            except Exception as e:
                raise AnalysisBroken('QuantizationParameters: %s' % e)
            I.assume = none_assume([I.sym('dim')])
            r = I.call(st, I.getattr(st, inst, 'build'), [fb.builder], {}, None, None)
            I.assume = None
            t = fb.tables.get(I.frz(st, r))
            loc = where(qn + '.build')
            cname = 'QuantizationParameters(%s, axis=%s)' % ('per-tensor' if scal else 'per-channel', dim)
            if getattr(t, 'name', None) != 'QuantizationParameters':
                ctx.finding('quantization', cname, loc, 'does not return a QuantizationParameters table')
                continue

            def arr(f):
                h = fb.tables.get(t.value(f))
                if not isinstance(h, tuple):
                    return None, None
                return asarray(h[1])
            lst = lambda *x: T('list', tuple(x))
            ws = lst(K(0.5)) if scal else lst(I.sym('s0'), I.sym('s1'))
            wz = lst(K(3)) if scal else lst(I.sym('z0'), I.sym('z1'))
            ctx.expect(arr('Scale') == (ws, 'float32'), 'quantization', 'Scale', loc, 'scale written as %s' % (arr('Scale'),),
                       instance=cname + ':Scale')
            ctx.expect(arr('ZeroPoint') == (wz, 'int64'), 'quantization', 'ZeroPoint', loc,
                       'zero point written as %s' % (arr('ZeroPoint'),), instance=cname + ':ZeroPoint')
            d = t.value('QuantizedDimension')
            ctx.expect(d == I.sym('dim') if dim else d in (None, K(0)), 'quantization', 'QuantizedDimension', loc,
                       'channel axis written as %s' % d, instance=cname + ':QuantizedDimension')

    # Buffer.build
    for nonempty in (True, False):
        fb.reset()
        st = State()
        inst = I.instantiate(st, I.lookup(BASE + '.Buffer'), [I.sym('data') if nonempty else K(b'')], {}, None, None)

        def f(t):
            if isinstance(t, T) and t.op == 'cmp' and 'len' in repr(t) and '$data' in repr(t):
                if t.args[0] in ('!=', '>') and K(0) in t.args[1:]:
                    return K(True)
                if t.args[0] in ('==', '<=') and K(0) in t.args[1:]:
                    return K(False)
            return type_assume(t)
        I.assume = f
        r = I.call(st, I.getattr(st, inst, 'build'), [fb.builder], {}, None, None)
        I.assume = None
        t = fb.tables.get(I.frz(st, r))
        v = t.value('Data') if t is not None else None
        ok = getattr(t, 'name', None) == 'Buffer' and (
            fb.tables.get(v) == ('bytes', I.sym('data')) if nonempty else ('Data' not in t.fields or v == K(0)
                                                                          or fb.tables.get(v) == ('bytes', K(b''))))
        ctx.expect(ok, 'buffer', 'Buffer.build', where(BASE + '.Buffer.build'),
                   'buffer data written as %s' % (fb.tables.get(v, v),), instance='Buffer.build(nonempty=%s)' % nonempty)
    # Tensor.__init__ : the buffer holds the tensor's data
    for q in (False, True):
        st = State()
        x = I.sym('array')

        def f(t):
            if isinstance(t, T) and t.op == 'cmp' and t.args[0] in ('==', '!='):
                if '__module__' in repr(t) and K('numpy') in t.args[1:]:
                    return K(t.args[0] == '==')
            if isinstance(t, T) and t.op == 'cmp' and t.args[0] in ('is', 'is not') and 'FakeQuantTensor' in repr(t):
                return K(t.args[0] == 'is not')
            if isinstance(t, T) and t.op == 'call' and 'isinstance' in repr(t.args[0]):
                return K(False)
            return None
        I.assume = f
        cls = I.lookup(BASE + '.Tensor')
        try:
            inst = I.instantiate(st, cls, [x, I.sym('name')], {'has_buffer': K(q)}, None, None)
        finally:
            I.assume = None
        b = I.getattr(st, inst, 'buffer')
        if q:
            data = I.frz(st, I.getattr(st, b, 'data')) if isinstance(b, Ref) else None
            ok = data is not None and data == T('call', (T('attr', (x, 'tobytes')), (), ())) or (
                data is not None and 'tobytes' in repr(data) and '$array' in repr(data))
        else:
            ok = b == NONE
        ctx.expect(ok, 'buffer', 'Tensor.__init__', where(BASE + '.Tensor.__init__'),
                   'buffer of a tensor created with has_buffer=%s is %s' % (q, b), instance='Tensor(has_buffer=%s)' % q)
        for a, w in (('shape', 'shape'), ('dtype', 'dtype')):
            v = I.frz(st, I.getattr(st, inst, a))
            ctx.expect(v == T('attr', (x, w)), 'tensor', 'Tensor.__init__:%s' % a, where(BASE + '.Tensor.__init__'),
                       '%s of a tensor is %s' % (a, v), instance='Tensor(has_buffer=%s).%s' % (q, a))
        ctx.expect(I.getattr(st, inst, 'name') == I.sym('name'), 'tensor', 'Tensor.__init__:name',
                   where(BASE + '.Tensor.__init__'), 'name is not the given one', instance='Tensor(%s).name' % q)

    # SubGraph / Model
    def vec(h):
        x = fb.tables.get(h)
        if isinstance(x, tuple) and x[0] == 'vector':
            return x[1], list(reversed(x[3])), x[2]
        if isinstance(x, tuple) and x[0] == 'array':
            src, dt = asarray(x[1])
            return 'array:' + str(dt), list(src.args) if isinstance(src, T) and src.op == 'list' else src, None
        return None, x, None

    for cls, fields, kinds in (('SubGraph', {'inputs': 'Inputs', 'outputs': 'Outputs', 'tensors': 'Tensors', 'operators': 'Operators'},
                                {'Inputs': 'array:int32', 'Outputs': 'array:int32', 'Tensors': 'SubGraph.Tensors', 'Operators': 'SubGraph.Operators'}),
                               ('Model', {'buffers': 'Buffers', 'opcodes': 'OperatorCodes', 'subgraphs': 'Subgraphs'},
                                {'Buffers': 'Model.Buffers', 'OperatorCodes': 'Model.OperatorCodes', 'Subgraphs': 'Model.Subgraphs'})):
        fb.reset()
        st = State()
        inst = I.instantiate(st, I.lookup(BASE + '.' + cls), [], {}, None, None)
        for a in fields:
            items = [I.sym('%s%d' % (a, i)) for i in range(3)]
            I.setattr(st, inst, a, I.new_list(st, items), None, None)
        I.assume = type_assume
        r = I.call(st, I.getattr(st, inst, 'build'), [fb.builder], {}, None, None)
        I.assume = None
        t = fb.tables.get(I.frz(st, r))
        loc = where('%s.%s.build' % (BASE, cls))
        rule = 'subgraph' if cls == 'SubGraph' else 'model'
        if getattr(t, 'name', None) != cls:
            ctx.finding(rule, cls, loc, 'build() does not return a %s table' % cls)
            continue
        for a, f in fields.items():
            k, items, n = vec(t.value(f))
            want = [I.sym('%s%d' % (a, i)) for i in range(3)]
            ok = items == want and k is not None and (k == kinds[f] or k.startswith('array') and kinds[f].startswith('array') and k == kinds[f])
            if ok and n is not None:
                ok = n == K(3)
            ctx.expect(ok, rule, '%s.%s' % (cls, f), loc, 'written as %s %s (count %s), expected %s in order' % (k, items, n, a))
        if cls == 'Model':
            ctx.expect(t.value('Version') == K(3), rule, 'Model.Version', loc, 'file version %s, the runtime reads version 3' % t.value('Version'))
        for e in fb.errors:
            ctx.finding(rule, cls + ':builder', loc, e)

    graph_level(ctx, I, fb, where)
    ctx.use(I)


def graph_level(ctx, I, fb, where):
    tab = load_table('tflite_schema.json')
    # build_model: order of the offset lists
    loc = where(GRAPH + '.build_model')
    st = State()
    fb.reset()
    g = I.new_inst(st, I.lookup(GRAPH), {}, open=I.sym('graph'))
    mk = lambda n: I.new_list(st, [I.sym('%s%d' % (n, i)) for i in range(2)])
    I.events.clear()
    I.assume = type_assume
    builders = []

    def hook(I2, st2, fn, args, kwargs, node, mod):
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] == 'flatbuffers.Builder':
            builders.append(1)
            return fb.builder
        return NotImplemented
    I.hooks.insert(0, hook)
    try:
        r = I.call(st, I.getattr(st, g, 'build_model'), [mk('op'), mk('tensor'), mk('buffer'),
                                                        I.new_list(st, [I.sym('in0'), I.sym('in1')]),
                                                        I.new_list(st, [I.sym('out0'), I.sym('out1')])], {}, None, None)
    finally:
        I.hooks.pop(0)
        I.assume = None
    models = [(h, t) for h, t in fb.tables.items() if getattr(t, 'name', None) == 'Model']
    subs = [(h, t) for h, t in fb.tables.items() if getattr(t, 'name', None) == 'SubGraph']
    ok = len(models) == 1 and len(subs) == 1
    ctx.expect(ok, 'model', 'build_model', loc, 'builds %d models and %d sub-graphs' % (len(models), len(subs)))
    if ok:
        mh, m = models[0]
        sh, s = subs[0]

        def items(h):
            x = fb.tables.get(h)
            if isinstance(x, tuple) and x[0] == 'vector':
                return list(reversed(x[3]))
            if isinstance(x, tuple) and x[0] == 'array':
                src, _ = asarray(x[1])
                return list(src.args) if isinstance(src, T) and src.op == 'list' else [src]
            return None

        def b(n, attr=None):
            base = I.sym(n)
            if attr:
                base = T('attr', (base, attr))
            return T('call', (T('attr', (base, 'build')), (fb.builder,), ()))
        want = {
            ('Model', 'Buffers'): [b('buffer0'), b('buffer1')],
            ('Model', 'OperatorCodes'): [b('op0', 'op'), b('op1', 'op')],
            ('Model', 'Subgraphs'): [sh],
            ('SubGraph', 'Tensors'): [b('tensor0'), b('tensor1')],
            ('SubGraph', 'Operators'): [b('op0'), b('op1')],
            ('SubGraph', 'Inputs'): [I.sym('in0'), I.sym('in1')],
            ('SubGraph', 'Outputs'): [I.sym('out0'), I.sym('out1')],
        }
        for (t, f), w in want.items():
            got = items((m if t == 'Model' else s).value(f))
            ctx.expect(got == w, 'model', 'build_model:%s.%s' % (t, f), loc, 'written as %s, expected %s' % (got, w))
        fin = [e for e in I.events if isinstance(e.fn, T) and e.fn.op == 'attr' and e.fn.args == (fb.builder, 'Finish')]
        ctx.expect(len(fin) == 1 and fin[0].args[:1] == [mh] and len(fin[0].args) > 1 and fin[0].args[1] == K(b'TFL3'), 'model',
                   'build_model:Finish', loc, 'file finished with %s' % [e.args for e in fin])
        r = I.frz(st, r)
        ctx.expect(isinstance(r, T) and r.op == 'call' and r.args[0] == T('attr', (fb.builder, 'Output')), 'model',
                   'build_model:Output', loc, 'returns %s instead of the finished file' % (r,))

    # collect_operators: index of the operator code and of the tensors
    loc = where(GRAPH + '.collect_operators')
    st = State()
    opc = I.lookup(BASE + '.BaseOperator')
    occ = I.lookup(BASE + '.OpCode')
    ops = []
    for i in range(3):
        code = I.new_inst(st, occ, {'code': I.sym('code%d' % i), 'version': K(1), 'index': K(0), 'custom_code': NONE})
        tens = {k: I.new_list(st, [I.new_inst(st, I.lookup(BASE + '.Tensor'), {'index': I.sym('%s%d_%d' % (k, i, j)), 'name': I.sym('n')})
                                   for j in range(2)]) for k in ('inputs', 'outputs', 'intermediates')}
        ops.append(I.new_inst(st, opc, dict(op=code, **tens), open=None))
    g = I.new_inst(st, I.lookup(GRAPH), {}, open=I.sym('graph'))
    r = I.call(st, I.getattr(st, g, 'collect_operators'), [I.new_list(st, ops)], {}, None, None)
    res = I.iter_known(st, r)
    res = list(res[0]) if res else None
    ctx.expect(res == ops, 'index', 'collect_operators:order', loc, 'operators are returned as %s' % (res,))
    for i, o in enumerate(ops):
        idx = I.getattr(st, I.getattr(st, o, 'op'), 'index')
        ctx.expect(idx == K(i), 'index', 'collect_operators:opcode', loc, 'operator %d refers to operator code %s' % (i, idx),
                   instance='collect_operators:opcode%d' % i)
        for k, a in (('inputs', 'tfl_inputs_idx'), ('outputs', 'tfl_outputs_idx'), ('intermediates', 'tfl_intermediates_idx')):
            v = I.iter_known(st, I.getattr(st, o, a))
            w = [I.sym('%s%d_%d' % (k, i, j)) for j in range(2)]
            ctx.expect(v is not None and list(v[0]) == w and not v[1], 'index', 'collect_operators:' + a, loc,
                       '%s of an operator are the tensors %s, expected %s' % (k, v, w), instance='collect_operators:%s%d' % (a, i))

    # collect_tensor_buffers: tensor i of the list has index i, buffer of index j is entry j
    loc = where(GRAPH + '.collect_tensor_buffers')
    for order in (['x', 'w', 'v', 'y', 'o', 'w2', 'v2'], ['v2', 'y', 'o', 'v', 'w2', 'w', 'x']):
        st = State()
        tcls, bcls = I.lookup(BASE + '.Tensor'), I.lookup(BASE + '.Buffer')
        mkb = lambda n: I.new_inst(st, bcls, {'data': I.sym('data_' + n), 'index': K(0)})
        spec = {'x': (False, None, 0), 'w': (False, 'b', 0), 'v': (True, 'b', 0), 'y': (False, None, 0), 'o': (False, None, -1),
                'w2': (False, 'b', 0), 'v2': (True, 'b', 0), 'u1': (False, None, 0), 'u2': (False, None, 0), 'u3': (False, None, 0)}
        T_ = {n: I.new_inst(st, tcls, {'name': K(n), 'index': K(ix), 'is_variable': K(var), 'buffer': mkb(n) if bf else NONE,
                                       'shape': I.sym('sh'), 'dtype': I.sym('dt'), 'quantization': NONE})
              for n, (var, bf, ix) in spec.items()}
        g = I.new_inst(st, I.lookup(GRAPH), {'inputs': I.new_list(st, [K(n) for n in ('u1', 'x', 'u2', 'u3')]),
                                             'outputs': I.new_list(st, [K('y'), K('x'), K('y')]),
                                             'tensor_map': I.new_dict(st, [(K(n), v) for n, v in T_.items()])})
        r = I.call(st, I.getattr(st, g, 'collect_tensor_buffers'), [I.new_list(st, [K(n) for n in order])], {}, None, None)
        parts = [I.iter_known(st, x) for x in (r.items if isinstance(r, Tup) else ())]
        if len(parts) != 4 or any(p is None for p in parts):
            raise AnalysisBroken('collect_tensor_buffers: result not understood: %s' % r)
        tensors, buffers, ii, oi = [list(p[0]) for p in parts]
        tag = ''.join(order)
        want = [T_[n] for n in order if n != 'o'] + [T_[n] for n in ('u1', 'u2', 'u3')]
        ctx.expect(sorted(map(repr, tensors)) == sorted(map(repr, want)), 'index', 'collect_tensor_buffers:tensors', loc,
                   'tensors collected: %s' % tensors, instance='tensors:' + tag)
        for p, t in enumerate(tensors):
            ctx.expect(I.getattr(st, t, 'index') == K(p), 'index', 'collect_tensor_buffers:tensor-index', loc,
                       'tensor at position %d has index %s' % (p, I.getattr(st, t, 'index')), instance='tindex%d:%s' % (p, tag))
        for w in ('w', 'w2'):
            wb = I.getattr(st, T_[w], 'buffer')
            bi = I.getattr(st, wb, 'index')
            ctx.expect(isinstance(bi, K) and 0 < bi.v < len(buffers) and buffers[bi.v] == wb, 'index',
                       'collect_tensor_buffers:buffer-index', loc, 'constant tensor refers to buffer %s of %d' % (bi, len(buffers)),
                       instance='bindex:' + w + tag)
        b0 = buffers[0] if buffers else None
        ctx.expect(b0 is not None and I.frz(st, I.getattr(st, b0, 'data')) in (K(b''),) or 'bytes' in repr(I.frz(st, I.getattr(st, b0, 'data'))),
                   'index', 'collect_tensor_buffers:empty-buffer', loc, 'buffer 0 is not the empty buffer', instance='b0:' + tag)
        for v in ('v', 'v2'):
            vb = I.getattr(st, I.getattr(st, T_[v], 'buffer'), 'index')
            ctx.expect(vb == K(0), 'index', 'collect_tensor_buffers:variable', loc, 'variable tensor refers to buffer %s' % vb,
                       instance='var:' + v + tag)
        ix = {n: I.getattr(st, T_[n], 'index') for n in T_}
        ctx.expect(ii == [ix['u1'], ix['x'], ix['u2'], ix['u3']] and oi == [ix['y'], ix['x'], ix['y']], 'index', 'collect_tensor_buffers:io', loc,
                   'graph inputs %s outputs %s, tensors %s' % (ii, oi, ix), instance='io:' + tag)
        ctx.expect(ix['o'] == K(-1), 'index', 'collect_tensor_buffers:optional', loc, 'an optional tensor got index %s' % ix['o'],
                   instance='opt:' + tag)
