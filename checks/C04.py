"""C04: every target operator is serialised under its own code and with its own options."""
import ast, re
from sa.framework import load_table
from sa.interp import State, K, T, Cls, Ref, Dead, subterms, NONE
from sa.fb import FB
from sa.repo import AnalysisBroken

TITLE = 'operator serialisation'
EXPLANATION = ('For each operator class the constructor and build() are executed abstractly with symbolic arguments and an '
               'abstract flatbuffer builder; the resulting Operator/OperatorCode/options tables are compared field by field '
               'with the file format (frozen from the runtime\'s schema): operator code, options table, option type tag, each '
               'constructor option in the field of its name, input/output/intermediate lists, vector element types.')
GEN = 'tinynn.converter.operators.tflite.generated_ops'
CUS = 'tinynn.converter.operators.tflite.custom'
LATER = {'QuantizedBiasType', 'Offset'}      # fields added to the format after the analysed schema version
DT = {'Int32Flags': 'int32', 'Int64Flags': 'int64', 'Float32Flags': 'float32', 'Uint8Flags': 'uint8', 'Int8Flags': 'int8'}


def asarray(v):
    """(source term, dtype) of the array handed to CreateNumpyVector"""
    if isinstance(v, T) and v.op == 'call' and isinstance(v.args[0], T) and v.args[0].op == 'ext' \
            and v.args[0].args[0] in ('numpy.asarray', 'numpy.array'):
        kw = dict(v.args[2])
        d = kw.get('dtype')
        if d is None and len(v.args[1]) > 1:
            d = v.args[1][1]
        if isinstance(d, K):
            d = d.v
        elif d is not None:
            d = repr(d).split('.')[-1]
        return v.args[1][0], d
    return v, None


def build(I, fb, cname, st=None):
    fb.reset()
    I.events.clear()
    st = st or State()
    c = I.lookup(cname)
    init, _ = I.class_attr(c, '__init__')
    if init is None:
        raise AnalysisBroken('%s has no constructor' % cname)
    ps = [a.arg for a in init.node.args.args][1:] + [a.arg for a in init.node.args.kwonlyargs]
    syms = {p: I.sym('arg:' + p) for p in ps}
    I.assume = lambda t: K(False) if t == syms_none(t, syms) else None
    npos = len(init.node.args.args) - 1
    inst = I.instantiate(st, c, [syms[p] for p in ps[:npos]], {p: syms[p] for p in ps[npos:]}, None, None)
    return st, c, init, ps, syms, inst


def syms_none(t, syms):
    # a constructor argument is given (not None)
    if isinstance(t, T) and t.op == 'cmp' and t.args[0] in ('is', '==') and K(None) in t.args[1:] and \
            any(s in t.args[1:] for s in syms.values()):
        return t
    return None


def run(ctx):
    tab = load_table('tflite_schema.json')
    ops = load_table('ops.json')
    opcodes = tab['enums']['BuiltinOperator']
    optnames = {v: k for k, v in tab['enums']['BuiltinOptions'].items()}
    I = ctx.interp()
    fb = FB(I, tab['tables'])
    ctx.rule('opcode', 'the operator code of the class is the one of its target operator', 140)
    ctx.rule('options-type', 'the options tag written is the one of the options table written, and belongs to the operator', 140)
    ctx.rule('option-field', 'each option is written exactly once, unconditionally, from the constructor argument of that name', 120)
    ctx.rule('operator-table', 'inputs, outputs, intermediates and operator-code index are the operator\'s own', 140)
    ctx.rule('custom-op', 'custom operators write every constructor option under its own key and their own custom code', 2)
    ctx.rule('opcode-table', 'OperatorCode carries the code (8-bit field only when it fits), version and custom code', 4)

    m = I.repo.module(GEN)
    classes = [n for n, d in m.defs.items() if isinstance(d, ast.ClassDef) and n in ops]
    for n in ops:
        if n not in m.defs:
            ctx.skip(n, 'operator class no longer defined')
    for cname in classes:
        node = m.defs[cname]
        where = '%s:%d' % (m.rel(), node.lineno)
        st, c, init, ps, syms, inst = build(I, fb, GEN + '.' + cname)
        op = I.getattr(st, inst, 'op')
        code = I.getattr(st, op, 'code')
        want = opcodes[ops[cname]['op']]
        ctx.expect(isinstance(code, K) and code.v == want, 'opcode', cname, where,
                   'operator code %s, expected %s (%d)' % (code, ops[cname]['op'], want))
        ins = I.getattr(st, inst, 'inputs')
        outs = I.getattr(st, inst, 'outputs')
        if ps[:2] == ['inputs', 'outputs']:
            ctx.expect(ins == syms['inputs'] and outs == syms['outputs'], 'operator-table', cname + ':io', where,
                       'inputs/outputs of the operator are not the constructor arguments: %s, %s' % (ins, outs))
        for a in ('tfl_inputs_idx', 'tfl_outputs_idx', 'tfl_intermediates_idx'):
            I.setattr(st, inst, a, I.sym(a), None, None)
        I.setattr(st, op, 'index', I.sym('op_index'), None, None)
        I.assume = lambda t: type_assume(t)
        if cname == 'CustomOperator':
            I.setattr(st, inst, 'custom_options', I.sym('custom_options'), None, None)
        try:
            r = I.call(st, I.getattr(st, inst, 'build'), [fb.builder], {}, None, None)
        except Dead as d:
            ctx.finding('operator-table', cname, where, 'build() always fails (%s)' % str(getattr(d, 'exc', d))[:100])
            continue
        finally:
            I.assume = None
        r = I.frz(st, r)
        t = fb.tables.get(r)
        if t is None or getattr(t, 'name', None) != 'Operator':
            ctx.finding('operator-table', cname, where, 'build() does not return an Operator table (%s)' % (r,))
            continue
        tfl_op = I.getattr(st, inst, 'tfl_op')
        operator_fields(ctx, fb, t, cname, where)
        # options
        tag = t.value('BuiltinOptionsType')
        tag = tag.v if isinstance(tag, K) else (0 if 'BuiltinOptionsType' not in t.fields else None)
        opt = t.value('BuiltinOptions')
        ot = fb.tables.get(opt)
        oname = ops[cname]['options']
        ctx.ob('options-type', cname)
        if oname in ('NONE', None):
            if tag not in (0, None) or ot is not None:
                ctx.finding('options-type', cname, where, 'writes builtin options (%s) for an operator without options' % tag)
        elif ot is None:
            ctx.finding('options-type', cname, where, 'no options table is written (%s expected)' % oname)
        elif ot.name != oname or optnames.get(tag) != oname:
            ctx.finding('options-type', cname, where, 'writes table %s under tag %s, expected %s'
                        % (ot.name, optnames.get(tag, tag), oname))
        else:
            fields = set(tab['tables'][oname]['fields'])
            for f in sorted(fields):
                inst_n = '%s.%s' % (cname, f)
                if f not in ot.fields:
                    if f in LATER:
                        continue
                    ctx.ob('option-field', inst_n)
                    ctx.finding('option-field', inst_n, where, 'field %s of %s is never written' % (f, oname))
                    continue
                ctx.ob('option-field', inst_n)
                v = ot.value(f)
                p = f[0].lower() + f[1:]
                if v is None:
                    ctx.finding('option-field', inst_n, where, 'field %s is written %d times / under a condition'
                                % (f, len(ot.fields[f])))
                    continue
                ok = p in syms and v == syms[p]
                why = 'field %s is written from %s, expected the option %s' % (f, v, p)
                h = fb.tables.get(v)
                if isinstance(h, tuple) and h[0] == 'array':
                    src, dt = asarray(h[1])
                    ok = p in syms and src == syms[p]
                    why = 'field %s is written from %s, expected the option %s' % (f, src, p)
                    fl = tab['readers'].get(oname, {}).get(f, {}).get('flags')
                    if ok and f + 'Length' not in tab['readers'].get(oname, {}):
                        ok, why = False, 'field %s is no vector, but an array is written' % f
                    elif ok and fl and fl[0] in DT and dt != DT[fl[0]]:
                        ok, why = False, 'field %s has element type %s, the file format stores %s' % (f, dt, DT[fl[0]])
                elif isinstance(h, tuple) and h[0] == 'string':
                    ok = p in syms and h[1] == syms[p] and f + 'Length' not in tab['readers'].get(oname, {})
                    why = 'field %s is written from the string %s, expected the option %s' % (f, h[1], p)
                if not ok:
                    ctx.finding('option-field', inst_n, where, why)
        for e in fb.errors:
            ctx.finding('operator-table', cname, where, 'malformed builder calls: %s' % e)

    # custom operators
    cm = I.repo.module(CUS)
    cb = I.lookup(GEN + '.CustomOperator')
    for cname, node in cm.defs.items():
        if not isinstance(node, ast.ClassDef):
            continue
        c = I.lookup(CUS + '.' + cname)
        if cb not in c.mro:
            continue
        where = '%s:%d' % (cm.rel(), node.lineno)
        I.assume = lambda t: K(True) if isinstance(t, T) and 'HAS_FLEXBUFFER' in repr(t) else None
        st, c, init, ps, syms, inst = build(I, fb, CUS + '.' + cname)
        I.assume = None
        op = I.getattr(st, inst, 'op')
        code = I.getattr(st, op, 'code')
        cc = I.getattr(st, op, 'custom_code')
        want = {'TFLiteDetectionPostprocessOperator': 'TFLITE_DETECTION_POSTPROCESS',
                'MTKTransposeConvOperator': 'MTK_TRANSPOSE_CONV'}.get(cname)
        ctx.expect(isinstance(code, K) and code.v == opcodes['CUSTOM'] and isinstance(cc, K)
                   and (cc.v == want if want else isinstance(cc.v, str)), 'custom-op', cname, where,
                   'custom operator has code %s / custom code %s (expected %s)' % (code, cc, want))
        I.events.clear()
        fb.reset()
        for a in ('tfl_inputs_idx', 'tfl_outputs_idx', 'tfl_intermediates_idx'):
            I.setattr(st, inst, a, I.sym(a), None, None)
        I.setattr(st, op, 'index', I.sym('op_index'), None, None)
        I.assume = lambda t: type_assume(t)
        r = I.call(st, I.getattr(st, inst, 'build'), [fb.builder], {}, None, None)
        I.assume = None
        written = {}
        seen_calls = set()
        for e in I.events:
            if e.kind == 'call' and isinstance(e.fn, T) and e.fn.op == 'attr' and 'flexbuffers' in repr(e.fn.args[0]):
                mth = e.fn.args[1]
                if id(e.node) in seen_calls:
                    continue                # the same call analysed for both import alternatives
                seen_calls.add(id(e.node))
                if mth in ('Int', 'Float', 'Bool', 'UInt', 'String') and len(e.args) == 2 and isinstance(e.args[0], K):
                    written.setdefault(e.args[0].v, []).append(e.args[1])
                elif mth == 'MapFromElements':
                    d = I.frz(e_state(e, st), e.args[0])
                    for s in ([d] if True else ()):
                        for k, v in dict_items(d):
                            written.setdefault(k, []).append(v)
        for p in ps:
            if p in ('inputs', 'outputs'):
                continue
            key = [k for k in written if snake(k) == p]
            ctx.expect(len(key) == 1 and written[key[0]] == [syms[p]], 'custom-op', '%s.%s' % (cname, p), where,
                       'option %s is written as %s' % (p, {k: [str(x) for x in v] for k, v in written.items()
                                                          if syms[p] in v or k in key}))
        t = fb.tables.get(I.frz(st, r))
        if getattr(t, 'name', None) != 'Operator':
            ctx.finding('custom-op', cname + ':table', where, 'build() does not return an Operator table')
            continue
        operator_fields(ctx, fb, t, cname, where)
        b = t.fields.get('CustomOptions')
        h = fb.tables.get(b[0][1]) if b else None
        ctx.expect(isinstance(h, tuple) and h[0] == 'bytes' and 'Finish' in repr(h[1]), 'custom-op', cname + ':options',
                   where, 'custom options written are %s' % (h,))
        f = t.fields.get('CustomOptionsFormat')
        ctx.expect(bool(f) and isinstance(f[0][1], K) and f[0][1].v == 0, 'custom-op', cname + ':format', where,
                   'custom options format is %s' % (f,))

    # OperatorCode
    base = 'tinynn.converter.operators.tflite.base.OpCode'
    node = I.lookup(base).node
    where = 'tinynn/converter/operators/tflite/base.py:%d' % node.lineno
    for small, custom in ((True, False), (True, True), (False, False), (False, True)):
        fb.reset()
        st = State()
        code = K(17) if small else K(150)
        inst = I.instantiate(st, I.lookup(base), [code, I.sym('version'), I.sym('custom') if custom else K(None)], {}, None, None)
        I.assume = lambda t: type_assume(t) or (K(t.args[0] in ('is not', '!=')) if isinstance(t, T) and t.op == 'cmp'
                                                and K(None) in t.args[1:] else None)
        r = I.call(st, I.getattr(st, inst, 'build'), [fb.builder], {}, None, None)
        I.assume = None
        t = fb.tables.get(I.frz(st, r))
        name = 'OpCode(code=%s, custom=%s)' % (code, custom)
        ok = getattr(t, 'name', None) == 'OperatorCode' and t.value('BuiltinCode') == code and \
            t.value('Version') == I.sym('version')
        dep = t.fields.get('DeprecatedBuiltinCode') if t is not None else None
        if ok and small:
            ok = t.value('DeprecatedBuiltinCode') == code
        if ok and not small:
            ok = not dep or (isinstance(dep[0][1], K) and dep[0][1].v <= 127)
        if ok:
            h = fb.tables.get(t.value('CustomCode'))
            ok = (h == ('string', I.sym('custom'))) if custom else 'CustomCode' not in t.fields or t.value('CustomCode') == K(0)
        ctx.expect(ok, 'opcode-table', name, where, 'OperatorCode written as %s' % (
            {k: [str(x[1]) for x in v] for k, v in t.fields.items()} if t is not None else None))
    ctx.use(I)


def operator_fields(ctx, fb, t, cname, where):
    want = {'OpcodeIndex': 'op_index', 'Inputs': 'tfl_inputs_idx', 'Outputs': 'tfl_outputs_idx',
            'Intermediates': 'tfl_intermediates_idx'}
    ctx.ob('operator-table', cname)
    for f, w in want.items():
        v = t.value(f)
        h = fb.tables.get(v)
        if isinstance(h, tuple) and h[0] == 'array':
            v, dt = asarray(h[1])
            if dt != 'int32':
                ctx.finding('operator-table', '%s.%s' % (cname, f), where, 'index vector written as %s' % dt)
        if f == 'Intermediates' and f not in t.fields:
            ctx.finding('operator-table', '%s.%s' % (cname, f), where, 'intermediate tensors are not written')
            continue
        if v != T('sym', (w,)):
            ctx.finding('operator-table', '%s.%s' % (cname, f), where, 'field %s is written from %s, expected %s' % (f, v, w))


def type_assume(t):
    """type tests inside the builder helpers succeed (their failure aborts the build)"""
    if isinstance(t, T) and t.op == 'cmp' and t.args[0] in ('in', 'not in', '==', 'is', '!=', 'is not') and 'type(' in repr(t):
        # type(x) tests: 'type(vec) not in (tuple, list)' -> accept
        return K(t.args[0] in ('in', '==', 'is'))
    return None


def e_state(e, st):
    return st


def dict_items(d):
    if isinstance(d, T) and d.op == 'dict':
        for it in d.args:
            pass
    out = []
    for s in subterms(d):
        if isinstance(s, T) and s.op in ('dict', 'dict<>'):
            for x in s.args:
                x = list(x) if isinstance(x, tuple) else x
                if isinstance(x, list):
                    if len(x) == 2 and not isinstance(x[0], (list, tuple)):
                        x = [x]
                    for kv in x:
                        if len(kv) == 2 and isinstance(kv[0], K):
                            out.append((kv[0].v, kv[1]))
                elif hasattr(x, 'items') and len(getattr(x, 'items', ())) == 2:
                    k, v = x.items
                    if isinstance(k, K):
                        out.append((k.v, v))
            break
    return out


def snake(s):
    return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', s).lower()
