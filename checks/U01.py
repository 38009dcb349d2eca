"""U01: user-supplied objects are not modified behind the user's back."""
import ast
import os
from sa.framework import parallel
from sa.interp import State, K, T, Tup, Ref, Bi, NONE, TRUE, FALSE, Dead, Cls, Fn
from sa.arr import Arr, Unk, NoShape
from sa.modules import Modules
from sa.repo import AnalysisBroken

TITLE = "user-supplied objects are not modified behind the user's back"
EXPLANATION = ('Abstract interpretation of the helpers over trees of modules (own model of torch.nn.Module: training flags, shared submodules, hooks, fake-quantiser switches) for every kind of mix of training '
               'modes: after error analysis, code checking and mode preservation, each module has the mode, the switches and the hooks it had. BN restoration works on copies. The traversal helpers are '
               'interpreted on nested structures and compared with the flattening in order; written configuration objects and lazily built arguments keep each value under its own key.')
QA = 'tinynn.util.quantization_analysis_util.'
QM = 'tinynn.graph.quantization.quantizer.'
TR = 'tinynn.graph.tracer.'
BR = 'tinynn.util.bn_restore.'
UT = 'tinynn.util.util.'
CU = 'tinynn.util.converter_util.'
NAMES = ('', 'a', 'a.fq1', 'a.bn', 'b', 'b.shared', 'b.shared.fq', 'b.fq2', 'c')
MODES = [{n: True for n in NAMES}, {n: False for n in NAMES}]
for _off in ('a.bn', 'a', 'b.shared', '', 'c', 'b'):
    MODES.append({n: n != _off for n in NAMES})
    MODES.append({n: n == _off for n in NAMES})


class Bench(Modules):
    def __init__(self, ctx):
        super().__init__(ctx)
        I = self.I
        I.max_rec = 30
        I.strict = True
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'models')
        I.repo.add_model('verif_um', os.path.join(d, 'um.py'))
        I.repo.add_model('verif_std', os.path.join(d, 'std.py'))
        g = lambda n: self.need('verif_um.' + n)
        for n in ('Module', 'Sequential', 'Conv1d', 'Conv2d', 'BatchNorm1d', 'BatchNorm2d'):
            I.known_ext['torch.nn.' + n] = g(n)
            I.known_ext['torch.nn.modules.' + n] = g(n)
        for n in ('FakeQuantize', 'disable_fake_quant', 'disable_observer', 'enable_fake_quant', 'enable_observer'):
            for p in ('torch.quantization.', 'torch.ao.quantization.', 'torch.quantization.fake_quantize.', 'torch.ao.quantization.fake_quantize.'):
                I.known_ext[p + n] = g(n)
        I.known_ext['torch.quantization.FakeQuantizeBase'] = I.known_ext['torch.ao.quantization.FakeQuantizeBase'] = g('FakeQuantize')
        I.known_ext['torch.Tensor'] = g('Tensor')
        for n in ('Queue', 'LifoQueue', 'deque'):
            I.known_ext['queue.' + n] = I.known_ext['collections.' + n] = self.need('verif_std.' + n)
        I.hooks.insert(0, self.uhook)
        self.calls = {}
        self.dumped = None
        self.extra()

    def extra(self):
        pass

    def need(self, q):
        v = self.I.lookup(q)
        if v is None:
            raise AnalysisBroken('%s not found' % q)
        return v

    def uhook(self, I, st, fn, args, kwargs, node, mod):
        if isinstance(fn, Ref):
            o = I.obj(st, fn)
            if o.cls is not None and 'verif_um.' in str(o.cls):
                return I.call(st, I.getattr(st, fn, '__call__'), args, kwargs, node, mod)
        if isinstance(fn, T) and fn.op == 'ext':
            n = fn.args[0]
            if n == 'json.dump' and args:
                self.dumped = args[0]
                return NONE
            if n in ('collections.OrderedDict', 'OrderedDict'):
                return I.call(st, Bi('dict'), args, kwargs, node, mod)
            if n == 'torch.jit.trace':
                return self.opaque
            if n.startswith('os.') and n != 'os.path.join':
                return FALSE
        if isinstance(fn, T) and fn.op == 'attr' and fn.args[1] == '__dir__' and isinstance(fn.args[0], K):
            return I.new_list(st, [K(x) for x in dir(fn.args[0].v)])
        if isinstance(fn, Fn) and fn in self.calls:
            return self.calls[fn](st, args, kwargs)
        return NotImplemented


def new(B, st, kind, *args, **kw):
    return B.I.norm(st, B.I.call(st, B.need('verif_um.' + kind), list(args), kw, None, None))


def tree(B, st, modes, switches=(1, 1)):
    """Root{a{fq1, bn}, b{shared{fq}, fq2}, c{shared}}; the same module under b and c"""
    on, ob = [K(x) for x in switches]
    m = {'a.fq1': new(B, st, 'FakeQuantize', on, ob), 'a.bn': new(B, st, 'BatchNorm2d', K(4)), 'b.shared.fq': new(B, st, 'FakeQuantize', K(1), K(1)), 'b.fq2': new(B, st, 'FakeQuantize', K(1 - on.v), K(1 - ob.v))}
    m['a'] = new(B, st, 'Sequential', fq1=m['a.fq1'], bn=m['a.bn'])
    m['b.shared'] = new(B, st, 'Sequential', fq=m['b.shared.fq'])
    m['b'] = new(B, st, 'Sequential', shared=m['b.shared'], fq2=m['b.fq2'])
    m['c'] = new(B, st, 'Sequential', shared=m['b.shared'])
    m[''] = new(B, st, 'Module', a=m['a'], b=m['b'], c=m['c'])
    for n, v in m.items():
        B.I.setattr(st, v, 'training', K(modes[n]), None, None)
    return m


def at(B, st, v, n):
    o = B.I.obj(st, B.I.norm(st, v))
    return None if o is None or o.attrs is None or n not in o.attrs else B.I.norm(st, o.attrs[n])


def observe(B, st, m):
    """what the user can see of each module: name -> (mode, switches, number of hooks, children)"""
    r = {}
    for n, v in m.items():
        h = B.I.iter_known(st, at(B, st, v, 'hooks'))
        if h is None or h[1]:
            raise Unk('hooks of %s' % n)
        sw = []
        for k in ('fake_quant_enabled', 'observer_enabled'):
            f = at(B, st, v, k)
            if f is not None:
                x = at(B, st, f, 'v')
                if not isinstance(x, K):
                    raise Unk('%s of %s is %s' % (k, n, x))
                sw.append(x.v)
        t = at(B, st, v, 'training')
        if not isinstance(t, K):
            raise Unk('the mode of %s is %s' % (n, t))
        o = B.I.obj(st, B.I.norm(st, v))
        kids = tuple((k, B.I.norm(st, x)) for k, x in o.attrs.items() if isinstance(B.I.norm(st, x), Ref) and k not in ('hooks', 'fake_quant_enabled', 'observer_enabled'))
        u = at(B, st, v, 'updates')
        if u is not None and not isinstance(u, K):
            raise Unk('statistics of %s' % n)
        r[n] = (t.v, tuple(sw), len(h[0]), kids, None if u is None else u.v)
    return r


def differ(a, b, bad, after, only=None):
    for n in a:
        for i, w in ((0, 'training mode'), (1, 'fake-quantiser and observer switches'), (2, 'number of hooks'), (3, 'submodules'), (4, 'number of updates of the statistics')):
            if a[n][i] != b[n][i] and (i < 4 or only is None or n in only):
                x, y = a[n][i], b[n][i]
                if i == 3:
                    x, y = [k for k, _ in x], [k for k, _ in y]
                bad.append('after %s the %s of module "%s" are %s instead of %s' % (after, w, n, y, x) if i else
                           'after %s module "%s" is in %s mode instead of %s mode' % (after, n, 'training' if y else 'evaluation', 'training' if x else 'evaluation'))
                return


class Item:
    def __init__(self, rule, fn, name, **kw):
        self.rule, self.fn, self.what = rule, fn, name
        self.__dict__.update(kw)

    def name(self):
        return '%s: %s' % (self.fn.rpartition('.')[2], self.what)


def modename(m):
    t = [n or 'root' for n in NAMES if m[n]]
    if len(t) == len(NAMES) or not t:
        return 'all modules in %s mode' % ('training' if t else 'evaluation')
    return ('all but %s in training mode' % ', '.join(n or 'root' for n in NAMES if not m[n])) if len(t) > len(NAMES) // 2 else 'only %s in training mode' % ', '.join(t)


def items():
    r = []
    for m in MODES:
        for sw in ((1, 1), (0, 1), (1, 0)):
            for inp in ('tensor', 'list', 'tuple'):
                if inp != 'tensor' and (sw != (1, 1) or m is not MODES[2]):
                    continue
                for fn in (QA + 'layer_error_analysis', QA + 'graph_error_analysis', QM + 'QATQuantizer.error_analysis'):
                    for metric in ('cosine', 'sqnr') if m is MODES[0] and not fn.startswith(QM) else (None,):
                        r.append(Item('analysis', fn, '%s, switches %s, input %s%s' % (modename(m), sw, inp, ', metric %s' % metric if metric else ''), mode=m, sw=sw, inp=inp, metric=metric))
        for cls in ('QATQuantizer', 'PostQuantizer'):
            r.append(Item('mode', QM + cls + '.restore_model_mode', modename(m), mode=m, cls=cls))
        r.append(Item('code-check', TR + 'TraceGraph.generate_code', modename(m), mode=m))
    for named in (None, ['a.conv'], ['d'], ['a.conv', 'd', 'b.e.x'], []):
        r.append(Item('copy', BR + 'model_restore_bn', 'layers %s' % named, named=named))
    x = lambda n: ('t', n)
    for s in (x('p'), [x('p'), x('q')], (x('p'), [x('q'), (x('r'),)]), {'k': x('p'), 'l': [x('q'), x('r')]}, [{'k': x('p')}, {'k': x('q')}], [[], x('p'), {}], [{'a': {'a': x('p')}, 'b': x('q')}, x('p')],
              ('rec', {'u': x('p'), 'v': [x('q')]}), [x('p'), ('rec', {'u': x('q'), 'n': 3, 's': 'x'}), x('r')], {'k': 'text', 'l': 3, 'm': x('p'), 'n': None}):
        r.append(Item('traversal', UT + 'tensors2ndarray', repr(s), struct=s))
    for n_in, n_out in ((1, 1), (2, 1), (3, 2), (1, 3)):
        for it, ot in ((None, None), (True, False), (False, None), ('list', 'tuple')):
            for off in range(len(SHAPES)):
                r.append(Item('config', CU + 'generate_converter_config', '%d inputs, %d outputs from %d, transpose %s / %s' % (n_in, n_out, off, it, ot), n_in=n_in, n_out=n_out, it=it, ot=ot, valid=True, off=off))
    for it, ot in (([True, False], None), (None, [True]), ([1], None), (None, [0, 1]), ('yes', None), (3, None), (None, 1.5)):
        r.append(Item('config', CU + 'generate_converter_config', 'transpose %r / %r for 1 input and 2 outputs' % (it, ot), n_in=1, n_out=2, it=it, ot=ot, valid=False, off=0))
    for out in ('t', ['t', 't'], ('t', ('t', 't')), (['t'], 't', ['t', 't'])):
        r.append(Item('config', CU + 'export_converter_files', 'model output %r' % (out,), out=out))
    for pos, kw in (((), {}), ((1, 'lazy', 'expr'), {}), ((), {'u': 1, 'v': 'lazy', 'w': 'expr'}), (('expr', 2), {'v': 'lazy', 'u': 'expr', 'w': 5})):
        r.append(Item('lazy', UT + 'LazyObject.get_next', 'positional %s, keywords %s' % (pos, kw), pos=pos, kw=kw))
    return r


def tensor(B, st, n, device='cpu'):
    return new(B, st, 'Tensor', K(n), K(device))


def entry(B, fn):
    c, _, m = fn.rpartition('.')
    v = B.I.lookup(c)
    if isinstance(v, Cls):
        f, _ = B.I.class_attr(v, m)
        if f is None:
            raise AnalysisBroken('%s not found' % fn)
        return f
    return B.need(fn)


def run_fn(B, st, fn, args, kw=None):
    return B.I.norm(st, B.I.call(st, entry(B, fn), args, kw or {}, None, None))


def seq(B, st, v, what):
    k = B.I.iter_known(st, v)
    if k is None or k[1]:
        raise Unk('%s: %s' % (what, v))
    return [B.I.norm(st, x) for x in k[0]]


def analysis_case(B, it, bad):
    I = B.I
    st = State()
    m = tree(B, st, it.mode, it.sw)
    x = [tensor(B, st, 'x', 'elsewhere')]
    dummy = x[0]
    if it.inp == 'list':
        dummy = I.new_list(st, list(x))
    elif it.inp == 'tuple':
        dummy = Tup(x)
    before = observe(B, st, m)
    args = [m[''], dummy]
    if it.fn.startswith(QM):
        args.insert(0, I.new_inst(st, B.need(QM + 'QATQuantizer'), {}))
    elif it.metric:
        args.append(K(it.metric))
    B.calls = {B.need('tinynn.util.train_util.get_module_device'): lambda st, a, k: K('cpu')}
    for n in ('cosine', 'sqnr', 'error_print'):
        f = I.lookup(QA + n)
        if f is not None and n == 'error_print':
            B.calls[f] = lambda st, a, k: NONE
    run_fn(B, st, it.fn, args)
    differ(before, observe(B, st, m), bad, 'the analysis')
    if it.inp == 'list' and seq(B, st, dummy, 'inputs') != x:
        bad.append('the list of inputs of the caller is changed')


def mode_case(B, it, bad):
    I = B.I
    st = State()
    m = tree(B, st, it.mode)
    q = I.new_inst(st, B.need(QM + it.cls), {'model': m[''], 'train_mode_dict': I.new_dict(st, [])})
    cls = QM + it.cls
    for rnd in range(2):
        before = observe(B, st, m)
        run_fn(B, st, cls + '.set_model_mode', [q], {'preserve': TRUE})
        want = it.cls == 'QATQuantizer'
        if any(x[0] != want for x in observe(B, st, m).values()):
            bad.append('set_model_mode leaves modules in %s mode' % ('evaluation' if want else 'training'))
            return
        run_fn(B, st, cls + '.restore_model_mode', [q])
        differ(before, observe(B, st, m), bad, 'restoring (round %d)' % rnd)
        # the user changes the mode of one module in between
        I.setattr(st, m['a.bn'], 'training', K(not it.mode['a.bn']), None, None)
        I.setattr(st, m['b.shared'], 'training', K(not it.mode['b.shared']), None, None)


def code_case(B, it, bad):
    I = B.I
    st = State()
    m = tree(B, st, it.mode)
    other = tree(B, st, MODES[0])
    cls = B.need(TR + 'TraceGraph')
    g = I.norm(st, I.call(st, cls, [m[''], I.new_list(st, [tensor(B, st, 'x')])], {}, None, None))
    B.calls = {}
    for n in [x.name for x in cls.node.body if isinstance(x, ast.FunctionDef)]:
        f, _ = I.class_attr(cls, n)
        if 'gen_' in n and isinstance(f, Fn):
            B.calls[f] = lambda st, a, k: K('code')
    B.calls[B.need(UT + 'import_from_path')] = lambda st, a, k: I.sym('verif_cls')
    B.calls[B.need(UT + 'tensors2ndarray')] = lambda st, a, k: I.new_list(st, [])
    h = lambda I, st, fn, args, kw, node, mod: other[''] if fn == I.sym('verif_cls') else I.sym('verif_dummy') if fn == Bi('type') and len(args) == 3 else NotImplemented
    I.hooks.insert(0, h)
    before = observe(B, st, m)
    try:
        run_fn(B, st, it.fn, [g, K('x.py'), K('x.pth'), K('M'), TRUE])
    finally:
        I.hooks.pop(0)
    differ(before, observe(B, st, m), bad, 'checking the generated code', ('a.bn',))


def copy_case(B, it, bad):
    I = B.I
    st = State()
    m = {'a.conv': new(B, st, 'Conv2d', K(3)), 'a.bn': new(B, st, 'BatchNorm2d', K(3)), 'b.e.x': new(B, st, 'Conv1d', K(5)), 'd': new(B, st, 'Conv2d', K(7))}
    m['a'] = new(B, st, 'Sequential', conv=m['a.conv'], bn=m['a.bn'])
    m['b.e'] = new(B, st, 'Sequential', x=m['b.e.x'])
    m['b'] = new(B, st, 'Module', e=m['b.e'])
    m[''] = new(B, st, 'Module', a=m['a'], b=m['b'], d=m['d'])
    for n in ('a.bn', 'b'):
        I.setattr(st, m[n], 'training', FALSE, None, None)
    before = observe(B, st, m)
    seen = []

    def calibrate(st, args, kw):
        seen.append(args)
        for x in seq(B, st, I.call(st, I.getattr(st, args[0], 'modules'), [], {}, None, None), 'modules'):
            if at(B, st, x, 'training') != TRUE:
                bad.append('the calibration runs with modules in evaluation mode')
        return NONE
    cal = I.sym('calibrate')
    I.hooks.insert(0, lambda I, st, fn, args, kw, node, mod: calibrate(st, args, kw) if fn == cal else NotImplemented)
    named = NONE if it.named is None else I.new_list(st, [K(x) for x in it.named])
    try:
        r = run_fn(B, st, it.fn, [m[''], K('cpu'), cal, K('p1'), K('p2')], {'layers_fused_bn': named})
    finally:
        I.hooks.pop(0)
    differ(before, observe(B, st, m), bad, 'the restoration')
    if len(seen) != 1 or [I.norm(st, x) for x in seen[0][1:]] != [K('p1'), K('p2')]:
        bad.append('the calibration function is called %d times, with %s' % (len(seen), [str(x) for a in seen for x in a[1:]]))
    names = {}
    for p in seq(B, st, I.call(st, I.getattr(st, r, 'named_modules'), [], {}, None, None), 'modules'):
        n, v = p.items
        names[n.v] = I.obj(st, I.norm(st, v)).cls.name
        if I.norm(st, v) in m.values():
            bad.append('the result shares module "%s" with the model of the caller' % n.v)
    for n in ('a.conv', 'd', 'b.e.x'):
        want = 'ConvBnTrain' if it.named is None or n in it.named else I.obj(st, m[n]).cls.name
        if names.get(n) != want:
            bad.append('layer %s of the result is a %s instead of a %s' % (n, names.get(n), want))


def build(B, st, s, leaves):
    I = B.I
    if isinstance(s, tuple) and len(s) == 2 and s[0] == 't':
        leaves.append(s[1])
        return tensor(B, st, s[1])
    if isinstance(s, tuple) and len(s) == 2 and s[0] == 'rec':
        return new(B, st, 'Record', **{k: build(B, st, v, leaves) for k, v in s[1].items()})
    if isinstance(s, list):
        return I.new_list(st, [build(B, st, x, leaves) for x in s])
    if isinstance(s, tuple):
        return Tup([build(B, st, x, leaves) for x in s])
    if isinstance(s, dict):
        return I.new_dict(st, [(K(k), build(B, st, v, leaves)) for k, v in s.items()])
    return K(s)


def traversal_case(B, it, bad):
    st = State()
    want = []
    v = build(B, st, it.struct, want)
    got = seq(B, st, run_fn(B, st, it.fn, [v]), 'result')
    if got != [K(x) for x in want]:
        bad.append('the result is %s instead of %s' % ([str(x) for x in got], want))


def trans(B, st, t, n):
    if t in ('list', 'tuple'):
        v = [K(i % 2 == 0) for i in range(n)]
        return (B.I.new_list(st, v) if t == 'list' else Tup(v)), [i % 2 == 0 for i in range(n)]
    if isinstance(t, list):
        return B.I.new_list(st, [K(x) for x in t]), t
    return K(t), [t] * n


def arr(B, st, shape, dt):
    return new(B, st, 'DTensor', Tup([K(d) for d in shape]), K(dt), K(dt == 'float32'))


def oracle(st, t):
    if t.op == 'raised':
        return False
    raise Unk('undecided: %s' % t)


SHAPES = [((1, 3, 4, 4), 'float32'), ((2, 5), 'int64'), ((1, 2, 3, 1), 'quint8'), ((7,), 'float16'), ((1, 2, 3, 4, 5), 'float32'), ((), 'qint8')]


def plain(B, st, v):
    I = B.I
    v = I.norm(st, v)
    if isinstance(v, K):
        return v.v
    if isinstance(v, Tup):
        return [plain(B, st, x) for x in v.items]
    if isinstance(v, Ref):
        o = I.obj(st, v)
        if o.kind == 'dict' and not o.rest:
            return {plain(B, st, k): plain(B, st, x) for k, x in o.items}
        if o.kind == 'list' and not o.rest:
            return [plain(B, st, x) for x in o.items]
    return v


def config_case(B, it, bad):
    I = B.I
    st = State()
    B.dumped = None
    B.opaque = I.sym('script')
    B.calls = {}
    if it.fn.endswith('export_converter_files'):
        k = [0]
        flat = []

        def mk(o):
            if o == 't':
                k[0] += 1
                t = arr(B, st, *SHAPES[k[0] % len(SHAPES)])
                flat.append(t)
                return t
            return I.new_list(st, [mk(x) for x in o]) if isinstance(o, list) else Tup([mk(x) for x in o])
        out = mk(it.out)
        model = I.sym('usermodel')
        h = lambda I, st, fn, args, kw, node, mod: out if fn == model else NotImplemented
        seen = []
        B.calls[B.need(CU + 'generate_converter_config')] = lambda st, a, kw: seen.append([a, kw]) or NONE
        I.hooks.insert(0, h)
        x = arr(B, st, (1, 3, 4, 4), 'float32')
        try:
            run_fn(B, st, it.fn, [model, x, K('/d'), K('m')])
        finally:
            I.hooks.pop(0)
        if len(seen) != 1:
            bad.append('the configuration is generated %d times' % len(seen))
            return
        a, kw = seen[0]
        ps = [p.arg for p in B.need(CU + 'generate_converter_config').node.args.args]
        g = {**dict(zip(ps, a)), **kw}
        if seq(B, st, g['inputs'], 'inputs') != [x]:
            bad.append('the inputs are not passed on')
        if seq(B, st, g['outputs'], 'outputs') != flat:
            bad.append('%d outputs are described, the model has %d' % (len(seq(B, st, g['outputs'], 'outputs')), len(flat)))
        return
    si = [SHAPES[(k + it.off) % len(SHAPES)] for k in range(it.n_in)]
    so = [SHAPES[(k + it.off + 1) % len(SHAPES)] for k in range(it.n_out)]
    ins = [arr(B, st, *s) for s in si]
    outs = [arr(B, st, *s) for s in so]
    I.oracle = oracle
    tv, tl = trans(B, st, it.it, it.n_in)
    ov, ol = trans(B, st, it.ot, it.n_out)
    try:
        run_fn(B, st, it.fn, [I.new_list(st, list(ins)), I.new_list(st, list(outs)), tv, ov, K('/d/m.pt')])
    except Dead as d:
        if it.valid:
            bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:100])
        return
    if not it.valid:
        bad.append('the flags do not match the tensors, yet accepted')
        return
    if B.dumped is None:
        raise Unk('no configuration is written')
    got = plain(B, st, B.dumped)
    d4 = lambda t, x: (len(x[0]) == 4) if t is None else t
    name = lambda x: x[1].replace('quint', 'uint').replace('qint', 'int')
    want = {'src_model': '/d/m.pt', 'dst_model': '/d/m.tflite', 'inputs': [{'shape': list(x[0]), 'type': name(x), 'transpose': d4(t, x)} for x, t in zip(si, tl)],
            'outputs': [{'type': name(x), 'transpose': d4(t, x)} for x, t in zip(so, ol)]}
    if got != want:
        if not isinstance(got, dict) or 'sym' in repr(got):
            raise Unk('the configuration is %s' % (got,))
        k = [k for k in want if got.get(k) != want[k]] or sorted(set(got) - set(want))
        bad.append('the entry %s is %s instead of %s' % (k[0], got.get(k[0]), want.get(k[0])))


def lazy_case(B, it, bad):
    I = B.I
    st = State()
    lazy = new(B, st, 'Record', current_obj=K('current'))
    LO, LE = B.need(UT + 'LazyObject'), B.need(UT + 'LazyExpression')
    cnt = [0]
    seen = []
    maker, cls = I.sym('maker'), I.sym('usercls')

    def h(I, st, fn, args, kw, node, mod):
        if fn == maker:
            cnt[0] += 1
            return K('value%d' % cnt[0])
        if fn == cls:
            seen.append(([plain(B, st, x) for x in args], {k: plain(B, st, x) for k, x in kw.items()}))
            return K('object%d' % len(seen))
        return NotImplemented
    I.hooks.insert(0, h)

    def mk(v):
        if v == 'lazy':
            return I.new_inst(st, LO, {'current_obj': K('current')})
        if v == 'expr':
            return I.norm(st, I.call(st, LE, [maker], {}, None, None))
        return K(v)

    def want(n):
        c = [n]

        def w(v):
            if v == 'expr':
                c[0] += 1
                return 'value%d' % c[0]
            return 'current' if v == 'lazy' else v
        return [w(x) for x in it.pos], {k: w(v) for k, v in it.kw.items()}
    try:
        o = I.norm(st, I.call(st, LO, [cls, I.new_list(st, [mk(x) for x in it.pos]), I.new_dict(st, [(K(k), mk(v)) for k, v in it.kw.items()])], {}, None, None))
        n = list(it.pos).count('expr') + list(it.kw.values()).count('expr')
        r = [I.norm(st, run_fn(B, st, it.fn, [o])) for _ in range(2)]
    finally:
        I.hooks.pop(0)
    if seen != [want(0), want(n), want(2 * n)]:
        bad.append('the class is called with %s instead of %s' % (seen, [want(0), want(n), want(2 * n)]))
    if r != [K('object2'), K('object3')] or at(B, st, o, 'current_obj') != K('object3'):
        bad.append('get_next returns %s, the current object is %s' % (r, at(B, st, o, 'current_obj')))


def stats(ctx, B):
    """user options are not mutated in place: self.<option>.update(...) etc. on the object that came in with the configuration"""
    MUT = {'update', 'append', 'extend', 'insert', 'pop', 'popitem', 'clear', 'setdefault', 'remove', 'sort', 'reverse', 'add', 'discard'}
    I = B.I
    mod = I.repo.module('tinynn.graph.quantization.quantizer')
    for c in mod.tree.body:
        if not isinstance(c, ast.ClassDef):
            continue
        opts = set()
        v = I.lookup('tinynn.graph.quantization.quantizer.' + c.name)
        for k in (v.mro if isinstance(v, Cls) else []):
            f = next((x for x in k.node.body if isinstance(x, ast.FunctionDef) and x.name == 'parse_config'), None) if isinstance(k, Cls) else None
            for d in ast.walk(f) if f is not None else []:
                if isinstance(d, ast.Dict):
                    opts |= {x.value for x in d.keys if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or not opts:
                continue
            own = set()
            for n in ast.walk(f):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and not (isinstance(n.value, ast.Dict) and not n.value.keys):
                            own.add(t.attr)
            for n in ast.walk(f):
                t = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    t = n.func.value
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    for x in n.targets if not isinstance(n, ast.AugAssign) else [n.target]:
                        if isinstance(x, ast.Subscript):
                            t = x.value
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr in opts:
                    nm = '%s.%s: self.%s' % (c.name, f.name, t.attr)
                    ctx.ob('options', nm)
                    if t.attr not in own:
                        ctx.finding('options', nm, '%s:%d %s.%s' % (mod.rel(), n.lineno, c.name, f.name), 'the object that the caller passed as option %s is changed in place' % t.attr)
            ctx.ob('options', '%s.%s' % (c.name, f.name))


CASES = {'analysis': analysis_case, 'mode': mode_case, 'code-check': code_case, 'copy': copy_case, 'traversal': traversal_case, 'config': config_case, 'lazy': lazy_case}


def case(x):
    B, it = x
    bad, und = [], []
    B.I.nsteps, B.calls = 0, {}
    B.I.oracle = None
    f = entry(B, it.fn)
    where = '%s:%d %s' % (B.I.repo.module(f.mod).rel(), f.node.lineno, it.fn.partition('tinynn.')[2].split('.', 2)[-1])
    try:
        CASES[it.rule](B, it, bad)
    except Dead as d:
        bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape) as u:
        und.append(str(u)[:200])
    return {'rule': it.rule, 'where': where, 'name': it.name(), 'bad': bad, 'und': und, 'analysed': sorted(map(str, B.I.analysed))}


def run(ctx):
    ctx.rule('analysis', 'error analysis leaves modes, switches, hooks and inputs as they were', 10)
    ctx.rule('mode', 'preserved modes are restored for every module', 4)
    ctx.rule('code-check', 'checking the generated code leaves the modes as they were', 4)
    ctx.rule('copy', 'BN restoration works on a copy and replaces exactly the named layers', 2)
    ctx.rule('traversal', 'nested structures are traversed completely and in order', 5)
    ctx.rule('config', 'the converter configuration describes every input and output', 10)
    ctx.rule('lazy', 'lazily built arguments keep their position or key and are evaluated anew', 2)
    ctx.rule('options', 'option objects of the caller are not changed in place', 10)
    B = Bench(ctx)
    stats(ctx, B)
    for r in parallel([(B, it) for it in items()], case):
        ctx.analysed |= set(r['analysed'])
        ctx.ob(r['rule'], r['name'])
        if r['bad']:
            ctx.finding(r['rule'], r['name'], r['where'], r['bad'][0])
        elif r['und']:
            ctx.skip(r['name'], r['und'][0])
