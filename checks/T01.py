"""T01: tracing leaves no global patch behind."""
from sa.framework import parallel
from sa.interp import State, K, T, Tup, Ref, Bi, NONE, TRUE, FALSE, Dead, Cls, Fn
from sa.arr import Unk, NoShape
from sa.ctx import CtxInterp
from sa.repo import AnalysisBroken
from checks import U01

TITLE = 'tracing leaves no global patch behind'
EXPLANATION = ('Abstract interpretation of the context managers of the tracer (as coroutines, with try/finally, ExitStack and typed exceptions) over a model of patchable classes and namespaces with inheritance, '
               'left normally, by an exception, by KeyboardInterrupt, nested and twice in a row; of TraceGraph.init and of the quantisation preparation with user code that raises at its n-th call. '
               'Afterwards every attribute of every patched object, every flag, pointer and table of the tracer module and the hooks of every module are what they were.')
TR = 'tinynn.graph.tracer.'
QM = 'tinynn.graph.quantization.quantizer.'
WAYS = (None, 'Exception', 'KeyboardInterrupt')


HAS = {('torch.quantization', k): True for k in ('get_default_qat_module_mappings', 'get_default_qconfig_propagation_list', 'get_default_static_quant_module_mappings')}
HAS['torch.quantization', 'add_observer_'] = False


def oracle(st, t):
    a = t.args
    if t.op == 'cmp' and a[0] in ('is', 'is not') and a[2] == NONE and isinstance(a[1], T) and a[1].op in ('excval', 'weakref', 'cm'):
        return a[0] == 'is not'
    for k, v in HAS.items():
        if str(t) == "hasattr(%s, '%s')" % k:
            return v
    if t.op == 'not':
        return not oracle(st, a[0])
    if str(t).startswith('isinstance($gen'):
        return False
    return U01.oracle(st, t)


class Bench(U01.Bench):
    def __init__(self, ctx):
        super().__init__(ctx)
        I = self.I
        I.oracle = lambda st, t: True if str(t).startswith('hasattr(torch.nn.quantized, ') else None
        for m in ('tinynn.graph.tracer', 'tinynn.graph.quantization.quantizer'):
            I.module(m)
        I.__class__ = CtxInterp
        I.setup()
        I.oracle = oracle
        I.known_ext['contextlib.ExitStack'] = self.need('verif_std.ExitStack')
        I.hooks.insert(0, self.thook)
        self.points, self.at, self.way, self.natives = 0, 0, None, {}

    def thook(self, I, st, fn, args, kwargs, node, mod):
        if isinstance(fn, T) and fn.op == 'ext':
            n = fn.args[0]
            if n.startswith('tinynn.graph._utils.'):
                return self.natives[n.rpartition('.')[2]](st, args, kwargs)
            if n == 'verif_user.point':
                self.point(st)
                return NONE
            if n.startswith(('torch.quantization.', 'torch.ao.quantization.')):
                if n.endswith('get_default_custom_config_dict'):
                    return self.shared
                self.point(st)
                if n.endswith('module_mappings'):
                    return I.new_dict(st, [])
                return I.sym('result of ' + n.rpartition('.')[2])
            if n in ('traceback.print_exc', 'warnings.warn', 'logging.getLogger', 'torch.nn.Identity'):
                return I.sym('opaque_' + n)
            if n == 'torch.is_tensor':
                return TRUE
            if n in ('weakref.ref',):
                return T('weakref', (I.norm(st, args[0]),))
            if n == 'copy.deepcopy' and len(args) == 1 and isinstance(I.norm(st, args[0]), T):
                return T('copy', (I.norm(st, args[0]),))
            if n in ('quit', 'exit', 'sys.exit', 'os._exit'):
                raise Dead(st, T('excval', ('SystemExit',)))
        if isinstance(fn, Bi) and fn.name == 'id' and len(args) == 1:
            v = I.norm(st, args[0])
            if isinstance(v, Ref):
                return K(1000000 + v.id)
        if isinstance(fn, T) and fn.op == 'undef' and fn.args[0] in ('quit', 'exit') or isinstance(fn, Bi) and fn.name in ('quit', 'exit'):
            raise Dead(st, T('excval', ('SystemExit',)))
        return NotImplemented

    def point(self, st):
        """user code runs here; the n-th time it raises"""
        self.points += 1
        if self.points == self.at:
            raise Dead(st, T('excval', (self.way,)))


def pobj(B, st, name, base=None, **kw):
    I = B.I
    at = {k: I.sym('%s.%s' % (name, k)) for k in kw}
    at.update({'__name__': K(name), '__module__': K('verif_px')})
    if base is not None:
        at['_base_'] = base
    return I.new_inst(st, B.need('verif_um.PObj'), at)


class World:
    """what a process can observe of the tracer from outside"""

    def __init__(self, B, st, objs, mods=()):
        self.B, self.objs, self.mods = B, objs, mods
        self.frames = [(m, B.I.module(m)) for m in ('tinynn.graph.tracer', 'tinynn.graph.quantization.quantizer')]
        self.first = self.look(st)

    def deep(self, st, v, d=0):
        I = self.B.I
        v = I.norm(st, v)
        if isinstance(v, Ref) and d < 6:
            o = I.obj(st, v)
            if o.kind == 'inst' and o.cls is not None and o.cls.name != 'GlobalData':
                return ('v', 'object %s of %s' % (v.id, o.cls.name))
            if o.kind == 'inst':
                return ('inst', v.id, tuple(sorted((k, self.deep(st, x, d + 1)) for k, x in o.attrs.items() if k != '_base_')))
            if o.kind in ('list', 'set', 'dict'):
                return (o.kind, tuple(tuple(self.deep(st, y, d + 1) for y in x) if isinstance(x, tuple) else self.deep(st, x, d + 1) for x in o.items), len(o.rest))
        return ('v', str(v))

    def look(self, st):
        I = self.B.I
        r = {}
        for n, v in self.objs.items():
            seen = set()
            x = v
            while x is not None:
                o = I.pobj(st, x)
                for k, y in o.attrs.items():
                    if k not in seen and k != '_base_':
                        r['%s.%s' % (n, k)] = ('v', str(I.norm(st, y)))
                        seen.add(k)
                x = o.attrs.get('_base_')
        for (b, k), v in st.symattr.items():
            default = I.ext(b.args[0] + '.' + k) if isinstance(b, T) and b.op == 'ext' else I.class_attr(b, k)[0] if isinstance(b, Cls) else None
            if default is None:
                default = T('attr', (b, k))
            if I.norm(st, v) != I.norm(st, default):
                r['%s.%s' % (b.qual if isinstance(b, (Cls, Fn)) else b, k)] = self.deep(st, v)
        for m, f in self.frames:
            for k, v in I.obj(st, f).attrs.items():
                w = I.norm(st, v)
                if isinstance(w, Ref):
                    o = I.obj(st, w)
                    if o.kind == 'inst' and o.cls is not None and o.cls.name == 'GlobalData' or o.kind in ('list', 'set', 'dict'):
                        r[m.rpartition('.')[2] + '.' + k] = self.deep(st, w)
        for n, v in self.mods:
            r['hooks of the module ' + n] = ('hooks', str([str(x) for k in ('hooks', 'pre_hooks') for x in U01.seq(self.B, st, U01.at(self.B, st, v, k), k)]))
        for n, v in self.extra(st):
            r[n] = self.deep(st, v)
        return r

    def extra(self, st):
        return []

    def compare(self, st, base, bad, when):
        now = self.look(st)
        for k in sorted(set(base) | set(now)):
            if base.get(k) != now.get(k):
                bad.append('%s %s is %s instead of %s' % (when, k, brief(now.get(k)), brief(base.get(k))))
                return False
        return True


def brief(v):
    while isinstance(v, tuple) and v and v[0] == 'inst':
        v = dict(v[2]).get('value', v[2])
    return 'absent' if v is None else str(v[1] if isinstance(v, tuple) and len(v) > 1 else v)[:120]


def leave(B, st, v, exc, bad, when):
    try:
        if B.I.leave(st, v, None if exc is None else T('excval', (exc,)), None, None):
            bad.append('%s the exception is swallowed' % when)
    except Dead as d:
        bad.append('%s leaving fails: %s' % (when, d.exc))


class Item(U01.Item):
    pass


def targets(B, st):
    p = pobj(B, st, 'Hardtanh', __init__=1, __setattr__=1)
    q = pobj(B, st, 'ReLU6', p, __init__=1)
    r = pobj(B, st, 'Sub', q)
    s = pobj(B, st, 'Size', __new__=1)
    f = pobj(B, st, 'functional', relu=1, add=1)
    t = pobj(B, st, 'Tensor', __getattribute__=1, __getitem__=1, mul=1)
    h = pobj(B, st, 'creation', zeros=1, ones=1)
    return {'Hardtanh': p, 'ReLU6': q, 'Sub': r, 'Size': s, 'functional': f, 'Tensor': t, 'creation': h}


def stubs(B, st, o):
    """loaders of the lists of what is patched, and the C-level patches of torch.Size and torch.Tensor"""
    I = B.I
    L = lambda *a: I.new_list(st, list(a))
    D = lambda *a: I.new_dict(st, list(a))
    names = {o['Size']: 'torch.Size', o['Tensor']: 'torch.Tensor'}

    def qual(st, a, kw):
        m = I.norm(st, a[0])
        n = names.get(m)
        if n is None:
            x = I.pobj(st, m)
            n = 'px.' + x.attrs['__name__'].v if x is not None else str(m)
        it = I.norm(st, a[1]) if len(a) > 1 else kw.get('item')
        return K('%s.%s' % (n, it.v)) if it is not None and it != NONE else K(n)

    def swap(attr):
        def f(st, a, kw):
            old = I.getattr(st, a[0], attr)
            I.setattr(st, a[0], attr, a[1], None, None)
            return old
        return f

    def back(attr):
        def f(st, a, kw):
            I.setattr(st, a[0], attr, a[1], None, None)
            return NONE
        return f
    modules = L(o['Hardtanh'], o['ReLU6'], o['Sub'])
    over = Tup([L(D((o['creation'], L(K('ones'))))), L(B.I.sym('gen_override'))])
    B.calls = {B.need(TR + 'qualified_name'): qual,
               B.need(TR + 'load_overridable_modules'): lambda st, a, k: modules,
               B.need(TR + 'load_overridable_funcs'): lambda st, a, k: D((o['functional'], L(K('relu'), K('add'))), (o['Tensor'], L(K('mul'), K('__getitem__')))),
               B.need(TR + 'load_torch_overrides_funcs'): lambda st, a, k: over,
               B.need(TR + 'load_creation_funcs'): lambda st, a, k: D((o['creation'], L(K('zeros')))),
               B.need(TR + 'load_tracking_modules'): lambda st, a, k: L(o['Size'])}
    for k, attr in (('new', '__new__'), ('getitem', '__getitem__')):
        for n, f in (('patch_', swap), ('revert_', back)):
            B.natives['%s%s' % (n, k)] = f(attr)
            v = I.mod_attr('tinynn.graph.tracer', n + k, st)
            if isinstance(v, Fn):
                B.calls[v] = f(attr)


def model(B, st):
    new = lambda k, **kw: U01.new(B, st, k, **kw)
    m = {'a': new('UserLayer'), 'b.x': new('UserLayer')}
    m['b'] = new('Sequential', x=m['b.x'])
    m['c.inner'] = new('UserLayer')
    m['c'] = new('UserNest', inner=m['c.inner'])
    m[''] = new('UserModel', a=m['a'], b=m['b'], c=m['c'])
    return m


def managers(B):
    """name -> arguments of a call, and whether something has to be patched inside"""
    I = B.I
    L = lambda st, *a: I.new_list(st, list(a))
    D = lambda st, *a: I.new_dict(st, list(a))
    gen = I.sym('gen')
    tri = lambda st, o: L(st, o['Hardtanh'], o['ReLU6'], o['Sub'])
    r = []
    for own in ('Hardtanh', 'ReLU6'):
        for n in ('__init__', '__setattr__'):
            r.append(('patch', '%s.%s' % (own, n), lambda st, o, m, own=own, n=n: ([o[own], K(n), gen], {})))
    r.append(('patch', 'with further arguments', lambda st, o, m: ([o['functional'], K('relu'), gen, K(1)], {'x': K(2)})))
    r.append(('patch_modules', 'classes that inherit, base first', lambda st, o, m: ([tri(st, o), Tup([K('__init__'), K('__setattr__')]), Tup([gen, I.sym('gen2')])], {})))
    r.append(('patch_modules', 'classes that inherit, base last', lambda st, o, m: ([L(st, o['Sub'], o['ReLU6'], o['Hardtanh']), Tup([K('__init__'), K('__setattr__')]), Tup([gen, I.sym('gen2')])], {})))
    r.append(('patch_modules', 'one name', lambda st, o, m: ([L(st, o['Hardtanh'], o['Size']), K('__new__' if False else '__init__'), gen], {}) if False else ([L(st, o['Size']), K('__new__'), gen], {})))
    r.append(('patch_funcs', 'one dictionary', lambda st, o, m: ([D(st, (o['functional'], L(st, K('relu'), K('add')))), gen], {})))
    r.append(('patch_funcs', 'several dictionaries', lambda st, o, m: ([L(st, D(st, (o['functional'], L(st, K('relu'), K('add'))), (o['Tensor'], L(st, K('__getitem__'), K('mul')))), D(st, (o['creation'], L(st, K('zeros')))),
                                                                           D(st, (o['functional'], L(st, K('relu'))))), L(st, gen, I.sym('gen2'), I.sym('gen3'))], {})))
    for kw in ({}, {'wrap_modules': FALSE}, {'wrap_funcs': FALSE}, {'wrap_tracking_modules': TRUE}, {'wrap_creation_funcs': FALSE, 'wrap_tracking_modules': TRUE}):
        r.append(('patch_helper', ', '.join('%s=%s' % (k, v) for k, v in kw.items()) or 'defaults', lambda st, o, m, kw=kw: ([], dict(kw))))
    for n in ('no_catch', 'no_catch_handle_func', 'ignore_mod_param_update_warning', 'tracer_context', 'model_constructor_tracer', 'model_tracer', 'import_patcher'):
        r.append((n, '', lambda st, o, m: ([], {})))
    r.append(('hook_modules', '', lambda st, o, m: ([m['']], {})))
    r.append(('construct_trace_graph', '', lambda st, o, m: ([m[''], L(st, U01.tensor(B, st, 'x')), FALSE, FALSE], {})))
    r.append(('override_current_trace_graph', '', lambda st, o, m: ([I.new_inst(st, B.need(TR + 'TraceGraph'), {})], {})))
    return r


QUIET = ('tracer_context', 'hook_modules')


def graph(B, st, m):
    return B.I.norm(st, B.I.call(st, B.need(TR + 'TraceGraph'), [m[''], B.I.new_list(st, [U01.tensor(B, st, 'x')])], {}, None, None))


def manager_case(B, it, bad):
    I = B.I
    st = State()
    o = targets(B, st)
    m = model(B, st)
    stubs(B, st, o)
    B.at = B.points = 0
    args = it.args
    if it.mgr == 'hook_modules':
        g = graph(B, st, m)
        I.call(st, I.mod_attr('tinynn.graph.tracer', 'current_graph', st), [g], {}, None, None)
    if it.before:
        # another manager of the same kind is active around this one
        outer = I.call(st, entry(B, it.mgr), *args(st, o, m), None, None)
        I.enter(st, outer, None, None)
    w = World(B, st, o, [(n or 'root', v) for n, v in m.items()])

    def once(exc, depth, when):
        a, kw = args(st, o, m)
        v = I.call(st, entry(B, it.mgr), a, kw, None, None)
        I.enter(st, v, None, None)
        if it.mgr not in QUIET and not it.before and depth == 1 and w.look(st) == w.first:
            raise Unk('nothing changes inside')
        if depth > 1:
            once(exc if it.inner else None, depth - 1, when)
        leave(B, st, v, exc, bad, when)
    once(None, it.depth, 'after a normal exit')
    flags = {k: v for k, v in w.first.items() if v[0] in ('inst', 'v', 'hooks')}
    seen = {k: v for k, v in w.look(st).items() if k in flags or k not in w.first and v[0] != 'list'}
    for k in sorted(set(flags) | set(seen)):
        if flags.get(k) != seen.get(k):
            bad.append('after a normal exit %s is %s instead of %s' % (k, brief(seen.get(k)), brief(flags.get(k))))
            return
    warm = w.look(st)
    for way in WAYS[1:]:
        once(way, it.depth, 'after %s' % way)
        if not w.compare(st, warm, bad, 'after an exit by %s' % way):
            return


def entry(B, n):
    v = B.I.lookup(TR + n)
    if v is None:
        raise AnalysisBroken('%s%s not found' % (TR, n))
    return v


def init_case(B, it, bad):
    """TraceGraph.init with user code that raises at its n-th call"""
    I = B.I
    way, n, again = it.way, it.n, it.again
    st = State()
    o = targets(B, st)
    m = model(B, st)
    stubs(B, st, o)
    B.calls[B.need('tinynn.util.train_util.get_module_device')] = lambda st, a, k: K('cpu')
    for f in ('add_input_node', 'add_output_node', 'add_forward_node', 'noop_handler'):
        v = I.mod_attr('tinynn.graph.tracer', f, st)
        if isinstance(v, Fn):
            B.calls[v] = lambda st, a, k: NONE
    B.calls[B.need(TR + 'TraceNode')] = lambda st, a, k: I.sym('node')
    for f in ('recompute_forward_order', 'eliminate_dead_graph_pass'):
        v, _ = I.class_attr(B.need(TR + 'TraceGraph'), f)
        B.calls[v] = lambda st, a, k: NONE
    om = I.mod_attr('tinynn.graph.tracer', 'overridable_modules', st)
    I.call(st, I.getattr(st, om, 'append'), [B.need('verif_um.UserLayer')], {}, None, None)
    w = World(B, st, o, [(n_ or 'root', v) for n_, v in m.items()])
    B.at, B.points, B.way = 0, 0, way

    def trace():
        x = U01.tensor(B, st, 'x')
        if it.fn == TR + 'trace':
            I.call(st, B.need(it.fn), [m[''], x], {}, None, None)
        else:
            g = I.norm(st, I.call(st, B.need(TR + 'TraceGraph'), [m[''], x], {}, None, None))
            I.call(st, B.need(TR + 'current_graph'), [g], {}, None, None)
            try:
                I.call(st, I.getattr(st, g, 'init'), [], {}, None, None)
            finally:
                I.call(st, B.need(TR + 'current_graph'), [NONE], {}, None, None)
    trace()
    total = B.points
    if n > total:
        return 'end'
    warm = w.look(st)
    flags = {k: v for k, v in w.first.items() if v[0] in ('inst', 'v', 'hooks')}
    for k in flags:
        if flags[k] != warm.get(k):
            bad.append('after a successful trace %s is %s instead of %s' % (k, brief(warm.get(k)), brief(flags[k])))
            return
    B.points, B.at = 0, n
    try:
        trace()
        bad.append('the exception of the user is swallowed')
    except Dead as d:
        if d.st is not st:
            st.become(d.st)
    B.at = 0
    w.compare(st, warm, bad, 'after user code raises %s at call %d of %d' % (way, n, total))


TABLE = 'float_to_observed_custom_module_class'
OWN = ('prepare_qat_prep', 'extra_qat_fusion_postprocess', 'disable_requantization_for_cat_pass', 'prepare_quantized_inputs_pass', 'prepare_quantized_ops_pass', 'fake_quantize_lstm_weights', 'restore_lstm_weights',
       'extra_ptq_postprocess')


class QWorld(World):
    def __init__(self, B, st):
        self.shared = B.shared
        super().__init__(B, st, {})

    def look(self, st):
        r = super().look(st)
        d = self.B.I.getitem(st, self.shared, K(TABLE))
        r['the default custom module mapping of torch'] = ('v', str(sorted(str(x) for x in self.B.I.obj(st, d).items)))
        return r


def quantise_case(B, it, bad):
    I = B.I
    st = State()
    ext = I.ext
    D = lambda *a: I.new_dict(st, list(a))
    B.shared = D((K(TABLE), D((ext('torch.nn.LSTM'), ext('torch.ao.nn.quantizable.LSTM')))))
    at = {k: ext('verif_user.point') for k in OWN}
    at.update(per_tensor=TRUE, backend=K('qnnpack'), dynamic_lstm_quant=FALSE, disable_requantization_for_cat=FALSE, quantized_input_stats=NONE, set_quantizable_op_stats=FALSE, quantized_op_stats=NONE,
              quantize_op_action=D(), extra_qparams_mappings=I.new_list(st, []), leaf_nodes=NONE, swap_nodes=NONE)
    q = I.new_inst(st, B.need(QM + it.cls), at)
    m = U01.new(B, st, 'Module')
    g = I.new_inst(st, B.need('verif_um.Record'), {'module': m, 'forward_nodes': I.new_list(st, []), 'quantized': TRUE})
    B.way, B.points = it.way, 0
    w = QWorld(B, st)

    def go():
        B.points = 0
        I.call(st, I.getattr(st, q, it.meth), [g] if it.meth == 'prepare_qat' else [m], {}, None, None)
    B.at = 0
    go()
    total = B.points
    if it.n > total:
        return 'end'
    if not w.compare(st, w.first, bad, 'after it succeeds'):
        return
    B.at = it.n
    try:
        go()
        bad.append('the exception is swallowed')
    except Dead as d:
        if d.st is not st:
            st.become(d.st)
    B.at = 0
    w.compare(st, w.first, bad, 'after step %d of %d raises %s' % (it.n, total, it.way))


def gens(B):
    r = []
    for n in sorted(B.I.obj(B.I.base, B.I.module('tinynn.graph.tracer')).attrs):
        if n.startswith('new_') and n.endswith('_gen'):
            r.append(n)
    return r


def wrapper_case(B, it, bad):
    """the wrappers put in place of framework functions, when the original raises"""
    I = B.I
    st = State()
    f = B.need(it.fn)
    extra = {'is_class': FALSE, 'res': I.new_dict(st, [])}
    a = [I.ext('verif_user.point'), K('torch.nn.px.Thing.__init__')] + [extra.get(p.arg, NONE) for p in f.node.args.args[2:]]
    w = I.norm(st, I.call(st, f, a, {}, None, None))
    x = U01.new(B, st, 'UserLayer')
    if it.locked:
        for k in ('lock', 'handle_func_lock'):
            I.call(st, B.need(TR + k), [TRUE], {}, None, None)
    params = {'obj': x, 'name': K('shape'), 'value': K(3), 'func': I.ext('verif_user.point'), 'tracked_args': Tup([]), 'args': Tup([x]), 'kwargs': I.new_dict(st, [])}
    args = [params.get(p.arg, x) for p in w.node.args.args] + ([x] if w.node.args.vararg and not w.node.args.args else [])
    B.way = it.way
    if not it.way:
        B.at = B.points = 0
        wd = World(B, st, {})
        try:
            I.call(st, w, args, {}, None, None)
        except Dead as d:
            raise Unk('it fails: %s' % d.exc)
        compare_flags(B, st, wd, bad, 'after the wrapper returns')
        return
    wd = World(B, st, {})
    B.points, B.at = 0, 1
    try:
        I.call(st, w, args, {}, None, None)
        if B.points:
            bad.append('the exception of the original function is swallowed')
    except Dead as d:
        if d.st is not st:
            st.become(d.st)
    B.at = 0
    compare_flags(B, st, wd, bad, 'after the original function raises %s' % it.way)


def compare_flags(B, st, w, bad, when):
    now = w.look(st)
    for k, v in w.first.items():
        if v[0] == 'inst' and now.get(k) != v:
            bad.append('%s %s is %s instead of %s' % (when, k, brief(now.get(k)), brief(v)))
            return


CASES = {'managers': manager_case, 'trace': init_case, 'quantise': quantise_case, 'wrappers': wrapper_case}


def items(B):
    r = []
    for mgr, what, args in managers(B):
        for depth, inner, before in ((1, 0, 0), (2, 0, 0), (2, 1, 0), (1, 0, 1)):
            if before and mgr in ('hook_modules', 'tracer_context', 'model_tracer', 'import_patcher', 'construct_trace_graph', 'patch_modules', 'patch_funcs'):
                continue
            if depth > 1 and mgr in ('hook_modules',):
                continue
            r.append(Item('managers', TR + mgr, '%s%s' % (what or 'plain', ', inside another one' if before else ', nested%s' % (' and failing inside' if inner else '') if depth > 1 else ''),
                          mgr=mgr, args=args, depth=depth, inner=inner, before=before))
    for fn in (TR + 'TraceGraph.init', TR + 'trace'):
        for way in WAYS[1:]:
            for n in range(1, 10):
                r.append(Item('trace', fn, 'user code raises %s at call %d' % (way, n), way=way, n=n, again=0))
    for cls, meth in (('QATQuantizer', 'prepare_qat'), ('PostQuantizer', 'prepare_qat'), ('QATQuantizer', 'convert'), ('PostQuantizer', 'convert')):
        for way in WAYS[1:]:
            for n in range(1, 12):
                r.append(Item('quantise', QM + cls + '.' + meth, 'step %d raises %s' % (n, way), cls=cls, meth=meth, way=way, n=n))
    for n in gens(B):
        for way in WAYS:
            for locked in (0, 1):
                r.append(Item('wrappers', TR + n, '%s%s' % ('the original raises %s' % way if way else 'the original returns', ', while locked' if locked else ''), way=way, locked=locked))
    return r


def case(x):
    B, it = x
    bad, und = [], []
    B.I.nsteps, B.calls = 0, {}
    f = U01.entry(B, it.fn)
    f = getattr(f, 'fn', f)
    where = '%s:%d %s' % (B.I.repo.module(f.mod).rel(), f.node.lineno, it.fn.partition('tinynn.')[2].split('.', 2)[-1])
    res = None
    try:
        res = CASES[it.rule](B, it, bad)
    except Dead as d:
        bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape) as u:
        und.append(str(u)[:200])
    finally:
        B.I.close()
    return {'rule': it.rule, 'where': where, 'name': it.name(), 'bad': bad, 'und': und, 'end': res == 'end', 'analysed': sorted(map(str, B.I.analysed))}


def run(ctx):
    ctx.rule('managers', 'each context manager restores what it changes, however it is left', 10)
    ctx.rule('quantise', 'preparing and converting a quantised model leaves the classes, functions and tables of torch alone', 4)
    ctx.rule('wrappers', 'the wrappers around framework functions release what they hold when the original raises', 8)
    ctx.rule('trace', 'tracing undoes its changes when user code raises', 4)
    B = Bench(ctx)
    its = items(B)
    for r in parallel([(B, it) for it in its], case):
        if r['end']:
            continue
        ctx.analysed |= set(r['analysed'])
        ctx.ob(r['rule'], r['name'])
        if r['bad']:
            ctx.finding(r['rule'], r['name'], r['where'], r['bad'][0])
        elif r['und']:
            ctx.skip(r['name'], r['und'][0])
