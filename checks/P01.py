"""P01: channel removal slices every parameter of a layer consistently."""
import itertools
from sa.framework import parallel
from sa.interp import State, K, T, Tup, Ref, Bi, NONE, Dead, Cls
from sa.arr import Arr, Poly, Unk, NoShape, indices
from sa.modules import Modules, Par, fresh
from sa.repo import AnalysisBroken

TITLE = 'channel removal slices every parameter of a layer consistently'
EXPLANATION = ('Abstract interpretation of every modifier class on its layer kinds (torch.nn modelled in sa/models/nn.py): parameters and statistics hold symbolic elements, '
               'the sets of removed input and output channels are enumerated. After register_mask and apply_mask each parameter is the original array indexed by the kept '
               'channels on the right axes, the channel counts are the numbers kept, everything else is unchanged; and the mask registered before is 0 exactly on the entries '
               'that removal deletes and 1 elsewhere (recurrent layers: the mask never zeroes an entry that is kept).')
MOD = 'tinynn.graph.modifier'
IN, OUT = ('sym', 'in'), ('sym', 'out')


class Bench(Modules):
    def __init__(self, ctx):
        super().__init__(ctx)
        I = self.I
        self.ids = {}
        I.hooks.append(self.id_hook)
        self.table = {}
        self.create = I.lookup(MOD + '.create_channel_modifier')
        self.Node = I.lookup('tinynn.graph.tracer.TraceNode')
        self.Masker = I.lookup('tinynn.graph.masker.ChannelMasker')
        self.Info = I.lookup(MOD + '.DimensionChangeInfo')
        for n in ('create', 'Node', 'Masker', 'Info'):
            if getattr(self, n) is None:
                raise AnalysisBroken('%s not found' % n)

    def id_hook(self, I, st, fn, args, kwargs, node, mod):
        if isinstance(fn, Bi) and fn.name == 'id' and len(args) == 1:
            a = I.norm(st, args[0])
            if isinstance(a, Arr):
                return K(self.ids.setdefault(a.el, len(self.ids) + 1))
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] == 'torch.equal':
            return K(I.norm(st, args[0]) == I.norm(st, args[1]))
        return NotImplemented

    def node(self, st, module, pre, nxt, name='layer'):
        I = self.I
        return I.new_inst(st, self.Node, {
            'module': module, 'unique_name': K(name), 'prev_tensors': I.new_list(st, list(pre)), 'next_tensors': I.new_list(st, list(nxt)),
            'prev_nodes': I.new_list(st, []), 'next_nodes': I.new_list(st, [])})


def keep(n, rm):
    return [i for i in range(n) if i not in rm]


def take(a, axes):
    """a restricted to the kept indices of each given axis"""
    sel = [axes.get(i, list(range(d))) for i, d in enumerate(a.shape)]
    return Arr(tuple(len(s) for s in sel), [a.at(i) for i in itertools.product(*sel)], a.dtype, a.lib)


def mask(a, axes):
    return Arr(a.shape, [Poly.const(int(all(i[ax] in kp for ax, kp in axes.items()))) for i in indices(a.shape)], a.dtype, a.lib)


def tile(kp, n, gs):
    return [g * n + i for g in range(gs) for i in kp]


class Case:
    def __init__(self, kind, args, kw, xs, ys, rin, rout, dim=None, via='own', importance=None, sparsity=None):
        self.kind, self.args, self.kw, self.xs, self.ys, self.rin, self.rout = kind, args, kw, xs, ys, rin, rout
        self.dim = dim                  # pruned dimension of the layer's input and output
        self.via = via                  # 'own': indices of the layer itself, 'centre': through the constraints of a centre
        self.importance, self.sparsity = importance, sparsity

    def name(self):
        a = [repr(x) for x in self.args] + ['%s=%r' % x for x in self.kw.items()]
        return '%s(%s) without inputs %s and outputs %s%s' % (self.kind, ', '.join(a), self.rin, self.rout, '' if self.dim is None else ' of dimension %d' % self.dim)


def expected(c, at):
    """parameter -> kept indices per axis, attribute -> value"""
    g = lambda n: at[n].v
    i, o = c.rin, c.rout
    if c.kind.startswith('Conv') or c.kind == 'Linear':
        if c.kind == 'Linear':
            n, m = g('in_features'), g('out_features')
            if c.dim != len(c.xs) - 1:
                return {}, {}
            return {'weight': {1: keep(n, i), 0: keep(m, o)}, 'bias': {0: keep(m, o)}}, {'in_features': n - len(i), 'out_features': m - len(o)}
        n, m, gr = g('in_channels'), g('out_channels'), g('groups')
        if n == gr == m:
            kp = keep(n, i)
            return {'weight': {0: kp}, 'bias': {0: kp}}, {'in_channels': len(kp), 'out_channels': len(kp), 'groups': len(kp)}
        tr = 'Transpose' in c.kind
        ki, ko = keep(n, i), keep(m, o)
        d = {'in_channels': len(ki), 'out_channels': len(ko)}
        if gr > 1:
            return {'weight': ('groups', gr, ki, ko), 'bias': {0: ko}}, d
        return {'weight': {0: ki, 1: ko} if tr else {0: ko, 1: ki}, 'bias': {0: ko}}, d
    if c.kind.startswith('BatchNorm'):
        kp = keep(g('num_features'), i)
        return {k: {0: kp} for k in ('weight', 'bias', 'running_mean', 'running_var')}, {'num_features': len(kp)}
    if c.kind == 'LayerNorm':
        kp = keep(c.args[0], i)
        return {k: {0: kp} for k in ('weight', 'bias')}, {'normalized_shape': (len(kp),)}
    if c.kind == 'PReLU':
        n = g('num_parameters')
        if n == 1:
            return {}, {}
        kp = keep(n, i)
        return {'weight': {0: kp}}, {'num_parameters': len(kp)}
    gs = {'RNN': 1, 'GRU': 3, 'LSTM': 4}[c.kind]
    n, h, L, bi, pr = g('input_size'), g('hidden_size'), g('num_layers'), g('bidirectional'), g('proj_size')
    dirs = 2 if bi else 1
    real = pr or h
    ko = [keep(real, [x - d * real for x in o if d * real <= x < (d + 1) * real]) for d in range(dirs)]
    if pr:
        kh = []
        for d in range(dirs):
            imp = c.importance[d * h:(d + 1) * h]
            k = int(c.sparsity * len(c.importance)) // dirs
            low = sorted(range(h), key=lambda j: imp[j])[:k] if o else []
            kh.append(keep(h, low))
    else:
        kh = ko
    out = {}
    allo = [d * real + j for d in range(dirs) for j in ko[d]]
    for l in range(L):
        for d in range(dirs):
            s = 'l%d%s' % (l, '_reverse' if d else '')
            rows = tile(kh[d], h, gs)
            out['weight_ih_' + s] = {0: rows, 1: keep(n, i) if l == 0 else allo}
            out['weight_hh_' + s] = {0: rows, 1: ko[d]}
            out['bias_ih_' + s] = {0: rows}
            out['bias_hh_' + s] = {0: rows}
            if pr:
                out['weight_hr_' + s] = {0: ko[d], 1: kh[d]}
    d = {'input_size': n - len(i), 'hidden_size': len(kh[0])}
    if pr:
        d['proj_size'] = len(ko[0])
    return out, d


def group_weight(a, n, m, gr, ki, ko):
    """the entries kept of a grouped convolution's weight: output o of group q reads the inputs of group q"""
    ci, co = n // gr, m // gr
    rows = []
    for o in ko:
        q = o // co
        rows.append([a.at((o, i - q * ci) + k) for i in ki if q * ci <= i < (q + 1) * ci for k in indices(a.shape[2:])])
    w = len(ki) // gr
    return Arr((len(ko), w) + a.shape[2:], [e for r in rows for e in r], a.dtype, a.lib)


def group_mask(a, n, m, gr, ki, ko):
    ci, co = n // gr, m // gr
    return Arr(a.shape, [Poly.const(int(i[0] in ko and (i[0] // co) * ci + i[1] in ki)) for i in indices(a.shape)], a.dtype, a.lib)


def judge(item):
    B, c = item
    I = B.I
    bad, und = [], []
    st = State()
    try:
        m = B.make(st, c.kind, *c.args, **c.kw)
        before = B.attrs(st, m)
        x, y = fresh('x', c.xs), fresh('y', c.ys)
        node = B.node(st, m, [x], [y])
        call = lambda f, a: I.norm(st, I.call(st, f, a, {}, None, None))
        meth = lambda o, n, *a: call(I.getattr(st, o, n), list(a))
        mod = call(B.create, [node])
        if not isinstance(mod, Ref) or I.obj(st, mod).cls is None:
            raise Unk('modifier not known')
        c.where = I.obj(st, mod).cls
        meth(mod, 'reset_mask')
        mk = call(B.Masker, [m, K('layer')])
        info = I.getattr(st, mod, 'dim_changes_info')
        lst = lambda v: I.new_list(st, [K(j) for j in v])
        ods = I.new_dict
        kl = c.dim
        ch = I.getattr(st, info, 'dim_choices')
        for key in ('input_0', 'output_0'):
            I.setitem(st, ch, K(key), lst([kl]), None, None)
        mods = ods(st, [(K('layer'), mod)])
        if c.via == 'own':
            I.setattr(st, info, 'pruned_idx_i', lst(c.rin), None, None)
            I.setattr(st, info, 'pruned_idx_o', lst(c.rout), None, None)
        else:
            mods = pinned(B, st, mod, c, c.xs[kl], kl, lst, c.rin)
        gm = I.new_inst(st, I.lookup(MOD + '.GraphChannelModifier'), {'bn_compensation': K(False)})
        I.setattr(st, mod, 'graph_modifier', gm, None, None)
        imp = ods(st, [(K('layer:h'), I.new_list(st, [K(float(v)) for v in c.importance or []]))])
        meth(mod, 'register_mask', mods, imp, ods(st, [(K('layer'), K(c.sparsity or 0.5))]))
        masks = I.getattr(st, mk, 'masks')
        got = {}
        for k, v in dict_items(I, st, masks):
            got[k.v] = I.norm(st, v)
        params, attrs = expected(c, before)
        rnn = c.kind in ('RNN', 'GRU', 'LSTM')
        for n, a in before.items():
            if not isinstance(a, Par):
                continue
            ax = params.get(n, {})
            want = group_mask(a, before['in_channels'].v, before['out_channels'].v, *ax[1:]) if isinstance(ax, tuple) else mask(a, ax)
            k = got.pop(n, None)
            if k is None:
                if not all(e == Poly.const(1) for e in want.el) and not rnn:
                    bad.append('no mask is registered for %s although a part of it is removed' % n)
                continue
            if not isinstance(k, Arr) or not k.const():
                und.append('the mask of %s is not known: %s' % (n, str(k)[:100]))
                continue
            if k.shape != a.shape:
                bad.append('the mask of %s has shape %s instead of %s' % (n, list(k.shape), list(a.shape)))
            elif rnn:
                z = [i for i, e, w in zip(indices(a.shape), k.el, want.el) if e != Poly.const(1) and w == Poly.const(1)]
                if z:
                    bad.append('the mask of %s zeroes the kept entry %s' % (n, list(z[0])))
            elif k.el != want.el:
                i = next(i for i, e, w in zip(indices(a.shape), k.el, want.el) if e != w)
                bad.append('the mask of %s is %s at %s, expected %s' % (n, k.at(i), list(i), want.at(i)))
        for n in got:
            bad.append('a mask is registered for %s, which is no parameter' % n)
        meth(mod, 'apply_mask', mods)
        once = B.attrs(st, m)
        for n, a in before.items():
            v, w = once.get(n), None
            if n == 'num_batches_tracked':
                continue
            if isinstance(a, Arr):
                if not isinstance(v, Arr):
                    (bad if str(v).startswith('None') else und).append('%s is %s after removal' % (n, str(v)[:100]))
                    continue
                ax = params.get(n, {})
                w = group_weight(a, before['in_channels'].v, before['out_channels'].v, *ax[1:]) if isinstance(ax, tuple) else take(a, ax)
                if v.shape != w.shape:
                    bad.append('%s has shape %s after removal, expected %s' % (n, list(v.shape), list(w.shape)))
                elif v.el != w.el:
                    i = next(i for i, e, f in zip(indices(w.shape), v.el, w.el) if e != f)
                    bad.append('%s holds %s at %s after removal, expected %s' % (n, v.at(i), list(i), w.at(i)))
                elif isinstance(a, Par) and not isinstance(v, Par):
                    bad.append('%s is no parameter any more' % n)
            else:
                w = B.val(attrs[n]) if n in attrs else a
                if v != w:
                    (bad if isinstance(v, (K, Tup)) or str(v).startswith('None[') else und).append('%s is %s after removal, expected %s' % (n, v, w))
        extra = [n for n in once if n not in before and not n.endswith('_mask') and n not in ('masker', 'hook')]
        if extra:
            bad.append('new attributes %s' % ', '.join(extra))
    except Dead as d:
        bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape) as u:
        und.append(str(u))
    w = getattr(c, 'where', B.create)
    return {'where': '%s:%d %s' % (I.repo.module(w.mod).rel(), w.node.lineno, w.name), 'name': c.name(), 'kind': c.kind, 'bad': bad, 'und': und, 'analysed': sorted(map(str, I.analysed))}


def dict_items(I, st, d):
    k = I.iter_known(st, I.norm(st, I.call(st, I.getattr(st, d, 'items'), [], {}, None, None)))
    if k is None or k[1]:
        raise Unk('masks not known')
    out = []
    for p in k[0]:
        a, b = I.iter_known(st, I.norm(st, p))[0]
        out.append((I.norm(st, a), b))
    return out


def pinned(B, st, mod, c, n, kl, lst, rm):
    """the removed channels as get_pruned_idx derives them from a centre: channel j of the input is channel j + 10 of the centre"""
    I = B.I
    info = I.getattr(st, mod, 'dim_changes_info')
    cinfo = I.new_inst(st, B.Info, {'pruned_idx_o': lst([j + 10 for j in rm] + [3])})
    cen = I.new_inst(st, I.lookup(MOD + '.Modifier'), {'dim_changes_info': cinfo, 'node': B.node(st, NONE, [], [], 'c')})
    I.setitem(st, I.getattr(st, info, 'centers'), K('c'), cen, None, None)
    cons = I.new_list(st, [I.new_list(st, [I.call(st, Bi('set'), [lst([j + 10])], {}, None, None) for j in range(n)])])
    I.setitem(st, I.getattr(st, info, 'constraints_i'), K(kl), I.new_dict(st, [(K('c'), cons)]), None, None)
    return I.new_dict(st, [(K('layer'), mod), (K('c'), cen)])


def shape_case(item):
    B, (kind, xs, ys, di, do, rm, text) = item
    I = B.I
    name = '%s %s -> %s written %s without channels %s of dimension %d' % (kind, list(xs), list(ys), text, rm, di)
    bad, und = [], []
    st = State()
    w = B.create
    try:
        strs = lambda: I.new_list(st, [K('{}'), I.new_list(st, [K(t) for t in text])])
        fn = I.new_inst(st, I.lookup('tinynn.graph.tracer.TraceFunction'), {
            'kind': K(kind), 'func_type': K(kind), 'full_name': K('torch.Tensor.' + kind), 'args_parsed': strs(), 'args_parsed_origin': strs(), 'tensor_names': I.new_list(st, [K('t')]),
            'args_template': NONE, 'args_template_no_self': NONE, 'args_string': NONE, 'is_class': K(True), 'is_property': K(False), 'args_offset': K(1), 'args_string_no_self': NONE})
        lst = lambda v: I.new_list(st, [K(j) for j in v])
        call = lambda f, a: I.norm(st, I.call(st, f, a, {}, None, None))
        mod = call(B.create, [B.node(st, fn, [fresh('x', xs)], [fresh('y', ys)])])
        if not isinstance(mod, Ref) or I.obj(st, mod).cls is None:
            raise Unk('modifier not known')
        w = I.obj(st, mod).cls
        info = I.getattr(st, mod, 'dim_changes_info')
        ch = I.getattr(st, info, 'dim_choices')
        I.setitem(st, ch, K('input_0'), lst([di]), None, None)
        I.setitem(st, ch, K('output_0'), lst([do]), None, None)
        mods = pinned(B, st, mod, None, xs[di], di, lst, rm)
        call(I.getattr(st, mod, 'apply_mask'), [mods])
        n = ys[do] * (xs[di] - len(rm)) // xs[di]
        got = I.norm(st, I.getattr(st, fn, 'args_string'))
        fixed = text[do].isdigit()
        if got == NONE:
            if fixed:
                bad.append('the size %s is not updated' % text[do])
        elif not isinstance(got, K):
            und.append('arguments not known: %s' % str(got)[:150])
        else:
            v = [x.strip(' ()[]') for x in got.v.split(',')]
            if len(v) != 1 + len(ys):
                bad.append('the arguments become %s' % got.v)
            for d, x in enumerate(v[1:]):
                if d == do and fixed and x not in (str(n), '-1'):
                    bad.append('dimension %d has size %s in the arguments %s, %d remain' % (d, x, got.v, n))
                elif not (d == do and fixed) and x not in (text[d], str(ys[d])) and not (d == do and x == str(n)):
                    bad.append('dimension %d has size %s in the arguments %s, expected %s' % (d, x, got.v, text[d]))
    except Dead as d:
        bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape) as u:
        und.append(str(u))
    return {'where': '%s:%d %s' % (I.repo.module(w.mod).rel(), w.node.lineno, w.name), 'name': name, 'bad': bad, 'und': und, 'analysed': sorted(map(str, I.analysed))}


def shape_cases():
    r = []
    for kind in ('reshape', 'view'):
        for rm in ([0], [7], [1, 2, 3], [0, 1, 2, 3], [0, 2, 4, 5, 6, 7]):
            r.append((kind, (1, 8, 4, 2), (1, 8, 8), 1, 1, rm, ['1', '8', '8']))
            r.append((kind, (1, 8, 4, 2), (1, 8, 8), 1, 1, rm, ['1', '8', '-1']))
            r.append((kind, (1, 8, 4, 2), (1, 8, 8), 1, 1, rm, ['1', '-1', '8']))
            r.append((kind, (1, 8, 4, 2), (1, 64), 1, 1, rm, ['1', '64']))
            r.append((kind, (1, 8, 4, 2), (1, 64), 1, 1, rm, ['-1', '64']))
            r.append((kind, (3, 8), (3, 1, 8), 1, 2, rm, ['3', '1', '8']))
        for n, k in ((22, 15), (23, 13), (39, 31), (45, 26)):
            r.append((kind, (1, n, 2), (1, n, 1, 2), 1, 1, list(range(k)), ['1', str(n), '1', '2']))
    return r


def subsets(n):
    """channel sets that differ in position, number and spacing"""
    s = [[0], [n - 1], [1], list(range(0, n, 2)), list(range(n - 1)), [1, n - 1]]
    out = []
    for x in s:
        x = sorted(set(x))
        if x not in out and 0 < len(x) < n:
            out.append(x)
    return out


def cases():
    r = []
    for nd in (1, 2):
        sp = (5, 6)[:nd]
        for bias in (True, False):
            for i in [[]] + subsets(4):
                for o in [[]] + subsets(3):
                    if i or o:
                        r.append(Case('Conv%dd' % nd, [4, 3, 2 if nd == 1 else (2, 1)], {'bias': bias}, (1, 4) + sp, (1, 3) + sp, i, o, 1))
                        r.append(Case('ConvTranspose%dd' % nd, [4, 3, 2 if nd == 1 else (1, 2)], {'bias': bias}, (1, 4) + sp, (1, 3) + sp, i, o, 1))
            for i in subsets(4):
                r.append(Case('Conv%dd' % nd, [4, 4, 2], {'groups': 4, 'bias': bias}, (1, 4) + sp, (1, 4) + sp, i, i, 1))
                r.append(Case('ConvTranspose%dd' % nd, [4, 4, 2], {'groups': 4, 'bias': bias}, (1, 4) + sp, (1, 4) + sp, i, i, 1))
            for i in ([], [0, 3], [1, 5], [2, 4], [0, 1, 3, 5]):
                for o in ([], [0, 3], [1, 2], [0, 2]):
                    if i or o:
                        r.append(Case('Conv%dd' % nd, [6, 4, 1], {'groups': 2, 'bias': bias}, (1, 6) + sp, (1, 4) + sp, i, o, 1))
    for bias in (True, False):
        for i in [[]] + subsets(4):
            for o in [[]] + subsets(3):
                if i or o:
                    r.append(Case('Linear', [4, 3], {'bias': bias}, (2, 4), (2, 3), i, o, 1))
        r.append(Case('Linear', [4, 3], {'bias': bias}, (2, 3, 4), (2, 3, 3), [1, 2], [1], 2))
        r.append(Case('Linear', [4, 3], {'bias': bias}, (2, 3, 4), (2, 3, 3), [0, 2], [0, 2], 1))
        r.append(Case('Linear', [4, 4], {'bias': bias}, (2, 4, 4), (2, 4, 4), [2], [], 1))
    for i in subsets(4):
        for k, xs, d in (('BatchNorm1d', (2, 4, 3), 1), ('BatchNorm1d', (2, 4), 1), ('BatchNorm2d', (1, 4, 2, 3), 1)):
            r.append(Case(k, [4], {}, xs, xs, i, i, d, 'centre'))
        r.append(Case('BatchNorm2d', [4], {'track_running_stats': False}, (1, 4, 2, 3), (1, 4, 2, 3), i, i, 1, 'centre'))
        r.append(Case('LayerNorm', [4], {}, (2, 3, 4), (2, 3, 4), i, i, 2, 'centre'))
        r.append(Case('LayerNorm', [4], {'bias': False}, (2, 4), (2, 4), i, i, 1, 'centre'))
        r.append(Case('PReLU', [4], {}, (1, 4, 2, 3), (1, 4, 2, 3), i, i, 1, 'centre'))
        r.append(Case('PReLU', [1], {}, (1, 4, 2, 3), (1, 4, 2, 3), i, i, 1, 'centre'))
    for kind in ('RNN', 'GRU', 'LSTM'):
        for L in (1, 2):
            for bi in (False, True):
                for bias in (True, False):
                    for pr in ((0, 2) if kind == 'LSTM' else (0,)):
                        h, n = 3, 4
                        q = pr or h
                        os_ = [[], [0], [q - 1]] + ([[0, 2]] if q == 3 else [])
                        if bi:
                            os_ = [[]] + [[a, q + b] for a in range(q) for b in range(q)][:5] + ([[0, 2, 3, 4]] if q == 3 else [])
                        for o in os_:
                            for i in ([], [1], [0, 3]):
                                if not (i or o):
                                    continue
                                kw = {'num_layers': L, 'bidirectional': bi, 'bias': bias}
                                if pr:
                                    kw['proj_size'] = pr
                                ys = (5, 2, q * (2 if bi else 1))
                                r.append(Case(kind, [n, h], kw, (5, 2, n), ys, i, o, 2, importance=[3.0, 1.0, 2.0, 4.0, 6.0, 5.0][:6 if bi else 3], sparsity=0.4))
    return r


def run(ctx):
    ctx.rule('layer', 'masks and sliced parameters of a layer agree with the removed channels', 100)
    ctx.rule('shape arguments', 'sizes written in the arguments of reshape and view become the sizes that remain', 20)
    B = Bench(ctx)
    res = [('layer', r) for r in parallel([(B, c) for c in cases()], judge)]
    res += [('shape arguments', r) for r in parallel([(B, c) for c in shape_cases()], shape_case)]
    for rule, r in res:
        ctx.analysed |= set(r['analysed'])
        ctx.ob(rule, r['name'])
        if r['bad']:
            ctx.finding(rule, r['name'], r['where'], r['bad'][0])
        elif r['und']:
            ctx.skip(r['name'], r['und'][0])
