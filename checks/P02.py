"""P02: channel importance is measured per output channel, and the least important channels are removed."""
from fractions import Fraction
from sa.framework import parallel
from sa.interp import State, K, T, Ref, Bi, NONE, Dead, Tup
from sa.arr import Arr, Poly, Unk, NoShape, indices, fun, HALF
from sa.repo import AnalysisBroken
from checks.P01 import Bench as P01Bench, MOD, dict_items

TITLE = 'channel importance is measured per output channel'
EXPLANATION = ('Abstract interpretation of update_weight_metric with every metric on every layer kind that is pruned: weights are arrays of symbols, so each importance is a term that must be the norm '
               'of exactly the weights producing that channel. Abstract interpretation of SubGraph.calc_prune_idx with symbolic importances: every comparison of two importances is decided by an assumed '
               'total order of the symbols (several are tried), and the removed set must be the lowest under it, in the requested number, and the same for all dependent layers.')


def psum(es):
    r = Poly.const(0)
    for e in es:
        r = r + e
    return r


class Bench(P01Bench):
    def __init__(self, ctx):
        super().__init__(ctx)
        I = self.I
        I.hooks.insert(0, self.num_hook)
        self.update = I.lookup(MOD + '.update_weight_metric')
        self.SubGraph = I.lookup(MOD + '.SubGraph')
        self.Modifier = I.lookup(MOD + '.Modifier')
        for n in ('update', 'SubGraph', 'Modifier'):
            if getattr(self, n) is None:
                raise AnalysisBroken('%s not found' % n)
        self.order = {}
        self.keys = []
        I.rank = self.rank

    def rank(self, a):
        """position of an importance term under the assumed order of the symbols"""
        if a.shape != ():
            return None
        t = 0
        self.keys.append(a.el[0])
        for mono, c in a.el[0].t.items():
            v = c
            for atom, e in mono:
                if atom not in self.order or e != 1:
                    return None
                v *= self.order[atom]
            t += v
        return (t,)

    def num_hook(self, I, st, fn, args, kwargs, node, mod):
        if isinstance(fn, Bi) and fn.name == 'sum' and len(args) == 1:
            a = I.norm(st, args[0])
            if isinstance(a, Arr) and a.rank == 1:
                return Arr((), [psum(a.el)], a.dtype, a.lib)
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] == 'torch.randperm':
            n = I.norm(st, args[0])
            if isinstance(n, K):
                return Arr((n.v,), [Poly.atom(('perm', i)) for i in range(n.v)], 'int64', 'torch')
        if isinstance(fn, T) and fn.op == 'ext' and fn.args[0] == 'torch.cdist':
            a, b = I.norm(st, args[0]), I.norm(st, args[1])
            p = I.norm(st, kwargs.get('p', args[2] if len(args) > 2 else K(2)))
            if isinstance(a, Arr) and isinstance(b, Arr) and a.rank == b.rank == 2 and p in (K(2), K(2.0)):
                rows = lambda m, i: [m.at((i, j)) for j in range(m.shape[1])]
                el = []
                for i in range(a.shape[0]):
                    for j in range(b.shape[0]):
                        d = [x - y for x, y in zip(rows(a, i), rows(b, j))]
                        el.append(l2(d))
                return Arr((a.shape[0], b.shape[0]), el, a.dtype, a.lib)
        return NotImplemented


# ---- the metric ------------------------------------------------------------------------------------
def out_axis(kind):
    return 1 if 'Transpose' in kind else 0


def norms(a, axis, f):
    """f of the elements of every slice of a along axis"""
    return [f([a.at(i) for i in indices(a.shape) if i[axis] == c]) for c in range(a.shape[axis])]


def l1(es):
    from sa.arr import pabs
    return psum([pabs(e) for e in es])


def l2(es):
    s = psum([e * e for e in es])
    return s if s.is_const and not s.c else s.pow(HALF)


def plain(e):
    """e without absolute values of square roots"""
    r = Poly.const(0)
    for mono, c in e.t.items():
        t = Poly.const(c)
        for a, x in mono:
            f = t and Poly.atom(a, x)
            if isinstance(a, tuple) and a[:2] == ('F', 'abs') and len(a) == 3 and isinstance(a[2], Poly) and len(a[2].t) == 1 and x == 1:
                (m, k), = a[2].t.items()
                if k > 0 and all(y.denominator == 2 for _, y in m):
                    f = a[2]
            t = t * f
        r = r + t
    return r


def metric_expected(kind, metric, at):
    """name suffix -> importances, or the number of channels when only that is fixed"""
    f = {'l1_norm': l1, 'l2_norm': l2}.get(metric)
    if kind in ('RNN', 'GRU', 'LSTM'):
        gs = {'RNN': 1, 'GRU': 3, 'LSTM': 4}[kind]
        h, L, d, pr = at['hidden_size'].v, at['num_layers'].v, 2 if at['bidirectional'].v else 1, at['proj_size'].v
        suf = lambda l: ['l%d%s' % (l, s) for s in ('', '_reverse')[:d]]
        r = {}
        if pr:
            if f is None:
                r[''], r[':h'] = pr * d, h * d
                return r
            r[''] = [psum([norms(at['weight_hr_' + suf(l)[j]], 0, f)[c] for l in range(L)]) for j in range(d) for c in range(pr)]
        if f is None:
            return {'': h * d}
        rows = []
        for j in range(d):
            for c in range(h):
                t = []
                for l in range(L):
                    for w in ('weight_ih_', 'weight_hh_'):
                        a = norms(at[w + suf(l)[j]], 0, f)
                        t += [a[g * h + c] for g in range(gs)]
                rows.append(psum(t))
        r[':h' if pr else ''] = rows
        return r
    w = at['weight']
    if metric == 'fpgm':
        n = w.shape[0]
        flat = [[w.at(i) for i in indices(w.shape) if i[0] == c] for c in range(n)]
        d = lambda i, j: l2([x - y for x, y in zip(flat[i], flat[j])])
        return {'': [psum([plain(d(j, i)) for j in range(n)]) for i in range(n)]}
    ax = out_axis(kind)
    return {'': norms(w, ax, f) if f else w.shape[ax]}


def metric_cases():
    L = [('Linear', [3, 4], {}), ('Conv1d', [2, 3, 2], {}), ('Conv1d', [2, 4, 2], {'groups': 2}), ('Conv2d', [2, 3, (2, 3)], {}), ('Conv2d', [4, 4, 2], {'groups': 2}),
         ('ConvTranspose1d', [2, 3, 2], {}), ('ConvTranspose2d', [2, 3, (2, 3)], {})]
    for k in ('RNN', 'GRU', 'LSTM'):
        for bi in (False, True):
            for n in (1, 2):
                for p in ((0, 1) if k == 'LSTM' else (0,)):
                    kw = {'num_layers': n, 'bidirectional': bi}
                    if p:
                        kw['proj_size'] = p
                    L.append((k, [3, 2], kw))
                    L.append((k, [1, 2], dict(kw)))
    out = []
    for c in L:
        for m in ('l1_norm', 'l2_norm', 'random', 'fpgm'):
            if m == 'fpgm' and (c[0] not in ('Linear', 'Conv2d') or c[2].get('groups')):
                continue
            out.append(c + (m,))
    return out


def metric_case(item):
    B, (kind, args, kw, metric) = item
    I = B.I
    name = '%s of %s(%s)' % (metric, kind, ', '.join([repr(x) for x in args] + ['%s=%r' % x for x in kw.items()]))
    bad, und = [], []
    st = State()
    f = I.lookup(MOD + '.' + metric)
    if f is None:
        raise AnalysisBroken('metric %s not found' % metric)
    try:
        m = B.make(st, kind, *args, **kw)
        at = B.attrs(st, m)
        imp = I.new_dict(st, [])
        I.call(st, B.update, [imp, f, m, K('layer')], {}, None, None)
        got = {k.v: I.norm(st, v) for k, v in dict_items(I, st, imp)}
        want = {'layer' + s: v for s, v in metric_expected(kind, metric, at).items()}
        for k in sorted(set(want) | set(got)):
            w, g = want.get(k), got.get(k)
            if w is None or g is None:
                bad.append('an importance is %s for %s' % ('computed' if w is None else 'missing', k))
            elif not isinstance(g, Arr):
                und.append('the importance of %s is not known: %s' % (k, str(g)[:100]))
            elif isinstance(w, int):
                if g.shape != (w,):
                    bad.append('%s importances of shape %s for the %d channels of %s' % (metric, list(g.shape), w, k))
                elif len(set(g.el)) != w:
                    bad.append('importances of %s are shared between channels' % k)
            elif g.shape != (len(w),):
                bad.append('importances of shape %s for the %d channels of %s' % (list(g.shape), len(w), k))
            elif list(map(plain, g.el)) != w:
                i = next(i for i, (a, b) in enumerate(zip(g.el, w)) if plain(a) != b)
                bad.append('the importance of channel %d of %s is not the norm of the weights producing it: %s, expected %s' % (i, k, str(g.el[i])[:120], str(w[i])[:120]))
    except Dead as d:
        bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape) as u:
        und.append(str(u))
    w = f
    return {'rule': 'metric', 'where': '%s:%d %s' % (I.repo.module(w.mod).rel(), w.node.lineno, metric), 'name': name, 'bad': bad, 'und': und, 'analysed': sorted(map(str, I.analysed))}


# ---- the selection -----------------------------------------------------------------------------------
class Sel:
    """centres: name -> (channels, sparsity, groups); leaves: name -> (length, {centre: [centre channels per leaf index]}, groups)"""

    def __init__(self, name, centres, leaves, partner=None, exact=True):
        self.name, self.centres, self.leaves, self.partner, self.exact = name, centres, leaves, partner, exact


def ident(n):
    return [{i} for i in range(n)]


def off(n, before, after):
    return [{-1}] * before + ident(n) + [{-1}] * after


def sel_cases():
    r = []
    for n, s in ((8, 0.25), (8, 0.5), (8, 0.75), (10, 0.3), (10, 0.7), (6, 0.5), (7, 0.5), (5, 0.3), (8, 0.1), (4, 1.0)):
        r.append(Sel('a centre of %d channels, sparsity %s' % (n, s), {'a': (n, s, 1)}, {'x': (n, {'a': ident(n)}, 1)}))
        r.append(Sel('a centre of %d channels read by two layers, sparsity %s' % (n, s), {'a': (n, s, 1)}, {'x': (n, {'a': ident(n)}, 1), 'y': (n, {'a': ident(n)}, 1)}))
        r.append(Sel('the sum of two centres of %d channels, sparsity %s' % (n, s), {'a': (n, s, 1), 'b': (n, s, 1)}, {'x': (n, {'a': ident(n), 'b': ident(n)}, 1)}))
        r.append(Sel('the sum of two centres of %d channels, one of them read again, sparsity %s' % (n, s), {'a': (n, s, 1), 'b': (n, s, 1)},
                     {'x': (n, {'a': ident(n), 'b': ident(n)}, 1), 'y': (n, {'b': ident(n)}, 1)}))
        r.append(Sel('a flattened centre of %d channels, sparsity %s' % (n, s), {'a': (n, s, 1)}, {'x': (n * 3, {'a': [{i // 3} for i in range(n * 3)]}, 1)}))
    for n, m, s, t in ((4, 8, 0.5, 0.5), (8, 4, 0.25, 0.5), (6, 6, 0.5, 0.5), (4, 6, 0.25, 0.5)):
        r.append(Sel('the concatenation of centres of %d and %d channels, sparsities %s and %s' % (n, m, s, t), {'a': (n, s, 1), 'b': (m, t, 1)},
                     {'x': (n + m, {'a': off(n, 0, m), 'b': off(m, n, 0)}, 1)}))
    for n, g, s in ((8, 2, 0.5), (8, 2, 0.25), (12, 3, 0.5), (8, 4, 0.5)):
        r.append(Sel('a centre of %d channels read by a layer of %d groups, sparsity %s' % (n, g, s), {'a': (n, s, 1)}, {'x': (n, {'a': ident(n)}, g)}))
        r.append(Sel('a centre of %d channels in %d groups, sparsity %s' % (n, g, s), {'a': (n, s, g)}, {'x': (n, {'a': ident(n)}, 1)}))
    for s in (0.5, 0.25):
        r.append(Sel('a chain of two sums, sparsity %s' % s, {'a': (8, s, 1), 'b': (8, s, 1), 'c': (8, s, 1)},
                     {'x': (8, {'a': ident(8), 'b': ident(8)}, 1), 'y': (8, {'b': ident(8), 'c': ident(8)}, 1)}, exact=False))
    r.append(Sel('a centre with sparsity 0', {'a': (8, 0.0, 1)}, {'x': (8, {'a': ident(8)}, 1)}))
    return r


ORDERS = [lambda n, k: [(7 * i + 3 * k + 1) % 31 * 8 + i for i in range(n)], lambda n, k: [100 + 5 * k - i for i in range(n)],
          lambda n, k: [((i * i * 5 + 11 * i * (k + 1)) % 23) * 8 + i for i in range(n)]]


def sel_case(item):
    B, (c, o) = item
    I = B.I
    st = State()
    bad, und, facts = [], [], {}
    name = '%s, order %d' % (c.name, o)
    w = B.SubGraph
    B.order, B.keys = {}, []
    try:
        lst = lambda v: I.new_list(st, list(v))
        ints = lambda s: I.call(st, Bi('set'), [lst([K(j) for j in sorted(s)])], {}, None, None)
        groups = lambda n, g: lst([ints(range(i, i + n // g)) for i in range(0, n, n // g)])
        imp, val = [], {}
        for k, (cn, (n, s, g)) in enumerate(c.centres.items()):
            vs = ORDERS[o](n, k)
            atoms = [('imp', cn, i) for i in range(n)]
            for a, v in zip(atoms, vs):
                B.order[a] = Fraction(v)
            val[cn] = vs
            imp.append((K(cn), Arr((n,), [Poly.atom(a) for a in atoms], 'float32', 'torch')))
        mods = {}

        def modifier(nm, kind):
            layer = I.new_inst(st, I.known_ext['torch.nn.' + kind], {})
            node = B.node(st, layer, [], [], nm)
            m = I.new_inst(st, B.Modifier, {'node': node})
            info = I.call(st, B.Info, [m], {}, None, None)
            I.setattr(st, m, 'dim_changes_info', info, None, None)
            I.setattr(st, m, 'prunable', K(True), None, None)
            I.setattr(st, node, 'modifier', m, None, None)
            mods[nm] = m
            return m, info
        for cn, (n, s, g) in c.centres.items():
            m, info = modifier(cn, 'Conv2d')
            I.setattr(st, info, 'groups_o', groups(n, g), None, None)
        for ln, (n, cons, g) in c.leaves.items():
            m, info = modifier(ln, 'Linear' if n == 3 * c.centres['a'][0] else 'Conv2d')
            d = I.new_dict(st, [(K(cn), lst([lst([ints(x) for x in cs])])) for cn, cs in cons.items()])
            I.setattr(st, info, 'constraints_i', I.new_dict(st, [(K(1), d)]), None, None)
            for cn in cons:
                I.setitem(st, I.getattr(st, info, 'centers'), K(cn), mods[cn], None, None)
            I.setattr(st, info, 'groups_i', groups(n, g), None, None)
        sg = I.call(st, B.SubGraph, [K('a'), lst(mods.values())], {}, None, None)
        I.setattr(st, sg, 'leaf', lst([mods[x] for x in c.leaves]), None, None)
        dep = I.getattr(st, sg, 'dependent_centers')
        for cn in c.centres:
            I.call(st, I.getattr(st, dep, 'add'), [mods[cn]], {}, None, None)
        I.call(st, I.getattr(st, sg, 'calc_prune_idx'), [I.new_dict(st, imp), I.new_dict(st, [(K(cn), K(v[1])) for cn, v in c.centres.items()])], {}, None, None)

        def idx(nm, at):
            k = I.iter_known(st, I.norm(st, I.getattr(st, I.getattr(st, mods[nm], 'dim_changes_info'), at)))
            if k is None or k[1] or not all(isinstance(I.norm(st, x), K) for x in k[0]):
                raise Unk('%s of %s not known' % (at, nm))
            return [I.norm(st, x).v for x in k[0]]
        co = {cn: idx(cn, 'pruned_idx_o') for cn in c.centres}
        le = {ln: idx(ln, 'pruned_idx_i') for ln in c.leaves}
        facts = {'centres': co, 'leaves': le}
        weights = {}
        if not c.exact:
            ws = {tuple(sorted((atom[1], k) for mono, k in e.t.items() for atom, _ in mono)) for e in B.keys}
            if len(ws) > 1 or any(k <= 0 for w in ws for _, k in w):
                bad.append(('lowest', 'the importances of dependent layers are combined differently for different channels: %s' % sorted(ws)[:3]))
            for x in ws:
                weights = dict(x)
        bad += judge_sel(c, co, le, {n: [weights.get(n, 1) * x for x in v] for n, v in val.items()})
    except Dead as d:
        bad.append(('fail', 'it fails: %s' % str(getattr(d, 'exc', d))[:200]))
    except (Unk, NoShape) as u:
        und.append(str(u))
    return {'rule': 'selection', 'where': '%s:%d SubGraph.calc_prune_idx' % (I.repo.module(w.mod).rel(), w.node.lineno), 'name': name, 'bad': bad, 'und': und, 'analysed': sorted(map(str, I.analysed))}


def judge_sel(c, co, le, val):
    bad = []
    for nm, v in list(co.items()) + list(le.items()):
        if v != sorted(set(v)):
            bad.append(('order', 'the removed channels of %s are %s, not ascending and free of duplicates' % (nm, v)))
        n = c.centres[nm][0] if nm in c.centres else c.leaves[nm][0]
        if any(not 0 <= x < n for x in v):
            bad.append(('order', 'the removed channels of %s are %s, it has %d' % (nm, v, n)))
    # classes of channels that must go together
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x
    for ln, (n, cons, g) in c.leaves.items():
        for cn, cs in cons.items():
            for i, s in enumerate(cs):
                for j in s:
                    if j >= 0:
                        par[find((cn, j))] = find((ln, i))
    gone = {(nm, i) for nm, v in list(co.items()) + list(le.items()) for i in v}
    cls = {}
    for nm in list(co) + list(le):
        n = c.centres[nm][0] if nm in c.centres else c.leaves[nm][0]
        for i in range(n):
            cls.setdefault(find((nm, i)), []).append((nm, i))
    for m in cls.values():
        if len({x in gone for x in m}) > 1:
            a, b = next(x for x in m if x in gone), next(x for x in m if x not in gone)
            bad.append(('agree', 'channel %d of %s is removed but channel %d of %s, which depends on it, is kept' % (a[1], a[0], b[1], b[0])))
    # importances of the classes, per pool that competes (channels of a centre in a group)
    pools = {}
    for m in cls.values():
        cen = [x for x in m if x[0] in c.centres]
        key = set()
        for nm, i in m:
            n, g = (c.centres[nm][0], c.centres[nm][2]) if nm in c.centres else (c.leaves[nm][0], c.leaves[nm][2])
            if g > 1:
                key.add((nm, i // (n // g)))
        cs = frozenset(nm for nm, _ in cen)
        pools.setdefault((cs, frozenset(key)), []).append((sum(val[nm][i] for nm, i in cen), cen, m))
    tot = {}
    for (cs, key), ms in pools.items():
        rm = [x for x in ms if x[2][0] in gone]
        kp = [x for x in ms if x[2][0] not in gone]
        if rm and kp and max(x[0] for x in rm) > min(x[0] for x in kp):
            a, b = max(rm, key=lambda x: x[0]), min(kp, key=lambda x: x[0])
            bad.append(('lowest', 'channel %d of %s is removed although channel %d, which is less important, is kept' % (a[1][0][1], a[1][0][0], b[1][0][1])))
        if key:
            tot.setdefault(frozenset(k[0] for k in key), []).append(len(rm))
    for nm, ns in tot.items():
        if len(set(ns)) > 1:
            bad.append(('groups', 'the groups of %s lose %s channels' % (', '.join(sorted(nm)), ns)))
    for cn, (n, s, g) in c.centres.items():
        x = Fraction(str(s)) * n
        lo, hi = x.numerator // x.denominator, -(-x.numerator // x.denominator)
        if not lo <= len(co[cn]) <= hi:
            bad.append(('amount', '%d of the %d channels of %s are removed at sparsity %s' % (len(co[cn]), n, cn, s)))
    return bad


def dead_cases():
    r = []
    for n, dead in ((8, [0, 3, 5, 6]), (8, [1, 2]), (8, [7]), (6, []), (8, [0, 1, 2, 4, 5, 6, 7])):
        for m in (None, 1, 2, 4):
            for shared in (False, True):
                r.append((n, dead, m, shared))
    return r


def dead_case(item):
    """removal of the channels whose batch-norm shows no variance"""
    B, (n, dead, multiple, shared) = item
    I = B.I
    st = State()
    bad, und = [], []
    name = 'a centre of %d channels%s whose batch-norm has no variance in %s, multiples of %s' % (n, ' added to another one' if shared else '', dead, multiple)
    w = B.SubGraph
    try:
        lst = lambda v: I.new_list(st, list(v))
        ints = lambda s: I.call(st, Bi('set'), [lst([K(j) for j in sorted(s)])], {}, None, None)
        mods, infos, nodes = {}, {}, {}

        def modifier(nm, layer):
            node = B.node(st, layer, [], [], nm)
            m = I.new_inst(st, B.Modifier, {'node': node})
            infos[nm] = I.call(st, B.Info, [m], {}, None, None)
            for k, v in (('dim_changes_info', infos[nm]), ('prunable', K(True))):
                I.setattr(st, m, k, v, None, None)
            I.setattr(st, node, 'modifier', m, None, None)
            mods[nm], nodes[nm] = m, node
        cen = ['a', 'b'] if shared else ['a']
        for cn in cen:
            modifier(cn, I.new_inst(st, I.known_ext['torch.nn.Conv2d'], {}))
            I.setattr(st, infos[cn], 'groups_o', lst([ints(range(n))]), None, None)
        bn = B.make(st, 'BatchNorm2d', n)
        I.setattr(st, bn, 'running_var', Arr((n,), [Poly.const(0 if i in dead else 1) for i in range(n)], 'float32', 'torch'), None, None)
        modifier('x', bn)
        if not shared:
            I.setattr(st, nodes['x'], 'prev_nodes', lst([nodes['a']]), None, None)
        I.setattr(st, infos['x'], 'constraints_i', I.new_dict(st, [(K(1), I.new_dict(st, [(K(cn), lst([lst([ints({i}) for i in range(n)])])) for cn in cen]))]), None, None)
        for cn in cen:
            I.setitem(st, I.getattr(st, infos['x'], 'centers'), K(cn), mods[cn], None, None)
        I.setattr(st, infos['x'], 'groups_i', lst([ints(range(n))]), None, None)
        sg = I.call(st, B.SubGraph, [K('a'), lst(mods.values())], {}, None, None)
        I.setattr(st, sg, 'leaf', lst([mods['x']]), None, None)
        for cn in cen:
            I.call(st, I.getattr(st, I.getattr(st, sg, 'dependent_centers'), 'add'), [mods[cn]], {}, None, None)
        sp = I.new_dict(st, [(K(cn), K(1.0)) for cn in cen])
        I.call(st, I.getattr(st, sg, 'calc_prune_idx'), [NONE, sp], {'multiple': K(multiple)}, None, None)
        want = len(dead) - len(dead) % (multiple or 1)
        for nm, at in [(cn, 'pruned_idx_o') for cn in cen] + [('x', 'pruned_idx_i')]:
            k = I.iter_known(st, I.norm(st, I.getattr(st, infos[nm], at)))
            if k is None or k[1] or not all(isinstance(I.norm(st, v), K) for v in k[0]):
                raise Unk('%s of %s not known' % (at, nm))
            v = [I.norm(st, x).v for x in k[0]]
            if not set(v) <= set(dead):
                bad.append('channels %s of %s are removed, only %s are dead' % (v, nm, dead))
            elif len(v) != want:
                bad.append('%d of the %d dead channels of %s are removed, expected %d' % (len(v), len(dead), nm, want))
    except Dead as d:
        bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape) as u:
        und.append(str(u))
    return {'rule': 'dead channels', 'where': '%s:%d SubGraph.calc_prune_idx_by_bn_variance' % (I.repo.module(w.mod).rel(), w.node.lineno), 'name': name, 'bad': bad, 'und': und,
            'analysed': sorted(map(str, I.analysed))}


KINDS = ('lowest', 'amount', 'groups', 'fail')


def run(ctx):
    ctx.rule('metric', 'the importance of a channel is the metric of exactly the weights that produce it', 40)
    ctx.rule('selection', 'the channels of lowest importance are removed, as many as the sparsity asks for', 40)
    ctx.rule('dead channels', 'without importances exactly the channels without variance are removed, in the requested multiples', 10)
    B = Bench(ctx)
    res = parallel([(B, c) for c in metric_cases()], metric_case) + parallel([(B, c) for c in dead_cases()], dead_case)
    sel = parallel([(B, (c, o)) for c in sel_cases() for o in range(len(ORDERS))], sel_case)
    for r in sel:
        r['bad'] = [t for k, t in r['bad'] if k in KINDS]
    for r in res + sel:
        ctx.analysed |= set(r['analysed'])
        ctx.ob(r['rule'], r['name'])
        if r['bad']:
            ctx.finding(r['rule'], r['name'], r['where'], r['bad'][0])
        elif r['und']:
            ctx.skip(r['name'], r['und'][0])
