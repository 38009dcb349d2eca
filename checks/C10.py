"""C10: a rewrite that merges, reroutes or deletes an operator leaves every value something else still needs."""
import itertools
from sa.framework import parallel
from sa.interp import K, T, Tup, Ref, NONE, Dead
from sa.topo import Topo, Scene, Undecided, is_call
from sa.repo import AnalysisBroken

TITLE = 'rewrites keep the values others need'
EXPLANATION = ('Every rewriting pass of the optimizer is executed abstractly on a family of small graphs: a chain the pass rewrites, '
               'fed by a model input, an operator or one output of a multi-output operator, in which every intermediate tensor has '
               'no other consumer, another operator, a model output, or both.  Shapes, data and options stay symbolic and every '
               'undecided branch is followed both ways.  In every final state no operator reads a tensor nothing produces, every '
               'model output is still produced, tensors that do not depend on the rewritten chain have their old value, and those '
               'that do depend on it are fed by the same untouched operators.')
NOACT = {'fusedActivationFunction': K(0)}
VALID, SAME = K(1), K(0)


def c(code, ins, **attrs):
    return (code, ins, {k: (v if not isinstance(v, (int, str, bool, type(None))) else K(v)) for k, v in attrs.items()})


CONV = c('CONV_2D', ['@', 'w', 'b'], fusedActivationFunction=0, padding=1, strideH=1, strideW=1, dilationHFactor=1, dilationWFactor=1)
GCONV = c('GENERIC_CONV', ['@', 'w', 'b'], fusedActivationFunction=0, groups=1, padding=[0, 0])
GDECONV = c('GENERIC_DECONV', ['@', 'w', 'b'], fusedActivationFunction=0, groups=1)
FC = c('FULLY_CONNECTED', ['@', 'w', 'b'], fusedActivationFunction=0)
BN = c('BATCH_NORM', ['@', 'g', 'be', 'mu', 'var'], fusedActivationFunction=0)
TR = c('TRANSPOSE', ['@', 'perm'])
RS = c('RESHAPE', ['@', 'shape'])
ANY = c('L2_NORMALIZATION', ['@'])

RSH = {'x': (2, 3, 4), 't0': (2, 3, 4), 't1': (2, 1, 3, 4), 't2': (2, 1, 3, 4), 't3': (2, 3, 4), 'y': (2, 3, 4), 'y1': (2, 1, 3, 4)}
# (pass, arguments, chain, options of the scene)
CASES = [
    ('fuse_conv_fc_bn', (), [GCONV, BN], {}),
    ('fuse_conv_fc_bn', (), [GDECONV, BN], {}),
    ('fuse_conv_fc_bn', (), [FC, BN], {}),
    ('fuse_conv_fc_bn', (), [c('GENERIC_CONV', ['@', 'w'], fusedActivationFunction=0), BN], {}),
    ('fuse_bn_conv', (), [BN, GCONV], {}),
    ('fuse_activation', (), [c('ADD', ['@', 'k'], fusedActivationFunction=0), c('RELU', ['@'])], {}),
    ('fuse_activation', (), [GCONV, c('RELU6', ['@'])], {}),
    ('fuse_activation', (), [FC, c('RELU', ['@'])], {}),
    ('fuse_same_padding', (), [c('PAD', ['@', 'pads']), CONV], {}),
    ('fuse_same_padding', (), [c('PADV2', ['@', 'pads', 'val']), c('MAX_POOL_2D', ['@'], padding=1, fusedActivationFunction=0)], {}),
    ('fuse_same_padding_slicing', (), [c('TRANSPOSE_CONV', ['oshape', 'w', '@'], padding=1), c('SLICE', ['@', 'begin', 'size'])], {}),
    ('fuse_requantize', (), [c('ADD', ['@', 'k'], fusedActivationFunction=0), c('QUANTIZE', ['@'])], {'kinds': ('op', 'out', 'quant', 'deq', 'rsq')}),
    ('fuse_requantize', (), [GCONV, c('QUANTIZE', ['@'])], {}),
    ('fuse_reciprocal_sqrt', (), [c('SQRT', ['@']), c('DIV', ['one', '@'], fusedActivationFunction=0)], {}),
    ('fuse_reciprocal_sqrt', (), [c('SQRT', ['@']), c('DIV', ['%y', '@'], fusedActivationFunction=0)], {}),
    ('remove_tile_before_binary_elementwise_ops', (), [c('TILE', ['@', 'mult']), c('ADD', ['@', '%y'], fusedActivationFunction=0)], {}),
    ('remove_tile_before_binary_elementwise_ops', (), [c('TILE', ['@', 'mult']), c('SUB', ['%y', '@'], fusedActivationFunction=0)], {}),
    ('fuse_conv2d_gather', (), [CONV, c('GATHER', ['@', 'idx'], axis=3, batchDims=0)], {}),
    ('fuse_gather_conv2d', (), [c('GATHER', ['@', 'idx'], axis=3, batchDims=0), CONV], {}),
    ('split_requantize', (), [ANY, c('QUANTIZE', ['@'])], {}),
    ('fuse_simple_transpose_pass', (), [TR, TR], {}),
    ('fuse_simple_transpose_pass', (), [TR, TR, TR], {}),
    ('fuse_simple_gather_pass', (), [c('GATHER', ['@', 'idx'], axis=1, batchDims=0), c('GATHER', ['@', 'idx2'], axis=1, batchDims=0)], {}),
    ('fuse_simple_reshape_pass', (), [RS, RS], {}),
    ('fuse_simple_reshape_pass', (), [RS, RS, RS], {}),
    ('fuse_simple_slice_pass', (), [c('SLICE', ['@', 'begin', 'size']), c('STRIDED_SLICE', ['@', 'begin2', 'end2', 'stride2'])], {}),
    ('fuse_simple_slice_pass', (), [c('SLICE', ['@', 'begin', 'size']), c('SLICE', ['@', 'begin2', 'size2'])], {}),
    ('fuse_dequant_quant_pass', (True,), [c('QUANTIZE', ['@']), c('DEQUANTIZE', ['@'])], {}),
    ('fuse_dequant_quant_pass', (False,), [c('DEQUANTIZE', ['@']), c('QUANTIZE', ['@'])], {}),
    ('fuse_dequant_quant_pass', (True,), [c('QUANTIZE', ['@']), c('DEQUANTIZE', ['@']), c('QUANTIZE', ['@'])], {}),
    ('fuse_dequant_quant_pass', (False,), [c('QUANTIZE', ['@']), c('DEQUANTIZE', ['@']), c('QUANTIZE', ['@'])], {}),
    ('remove_noop_pass', (), [RS], {}),
    ('remove_noop_pass', (), [TR], {}),
    ('remove_noop_pass', (), [c('PAD', ['@', 'pads'])], {}),
    ('remove_noop_pass', (True,), [RS], {}),
    ('remove_noop_pass', (True,), [c('SLICE', ['@', 'begin', 'size'])], {}),
    ('remove_noop_pass', (True,), [c('CONCATENATION', ['@'], fusedActivationFunction=0, axis=1)], {}),
    ('fuse_wrapped_reshape_within_transpose_pass', (), [TR, RS, TR], {}),
    ('branch_reshape_expand_pass', (), [RS, RS], {'clones': True}),
    ('branch_transpose_expand_pass', (), [TR, TR], {'clones': True}),
    ('fold_transpose_buffer', (), [TR], {'pre': ('const', 'op')}),
    ('fold_reshape_buffer', (), [RS], {'pre': ('const', 'op')}),
    ('transpose_to_reshape_pass', (), [TR], {}),
    ('fuse_bmm_add_pass', (), [c('BATCH_MATMUL', ['@', 'w']), c('ADD', ['@', 'k'], fusedActivationFunction=0)], {}),
    ('fuse_bmm_add_pass', (), [FC, c('ADD', ['@', 'k'], fusedActivationFunction=0)], {}),
    ('lower_transpose_dim_pass', (), [TR], {}),
    ('cleanup_dead_nodes', (), [TR, RS], {}),
    ('elementwise_op_transpose_passthrough_pass', (), [TR, c('RELU', ['@']), TR], {}),
    ('elementwise_op_reshape_passthrough_pass', (), [RS, c('RELU', ['@']), RS], {'shapes': RSH}),
    ('elementwise_op_transpose_passthrough_pass', (), [TR, c('ADD', ['@', '&TRANSPOSE'], fusedActivationFunction=0), TR], {}),
    ('elementwise_op_transpose_passthrough_pass', (), [TR, c('SPLIT', ['dim', '@'], numSplits=2, _outs=2), TR], {}),
    ('elementwise_op_transpose_passthrough_pass', (), [TR, c('MEAN', ['@', 'axes'], keepDims=True), TR], {}),
    ('elementwise_op_reshape_passthrough_pass', (), [RS, c('MUL', ['@', '&RESHAPE'], fusedActivationFunction=0), RS], {'shapes': RSH}),
    ('elementwise_op_quantize_passthrough_pass', (), [c('DEQUANTIZE', ['@']), c('SOFTMAX', ['@'], beta=1), c('QUANTIZE', ['@'])], {}),
    ('elementwise_op_quantize_passthrough_pass', (), [c('DEQUANTIZE', ['@']), c('MAXIMUM', ['@', '&DEQUANTIZE']), c('QUANTIZE', ['@'])], {}),
    ('group_conv_rewrite_pass', (), [c('CONV_2D', ['@', 'w', 'b'], fusedActivationFunction=0, padding=1, strideH=1, strideW=1, dilationHFactor=1, dilationWFactor=1)],
     {'shapes': {'t0': (1, 8, 8, 4), 'x': (1, 8, 8, 4), 'w0': (4, 3, 3, 2)}}),
    ('group_deconv_rewrite_pass', (), [c('TRANSPOSE_CONV', ['oshape', 'w', '@'], fusedActivationFunction=0, padding=1, strideH=1, strideW=1)],
     {'shapes': {'t0': (1, 8, 8, 4), 'x': (1, 8, 8, 4), 't1': (1, 8, 8, 4), 'w0': (2, 3, 3, 4)}}),
    ('cat_split_pass', (), [c('CONCATENATION', ['@'] + ['k%d_' % i for i in range(11)], fusedActivationFunction=0, axis=1)], {}),
    ('fuse_quant_dequant_nodes', (), [c('QUANTIZE', ['@']), ANY, c('DEQUANTIZE', ['@'])], {'opts': {'fuse_input_indices': (0,), 'fuse_output_indices': (0, 1, 2)}, 'io': True}),
    ('fuse_quant_dequant_nodes', (), [c('QUANTIZE', ['@']), c('DEQUANTIZE', ['@'])], {'opts': {'fuse_input_indices': (0,), 'fuse_output_indices': (0, 1)}, 'io': True}),
]


class Bench(Topo):
    shapes = {}

    def hook(self, I, st, fn, args, kwargs, node, mod):
        if is_call(T('call', (fn, (), ())), 'numpy.split', 'numpy.array_split') and len(args) >= 2:
            n = I.norm(st, args[1])
            if isinstance(n, K) and isinstance(n.v, int) and 0 < n.v < 9:
                return Tup([T('part', (args[0], K(i))) for i in range(n.v)])
        return super().hook(I, st, fn, args, kwargs, node, mod)

    def scene(self, case, pre, extras, post):
        """chain fed by `pre`; extras[i] = consumers of tensor t{i} besides the chain; post = consumers of the last tensor"""
        name, args, chain, o = case
        s = Scene(self, {k: Tup([K(x) for x in v]) if isinstance(v, tuple) else v for k, v in o.get('opts', {}).items()})
        self.shapes = o.get('shapes', {})
        s.input('x')
        if any('%y' in ins or any(x[0] == '&' for x in ins) for _, ins, _ in chain):
            s.input('y')
        if pre == 'input':
            t = 'x'
        elif pre == 'const':
            s.const('t0')
            t = 't0'
        elif pre == 'multi':
            s.op('TOPK_1', 'TOPK_V2', ['x', 'k'], ['s0', 't0'])
            s.op('L2N_9', 'L2_NORMALIZATION', ['s0'], ['s0o'])
            s.output('s0o')
            t = 't0'
        else:
            s.op('LRN_1', 'LOCAL_RESPONSE_NORMALIZATION', ['x'], ['t0'])
            t = 't0'
        ts = [t]
        s.chain = []
        for i, (code, ins, attrs) in enumerate(chain):
            n = '%s_%d' % (code, i + 2)
            for x in ins:
                if x[0] == '&':
                    s.op('%s_%d' % (x[1:], 80 + i), x[1:], ['y'] + ([] if 'QUANT' in x else ['side%d' % i]), ['y%d' % i])
            outs = ['t%d' % (i + 1)] + ['u%d_%d' % (i, j) for j in range(1, attrs['_outs'].v if '_outs' in attrs else 1)]
            ins = [ts[-1] if x == '@' else 'y%d' % i if x[0] == '&' else x[1:] if x[0] == '%' else '%s%d' % (x, i) for x in ins]
            d = {k: self.I.new_list(s.st, [K(x) for x in v]) if isinstance(v, list) else v for k, v in attrs.items()}
            d.pop('_outs', None)
            s.op(n, code, ins, outs, **d)
            for u in outs[1:]:
                s.op('TRANSPOSE_%d' % (70 + i), 'TRANSPOSE', [u, 'perm' + u], [u + 't'])
                s.output(u + 't')
            s.chain.append(n)
            ts.append('t%d' % (i + 1))
        s.ts = ts
        s.points = []
        k = 20
        for i, kinds in list(enumerate(extras)) + [(len(ts) - 1, post)]:
            for kind in kinds:
                if kind == 'out':
                    s.output(ts[i])
                    s.points.append((ts[i], i, bool(o.get('io'))))
                    continue
                code = {'op': 'L2_NORMALIZATION', 'quant': 'QUANTIZE', 'deq': 'DEQUANTIZE', 'rsq': 'RESHAPE'}[kind]
                o_ = 'e%d' % k
                s.op('%s_%d' % (code, k), code, [ts[i]] + (['rs%d' % k] if kind == 'rsq' else []), [o_])
                if kind == 'rsq':
                    s.op('QUANTIZE_%d' % (k + 50), 'QUANTIZE', [o_], [o_ + 'q'])
                    o_ += 'q'
                s.output(o_)
                s.points.append((o_, i, kind in ('quant', 'deq', 'rsq') or bool(o.get('io'))))
                k += 1
        for n in [p for p in (['s0o'] if pre == 'multi' else [])]:
            s.points.append((n, 0, False))
        s.attrs0 = self.heap(s)
        return s

    def heap(self, s):
        """contents of the operators and tensors of a scene (one level)"""
        r = {}
        for n, ref in list(s.ops.items()) + [('tensor ' + k, v) for k, v in s.tensors.items()]:
            o = self.I.obj(s.st, ref)
            r[n] = {k: v for k, v in o.attrs.items() if k not in ('inputs', 'outputs', 'extra_hints', 'name', 'index')}
            if n.startswith('tensor '):
                r[n].pop('buffer', None)
        return r

    # ---- values ----------------------------------------------------------------------------------
    def expr(self, s, snap, tname, erase, depth=40, exact=None):
        for n, d in snap['v'].items():
            if d['type'] == self.code('OUTPUT_NODE').v or tname not in d['outs']:
                continue
            if d['op'] is None:
                if d['type'] == self.code('CONSTANT_NODE').v:
                    if erase:
                        return ('const', '*')
                    t = s.get(s.I.getitem(s.st, s.get(s.cg, 'tensor_map'), K(tname)), 'tensor')
                    return ('const', str(t))
                return ('leaf', 'input %d' % snap['inputs'].index(tname) if tname in snap['inputs'] else tname)
            if depth == 0:
                return ('cycle',)
            name = s.opname(d['op'])
            args = [self.expr(s, snap, i, erase, depth - 1, exact) for i in d['ins']]
            if name in erase or (name.startswith('new') and erase):
                flow = []
                for a in args:
                    for x in (a[1] if a[0] == 'mix' else [a]):
                        if x[0] != 'const' and x not in flow:
                            flow.append(x)
                if len(flow) == 1:
                    return flow[0]
                if not flow:
                    return ('const', '*')
                return ('mix', sorted(flow, key=str))
            if exact is not None:
                old, now = exact[0].get(name), exact[1].get(name)
                if old is not None and any(old.get(k) != now.get(k) for k in old):
                    name += ' (changed: %s)' % ', '.join(sorted(k for k in old if old.get(k) != now.get(k)))
                old, now = exact[0].get('tensor ' + tname), exact[1].get('tensor ' + tname)
                if old is not None and any(old.get(k) != now.get(k) for k in old):
                    name += ' (result changed: %s)' % ', '.join(sorted(k for k in old if old.get(k) != now.get(k)))
            return (name, d['outs'].index(tname), tuple(args))
        return ('dangling', tname)

    def judge(self, case, s, before, after):
        """problems of one final state"""
        bad = []
        io = bool(case[3].get('io'))
        for p in s.malformed(after):
            if not (io and 'by an edge named' in p):
                bad.append(p)
        if len(before['outputs']) != len(after['outputs']):
            bad.append('the model has %d outputs instead of %d' % (len(after['outputs']), len(before['outputs'])))
            return bad
        now = self.heap(s)
        last = len(s.ts) - 1
        for tname, i, soft in s.points:
            new = after['outputs'][before['outputs'].index(tname)]
            if new != tname and not io:
                bad.append('model output %s is now listed as %s' % (tname, new))
                continue
            if i >= 2 or i == last or soft or case[3].get('clones'):
                erase = set(s.chain)
                a, b = self.expr(s, before, tname, erase), self.expr(s, after, new, erase)
            else:
                a, b = self.expr(s, before, tname, set(), exact=(s.attrs0, s.attrs0)), self.expr(s, after, new, set(), exact=(s.attrs0, now))
            if a != b:
                bad.append('%s (consumer of %s) was computed from %s and is computed from %s afterwards' % (tname, s.ts[i], show(a), show(b)))
        return bad


def show(e):
    if e[0] in ('leaf', 'dangling'):
        return e[1] if e[0] == 'leaf' else 'nothing (%s)' % e[1]
    if e[0] == 'const':
        return 'const'
    if e[0] == 'mix':
        return 'mix(%s)' % ', '.join(show(x) for x in e[1])
    if e[0] == 'cycle':
        return 'a cycle'
    return '%s(%s)' % (e[0], ', '.join(show(x) for x in e[2] if x[0] != 'const'))


def scenes(case, tier):
    name, args, chain, o = case
    kinds = o.get('kinds', ('op', 'out'))
    pres = o.get('pre', ('op', 'input', 'multi'))
    opts = [()] + [(k,) for k in kinds] + ([('op', 'out')] if 'op' in kinds else [])
    posts = [('op',), ('out',), ('op', 'out')] + ([('op', 'op')] if tier == 'thorough' else [])
    for pre in pres:
        for post in posts:
            for ex in itertools.product(opts, repeat=len(chain)):
                if pre == 'input' and ('out' in ex[0]):
                    continue
                if o.get('io') and (pre != 'input' or 'out' in ex[0]):
                    continue
                if pre == 'const' and ('out' in post or any('out' in e for e in ex)):
                    continue        # constants as model outputs are refused by the converter
                n = sum(1 for e in ex if e)
                if tier != 'thorough' and n > 1 + (len(chain) == 2):
                    continue
                yield pre, ex, post


def work(item):
    B, case, pre, ex, post, limit = item
    res = {'runs': 0, 'open': 0, 'edits': 0, 'bad': [], 'und': []}

    def build():
        s = B.scene(case, pre, ex, post)
        return s

    def run(s):
        return s.run(case[0], *[K(a) for a in case[1]])
    for s, fin, made, complete in B.explore(build, run, limit):
        res['runs'] += 1
        if fin is None:
            res['open'] += 1
            res['und'].append(s.undecided)
            continue
        if not fin:
            continue            # stops with an error: loud
        try:
            after = s.snapshot()
            bad = B.judge(case, s, s.before, after)
        except Undecided as u:
            res['open'] += 1
            res['und'].append(str(u))
            continue
        if after['e'] != s.before['e'] or {n: d['ins'] for n, d in after['v'].items()} != {n: d['ins'] for n, d in s.before['v'].items()}:
            res['edits'] += 1
        facts = ['%s%s' % ('' if v else 'not ', str(a)[:120]) for a, v, f in made]
        for b in bad:
            res['bad'].append((b, facts))
    res['analysed'] = sorted(map(str, B.I.analysed))
    return res


def run(ctx):
    B = Bench(ctx)
    ctx.rule('scene', 'in every final state of the pass on this graph all reads have a producer and every untouched value is kept', 200)
    ctx.rule('effective', 'the pass does rewrite the scene without other consumers (so the scene exercises it)', 20)
    limit = 160 if ctx.tier == 'thorough' else 14
    items, meta = [], []
    for case in CASES:
        if not any(getattr(n, 'name', None) == case[0] for n in B.cls.node.body):
            raise AnalysisBroken('pass %s not found' % case[0])
        for pre, ex, post in scenes(case, ctx.tier):
            items.append((B, case, pre, ex, post, limit))
    res = parallel(items, work)
    eff = {}
    nopen = nrun = 0
    for it, r in zip(items, res):
        _, case, pre, ex, post, _ = it
        what = '%s on %s' % (case[0], ' -> '.join(x[0] for x in case[2]))
        inst = '%s fed by %s, others %s, result read by %s' % (what, pre, ['+'.join(e) or '-' for e in ex], '+'.join(post))
        nopen += r['open']
        nrun += r['runs']
        ctx.analysed |= set(r['analysed'])
        eff[what] = eff.get(what, 0) + r['edits']
        if r['open'] == r['runs']:
            ctx.skip(inst, r['und'][0])
            continue
        ctx.ob('scene', inst)
        seen = set()
        for b, facts in r['bad']:
            if b not in seen:
                seen.add(b)
                ctx.finding('scene', what, B.line(case[0]), '%s: %s [with %s]' % (inst, b, '; '.join(facts)[:400]))
    for w, n in sorted(eff.items()):
        if n:
            ctx.ob('effective', w)
        else:
            ctx.note('no scene was rewritten: %s' % w)
            ctx.skip(w, 'no scene was rewritten')
    ctx.note('%d abstract runs, %d with an undecided final graph' % (nrun, nopen))
