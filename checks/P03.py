"""P03: kept channels keep their order and are sliced identically everywhere."""
from sa.framework import parallel
from sa.interp import State, K, T, Ref, Bi, NONE, Dead, Tup
from sa.arr import Arr, Poly, Unk, NoShape, indices
from sa.repo import AnalysisBroken
from checks.P01 import Bench as P01Bench, Case, MOD, take, keep, judge as slice_judge, cases as slice_cases
from checks.P02 import Bench as P02Bench, sel_cases, sel_case, ORDERS

TITLE = 'kept channels keep their order and are sliced identically everywhere'
EXPLANATION = ('Abstract interpretation of the index computations of the pruner. complementary_list must be the ascending complement for every order and repetition of the removed indices; every modifier, '
               'given the removed channels in any order, must keep the remaining ones in ascending order in each parameter (elements are symbols); the grouping of dependent channels must be a partition; '
               'the channels chosen for a set of dependent layers (symbolic importances under an assumed order) must correspond exactly through the dependency maps; and the order in which the dependency '
               'maps of a concatenation are laid out must be the order of its operands.')


def fn(I, name):
    f = I.lookup(MOD + '.' + name)
    if f is None:
        raise AnalysisBroken('%s not found' % name)
    return f


def known(I, st, v):
    k = I.iter_known(st, I.norm(st, v))
    if k is None or k[1]:
        raise Unk('result not known: %s' % str(v)[:80])
    r = []
    for x in k[0]:
        x = I.norm(st, x)
        r.append(x.v if isinstance(x, K) else frozenset(known(I, st, x)))
    return r


# ---- complements -------------------------------------------------------------------------------------
def comp_case(item):
    B, (n, rm) = item
    I = B.I
    st = State()
    name = 'complement of %s in %d channels' % (rm, n)
    bad, und = [], []
    f = fn(I, 'complementary_list')
    lst = lambda v: I.new_list(st, [K(j) for j in v])
    try:
        for a in ((lst(range(n)), lst(rm)), (K(range(n)), lst(rm)), (lst(range(n)), Tup([K(j) for j in rm]))):
            r = known(I, st, I.call(st, f, list(a), {}, None, None))
            w = [i for i in range(n) if i not in rm]
            if r != w:
                bad.append('it is %s, expected %s' % (r, w))
    except Dead as d:
        bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape) as u:
        und.append(str(u))
    return {'rule': 'complement', 'where': '%s:%d complementary_list' % (I.repo.module(f.mod).rel(), f.node.lineno), 'name': name, 'bad': bad, 'und': und, 'analysed': sorted(map(str, I.analysed))}


def comp_cases():
    r = []
    for n in (1, 4, 12, 40):
        for rm in ([], [0], [n - 1], [n - 1, 0], list(range(n - 1, 0, -2)), list(range(n)), [0, 0, n - 1], list(range(0, n, 3)) + list(range(0, n, 2)),
                   [i for i in range(n) if i not in (1, 8)], [i for i in range(n) if i not in (3, 16, 17)], [i for i in range(n) if i not in (0, 33, 34, 9)]):
            if (n, rm) not in r:
                r.append((n, rm))
    return r


# ---- partitions ----------------------------------------------------------------------------------------
def part_cases():
    S = [[[0, 1], [2], [1, 3]], [[0], [1], [2]], [[0, 1], [2, 3], [1, 2], [4]], [[0, 1, 2, 3], [0, 1], [2]], [[3], [3], [3, 4]], [[], [1, 0], []], [[-1.0], [1], [2, 1]],
         [[0, 4], [1, 5], [2, 6], [3, 7], [4, 5]], [[5], [4, 5], [3, 4], [2, 3], [1, 2], [0, 1]], [[0, 1, 2, 3], [4, 5, 6, 7], [2, 3, 4, 5]], [[0, 1, 2, 3, 4, 5, 6, 7], [0, 1, 2, 3], [4, 5, 6, 7]]]
    return [(f, s) for f in ('merge_constraint', 'merge_group') for s in S if not (f == 'merge_group' and (any(-1.0 in x for x in s) or [] in s))]


def part_case(item):
    B, (fname, sets) = item
    I = B.I
    st = State()
    name = '%s of %s' % (fname, sets)
    bad, und = [], []
    f = fn(I, fname)
    try:
        mk = lambda s: I.call(st, Bi('set'), [I.new_list(st, [K(j) for j in s])], {}, None, None)
        x = I.new_list(st, [mk(s) for s in sets])
        I.call(st, f, [x], {}, None, None)
        got = known(I, st, x)
        src = [set(s) for s in sets if s and s != [-1.0]]
        if fname == 'merge_constraint':
            want = []
            for s in src:
                s = set(s)
                for w in [w for w in want if w & s]:
                    s |= w
                    want.remove(w)
                want.append(s)
        else:
            key = {}
            for e in set().union(*src):
                key.setdefault(tuple(e in s for s in src), set()).add(e)
            want = list(key.values())
        if sorted(map(sorted, got)) != sorted(map(sorted, want)):
            bad.append('it is %s, expected %s' % (sorted(map(sorted, got)), sorted(map(sorted, want))))
    except Dead as d:
        bad.append('it fails: %s' % str(getattr(d, 'exc', d))[:200])
    except (Unk, NoShape) as u:
        und.append(str(u))
    return {'rule': 'partition', 'where': '%s:%d %s' % (I.repo.module(f.mod).rel(), f.node.lineno, fname), 'name': name, 'bad': bad, 'und': und, 'analysed': sorted(map(str, I.analysed))}


# ---- slices with unordered removal lists ------------------------------------------------------------------
def order_cases():
    r = []
    for kind, args, kw, xs, ys, i, o, d, via in (
            ('Conv2d', [6, 5, 1], {}, (1, 6, 2, 2), (1, 5, 2, 2), [4, 0, 3], [3, 1], 1, 'own'),
            ('Conv1d', [6, 5, 1], {}, (1, 6, 2), (1, 5, 2), [4, 0, 3], [3, 1], 1, 'own'),
            ('Conv2d', [6, 6, 1], {'groups': 6}, (1, 6, 2, 2), (1, 6, 2, 2), [5, 0, 2], [5, 0, 2], 1, 'own'),
            ('Conv2d', [6, 6, 1], {'groups': 2}, (1, 6, 2, 2), (1, 6, 2, 2), [5, 1], [4, 0], 1, 'own'),
            ('ConvTranspose2d', [6, 5, 1], {}, (1, 6, 2, 2), (1, 5, 2, 2), [4, 0, 3], [3, 1], 1, 'own'),
            ('ConvTranspose1d', [6, 5, 1], {}, (1, 6, 2), (1, 5, 2), [4, 0, 3], [3, 1], 1, 'own'),
            ('Linear', [6, 5], {}, (2, 6), (2, 5), [4, 0, 3], [3, 1], 1, 'own'),
            ('BatchNorm2d', [6], {}, (1, 6, 2, 2), (1, 6, 2, 2), [4, 0, 3], [4, 0, 3], 1, 'centre'),
            ('LayerNorm', [6], {}, (2, 6), (2, 6), [4, 0, 3], [4, 0, 3], 1, 'centre'),
            ('PReLU', [6], {}, (1, 6, 2, 2), (1, 6, 2, 2), [4, 0, 3], [4, 0, 3], 1, 'centre'),
            ('RNN', [4, 3], {}, (5, 2, 4), (5, 2, 3), [3, 0], [2, 0], 2, 'own'),
            ('GRU', [4, 3], {}, (5, 2, 4), (5, 2, 3), [3, 0], [2, 0], 2, 'own'),
            ('LSTM', [4, 3], {}, (5, 2, 4), (5, 2, 3), [3, 0], [2, 0], 2, 'own'),
            ('LSTM', [4, 3], {'bidirectional': True}, (5, 2, 4), (5, 2, 6), [3, 0], [2, 1, 5, 4], 2, 'own')):
        r.append(Case(kind, args, kw, xs, ys, i, o, d, via))
    return r


def order_case(item):
    r = slice_judge(item)
    r['rule'] = 'ascending slices'
    return r


# ---- the dependency maps of concatenations -----------------------------------------------------------------
def run(ctx):
    ctx.rule('complement', 'the kept indices are the ascending complement of the removed ones', 8)
    ctx.rule('partition', 'merged constraints and groups are the finest / coarsest partition that respects the given sets', 8)
    ctx.rule('ascending slices', 'each parameter keeps the remaining channels in ascending order whatever the order of the removed ones', 5)
    ctx.rule('dependent layers', 'the removed channels of dependent layers correspond, ascending and free of duplicates', 40)
    A, B = P01Bench(ctx), P02Bench(ctx)
    res = parallel([(A, c) for c in comp_cases()], comp_case) + parallel([(A, c) for c in part_cases()], part_case) + parallel([(A, c) for c in order_cases()], order_case)
    for r in parallel([(B, (c, o)) for c in sel_cases() for o in range(len(ORDERS))], sel_case):
        r['rule'] = 'dependent layers'
        r['bad'] = [t for k, t in r['bad'] if k in ('order', 'agree', 'fail')]
        res.append(r)
    for r in res:
        ctx.analysed |= set(r['analysed'])
        ctx.ob(r['rule'], r['name'])
        if r['bad']:
            ctx.finding(r['rule'], r['name'], r['where'], r['bad'][0])
        elif r['und']:
            ctx.skip(r['name'], r['und'][0])
