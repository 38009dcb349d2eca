"""C02 / C03: translation of the source operators."""
import re
from sa.framework import parallel
from sa.interp import K, T, Tup, Ref, NONE, Dead, Cls
from sa.arr import Arr, Poly, Unk, NoShape, indices
from sa.conv import Bench, Scene, Canon, In, Par, Con, L, Same
from sa.sem import Sem, Missing
from sa.topo import Undecided

TITLE = 'source operators map to the right target operators'
EXPLANATION = ('Abstract interpretation of the converter class of each source operator on one node with symbolic tensors (run-time, constant and scalar arguments, ranks and '
               'options enumerated). The produced graph of target operators is evaluated on symbolic elements with the target format\'s definitions and compared with the '
               'source operator\'s definition, element by element.')


def show(v):
    if isinstance(v, Par):
        return 'constant%s' % (list(v.shape),)
    if isinstance(v, In):
        return '%s%s' % ('' if v.dtype == 'float32' else v.dtype, list(v.shape))
    if isinstance(v, Con):
        return 'tensor(%s)' % (v.v,)
    if isinstance(v, Same):
        return v.name
    if isinstance(v, L):
        return '(%s)' % ', '.join(map(show, v))
    return repr(v)


def name_of(c):
    kind, spec, ref, note, opts, attrs, out = c
    a = ['%s=%s' % (k, show(v)) for k, v in list(spec.items()) + list(attrs.items()) + list(opts.items())]
    return '%s(%s)%s' % (kind, ', '.join(a), ' ' + note if note else '')


def tracked(spec):
    def t(v):
        return isinstance(v, In) and not isinstance(v, Par) or isinstance(v, L) and any(map(t, v))
    return any(t(v) for v in spec.values())


BENCH = []


def bench(ctx):
    if not BENCH or BENCH[0][0] is not ctx:
        BENCH[:] = [(ctx, Bench(ctx))]
    return BENCH[0][1]


def run_case(ctx, c, limit=12):
    """(verdict, message): ok | dropped | wrong | stopped | undecided; branches on the data of traced tensors are explored both ways"""
    queue, seen, out = [()], 0, []
    while queue and seen < limit:
        pre = queue.pop(0)
        seen += 1
        made = []
        r = run_path(ctx, c, pre, made)
        if len(made) > 8:
            return 'undecided', 'too many branches on data'
        for i in range(len(pre), len(made)):
            queue.append(tuple(m[1] for m in made[:i]) + (not made[i][1],))
        out.append(r)
        if r[0] in ('wrong', 'dropped'):
            return r[0], r[1] + (' (when %s)' % ', '.join('%s%s' % ('' if m[1] else 'not ', str(m[0])[:90]) for m in made) if made else '')
    if queue:
        return 'undecided', 'too many branches on data'
    for v in ('undecided', 'ok', 'stopped'):
        for r in out:
            if r[0] == v:
                return r


def run_path(ctx, c, pre, decided):
    kind, spec, ref, note, opts, attrs, nout = c
    b = bench(ctx)
    I = b.I
    s = Scene(b, kind, spec, opts)
    cls = b.cls_of(kind)
    if not isinstance(cls, Cls):
        return 'undecided', 'converter of %s not known: %r' % (kind, cls)
    want = ref(**{k.split('#')[0]: v for k, v in s.made.items() if k in spec})
    want = list(want) if isinstance(want, tuple) else [want]
    memo = {}

    def oracle(st, atom):
        if atom not in memo:
            if 'traced ' not in str(atom) or len(decided) > 8:
                raise Undecided('branch on %s' % str(atom)[:200])
            memo[atom] = pre[len(decided)] if len(decided) < len(pre) else True
            decided.append((atom, memo[atom]))
        return memo[atom]
    I.oracle = oracle
    try:
        on = s.convert(cls, want, attrs)
    except Dead as d:
        return 'stopped', str(d)[:200] + ' ' + str(getattr(d, 'exc', ''))[:200]
    except (Undecided, NoShape, Unk) as u:
        return 'undecided', str(u)[:300]
    finally:
        I.oracle = None
    return compare(b, s, on, want, [k for k, v in spec.items() if isinstance(v, Par) and v.dtype.startswith(('int', 'uint', 'bool'))])


def compare(b, s, on, want, ints=()):
    canon = Canon(ints)
    try:
        sem = Sem(s)
        for n, w in zip(on, want):
            if w is None:
                continue
            ns = s.produced(n)
            if ns is None:
                return 'dropped', 'output %s is produced by no target operator' % n
            ws = w if isinstance(w, list) else [w]
            if len(ns) != len(ws):
                return 'wrong', '%d results instead of %d' % (len(ns), len(ws))
            for m, v in zip(ns, ws):
                if m not in sem.prod:
                    return 'dropped', 'output %s is produced by no target operator' % m
                got = sem.value(m)
                if got.shape != v.shape and not (v.shape == () and got.shape == (1,)):
                    return 'wrong', 'result %s has shape %s instead of %s' % (m, list(got.shape), list(v.shape))
                for i, p, q in zip(indices(v.shape), got.el, v.el):
                    p, q = canon.poly(p), canon.poly(q)
                    if p != q:
                        return 'wrong', 'element %s of the result %s is %s instead of %s' % (list(i), m, str(p)[:220], str(q)[:220])
        bad = list(s.malformed(sem.snap))
        if bad:
            return 'wrong', bad[0]
        bad = b.recorded(s, sem) or list(operand_types(s, sem))
        if bad:
            return 'wrong', bad[0]
    except NoShape as e:
        return 'wrong', 'the result cannot be computed: %s' % e
    except Missing as m:
        return 'stopped', str(m)
    except (Undecided, Unk) as u:
        return 'undecided', str(u)[:300]
    return 'ok', ''


SAME_TYPE = {'ADD', 'SUB', 'MUL', 'DIV', 'POW', 'FLOOR_DIV', 'FLOOR_MOD', 'MAXIMUM', 'MINIMUM', 'SQUARED_DIFFERENCE', 'EQUAL', 'NOT_EQUAL', 'GREATER', 'GREATER_EQUAL',
             'LESS', 'LESS_EQUAL', 'PRELU', 'BATCH_MATMUL'}
EVEN_RESULT = SAME_TYPE - {'EQUAL', 'NOT_EQUAL', 'GREATER', 'GREATER_EQUAL', 'LESS', 'LESS_EQUAL'}


def operand_types(s, sem):
    """the runtime refuses binary operators on tensors of different types"""
    for n, d in sem.snap['v'].items():
        if d['op'] is None:
            continue
        name = sem.code_name(d)
        if name not in SAME_TYPE:
            continue
        dt = []
        for t in (s.items(s.get(d['op'], 'inputs')) + (s.items(s.get(d['op'], 'outputs')) if name in EVEN_RESULT else [])):
            v = sem.I.norm(s.st, s.get(t, 'tensor'))
            if isinstance(v, Arr) and v.dtype:
                dt.append(v.dtype)
        if len(set(dt)) > 1:
            yield 'operator %s on tensors of the types %s' % (name, ', '.join(dt))


def all_cases(ctx):
    from sa.convcases import CASES
    have = {}
    for c in CASES:
        have.setdefault(c[0], []).append(c)
    b, out = bench(ctx), list(CASES)
    for c in b.kinds():
        if c in have or not c.endswith('_') and c not in ('aten::unsafe_chunk', 'aten::index_put'):
            continue
        for d in (c.rstrip('_'), c.replace('unsafe_', ''), c + '_'):
            if d in have and d != c:
                out += [(c,) + x[1:] for x in have[d] if not x[4]]
                break
    return out


def judge(ctx, cases):
    seen = set()

    def one(i):
        r = run_case(ctx, cases[i])
        new = {str(x) for x in bench(ctx).I.analysed} - seen
        seen.update(new)
        return r, new
    bench(ctx).cls_of('aten::add')
    rs = parallel(list(range(len(cases))), one)
    for _, new in rs:
        ctx.analysed |= new
    return [r for r, _ in rs]


RESULTS = []


def results(ctx):
    if not RESULTS:
        cs = all_cases(ctx)
        RESULTS.append((cs, judge(ctx, cs)))
    return RESULTS[0]


def site(ctx, kind):
    c = bench(ctx).cls_of(kind)
    if not isinstance(c, Cls):
        return 'tinynn/converter/operators/torch/__init__.py:1'
    return '%s:%d' % (ctx.repo.module(c.mod).rel(), c.node.lineno)


def construct(kind, msg):
    """the kind of operator; for one function in place of another of the same arguments, both of them as well"""
    m = re.match(r'element \S.* of the result \S+ is ([A-Z_]+)\((.*)\) instead of ([A-Z_]+)\((.*)\)$', msg)
    if m and m.group(2) == m.group(4):
        return '%s: %s for %s' % (kind.rstrip('_'), m.group(1), m.group(3))
    return kind


def run(ctx):
    ctx.rule('value', 'every element of every result of the produced target operators is the element the source operator defines', 100)
    ctx.rule('kinds', 'source operators with at least one translated case', 30)
    cs, rs = results(ctx)
    stopped = 0
    for c, (v, msg) in zip(cs, rs):
        n = name_of(c)
        if v == 'ok':
            ctx.ob('value', n)
            ctx.ob('kinds', c[0])
        elif v == 'wrong':
            ctx.ob('value', n)
            ctx.finding('value', construct(c[0], msg), site(ctx, c[0]), '%s: %s' % (n, msg))
        elif v == 'undecided':
            ctx.skip(n, msg)
        elif v == 'stopped':
            stopped += 1
            if stopped <= 20:
                ctx.note('refused with an error: %s: %s' % (n, msg[:100]))
    ctx.note('%d cases are refused with an error' % stopped)
