"""Abstract interpreter for the analysed Python sources.

Interprocedural, flow- and context-sensitive, join-based (no path enumeration, no solver, the
analysed code is never imported or run).  Values are constants, symbolic provenance terms, abstract heap
objects; branch joins keep a gated phi ("ite") of the branch condition.  Unknown conditions analyse
both branches and join; loops over unknown iterables are analysed twice and joined.
"""
import ast
import operator
import re
import sys
from .repo import Repo, AnalysisBroken

sys.setrecursionlimit(60000)


# ----------------------------------------------------------------------------------------- values
class V:
    __slots__ = ()


class K(V):
    __slots__ = ('v', '_h')

    def __init__(self, v):
        self.v = v
        self._h = hash((type(v).__name__, v))

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return self._h

    def __repr__(self):
        return repr(self.v)


class T(V):
    __slots__ = ('op', 'args', '_h', 'size')

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._h = hash((op, args))
        self.size = 1 + sum(a.size if isinstance(a, T) else 1 for a in args)

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, T) and self._h == o._h and self.op == o.op and self.args == o.args

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


class Tup(V):
    __slots__ = ('items', '_h')

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(('tup', self.items))

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + ')'


class Ref(V):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and self.id == o.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return '&%d' % self.id


class Fn(V):
    __slots__ = ('node', 'mod', 'frame', 'name', 'cls', 'defaults', 'kwdefaults', 'qual')

    def __init__(self, node, mod, frame, name, cls, defaults, kwdefaults, qual):
        self.node, self.mod, self.frame, self.name = node, mod, frame, name
        self.cls, self.defaults, self.kwdefaults, self.qual = cls, defaults, kwdefaults, qual

    def __eq__(self, o):
        return isinstance(o, Fn) and self.node is o.node and self.frame == o.frame

    def __hash__(self):
        return hash(('fn', id(self.node), self.frame))

    def __repr__(self):
        return '<fn %s>' % self.qual


class BM(V):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __eq__(self, o):
        return isinstance(o, BM) and self.fn == o.fn and self.self == o.self

    def __hash__(self):
        return hash(('bm', self.fn, self.self))

    def __repr__(self):
        return '<bm %r.%r>' % (self.self, self.fn)


class Cls(V):
    __slots__ = ('qual', 'node', 'mod', 'bases', 'attrs', 'mro')

    def __init__(self, qual, node, mod):
        self.qual, self.node, self.mod = qual, node, mod
        self.bases, self.attrs, self.mro = [], {}, [self]

    def __eq__(self, o):
        return isinstance(o, Cls) and self.qual == o.qual

    def __hash__(self):
        return hash(('cls', self.qual))

    def __repr__(self):
        return '<cls %s>' % self.qual

    @property
    def name(self):
        return self.qual.rpartition('.')[2]


class Mod(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and self.name == o.name

    def __hash__(self):
        return hash(('mod', self.name))

    def __repr__(self):
        return '<mod %s>' % self.name


class Bi(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Bi) and self.name == o.name

    def __hash__(self):
        return hash(('bi', self.name))

    def __repr__(self):
        return self.name


class Part(V):
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), tuple(sorted(kwargs.items()))

    def __eq__(self, o):
        return isinstance(o, Part) and (self.fn, self.args, self.kwargs) == (o.fn, o.args, o.kwargs)

    def __hash__(self):
        return hash(('part', self.fn, self.args, self.kwargs))

    def __repr__(self):
        return 'partial(%r)' % (self.fn,)


class Wrap(V):
    """staticmethod / classmethod / property wrappers"""
    __slots__ = ('kind', 'fn')

    def __init__(self, kind, fn):
        self.kind, self.fn = kind, fn

    def __eq__(self, o):
        return isinstance(o, Wrap) and self.kind == o.kind and self.fn == o.fn

    def __hash__(self):
        return hash((self.kind, self.fn))

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.fn)


class LV:
    """a loose version constant"""
    def __init__(self, s):
        import re
        self.s = str(s)
        self.t = tuple(int(x) for x in re.findall(r'\d+', self.s.split('+')[0]))

    def __hash__(self):
        return hash(self.t)

    def __eq__(self, o):
        return self.t == LV(o.s if isinstance(o, LV) else o).t

    def __lt__(self, o):
        return self.t < LV(o.s if isinstance(o, LV) else o).t

    def __le__(self, o):
        return self.t <= LV(o.s if isinstance(o, LV) else o).t

    def __gt__(self, o):
        return self.t > LV(o.s if isinstance(o, LV) else o).t

    def __ge__(self, o):
        return self.t >= LV(o.s if isinstance(o, LV) else o).t

    def __repr__(self):
        return 'LV(%s)' % self.s


NONE, TRUE, FALSE = K(None), K(True), K(False)


def show(v, depth=6):
    if isinstance(v, T):
        if depth <= 0:
            return '...'
        a = v.args
        s = lambda x: show(x, depth - 1)
        if v.op == 'sym':
            return '$' + str(a[0])
        if v.op == 'ext':
            return a[0]
        if v.op == 'attr':
            return '%s.%s' % (s(a[0]), a[1])
        if v.op == 'item':
            return '%s[%s]' % (s(a[0]), s(a[1]))
        if v.op == 'call':
            return '%s(%s)' % (s(a[0]), ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(x)) for k, x in a[2]]))
        if v.op == 'bin':
            return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
        if v.op == 'cmp':
            return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
        return '%s<%s>' % (v.op, ', '.join(s(x) for x in a))
    if isinstance(v, Tup):
        return '(' + ', '.join(show(x, depth - 1) for x in v.items) + ')'
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x, depth - 1) for x in v) + ')'
    return repr(v)


# ------------------------------------------------------------------------------------------- heap
class Obj:
    __slots__ = ('kind', 'items', 'rest', 'attrs', 'cls', 'open', 'parent', 'mod', 'origin')

    def __init__(self, kind, items=(), rest=(), attrs=None, cls=None, open=None, parent=None, mod=None, origin=None):
        self.kind, self.items, self.rest, self.attrs = kind, items, rest, attrs
        self.cls, self.open, self.parent, self.mod, self.origin = cls, open, parent, mod, origin

    def but(self, **kw):
        o = Obj(self.kind, self.items, self.rest, self.attrs, self.cls, self.open, self.parent, self.mod, self.origin)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    @property
    def exact(self):
        return not self.rest


class State:
    __slots__ = ('heap', 'pc', 'facts', 'eq', 'done', 'symattr', 'symitem', 'frame', 'dirty')

    def __init__(self):
        self.heap, self.pc, self.facts, self.eq = {}, (), {}, {}
        self.done, self.symattr, self.symitem, self.frame, self.dirty = frozenset(), {}, {}, None, False

    def copy(self):
        s = State.__new__(State)
        s.heap, s.pc, s.facts, s.eq = dict(self.heap), self.pc, dict(self.facts), dict(self.eq)
        s.done, s.symattr, s.symitem = self.done, dict(self.symattr), dict(self.symitem)
        s.frame, s.dirty = self.frame, False
        return s

    def become(self, o):
        self.heap, self.pc, self.facts, self.eq = o.heap, o.pc, o.facts, o.eq
        self.done, self.symattr, self.symitem, self.frame = o.done, o.symattr, o.symitem, o.frame
        self.dirty = True


class Dead(Exception):
    """all paths of an expression raise"""
    def __init__(self, st, exc):
        self.st, self.exc = st, exc


class Event:
    __slots__ = ('kind', 'fn', 'args', 'kwargs', 'pc', 'node', 'mod', 'func', 'stack', 'result', 'done', 'st')

    def __init__(self, kind, fn, args, kwargs, st, node, mod, func, stack):
        self.kind, self.fn, self.args, self.kwargs = kind, fn, args, kwargs
        self.pc, self.node, self.mod, self.func, self.stack = st.pc, node, mod, func, stack
        self.done, self.result, self.st = st.done, None, None

    def where(self):
        return '%s:%s (%s)' % (self.mod, getattr(self.node, 'lineno', '?'), self.func)

    def __repr__(self):
        return '<%s %s %s %s @%s>' % (self.kind, show(self.fn), [show(a) for a in self.args],
                                      {k: show(x) for k, x in self.kwargs.items()}, self.where())


BUILTINS = set('''len range enumerate zip list tuple dict set frozenset sorted isinstance issubclass getattr setattr
hasattr delattr all any min max sum abs str int float bool bytes reversed map filter type print super id iter next
repr round divmod open callable eval exec object hash vars dir slice complex pow ord chr format input property
staticmethod classmethod Exception AttributeError AssertionError NotImplementedError RuntimeError ValueError KeyError
TypeError StopIteration IndexError ImportError ModuleNotFoundError OSError BaseException KeyboardInterrupt
NotImplemented memoryview bytearray globals locals __import__ DeprecationWarning UserWarning SystemExit
AttributeError FileNotFoundError'''.split())

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
PYBIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
         '%': operator.mod, '**': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor,
         '<<': operator.lshift, '>>': operator.rshift}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
        ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
PYCMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt,
         '>=': operator.ge}
NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>', 'is': 'is not', 'is not': 'is',
       'in': 'not in', 'not in': 'in'}
EXT_ALIAS = {'torch.float': 'torch.float32', 'torch.int': 'torch.int32', 'torch.long': 'torch.int64',
             'torch.double': 'torch.float64', 'torch.half': 'torch.float16', 'torch.short': 'torch.int16',
             'np': 'numpy'}
PYTYPES = {'int': int, 'float': float, 'str': str, 'bool': bool, 'bytes': bytes, 'tuple': tuple, 'list': list,
           'dict': dict, 'set': set}
STRFOLD = set('''isnumeric isdigit isalpha isalnum isidentifier lower upper strip lstrip rstrip startswith endswith replace split rsplit join title find index
capitalize isdigit partition rpartition count format zfill'''.split())


class Interp:
    def __init__(self, repo=None, max_depth=40, steps=4000000):
        self.repo = repo or Repo()
        self.base = State()                 # holds module frames & module level objects
        self.modframe = {}
        self.classes = {}
        self.events = []
        self.hooks = []
        self.arrays = None
        self.assume = None
        self.symtype = {}                   # term -> Cls
        self.stack = []                     # (Fn, node)
        self.raises = [[]]
        self.next_id = 1
        self.max_depth = max_depth
        self.max_rec = 1
        self.steps = steps
        self.nsteps = 0
        self.unroll = 80
        self.strict = False
        self.analysed = set()
        self.rank = None            # assumed order of abstract numbers: array -> (sort key,) or None
        self.known_ext = {'numpy.True_': K(True), 'numpy.False_': K(False), 'sys.version_info': Tup((K(3), K(12), K(3), K('final'), K(0))), 'torch.__version__': K('2.5.1'), 'torch.version.__version__': K('2.5.1'),
                          'sys.platform': K('linux'), 'math.pi': K(3.141592653589793)}
        self.opaque = set()                 # qualnames of repo functions never inlined
        self.log_events = True
        self.inline_filter = None

    # ------------------------------------------------------------------------------------- terms
    def mk(self, op, *args):
        t = T(op, args)
        if t.size > 4000:
            t = T('big', (t._h,))
        if self.assume is not None:
            r = self.assume(t)
            if r is not None:
                return r
        return t

    def sym(self, name, cls=None):
        t = T('sym', (name,))
        if cls is not None:
            self.symtype[t] = cls
        return t

    def ext(self, name):
        parts = name.split('.')
        if parts[0] == 'np':
            name = '.'.join(['numpy'] + parts[1:])
        name = EXT_ALIAS.get(name, name)
        if name in self.known_ext:
            return self.known_ext[name]
        return self.mk('ext', name)

    # -------------------------------------------------------------------------------------- heap
    def new(self, st, obj):
        i = self.next_id
        self.next_id += 1
        st.heap[i] = obj
        st.dirty = True
        return Ref(i)

    def obj(self, st, ref):
        i = ref.id if isinstance(ref, Ref) else ref
        o = st.heap.get(i)
        if o is None:
            o = self.base.heap.get(i)
        return o

    def put(self, st, ref, obj):
        st.heap[ref.id if isinstance(ref, Ref) else ref] = obj
        st.dirty = True

    def new_list(self, st, items, rest=(), origin=None):
        return self.new(st, Obj('list', tuple(items), tuple(rest), origin=origin))

    def new_dict(self, st, entries, rest=()):
        return self.new(st, Obj('dict', tuple(entries), tuple(rest)))

    def new_inst(self, st, cls, attrs=None, open=None):
        return self.new(st, Obj('inst', attrs=dict(attrs or {}), cls=cls, open=open))

    # ------------------------------------------------------------------------------------- joins
    def phi(self, *vs):
        out = []
        for v in vs:
            for x in (v.args if isinstance(v, T) and v.op == 'phi' else (v,)):
                if x not in out:
                    out.append(x)
        if len(out) == 1:
            return out[0]
        if len(out) > 12:
            return T('top', ())
        return T('phi', tuple(out))

    def ite(self, c, a, b):
        if a == b:
            return a
        if c is None:
            return self.phi(a, b)
        if isinstance(c, K):
            return a if c.v else b
        if isinstance(c, T) and c.op == 'not':
            return self.ite(c.args[0], b, a)
        if a == TRUE and b == FALSE:
            return c
        if a == FALSE and b == TRUE:
            return T('not', (c,))
        if isinstance(a, T) and a.op == 'ite' and a.args[0] == c:
            a = a.args[1]
        if isinstance(b, T) and b.op == 'ite' and b.args[0] == c:
            b = b.args[2]
        if a == b:
            return a
        t = T('ite', (c, a, b))
        if t.size > 3000:
            return self.phi(a, b)
        return t

    def merge_obj(self, c, a, b):
        if a is b:
            return a
        if a.kind != b.kind:
            return a
        if a.kind in ('list', 'set', 'dict'):
            if a.items == b.items and a.rest == b.rest:
                return a
            if a.exact and b.exact and len(a.items) == len(b.items) and c is not None:
                if a.kind == 'dict':
                    if all(x[0] == y[0] for x, y in zip(a.items, b.items)):
                        return a.but(items=tuple((x[0], self.ite(c, x[1], y[1])) for x, y in zip(a.items, b.items)))
                else:
                    return a.but(items=tuple(self.ite(c, x, y) for x, y in zip(a.items, b.items)))
            n = 0
            while n < len(a.items) and n < len(b.items) and a.items[n] == b.items[n]:
                n += 1
            rest = []
            for x in tuple(a.items[n:]) + tuple(b.items[n:]) + tuple(a.rest) + tuple(b.rest):
                if x not in rest:
                    rest.append(x)
            return a.but(items=a.items[:n], rest=tuple(rest))
        if a.kind in ('inst', 'frame'):
            if a.attrs == b.attrs:
                return a
            at = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                x, y = a.attrs.get(k), b.attrs.get(k)
                if x is None:
                    x = T('undef', (k,)) if a.open is None else T('attr', (a.open, k))
                if y is None:
                    y = T('undef', (k,)) if b.open is None else T('attr', (b.open, k))
                at[k] = self.ite(c, x, y)
            return a.but(attrs=at)
        return a

    def merge2(self, c, sa, va, sb, vb, pc):
        s = State.__new__(State)
        s.dirty = True
        s.frame = sa.frame
        s.pc = pc
        heap = dict(sa.heap)
        for i, o in sb.heap.items():
            x = heap.get(i)
            if x is None:
                heap[i] = o
                bo = self.base.heap.get(i)
                if bo is not None and bo is not o:
                    heap[i] = self.merge_obj(c, bo, o)
            elif x is not o:
                heap[i] = self.merge_obj(c, x, o)
        for i, o in sa.heap.items():
            if i not in sb.heap:
                bo = self.base.heap.get(i)
                if bo is not None and bo is not o:
                    heap[i] = self.merge_obj(c, o, bo)
        s.heap = heap
        s.facts = {k: v for k, v in sa.facts.items() if sb.facts.get(k) is v}
        s.eq = {k: v for k, v in sa.eq.items() if k in sb.eq and sb.eq[k] == v}
        s.done = sa.done & sb.done
        for nm in ('symattr', 'symitem'):
            a, b = getattr(sa, nm), getattr(sb, nm)
            if a == b:
                setattr(s, nm, a)
                continue
            op = 'attr' if nm == 'symattr' else 'item'
            d = {}
            for k in list(a) + [k for k in b if k not in a]:
                x = a.get(k)
                y = b.get(k)
                if x is None:
                    x = T(op, k)
                if y is None:
                    y = T(op, k)
                d[k] = self.ite(c, x, y)
            setattr(s, nm, d)
        v = None
        if va is not None or vb is not None:
            v = self.ite(c, va if va is not None else NONE, vb if vb is not None else NONE)
        return s, v

    def join(self, items):
        """items: list of (state, value); returns one (state, value)"""
        if len(items) == 1:
            return items[0]
        pcs = [s.pc for s, _ in items]
        m = min(len(p) for p in pcs)
        k = 0
        while k < m and all(p[k] == pcs[0][k] for p in pcs[1:]):
            k += 1
        prefix = pcs[0][:k]
        if all(len(p) > k for p in pcs) and all(p[k][0] == pcs[0][k][0] for p in pcs):
            c = pcs[0][k][0]
            ta = [x for x in items if x[0].pc[k][1]]
            fa = [x for x in items if not x[0].pc[k][1]]
            a, b = self.join(ta), self.join(fa)
            cond = c if not (isinstance(c, T) and c.op == 'iterates') else None
            return self.merge2(cond, a[0], a[1], b[0], b[1], prefix)
        cur = items[0]
        for nx in items[1:]:
            cur = self.merge2(None, cur[0], cur[1], nx[0], nx[1], prefix)
        return cur

    def join_states(self, sts):
        return self.join([(s, None) for s in sts])[0]

    # ------------------------------------------------------------------------------------- truth
    def norm(self, st, v):
        """resolve gated values and equalities known in this state (shallow)"""
        n = 0
        while isinstance(v, T) and n < 50:
            n += 1
            if v in st.eq:
                v = st.eq[v]
                continue
            if v.op == 'ite':
                t = self.truth(st, v.args[0])
                if t is True:
                    v = v.args[1]
                    continue
                if t is False:
                    v = v.args[2]
                    continue
            break
        return v

    def truth(self, st, v):
        v = self.norm(st, v)
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Tup):
            return len(v.items) > 0
        if self.arrays is not None and type(v).__name__ == 'Arr':
            return self.arrays.truth(v)
        if isinstance(v, (Fn, BM, Cls, Mod, Bi, Part)) or isinstance(v, T) and v.op == 'dtype':
            return True
        if isinstance(v, T) and v.op == 'attr' and v.args[1] == 'is_contiguous' and type(v.args[0]).__name__ == 'Arr':
            return True                     # the method itself
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o is None:
                return None
            if o.kind in ('list', 'dict', 'set'):
                if o.items:
                    return True
                return False if o.exact else None
            if o.kind == 'inst' and o.cls is not None:
                return True
            return None
        if isinstance(v, T):
            f = st.facts.get(v)
            if f is not None:
                return f
            if v.op == 'ext':
                return True
            if v.op == 'not':
                t = self.truth(st, v.args[0])
                return None if t is None else (not t)
            if v.op == 'and':
                ts = [self.truth(st, x) for x in v.args]
                if False in ts:
                    return False
                return True if all(t is True for t in ts) else None
            if v.op == 'or':
                ts = [self.truth(st, x) for x in v.args]
                if True in ts:
                    return True
                return False if all(t is False for t in ts) else None
            if v.op in ('phi',):
                ts = [self.truth(st, x) for x in v.args]
                return ts[0] if all(t is ts[0] for t in ts) else None
            if v.op == 'ite':
                a, b = self.truth(st, v.args[1]), self.truth(st, v.args[2])
                return a if a is b else None
            if v.op == 'cmp':
                op = v.args[0]
                nf = st.facts.get(T('cmp', (NEG[op], v.args[1], v.args[2])))
                if nf is not None:
                    return not nf
                r = self.compare(st, op, v.args[1], v.args[2], nofact=True)
                if isinstance(r, K):
                    return bool(r.v)
        return None

    def assume_fact(self, st, c, pol):
        """record that c is truthy/falsy"""
        if isinstance(c, T):
            st.facts[c] = pol
            if c.op == 'not':
                self.assume_fact(st, c.args[0], not pol)
            elif c.op == 'and' and pol:
                for x in c.args:
                    self.assume_fact(st, x, True)
            elif c.op == 'or' and not pol:
                for x in c.args:
                    self.assume_fact(st, x, False)
            elif c.op == 'and' and not pol:
                un = [x for x in c.args if self.truth(st, x) is not True]
                if len(un) == 1:
                    self.assume_fact(st, un[0], False)
            elif c.op == 'or' and pol:
                un = [x for x in c.args if self.truth(st, x) is not False]
                if len(un) == 1:
                    self.assume_fact(st, un[0], True)
            elif c.op == 'ite':
                a, b = self.truth(st, c.args[1]), self.truth(st, c.args[2])
                if a is not None and a != pol:
                    self.assume_fact(st, c.args[0], False)
                    self.assume_fact(st, c.args[2], pol)
                elif b is not None and b != pol:
                    self.assume_fact(st, c.args[0], True)
                    self.assume_fact(st, c.args[1], pol)
            elif c.op == 'cmp':
                op, a, b = c.args
                if not pol:
                    op = NEG[op]
                if op in ('==', 'is'):
                    if isinstance(b, (K, Cls, Bi)) or (isinstance(b, T) and b.op == 'ext'):
                        if isinstance(a, T) and not isinstance(a, K):
                            st.eq.setdefault(a, b)
                    elif isinstance(a, (K, Cls, Bi)) or (isinstance(a, T) and a.op == 'ext'):
                        if isinstance(b, T):
                            st.eq.setdefault(b, a)

    def branch(self, st, c):
        """returns (state_true or None, state_false or None)"""
        t = self.truth(st, c)
        if t is True:
            return st, None
        if t is False:
            return None, st
        while isinstance(c, T) and c.op == 'not':
            f, tr = self.branch(st, c.args[0])
            return tr, f
        if self.oracle is not None:
            r = self.decide(st, c)
            return (st, None) if r else (None, st)
        a, b = st.copy(), st.copy()
        if isinstance(c, T):
            self.assume_fact(a, c, True)
            self.assume_fact(b, c, False)
            a.pc = a.pc + ((c, True),)
            b.pc = b.pc + ((c, False),)
        else:
            cc = T('truthy', (c,))
            a.pc = a.pc + ((cc, True),)
            b.pc = b.pc + ((cc, False),)
        return a, b

    def decide(self, st, c):
        """trace partitioning: ask the oracle for the undecided atoms of c, record them as facts of st"""
        while True:
            t = self.truth(st, c)
            if t is not None:
                return t
            a = c
            while isinstance(a, T) and a.op in ('not', 'and', 'or', 'ite'):
                n = next((x for x in a.args if isinstance(x, T) and self.truth(st, x) is None), None)
                if n is None:
                    break
                a = n
            if isinstance(a, T):
                r = self.oracle(st, a)
                self.assume_fact(st, a, r)
                if self.truth(st, a) is None:
                    return r
                if a is c:
                    return r
            else:
                return self.oracle(st, T('truthy', (a,)))

    oracle = None

    def truth1(self, st, c):
        t = self.truth(st, c)
        if t is None and self.oracle is not None:
            return self.decide(st, c)
        return t

    # ------------------------------------------------------------------------------- comparisons
    def is_const_like(self, v):
        return isinstance(v, (K, Cls, Fn, Mod, Bi)) or (isinstance(v, T) and v.op == 'ext')

    def compare(self, st, op, a, b, nofact=False):
        a, b = self.norm(st, a), self.norm(st, b)
        if self.arrays is not None and 'Arr' in (type(a).__name__, type(b).__name__):
            return self.arrays.compare(st, op, a, b)
        if isinstance(a, K) and isinstance(b, K):
            x, y = a.v, b.v
            try:
                if op in PYCMP:
                    return K(bool(PYCMP[op](x, y)))
                if op == 'is':
                    return K(x is y or (type(x) is type(y) and x == y))
                if op == 'is not':
                    return K(not (x is y or (type(x) is type(y) and x == y)))
                if op == 'in':
                    return K(x in y)
                if op == 'not in':
                    return K(x not in y)
            except TypeError:
                if op in ('<', '<=', '>', '>=') and all(x is None or isinstance(x, (int, float, str)) for x in (a.v, b.v)):
                    raise Dead(st, T('excval', ('TypeError',)))
                return self.mk('cmp', op, a, b)
        if op in ('in', 'not in'):
            b2 = b
            members = None
            if isinstance(b2, Tup):
                members = (b2.items, True)
            elif isinstance(b2, Ref):
                o = self.obj(st, b2)
                if o is not None and o.kind in ('list', 'set'):
                    members = (o.items, o.exact)
                elif o is not None and o.kind == 'dict':
                    members = (tuple(k for k, _ in o.items), o.exact)
            if members is not None:
                res = False
                for m in members[0]:
                    r = self.truth(st, self.compare(st, '==', a, m))
                    if r is True:
                        return K(op == 'in')
                    if r is None:
                        res = None
                if res is False and members[1]:
                    return K(op == 'not in')
                if members[1] and members[0]:
                    d = self.mk('or', *[self.compare(st, '==', a, m) for m in members[0]]) \
                        if len(members[0]) > 1 else self.compare(st, '==', a, members[0][0])
                    return d if op == 'in' else self.neg(d)
            return self.dist(st, op, a, b)
        if op in ('==', 'is', '!=', 'is not'):
            eqop = op in ('==', 'is')
            r = self.equal(st, a, b, op in ('is', 'is not'))
            if r is not None:
                return K(r == eqop)
            if isinstance(a, (Tup,)) and isinstance(b, Tup) and len(a.items) == len(b.items):
                rs = [self.truth(st, self.compare(st, '==', x, y)) for x, y in zip(a.items, b.items)]
                if False in rs:
                    return K(not eqop)
        if op in ('<', '<=', '>', '>=') and self.const_tuple(a) and self.const_tuple(b):
            try:
                return K(bool(PYCMP[op](tuple(x.v for x in a.items), tuple(x.v for x in b.items))))
            except TypeError:
                pass
        return self.dist(st, op, a, b)

    @staticmethod
    def const_tuple(v):
        return isinstance(v, Tup) and all(isinstance(x, K) for x in v.items)

    def dist(self, st, op, a, b):
        """distribute a comparison over gated values when one side is constant-like"""
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, T) and x.op == 'ite' and self.is_const_like(y) and x.size < 60:
                l = self.compare(st, op, *((x.args[1], y) if not sw else (y, x.args[1])))
                r = self.compare(st, op, *((x.args[2], y) if not sw else (y, x.args[2])))
                return self.ite(x.args[0], l, r)
            if isinstance(x, T) and x.op == 'phi' and self.is_const_like(y):
                rs = [self.compare(st, op, *((z, y) if not sw else (y, z))) for z in x.args]
                return self.phi(*rs)
        return self.mk('cmp', op, a, b)

    def equal(self, st, a, b, ident=False):
        if a == b and not (isinstance(a, T) and a.op in ('top', 'phi')):
            return True
        if self.arrays is not None and not ident and (isinstance(a, T) and a.op == 'dtype' or isinstance(b, T) and b.op == 'dtype'):
            da, db = self.arrays.dtype(a), self.arrays.dtype(b)
            if da and db and da != '?' and db != '?':
                return da == db
        ca, cb = self.is_const_like(a), self.is_const_like(b)
        if ca and cb:
            if isinstance(a, K) and isinstance(b, K):
                return None
            return False
        if (a == NONE or b == NONE):
            o = b if a == NONE else a
            if isinstance(o, (Ref, Tup, Fn, BM, Cls, Mod, Part)):
                return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(st, a), self.obj(st, b)
            if ident or (oa.kind == 'inst' and ob.kind == 'inst'):
                return False if a.id != b.id else True
            if oa.kind == ob.kind == 'set' and oa.exact and ob.exact:
                if all(self.distinct(st, x) for x in oa.items + ob.items):
                    return set(oa.items) == set(ob.items)
            if oa.kind == ob.kind == 'list' and oa.exact and ob.exact:
                if len(oa.items) != len(ob.items):
                    return False
                rs = [self.truth(st, self.compare(st, '==', x, y)) for x, y in zip(oa.items, ob.items)]
                if all(r is True for r in rs):
                    return True
                if False in rs:
                    return False
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            rs = [self.truth(st, self.compare(st, '==', x, y)) for x, y in zip(a.items, b.items)]
            if all(r is True for r in rs):
                return True
            if False in rs:
                return False
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Tup, Ref)) and isinstance(y, K):
                if isinstance(x, Tup) or (self.obj(st, x) is not None and
                                          self.obj(st, x).kind in ('list', 'dict', 'set')):
                    return False
        return None

    def neg(self, v):
        if isinstance(v, K):
            return K(not v.v)
        if isinstance(v, T) and v.op == 'not':
            return v.args[0]
        if isinstance(v, T) and v.op == 'cmp':
            r = self.mk('cmp', NEG[v.args[0]], v.args[1], v.args[2])
            return r
        return self.mk('not', v)

    # ----------------------------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modframe:
            return self.modframe[name]
        par = name.rpartition('.')[0]
        if par and par in self.repo.paths and par not in self.modframe:
            self.module(par)                # importing a submodule runs its package first
            if name in self.modframe:
                return self.modframe[name]
        m = self.repo.module(name)
        i = self.next_id
        self.next_id += 1
        self.base.heap[i] = Obj('frame', attrs={'__name__': K(name)}, mod=name)
        self.modframe[name] = i
        saved = (self.stack, self.log_events, self.hooks, self.assume, self.raises)
        self.stack, self.log_events, self.hooks, self.assume, self.raises = [], False, [], None, [[]]
        st = State()
        st.heap = self.base.heap            # module level writes go to the base heap
        st.frame = i
        try:
            for s in m.tree.body:
                outs = self.exec_stmt(st, s, name)
                nx = [x for k, x, _ in outs if k == 'next']
                if not nx:
                    break
                ns = self.join_states(nx) if len(nx) > 1 else nx[0]
                if ns is not st:
                    for j, o in ns.heap.items():
                        self.base.heap[j] = o
                    st.heap = self.base.heap
                    st.facts, st.eq, st.pc = {}, {}, ()
        finally:
            self.stack, self.log_events, self.hooks, self.assume, self.raises = saved
        return i

    def mod_attr(self, name, attr, st=None):
        f = self.module(name)
        o = None
        if st is not None:
            o = st.heap.get(f)
        if o is None:
            o = self.base.heap[f]
        if attr in o.attrs:
            return o.attrs[attr]
        if self.repo.has(name + '.' + attr):
            return Mod(name + '.' + attr)
        return None

    def import_name(self, name):
        """value of an absolute dotted module name"""
        if name == 'tinynn' or name.startswith('tinynn.'):
            if self.repo.has(name):
                return Mod(name)
            return self.ext(name)
        return self.ext(name)

    def lookup(self, qual):
        """resolve a dotted repo name, e.g. tinynn.converter.base.TFLiteConverter"""
        parts = qual.split('.')
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.repo.paths:
                v = Mod(mn)
                for p in parts[i:]:
                    v = self.getattr(self.base, v, p)
                if v is None or (isinstance(v, T)):
                    raise AnalysisBroken('anchor %s vanished' % qual)
                return v
        raise AnalysisBroken('anchor %s vanished' % qual)

    # ------------------------------------------------------------------------------------ frames
    def getvar(self, st, name, mod):
        f = st.frame
        while f is not None:
            o = self.obj(st, f)
            if name in o.attrs:
                v = o.attrs[name]
                return self.norm(st, v)
            f = o.parent
        v = self.mod_attr_noload(mod, name, st)
        if v is not None:
            return v
        if name in BUILTINS:
            return Bi(name)
        if name == '__name__':
            return K(mod)
        if name == '__file__':
            return self.sym('__file__')
        return T('undef', (name,))

    def mod_attr_noload(self, mod, name, st):
        f = self.modframe.get(mod)
        if f is None:
            f = self.module(mod)
        o = st.heap.get(f) or self.base.heap[f]
        return o.attrs.get(name)

    def setvar(self, st, name, v, mod, fnode=None):
        f = st.frame
        o = self.obj(st, f)
        decl = o.origin or {}
        k = decl.get(name)
        if k == 'global':
            f = self.modframe[mod]
            o = self.obj(st, f)
        elif k == 'nonlocal':
            g = o.parent
            while g is not None:
                go = self.obj(st, g)
                if name in go.attrs:
                    f, o = g, go
                    break
                g = go.parent
        at = dict(o.attrs)
        at[name] = v
        self.put(st, f, o.but(attrs=at))
        if k == 'global':
            self.event('setglobal', K(mod + '.' + name), [v], {}, st, None, mod)

    # ------------------------------------------------------------------------------------ events
    def event(self, kind, fn, args, kwargs, st, node, mod):
        if not self.log_events:
            return None
        func = self.stack[-1].qual if self.stack else '<module>'
        e = Event(kind, fn, list(args), dict(kwargs), st, node, mod, func, tuple(f.qual for f in self.stack))
        self.events.append(e)
        return e

    # -------------------------------------------------------------------------------- attributes
    def class_attr(self, cls, name, after=None):
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if isinstance(c, Cls):
                if name in c.attrs:
                    return c.attrs[name], c
        return None, None

    def bind(self, st, v, self_v, cls):
        if isinstance(v, Wrap):
            if v.kind == 'staticmethod':
                return v.fn
            if v.kind == 'classmethod':
                return BM(v.fn, cls)
            if v.kind == 'property':
                if self_v is None:
                    return v
                return self.call(st, BM(v.fn, self_v) if isinstance(v.fn, Fn) else v.fn,
                                 [], {}, None, '<property>')
        if isinstance(v, Fn) and self_v is not None:
            return BM(v, self_v)
        if isinstance(v, Part) and self_v is not None:
            return v
        return v

    def getattr(self, st, base, name, node=None, mod=None):
        base = self.norm(st, base)
        if self.arrays is not None and type(base).__name__ == 'Arr':
            return self.arrays.getattr(st, base, name)
        if isinstance(base, Mod):
            v = self.mod_attr(base.name, name, st)
            if v is None:
                return self.mk('attr', base, name)
            return v
        if isinstance(base, Cls):
            v, c = self.class_attr(base, name)
            if v is not None:
                return self.bind(st, v, None, base)
            if name in ('__name__', '__qualname__'):
                return K(base.name)
            if name == '__mro__':
                return Tup(base.mro)
            if name == '__annotations__':
                es = []
                fr, st.frame = st.frame, None
                for x in base.node.body:
                    if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                        es.append((K(x.target.id), self.ev(st, x.annotation, base.mod)))
                st.frame = fr
                return self.new_dict(st, es)
            return self.mk('attr', base, name)
        if isinstance(base, Bi) and name == '__module__':
            return K('builtins')
        if isinstance(base, T) and base.op == 'dtype' and name in ('is_floating_point', 'itemsize', 'name', 'kind') and base.args[0] != '?' and self.arrays is not None:
            d = base.args[0]
            if name == 'is_floating_point':
                return K(d.startswith('float'))
        if isinstance(base, K) and name in ('dtype', 'shape', 'is_quantized', 'is_floating_point', 'q_scale') and type(base.v) in (int, float, bool, type(None), str, list):
            raise Dead(st, T('excval', ('AttributeError',)))
        if isinstance(base, Ref):
            o = self.obj(st, base)
            if o.kind == 'inst':
                if name in o.attrs:
                    return self.norm(st, o.attrs[name])
                if o.cls is not None:
                    v, c = self.class_attr(o.cls, name)
                    if v is not None:
                        return self.bind(st, v, base, o.cls)
                    if name == '__class__':
                        return o.cls
                    ga, _ = self.class_attr(o.cls, '__getattr__')
                    if isinstance(ga, Fn) and o.open is None:
                        return self.call(st, BM(ga, base), [K(name)], {}, node, mod)
                if o.open is not None:
                    return self.mk('attr', o.open, name)
                if name == '__dict__':
                    return self.new_dict(st, [(K(k), v) for k, v in o.attrs.items()])
                if self.strict and name[:2] != '__' and o.cls is not None and all(isinstance(c, Cls) or c == Bi('object') or c == T('ext', ('abc.ABC',)) for c in o.cls.mro):
                    raise Dead(st, T('excval', ('AttributeError',)))
                return self.mk('attr', base, name)
            return T('attr', (base, name))
        if isinstance(base, T):
            if base.op == 'ext':
                if name == '__name__':
                    return K(base.args[0].rpartition('.')[2])
                return self.ext(base.args[0] + '.' + name)
            if self.arrays is not None and base.op == 'call' and base.args[0] in (T('ext', ('numpy.finfo',)), T('ext', ('torch.finfo',))):
                v = self.arrays.finfo(base, name)
                if v is not None:
                    return v
            if (base, name) in st.symattr:
                return self.norm(st, st.symattr[(base, name)])
            if base.op in ('ite',):
                a = self.getattr(st, base.args[1], name)
                b = self.getattr(st, base.args[2], name)
                return self.ite(base.args[0], a, b)
            if base.op == 'phi':
                return self.phi(*[self.getattr(st, x, name) for x in base.args])
            c = self.symtype.get(base)
            if c is not None:
                v, _ = self.class_attr(c, name)
                if v is not None and isinstance(v, (Fn, Wrap)):
                    return self.bind(st, v, base, c)
                if v is not None and not isinstance(v, (Fn, Wrap)):
                    t = self.mk('attr', base, name)
                    return t
            return self.mk('attr', base, name)
        if isinstance(base, BM) and isinstance(base.fn, Fn) and name in ('__name__', '__qualname__', '__func__', '__self__'):
            if name == '__self__':
                return base.self
            return base.fn if name == '__func__' else self.getattr(st, base.fn, name)
        if isinstance(base, Fn) and name == '__name__':
            return K(base.name)
        if isinstance(base, Fn) and name == '__qualname__':
            return K(base.qual[len(base.mod) + 1:] if base.qual.startswith(base.mod + '.') else base.qual)
        if isinstance(base, Bi):
            if name == '__name__':
                return K(base.name)
        return self.mk('attr', base, name)

    def setattr(self, st, base, name, v, node, mod):
        base = self.norm(st, base)
        self.event('setattr', base, [K(name), v], {}, st, node, mod)
        if isinstance(base, Ref):
            o = self.obj(st, base)
            if o.kind == 'inst':
                if o.cls is not None:
                    p, _ = self.class_attr(o.cls, name)
                at = dict(o.attrs)
                at[name] = v
                self.put(st, base, o.but(attrs=at))
                return
        if isinstance(base, Mod):
            f = self.module(base.name)
            o = self.obj(st, f)
            at = dict(o.attrs)
            at[name] = v
            self.put(st, f, o.but(attrs=at))
            return
        if isinstance(base, T) and base.op == 'ite' and base.size < 40:
            for i, x in ((1, True), (2, False)):
                b = base.args[i]
                old = self.getattr(st, b, name)
                nv = self.ite(base.args[0], v, old) if x else self.ite(base.args[0], old, v)
                self._rawset(st, b, name, nv)
            return
        if isinstance(base, T) and base.op == 'phi':
            for b in base.args:
                old = self.getattr(st, b, name)
                self._rawset(st, b, name, self.phi(old, v))
            return
        if isinstance(base, (T, Cls, Fn)):
            st.symattr[(base, name)] = v
            st.dirty = True

    def _rawset(self, st, b, name, nv):
        if isinstance(b, Ref):
            o = self.obj(st, b)
            if o.kind == 'inst':
                at = dict(o.attrs)
                at[name] = nv
                self.put(st, b, o.but(attrs=at))
        elif isinstance(b, T):
            st.symattr[(b, name)] = nv
            st.dirty = True

    # -------------------------------------------------------------------------------- subscripts
    def getitem(self, st, base, key, node=None, mod=None):
        base, key = self.norm(st, base), self.norm(st, key)
        if self.arrays is not None and type(base).__name__ == 'Arr':
            return self.arrays.getitem(st, base, key)
        if self.arrays is not None and type(key).__name__ == 'Arr' and len(key.el) == 1 and key.el[0].is_const:
            key = K(int(key.el[0].c))
        if isinstance(base, T) and base.op == 'ite' and base.size < 200:
            return self.ite(base.args[0], self.getitem(st, base.args[1], key), self.getitem(st, base.args[2], key))
        if isinstance(base, T) and base.op == 'phi':
            return self.phi(*[self.getitem(st, x, key) for x in base.args])
        if isinstance(base, Tup):
            if isinstance(key, K) and isinstance(key.v, int):
                if -len(base.items) <= key.v < len(base.items):
                    return base.items[key.v]
                if self.strict:
                    raise Dead(st, T('excval', ('IndexError',)))
                return T('undef', ('index',))
            s = self.const_slice(key)
            if s is not None:
                return Tup(base.items[s])
            return self.mk('item', base, key)
        if isinstance(base, K) and isinstance(base.v, (str, bytes)):
            if isinstance(key, K) and isinstance(key.v, int) and -len(base.v) <= key.v < len(base.v):
                return K(base.v[key.v])
            s = self.const_slice(key)
            if s is not None:
                return K(base.v[s])
            return self.mk('item', base, key)
        if isinstance(base, Ref):
            o = self.obj(st, base)
            if o.kind == 'list':
                if isinstance(key, K) and isinstance(key.v, int) and not isinstance(key.v, bool):
                    if 0 <= key.v < len(o.items) or (o.exact and -len(o.items) <= key.v < 0):
                        return o.items[key.v]
                    if o.rest:
                        alts = tuple(o.rest)
                        if key.v < 0 and not o.exact and o.items:
                            alts = alts + (o.items[-1],)
                        return self.phi(*alts)
                    if self.strict and o.exact:
                        raise Dead(st, T('excval', ('IndexError',)))
                    return T('undef', ('index',))
                s = self.const_slice(key)
                if s is not None:
                    if o.exact:
                        return self.new_list(st, o.items[s])
                    if s.start in (None, 0) and s.stop is not None and 0 <= s.stop <= len(o.items) and s.step is None:
                        return self.new_list(st, o.items[s])
                    if s.stop is None and s.step is None and s.start is not None and 0 <= s.start <= len(o.items):
                        return self.new_list(st, o.items[s], o.rest)
                if isinstance(key, T) and key.op == 'slice':
                    return self.new_list(st, (), tuple(dict.fromkeys(o.items + o.rest)),
                                         origin=T('item', (base, key)))
                alts = tuple(dict.fromkeys(o.items + o.rest))
                if alts and not self.is_const_like(key) and len(alts) <= 12:
                    return self.mk('pick', base, key) if len(alts) > 1 else alts[0]
                return self.mk('item', base, key)
            if o.kind == 'dict':
                unk = False
                for k, v in o.items:
                    r = self.truth(st, self.compare(st, '==', k, key))
                    if r is True:
                        return v
                    if r is None:
                        unk = True
                if not unk and o.exact:
                    return T('undef', ('key',))
                for k, v in o.rest:
                    if k == key:
                        return v
                return self.mk('item', base, key)
            if o.kind == 'inst' and o.cls is not None:
                m, _ = self.class_attr(o.cls, '__getitem__')
                if isinstance(m, Fn):
                    return self.call(st, BM(m, base), [key], {}, node, mod)
            return self.mk('item', base, key)
        if isinstance(base, T):
            if (base, key) in st.symitem:
                return self.norm(st, st.symitem[(base, key)])
            # tuple-shaped elements of enumerate / zip handled in elem_of
            return self.mk('item', base, key)
        return self.mk('item', base, key)

    def const_slice(self, key):
        if isinstance(key, T) and key.op == 'slice' and all(
                isinstance(a, K) and (a.v is None or isinstance(a.v, int)) for a in key.args):
            return slice(*[a.v for a in key.args])
        return None

    def setitem(self, st, base, key, v, node, mod):
        base, key = self.norm(st, base), self.norm(st, key)
        self.event('setitem', base, [key, v], {}, st, node, mod)
        if isinstance(base, Ref):
            o = self.obj(st, base)
            if o.kind == 'list':
                if isinstance(key, K) and isinstance(key.v, int) and (0 <= key.v < len(o.items) or (
                        o.exact and -len(o.items) <= key.v < 0)):
                    items = list(o.items)
                    items[key.v] = v
                    self.put(st, base, o.but(items=tuple(items)))
                    return
                sl = self.const_slice(key)
                if sl is not None and o.exact:
                    k = self.iter_known(st, v)
                    if k is not None and not k[1]:
                        items = list(o.items)
                        items[sl] = list(k[0])
                        self.put(st, base, o.but(items=tuple(items)))
                    elif k is not None and sl == slice(None):
                        self.put(st, base, o.but(items=tuple(k[0]), rest=tuple(k[1])))
                    else:
                        self.put(st, base, o.but(items=(), rest=tuple(dict.fromkeys(o.items + (self.elem_of(st, v),)))))
                    return
                self.put(st, base, o.but(items=tuple(self.phi(x, v) for x in o.items),
                                         rest=tuple(self.phi(x, v) for x in o.rest)))
                return
            if o.kind == 'dict':
                items, hit = [], False
                for k, x in o.items:
                    r = self.truth(st, self.compare(st, '==', k, key))
                    if r is True:
                        items.append((k, v))
                        hit = True
                    else:
                        items.append((k, x if r is False else self.phi(x, v)))
                if not hit:
                    if self.is_const_like(key) or isinstance(key, (Tup, Ref)):
                        items.append((key, v))
                    else:
                        self.put(st, base, o.but(items=tuple(items), rest=o.rest + (((key, v),)
                                                 if (key, v) not in o.rest else ())))
                        return
                self.put(st, base, o.but(items=tuple(items)))
                return
            if o.kind == 'inst' and o.cls is not None:
                m, _ = self.class_attr(o.cls, '__setitem__')
                if isinstance(m, Fn):
                    self.call(st, BM(m, base), [key, v], {}, node, mod)
                return
        if isinstance(base, T):
            if base.op == 'ite':
                for i in (1, 2):
                    old = self.getitem(st, base.args[i], key)
                    nv = self.ite(base.args[0], v, old) if i == 1 else self.ite(base.args[0], old, v)
                    self._rawsetitem(st, base.args[i], key, nv)
                return
            st.symitem[(base, key)] = v
            st.dirty = True

    def _rawsetitem(self, st, b, key, nv):
        log, self.log_events = self.log_events, False
        try:
            self.setitem(st, b, key, nv, None, None)
        finally:
            self.log_events = log

    # --------------------------------------------------------------------------------- iteration
    def iter_known(self, st, v):
        """(known prefix list, rest alternatives tuple) or None when nothing is known"""
        v = self.norm(st, v)
        if self.arrays is not None and type(v).__name__ == 'Arr':
            return self.arrays.iter(st, v)
        if isinstance(v, Tup):
            return list(v.items), ()
        if isinstance(v, K) and isinstance(v.v, (str, bytes)):
            return [K(c) for c in v.v], ()
        if isinstance(v, K) and isinstance(v.v, range):
            if len(v.v) <= self.unroll:
                return [K(i) for i in v.v], ()
            return None
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o.kind == 'set' and o.exact and len(o.items) > 1 and all(isinstance(x, K) and type(x.v) is int for x in o.items):
                by = {x.v: x for x in o.items}  # whole numbers come in the order of their hashes, not of insertion
                return [by[j] for j in set(by)], ()
            if o.kind in ('list', 'set'):
                return list(o.items), o.rest
            if o.kind == 'dict':
                return [k for k, _ in o.items], tuple(k for k, _ in o.rest)
            if o.kind == 'inst' and o.cls is not None and o.cls.mod.startswith('verif_'):
                m, _ = self.class_attr(o.cls, '__iter__')
                if isinstance(m, Fn):
                    return self.iter_known(st, self.call(st, BM(m, v), [], {}, None, None))
        return None

    def elem_of(self, st, it):
        """abstract element of an unknown iterable"""
        it = self.norm(st, it)
        if isinstance(it, T):
            if it.op == 'call' and isinstance(it.args[0], Bi):
                n, a = it.args[0].name, it.args[1]
                if n == 'enumerate' and a:
                    return Tup([T('idx', (a[0],)), self.elem_any(st, a[0])])
                if n == 'zip':
                    return Tup([self.elem_any(st, x) for x in a])
                if n in ('list', 'tuple', 'sorted', 'set', 'reversed', 'iter', 'frozenset') and a:
                    return self.elem_any(st, a[0])
                if n == 'filter' and len(a) == 2:
                    return self.elem_any(st, a[1])
                if n == 'map' and len(a) >= 2:
                    return self.call(st, a[0], [self.elem_any(st, x) for x in a[1:]], {}, None, '<map>')
            if it.op == 'comp':
                return it.args[1]
            if it.op == 'call' and isinstance(it.args[0], T) and it.args[0].op == 'attr' and not it.args[1]:
                b, m = it.args[0].args
                if m == 'items':
                    k = self.mk('elem', self.mk('call', self.mk('attr', b, 'keys'), (), ()))
                    return Tup([k, self.mk('item', b, k)])
                if m == 'keys':
                    return self.mk('elem', it)
                if m == 'values':
                    return self.mk('item', b, self.mk('elem', self.mk('call', self.mk('attr', b, 'keys'), (), ())))
            if it.op == 'ite':
                return self.ite(it.args[0], self.elem_any(st, it.args[1]), self.elem_any(st, it.args[2]))
            if it.op == 'phi':
                return self.phi(*[self.elem_any(st, x) for x in it.args])
        return self.mk('elem', it)

    def elem_any(self, st, it):
        k = self.iter_known(st, it)
        if k is not None:
            alts = list(k[0]) + list(k[1])
            if not alts:
                return T('undef', ('elem',))
            return self.phi(*alts)
        return self.elem_of(st, it)

    # -------------------------------------------------------------------------------- statements
    def exec_block(self, st, stmts, mod):
        outs = []
        cur = st
        for s in stmts:
            res = self.exec_stmt(cur, s, mod)
            nx = []
            for r in res:
                if r[0] == 'next':
                    nx.append((r[1], None))
                else:
                    outs.append(r)
            if not nx:
                return outs
            cur = self.join(nx)[0] if len(nx) > 1 else nx[0][0]
        outs.append(('next', cur, None))
        return outs

    def exec_stmt(self, st, s, mod):
        self.nsteps += 1
        if self.nsteps > self.steps:
            raise AnalysisBroken('analysis step budget exhausted')
        try:
            return self._exec(st, s, mod)
        except Dead as d:
            return [('raise', d.st, d.exc)]

    def _exec(self, st, s, mod):
        N = [('next', st, None)]
        t = type(s)
        if t is ast.Expr:
            self.ev(st, s.value, mod)
            return N
        if t is ast.Assign:
            v = self.ev(st, s.value, mod)
            for tg in s.targets:
                self.assign(st, tg, v, mod, s)
            return N
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(st, s.target, self.ev(st, s.value, mod), mod, s)
            return N
        if t is ast.AugAssign:
            load = self.ev_target_load(st, s.target, mod)
            r = self.ev(st, s.value, mod)
            op = BINOPS[type(s.op)]
            if op == '+' and isinstance(load, Ref) and self.obj(st, load).kind == 'list':
                self.list_extend(st, load, r)
                return N
            self.assign(st, s.target, self.binop(st, op, load, r), mod, s)
            return N
        if t is ast.Return:
            v = NONE if s.value is None else self.ev(st, s.value, mod)
            return [('return', st, v)]
        if t is ast.If:
            c = self.ev(st, s.test, mod)
            a, b = self.branch(st, c)
            outs = []
            if a is not None:
                outs += self.exec_block(a, s.body, mod)
            if b is not None:
                outs += self.exec_block(b, s.orelse, mod) if s.orelse else [('next', b, None)]
            return outs
        if t in (ast.For, ast.AsyncFor):
            return self.exec_for(st, s, mod)
        if t is ast.While:
            return self.exec_while(st, s, mod)
        if t is ast.FunctionDef or t is ast.AsyncFunctionDef:
            self.setvar(st, s.name, self.make_fn(st, s, mod), mod)
            return N
        if t is ast.ClassDef:
            self.setvar(st, s.name, self.make_class(st, s, mod), mod)
            return N
        if t is ast.Import:
            for a in s.names:
                if a.asname:
                    self.setvar(st, a.asname, self.import_name(a.name), mod)
                else:
                    root = a.name.split('.')[0]
                    self.setvar(st, root, self.import_name(root), mod)
            return N
        if t is ast.ImportFrom:
            m = Repo.resolve_from(self.repo.module(mod), s)
            for a in s.names:
                if a.name == '*':
                    if m.startswith('tinynn') and m in self.repo.paths:
                        f = self.module(m)
                        o = self.base.heap[f]
                        for k, v in list(o.attrs.items()):
                            if not k.startswith('_'):
                                self.setvar(st, k, v, mod)
                    continue
                if m == '__future__':
                    continue
                if (m == 'tinynn' or m.startswith('tinynn.')) and self.repo.has(m):
                    v = None
                    if m in self.repo.paths:
                        v = self.mod_attr(m, a.name)
                    if v is None:
                        v = self.import_name(m + '.' + a.name)
                else:
                    v = self.ext(m + '.' + a.name)
                self.setvar(st, a.asname or a.name, v, mod)
            return N
        if t is ast.Assert:
            c = self.ev(st, s.test, mod)
            a, b = self.branch(st, c)
            outs = []
            if a is not None:
                outs.append(('next', a, None))
            if b is not None:
                self.event('assertfail', K('assert'), [c], {}, b, s, mod)
                outs.append(('raise', b, Bi('AssertionError')))
            return outs
        if t is ast.Raise:
            e = self.ev(st, s.exc, mod) if s.exc is not None else T('reraise', ())
            self.event('raise', e, [], {}, st, s, mod)
            return [('raise', st, e)]
        if t is ast.Pass:
            return N
        if t is ast.Break:
            return [('break', st, None)]
        if t is ast.Continue:
            return [('continue', st, None)]
        if t is ast.Global or t is ast.Nonlocal:
            o = self.obj(st, st.frame)
            d = dict(o.origin or {})
            for n in s.names:
                d[n] = 'global' if t is ast.Global else 'nonlocal'
            self.put(st, st.frame, o.but(origin=d))
            return N
        if t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Subscript):
                    b = self.ev(st, tg.value, mod)
                    k = self.ev(st, tg.slice, mod)
                    self.event('delitem', b, [k], {}, st, s, mod)
                    self.del_item(st, b, k)
                elif isinstance(tg, ast.Attribute):
                    b = self.ev(st, tg.value, mod)
                    self.event('delattr', b, [K(tg.attr)], {}, st, s, mod)
                    if isinstance(b, Ref) and self.obj(st, b).kind == 'inst':
                        o = self.obj(st, b)
                        at = dict(o.attrs)
                        at.pop(tg.attr, None)
                        self.put(st, b, o.but(attrs=at))
            return N
        if t is ast.With or t is ast.AsyncWith:
            for it in s.items:
                v = self.ev(st, it.context_expr, mod)
                if it.optional_vars is not None:
                    self.assign(st, it.optional_vars, self.mk('enter', v), mod, s)
                self.event('with', v, [], {}, st, s, mod)
            return self.exec_block(st, s.body, mod)
        if t is ast.Try:
            return self.exec_try(st, s, mod)
        return N

    def del_item(self, st, b, k):
        b = self.norm(st, b)
        if isinstance(b, Ref):
            o = self.obj(st, b)
            if o.kind == 'dict':
                out, rest = [], list(o.rest)
                for kk, v in o.items:
                    r = self.truth(st, self.compare(st, '==', kk, k))
                    if r is True:
                        continue
                    if r is None:
                        rest.append((kk, v))
                    else:
                        out.append((kk, v))
                self.put(st, b, o.but(items=tuple(out), rest=tuple(rest)))
            elif o.kind == 'list' and isinstance(k, K) and isinstance(k.v, int) and o.exact:
                it = list(o.items)
                if -len(it) <= k.v < len(it):
                    del it[k.v]
                self.put(st, b, o.but(items=tuple(it)))
            elif o.kind == 'list':
                self.put(st, b, o.but(items=(), rest=tuple(dict.fromkeys(o.items + o.rest))))

    def exec_try(self, st, s, mod):
        pre = st.copy()
        nev = len(self.events)
        self.raises.append([])
        res = self.exec_block(st, s.body, mod)
        inner = self.raises.pop()
        outs, exc_states, nxt = [], [], []
        for r in res:
            if r[0] == 'raise':
                exc_states.append(r[1])
            elif r[0] == 'next':
                nxt.append(r)
            else:
                outs.append(r)
        exc_states += inner
        if self.oracle is not None and s.handlers and len(res) == 1 and not (res[0][0] == 'raise' and inner):
            # trace partitioning: the body either raises on this trace or it does not
            if res[0][0] == 'raise':
                h0 = exc_states
            elif any(e.kind == 'call' and not isinstance(e.fn, (Fn, BM, Cls)) for e in self.events[nev:]) and \
                    self.oracle(st, T('raised', (K(getattr(s, 'lineno', 0)), K(len(self.events))))):
                h0 = [pre]
            else:
                h0 = None
            if h0 is None:
                if s.orelse and nxt:
                    res = self.exec_block(nxt[0][1], s.orelse, mod)
            else:
                hd = s.handlers[0]
                hs = self.join([(x, None) for x in h0])[0] if len(h0) > 1 else h0[0]
                if hd.name:
                    self.setvar(hs, hd.name, T('excval', (ast.unparse(hd.type) if hd.type else '',)), mod)
                self.event('except', K(ast.unparse(hd.type) if hd.type is not None else ''), [], {}, hs, hd, mod)
                res = self.exec_block(hs, hd.body, mod)
            if s.finalbody:
                fin = []
                for k, x, v in res:
                    for r in self.exec_block(x, s.finalbody, mod):
                        fin.append((k, r[1], v) if r[0] == 'next' else r)
                res = fin
            return res
        if s.handlers:
            h = [(pre, None)] + [(x, None) for x in exc_states] + [(x[1].copy(), None) for x in nxt]
            for hd in s.handlers:
                hs, _ = self.join([(x.copy(), None) for x, _ in h])
                cond = T('exc', (hd.lineno if False else (ast.unparse(hd.type) if hd.type is not None else ''),
                                 id(hd)))
                hs.pc = hs.pc + ((cond, True),)
                if hd.name:
                    self.setvar(hs, hd.name, T('excval', (ast.unparse(hd.type) if hd.type else '',)), mod)
                self.event('except', K(ast.unparse(hd.type) if hd.type is not None else ''), [], {}, hs, hd, mod)
                outs_h = self.exec_block(hs, hd.body, mod)
                for r in outs_h:
                    outs.append(r) if r[0] != 'next' else nxt.append(r)
            broad = any(hd.type is None or ast.unparse(hd.type) in ('Exception', 'BaseException') for hd in s.handlers)
            if not broad:
                outs += [('raise', x, T('exc_any', ())) for x in exc_states]
        else:
            outs += [('raise', x, T('exc_any', ())) for x in exc_states]
        if s.orelse and nxt:
            j = self.join([(r[1], None) for r in nxt])[0]
            nxt = []
            for r in self.exec_block(j, s.orelse, mod):
                nxt.append(r) if r[0] == 'next' else outs.append(r)
        if s.finalbody:
            fin = []
            for k, x, v in outs + nxt:
                for r in self.exec_block(x, s.finalbody, mod):
                    if r[0] == 'next':
                        fin.append((k, r[1], v))
                    else:
                        fin.append(r)
            return fin
        return outs + nxt

    def exec_for(self, st, s, mod):
        it = self.ev(st, s.iter, mod)
        it = self.norm(st, it)
        outs = []
        known = self.iter_known(st, it)
        cur = st
        brk = []
        if known is not None and len(known[0]) <= self.unroll:
            for x in known[0]:
                self.assign(cur, s.target, x, mod, s)
                res = self.exec_block(cur, s.body, mod)
                nx = []
                for k, y, v in res:
                    if k in ('next', 'continue'):
                        nx.append((y, None))
                    elif k == 'break':
                        brk.append(y)
                    else:
                        outs.append((k, y, v))
                if not nx:
                    cur = None
                    break
                cur = self.join(nx)[0] if len(nx) > 1 else nx[0][0]
            if cur is not None and known[1]:
                cur, o2, b2 = self.loop_unknown(cur, s, mod, lambda x: self.phi(*known[1]), it)
                outs += o2
                brk += b2
        else:
            cur, o2, b2 = self.loop_unknown(cur, s, mod, lambda x: self.elem_any(x, it), it)
            outs += o2
            brk += b2
        return self.loop_end(cur, brk, outs, s, mod)

    def loop_end(self, cur, brk, outs, s, mod):
        nx = []
        if cur is not None:
            if s.orelse:
                for r in self.exec_block(cur, s.orelse, mod):
                    if r[0] == 'next':
                        nx.append((r[1], None))
                    else:
                        outs.append(r)
            else:
                nx.append((cur, None))
        nx += [(b, None) for b in brk]
        if nx:
            outs.append(('next', self.join(nx)[0], None))
        return outs

    def loop_unknown(self, st, s, mod, getel, it):
        """two abstract iterations joined with zero iterations"""
        outs, brk = [], []
        exits = []
        cur = st
        base_pc = st.pc
        cond = T('iterates', (it if isinstance(it, V) else NONE,))
        for rnd in range(2):
            z = cur.copy()
            z.pc = base_pc + ((cond, False),)
            exits.append((z, None))
            b = cur.copy()
            b.pc = base_pc + ((cond, True),)
            if isinstance(s, ast.While):
                c = self.ev(b, s.test, mod)
                a, f = self.branch(b, c)
                if a is None:
                    break
                b = a
            else:
                self.assign(b, s.target, getel(b), mod, s)
            # facts about values from a previous abstract iteration do not carry over
            if rnd == 0:
                pass
            res = self.exec_block(b, s.body, mod)
            nx = []
            for k, y, v in res:
                if k in ('next', 'continue'):
                    y.pc = base_pc + ((cond, True),) if k == 'continue' and len(res) == 1 else y.pc
                    nx.append((y, None))
                elif k == 'break':
                    brk.append(y)
                else:
                    outs.append((k, y, v))
            if not nx:
                cur = None
                break
            nxt = self.join(nx)[0] if len(nx) > 1 else nx[0][0]
            nxt = nxt.copy()
            nxt.pc = base_pc + ((cond, True),)
            # facts inside an iteration hold only for that iteration's element
            nxt.facts = {k: v for k, v in nxt.facts.items() if cur.facts.get(k) is v}
            nxt.eq = {k: v for k, v in nxt.eq.items() if k in cur.eq and cur.eq[k] == v}
            exits.append((nxt, None))
            z2 = cur.copy()
            z2.pc = base_pc + ((cond, False),)
            n2 = nxt.copy()
            cur = self.merge2(None, z2, None, n2, None, base_pc)[0]
            cur.done = z2.done & n2.done
        sts = []
        for x, _ in exits:
            x.pc = base_pc
            sts.append((x, None))
        res = sts[0]
        for x in sts[1:]:
            res = self.merge2(None, res[0], None, x[0], None, base_pc)
        r = res[0]
        for y in brk:
            pass
        return r, outs, brk

    def exec_while(self, st, s, mod):
        outs, brk = [], []
        cur = st
        n = open_ = 0
        while n < 40:
            c = self.ev(cur, s.test, mod)
            t = self.truth1(cur, c)
            if t is False:
                return self.loop_end(cur, brk, outs, s, mod)
            if t is None or (isinstance(s.test, ast.Constant) and open_ >= 2):
                break
            n += 1
            res = self.exec_block(cur, s.body, mod)
            open_ += len(res) > 1
            nx = []
            for k, y, v in res:
                if k in ('next', 'continue'):
                    nx.append((y, None))
                elif k == 'break':
                    brk.append(y)
                else:
                    outs.append((k, y, v))
            if not nx:
                return self.loop_end(None, brk, outs, s, mod)
            cur = self.join(nx)[0] if len(nx) > 1 else nx[0][0]
        if isinstance(s.test, ast.Constant) and s.test.value:
            # while True: leave only through break/return
            for _ in range(1):
                res = self.exec_block(cur, s.body, mod)
                for k, y, v in res:
                    if k == 'break':
                        brk.append(y)
                    elif k not in ('next', 'continue'):
                        outs.append((k, y, v))
            return self.loop_end(None if brk else cur, brk, outs, s, mod)
        cur, o2, b2 = self.loop_unknown(cur, s, mod, None, NONE)
        if cur is not None:
            c = self.ev(cur, s.test, mod)
            a, f = self.branch(cur, c)
            if f is not None:
                f.pc = cur.pc if f is not cur else f.pc
                cur = f
        return self.loop_end(cur, brk + b2, outs + o2, s, mod)

    def ev_target_load(self, st, tg, mod):
        if isinstance(tg, ast.Name):
            return self.getvar(st, tg.id, mod)
        if isinstance(tg, ast.Attribute):
            return self.getattr(st, self.ev(st, tg.value, mod), tg.attr)
        if isinstance(tg, ast.Subscript):
            return self.getitem(st, self.ev(st, tg.value, mod), self.ev(st, tg.slice, mod))
        return T('top', ())

    def assign(self, st, tg, v, mod, node):
        if isinstance(tg, ast.Name):
            self.setvar(st, tg.id, v, mod)
        elif isinstance(tg, ast.Attribute):
            self.setattr(st, self.ev(st, tg.value, mod), tg.attr, v, node, mod)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(st, tg.value, mod)
            k = self.ev(st, tg.slice, mod)
            if self.arrays is not None and type(self.norm(st, b)).__name__ == 'Arr':
                n = self.arrays.setitem(st, self.norm(st, b), k, v)
                self.assign(st, tg.value, n if n is not None else self.mk('updated', b, k, v), mod, node)
                return
            self.setitem(st, b, k, v, node, mod)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            self.unpack(st, tg.elts, v, mod, node)
        elif isinstance(tg, ast.Starred):
            self.assign(st, tg.value, v, mod, node)

    def unpack(self, st, elts, v, mod, node):
        v = self.norm(st, v)
        if isinstance(v, T) and v.op == 'ite' and v.size < 400:
            pass
        known = self.iter_known(st, v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if known is not None and not known[1]:
            items = known[0]
            if not star and len(items) == len(elts):
                for e, x in zip(elts, items):
                    self.assign(st, e, x, mod, node)
                return
            if star and len(items) >= len(elts) - 1:
                i = star[0]
                n_after = len(elts) - i - 1
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(st, e, x, mod, node)
                mid = items[i:len(items) - n_after]
                self.assign(st, elts[i].value, self.new_list(st, mid), mod, node)
                for e, x in zip(elts[i + 1:], items[len(items) - n_after:]):
                    self.assign(st, e, x, mod, node)
                return
        n = len(elts)
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(st, e.value, self.mk('item', v, T('slice', (K(i), K(None if n - i - 1 == 0 else -(n - i - 1)), NONE))), mod, node)
            else:
                idx = i if not star or i < star[0] else i - n
                self.assign(st, e, self.getitem(st, v, K(idx)), mod, node)

    # ------------------------------------------------------------------------ functions / classes
    def make_fn(self, st, node, mod, cls=None, qualprefix=None):
        a = node.args
        defaults = [self.ev(st, d, mod) for d in a.defaults]
        kwd = {x.arg: (self.ev(st, d, mod) if d is not None else None) for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        name = getattr(node, 'name', '<lambda>')
        outer = self.stack[-1].qual if (self.stack and st.frame != self.modframe.get(mod)) else mod
        if qualprefix is not None:
            outer = qualprefix
        frame = st.frame if st.frame != self.modframe.get(mod) else None
        if cls is not None:
            frame = self.obj(st, st.frame).parent
        fn = Fn(node, mod, frame, name, cls, defaults, kwd, outer + '.' + name)
        v = fn
        for d in reversed(getattr(node, 'decorator_list', [])):
            v = self.decorate(st, d, v, mod)
        return v

    def decorate(self, st, d, v, mod):
        txt = ast.unparse(d)
        if txt in ('staticmethod', 'classmethod', 'property'):
            return Wrap(txt, v)
        if txt.endswith('.setter') or txt.endswith('.getter'):
            return v
        if txt in ('abstractmethod', 'abc.abstractmethod'):
            return v
        dv = self.ev(st, d, mod)
        if isinstance(dv, (Fn, Part, BM)):
            return self.call(st, dv, [v], {}, d, mod)
        if isinstance(dv, T) and dv.op == 'call' and isinstance(dv.args[0], T) and dv.args[0].op == 'ext' \
                and dv.args[0].args[0].endswith('wraps'):
            return v
        if isinstance(dv, T) and dv.op == 'ext' and dv.args[0].endswith('contextmanager'):
            return Wrap('contextmanager', v)
        return v

    def make_class(self, st, node, mod):
        outer = self.stack[-1].qual if (self.stack and st.frame != self.modframe.get(mod)) else mod
        parent_cls = getattr(self, '_cls_stack', [])
        qual = (parent_cls[-1] if parent_cls else outer) + '.' + node.name
        c = Cls(qual, node, mod)
        c.bases = []
        for b in node.bases:
            if isinstance(b, ast.Starred):
                k = self.iter_known(st, self.ev(st, b.value, mod))
                c.bases += k[0] if k else []
            else:
                c.bases.append(self.norm(st, self.ev(st, b, mod)))
        # MRO: depth first, duplicates keep the last occurrence (enough for this code base)
        seq = []
        for b in c.bases:
            seq += b.mro if isinstance(b, Cls) else [b]
        out = []
        for x in reversed(seq):
            if x not in out:
                out.append(x)
        c.mro = [c] + list(reversed(out))
        self.classes[qual] = c
        fr = self.new(st, Obj('frame', attrs={}, parent=(st.frame if st.frame != self.modframe.get(mod) else None),
                              mod=mod))
        saved = st.frame
        st.frame = fr.id
        self._cls_stack = parent_cls + [qual]
        try:
            for s in node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    v = self.make_fn(st, s, mod, cls=c, qualprefix=qual)
                    self.setvar(st, s.name, v, mod)
                else:
                    for r in self.exec_stmt(st, s, mod):
                        if r[0] == 'next' and r[1] is not st:
                            st.become(r[1])
            c.attrs = dict(self.obj(st, fr).attrs)
        finally:
            st.frame = saved
            self._cls_stack = parent_cls
        return c

    def bind_args(self, st, fn, args, kwargs):
        """frame variables for calling fn; args may contain T('star',v); kwargs may contain '**' -> v"""
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        args = list(args)
        star = None
        for i, x in enumerate(args):
            if isinstance(x, T) and x.op == 'star':
                star = (i, x.args[0])
                break
        if star is not None:
            i, sv = star
            n_need = len(pos) - i
            tail = args[i + 1:]
            flat = args[:i]
            for j in range(max(0, n_need - len(tail))):
                flat.append(self.getitem(st, sv, K(j)))
            args = flat + tail if not a.vararg else flat
        for p, x in zip(pos, args):
            vars_[p] = x
        extra = args[len(pos):]
        if a.vararg:
            if star is not None:
                vars_[a.vararg.arg] = star[1] if not extra and star[0] >= len(pos) else T('top', ())
            else:
                vars_[a.vararg.arg] = Tup(extra)
        kw = dict(kwargs)
        dstar = kw.pop('**', None)
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra_kw = []
        for k, v in kw.items():
            if k in names:
                vars_[k] = v
            else:
                extra_kw.append((K(k), v))
        nd = len(fn.defaults)
        for i, p in enumerate(pos):
            if p not in vars_:
                j = i - (len(pos) - nd)
                if dstar is not None:
                    d = fn.defaults[j] if j >= 0 else None
                    got = self.mk('item', dstar, K(p))
                    vars_[p] = got if d is None else self.phi(got, d)
                elif j >= 0:
                    vars_[p] = fn.defaults[j]
                else:
                    vars_[p] = T('undef', (p,))
        for x in a.kwonlyargs:
            if x.arg not in vars_:
                d = fn.kwdefaults.get(x.arg)
                vars_[x.arg] = d if d is not None else T('undef', (x.arg,))
        if a.kwarg:
            vars_[a.kwarg.arg] = self.new_dict(st, extra_kw) if dstar is None else \
                self.new_dict(st, extra_kw, [(T('elem', (dstar,)), T('item', (dstar, T('elem', (dstar,)))))])
        return vars_

    def call_fn(self, st, fn, args, kwargs, node, mod):
        """inline a repo function"""
        rec = sum(1 for f in self.stack if f.node is fn.node)
        gen = getattr(fn.node, '_isgen', None)
        if gen is None:
            gen = not isinstance(fn.node, ast.Lambda) and any(
                isinstance(x, (ast.Yield, ast.YieldFrom)) and self.owner(x) is fn.node for x in ast.walk(fn.node))
            fn.node._isgen = gen
        if rec > self.max_rec or len(self.stack) >= self.max_depth or fn.qual in self.opaque or gen or (
                self.inline_filter is not None and not self.inline_filter(self, fn)):
            self.event('opaque', fn, args, kwargs, st, node, mod)
            return self.mk('call', fn, tuple(args), tuple(sorted((k, v) for k, v in kwargs.items())))
        self.analysed.add(fn.qual)
        vars_ = self.bind_args(st, fn, args, kwargs)
        fr = self.new(st, Obj('frame', attrs=vars_, parent=fn.frame, mod=fn.mod))
        saved = st.frame
        st.frame = fr.id
        self.stack.append(fn)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(st, fn.node.body, fn.mod)
                outs = [('return', st, v)]
            else:
                outs = self.exec_block(st, fn.node.body, fn.mod)
        except Dead as d:
            outs = [('raise', d.st, d.exc)]
        finally:
            self.stack.pop()
        rets, rs = [], []
        for k, x, v in outs:
            if k in ('return', 'next'):
                rets.append((x, v if v is not None else NONE))
            elif k == 'raise':
                rs.append((x, v))
        for x, v in rs:
            x.frame = saved
        if not rets:
            st.frame = saved
            s, e = (rs[0] if rs else (st, NONE))
            raise Dead(s, e)
        self.raises[-1].extend(x for x, _ in rs)
        s, v = self.join(rets)
        s.frame = saved
        if s is not st:
            st.become(s)
        st.frame = saved
        return v

    @staticmethod
    def owner(n):
        p = getattr(n, '_parent', None)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
            p = getattr(p, '_parent', None)
        return p

    # ------------------------------------------------------------------------------------- calls
    def call(self, st, fn, args, kwargs, node, mod):
        fn = self.norm(st, fn)
        for h in self.hooks:
            r = h(self, st, fn, args, kwargs, node, mod)
            if r is not NotImplemented:
                return r
        if self.arrays is not None:
            r = self.arrays.call(st, fn, args, kwargs)
            if r is not NotImplemented:
                return r
            if isinstance(fn, T) and fn.op == 'attr' and type(fn.args[0]).__name__ == 'Arr' and fn.args[1].endswith('_') and not fn.args[1].endswith('__') and fn.args[0].lib == 'torch':
                r = self.arrays.call(st, T('attr', (fn.args[0], fn.args[1][:-1])), args, kwargs)     # in place
                if r is not NotImplemented:
                    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, (ast.Name, ast.Attribute)):
                        self.assign(st, node.func.value, r, mod, node)
                    return r
        if isinstance(fn, T) and fn.op in ('ite',) and fn.size < 200:
            a, b = self.branch(st, fn.args[0])
            if a is not None and b is not None:
                rs = []
                dead = None
                for s2, f2 in ((a, fn.args[1]), (b, fn.args[2])):
                    try:
                        v = self.call(s2, f2, args, kwargs, node, mod)
                        rs.append((s2, v))
                    except Dead as d:
                        dead = d
                if not rs:
                    raise dead
                s, v = self.join(rs)
                st.become(s)
                return v
        if isinstance(fn, T) and fn.op == 'phi':
            vs = []
            for f2 in fn.args:
                s2 = st.copy()
                try:
                    vs.append((s2, self.call(s2, f2, args, kwargs, node, mod)))
                except Dead:
                    pass
            if vs:
                pc = st.pc
                cur = vs[0]
                for nx in vs[1:]:
                    cur = self.merge2(None, cur[0], cur[1], nx[0], nx[1], pc)
                st.become(cur[0])
                return cur[1]
        if isinstance(fn, BM):
            self.event('rcall', fn.fn, [fn.self] + list(args), kwargs, st, node, mod)
            return self.call_fn(st, fn.fn, [fn.self] + list(args), kwargs, node, mod) if isinstance(fn.fn, Fn) else \
                self.call(st, fn.fn, [fn.self] + list(args), kwargs, node, mod)
        if isinstance(fn, Fn):
            self.event('rcall', fn, args, kwargs, st, node, mod)
            return self.call_fn(st, fn, args, kwargs, node, mod)
        if isinstance(fn, Part):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(st, fn.fn, list(fn.args) + list(args), kw, node, mod)
        if isinstance(fn, Wrap):
            if fn.kind == 'contextmanager':
                self.event('cm', fn.fn, args, kwargs, st, node, mod)
                return self.mk('call', fn.fn, tuple(args), tuple(sorted(kwargs.items())))
            return self.call(st, fn.fn, args, kwargs, node, mod)
        if isinstance(fn, Cls):
            return self.instantiate(st, fn, args, kwargs, node, mod)
        if isinstance(fn, Bi):
            return self.call_builtin(st, fn.name, args, kwargs, node, mod)
        if isinstance(fn, Ref):
            o = self.obj(st, fn)
            if o.kind == 'inst' and o.cls is not None:
                m, _ = self.class_attr(o.cls, '__call__')
                if isinstance(m, Fn):
                    return self.call(st, BM(m, fn), args, kwargs, node, mod)
        if isinstance(fn, T):
            if fn.op == 'ext':
                r = self.call_ext(st, fn, args, kwargs, node, mod)
                if r is not None:
                    return r
            if fn.op == 'attr':
                r = self.call_method(st, fn.args[0], fn.args[1], args, kwargs, node, mod)
                if r is not None:
                    return r
        e = self.event('call', fn, args, kwargs, st, node, mod)
        v = self.mk('call', fn, tuple(args), tuple(sorted((k, x) for k, x in kwargs.items())))
        if e is not None:
            e.result = v
        return v

    def instantiate(self, st, cls, args, kwargs, node, mod):
        self.event('new', cls, args, kwargs, st, node, mod)
        r = self.new_inst(st, cls)
        init, c = self.class_attr(cls, '__init__')
        if isinstance(init, Fn):
            self.event('rcall', init, [r] + list(args), kwargs, st, node, mod)
            self.call_fn(st, init, [r] + list(args), kwargs, node, mod)
        elif any(isinstance(b, (T, Bi)) for b in cls.mro[1:]):
            o = self.obj(st, r)
            self.put(st, r, o.but(open=T('newext', (cls, tuple(args), tuple(sorted(kwargs.items()))))))
        return r

    def sort_known(self, st, items, kwargs, node, mod):
        """sorted(items, key=, reverse=) when every key is a literal, else None"""
        if not set(kwargs) <= {'key', 'reverse'}:
            return None
        if len(items) <= 1 and 'key' not in kwargs:
            return list(items)
        rev = kwargs.get('reverse', FALSE)
        key = kwargs.get('key', NONE)
        keys = [self.norm(st, x if key == NONE else self.call(st, key, [x], {}, node, mod)) for x in items]

        def lit(v):
            v = self.norm(st, v)
            if isinstance(v, Tup):
                r = [lit(x) for x in v.items]
                return None if any(x is None for x in r) else (tuple(x[0] for x in r),)
            if isinstance(v, Ref):
                o = self.obj(st, v)
                if o is not None and o.kind == 'list' and o.exact:
                    r = [lit(x) for x in o.items]
                    return None if any(x is None for x in r) else (tuple(x[0] for x in r),)
            if isinstance(v, Ref):
                o = self.obj(st, v)
                if o is not None and o.kind == 'set' and o.exact:
                    r = [lit(x) for x in o.items]
                    return None if any(x is None for x in r) else (frozenset(x[0] for x in r),)
            if self.rank is not None and type(v).__name__ == 'Arr':
                return self.rank(v)
            return (v.v,) if isinstance(v, K) and not isinstance(v.v, LV) else None
        ks = [lit(k) for k in keys]
        if any(k is None for k in ks) or not isinstance(rev, K):
            return list(items) if len(items) <= 1 else None
        try:
            idx = sorted(range(len(items)), key=lambda i: ks[i][0], reverse=bool(rev.v))
        except TypeError:
            return None
        return [items[i] for i in idx]

    def call_ext(self, st, fn, args, kwargs, node, mod):
        n = fn.args[0]
        if n in ('re.search', 're.match', 're.fullmatch') and len(args) == 2 and not kwargs:
            a, b = self.norm(st, args[0]), self.norm(st, args[1])
            if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str) and isinstance(b.v, str):
                m = getattr(re, n[3:])(a.v, b.v)
                return NONE if m is None else Tup([K(m.group(0))] + [K(g) for g in m.groups()])
        if n in ('functools.partial',) and args:
            return Part(args[0], args[1:], kwargs)
        if n.endswith('LooseVersion') or n.endswith('version.parse'):
            if len(args) == 1 and isinstance(args[0], K):
                return K(LV(args[0].v.s if isinstance(args[0].v, LV) else args[0].v))
        if n in ('copy.copy', 'copy.deepcopy') and len(args) == 1:
            self.event('call', fn, args, kwargs, st, node, mod)
            v = self.norm(st, args[0])
            if isinstance(v, Ref):
                o = self.obj(st, v)
                if o.kind in ('list', 'dict', 'set') and n == 'copy.copy':
                    return self.new(st, o)
                r = self.clone(st, v, n == 'copy.deepcopy', {})
                if r is not None:
                    return r
            if isinstance(v, (K, Tup)):
                return v
            if type(v).__name__ == 'Arr':
                return v
            return self.mk('call', fn, tuple(args), ())
        if n in ('collections.OrderedDict', 'ordered_set.OrderedSet', 'collections.deque') and not kwargs:
            return self.call_builtin(st, {'collections.OrderedDict': 'dict', 'ordered_set.OrderedSet': 'list',
                                          'collections.deque': 'list'}[n], args, {}, node, mod)
        if n in ('itertools.chain', 'itertools.chain.from_iterable') and not kwargs:
            seqs = [self.iter_known(st, x) for x in args]
            if n.endswith('from_iterable') and len(seqs) == 1 and seqs[0] is not None and not seqs[0][1]:
                seqs = [self.iter_known(st, x) for x in seqs[0][0]]
            elif n.endswith('from_iterable'):
                return None
            if all(k is not None and not k[1] for k in seqs):
                return Tup([x for k in seqs for x in k[0]])
        if n.startswith('operator.') and len(args) == 2:
            m = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'floordiv': '//'}.get(n[9:])
            if m:
                return self.binop(st, m, args[0], args[1])
        if n in ('math.ceil', 'math.floor', 'math.sqrt', 'math.prod') and len(args) == 1 and isinstance(args[0], K):
            import math
            try:
                return K(getattr(math, n[5:])(args[0].v))
            except Exception:
                return None
        return None

    def list_extend(self, st, ref, v):
        o = self.obj(st, ref)
        k = self.iter_known(st, v)
        if k is None:
            el = self.elem_of(st, v)
            self.put(st, ref, o.but(rest=o.rest + ((el,) if el not in o.rest else ())))
        elif o.rest:
            new = [x for x in list(k[0]) + list(k[1]) if x not in o.rest]
            self.put(st, ref, o.but(rest=o.rest + tuple(new)))
        else:
            new = tuple(k[0])
            if o.kind == 'set':
                new = tuple(x for x in dict.fromkeys(new) if x not in o.items)
            self.put(st, ref, o.but(items=o.items + new, rest=tuple(k[1])))

    def call_method(self, st, base, name, args, kwargs, node, mod):
        """methods of known containers / constants; None when not modelled"""
        base = self.norm(st, base)
        args = [self.norm(st, a) for a in args]
        if isinstance(base, K) and isinstance(base.v, str) and name in STRFOLD:
            if all(isinstance(a, K) for a in args) and not kwargs:
                try:
                    r = getattr(base.v, name)(*[a.v for a in args])
                except Exception:
                    return None
                return self.lift(st, r)
            if name == 'join' and len(args) == 1:
                k = self.iter_known(st, args[0])
                if k is not None and not k[1] and all(isinstance(x, K) and isinstance(x.v, str) for x in k[0]):
                    return K(base.v.join(x.v for x in k[0]))
        if isinstance(base, K) and isinstance(base.v, int) and name == 'bit_length':
            return K(base.v.bit_length())
        if isinstance(base, Tup) and name in ('index', 'count') and len(args) == 1:
            if name == 'index':
                for i, x in enumerate(base.items):
                    r = self.truth(st, self.compare(st, '==', x, args[0]))
                    if r is True:
                        return K(i)
                    if r is None:
                        return None
                raise Dead(st, T('excval', ('ValueError',)))
        if not isinstance(base, Ref):
            return None
        o = self.obj(st, base)
        if o.kind in ('list', 'set'):
            if name in ('append', 'add', 'appendleft', 'put') and len(args) == 1:
                self.event('append', base, args, {}, st, node, mod)
                if o.kind == 'set' and args[0] in o.items:
                    return NONE
                if o.rest:
                    if args[0] not in o.rest:
                        self.put(st, base, o.but(rest=o.rest + (args[0],)))
                elif name == 'appendleft':
                    self.put(st, base, o.but(items=(args[0],) + o.items))
                else:
                    self.put(st, base, o.but(items=o.items + (args[0],)))
                return NONE
            if name in ('extend', 'update') and len(args) == 1:
                self.event('extend', base, args, {}, st, node, mod)
                self.list_extend(st, base, args[0])
                return NONE
            if name == 'insert' and len(args) == 2:
                self.event('insert', base, args, {}, st, node, mod)
                if isinstance(args[0], K) and o.exact:
                    it = list(o.items)
                    it.insert(args[0].v, args[1])
                    self.put(st, base, o.but(items=tuple(it)))
                else:
                    self.put(st, base, o.but(items=(), rest=tuple(dict.fromkeys(o.items + o.rest + (args[1],)))))
                return NONE
            if name == 'clear':
                self.event('clear', base, args, {}, st, node, mod)
                self.put(st, base, o.but(items=(), rest=()))
                return NONE
            if name in ('pop', 'popleft') and o.exact and o.items:
                i = args[0].v if args and isinstance(args[0], K) else (None if args else (-1 if name == 'pop' else 0))
                if i is not None and -len(o.items) <= i < len(o.items):
                    it = list(o.items)
                    v = it.pop(i)
                    self.event('pop', base, args, {}, st, node, mod)
                    self.put(st, base, o.but(items=tuple(it)))
                    return v
            if name in ('pop', 'popleft'):
                alts = tuple(dict.fromkeys(o.items + o.rest))
                if alts:
                    self.put(st, base, o.but(items=(), rest=alts))
                    return self.phi(*alts)
            if name in ('remove', 'discard') and len(args) == 1:
                self.event('remove', base, args, {}, st, node, mod)
                for i, x in enumerate(o.items):
                    r = self.truth(st, self.compare(st, '==', x, args[0]))
                    if r is True:
                        self.put(st, base, o.but(items=o.items[:i] + o.items[i + 1:]))
                        return NONE
                    if r is None:
                        self.put(st, base, o.but(items=o.items[:i], rest=tuple(dict.fromkeys(o.items[i:] + o.rest))))
                        return NONE
                return NONE
            if name in ('intersection_update', 'difference_update') and len(args) == 1 and not o.rest:
                a = self.norm(st, args[0])
                other = self.obj(st, a).items if isinstance(a, Ref) and self.obj(st, a).kind in ('list', 'set') and not self.obj(st, a).rest else a.items if isinstance(a, Tup) else None
                if other is not None:
                    keep = []
                    for x in o.items:
                        rs = [self.truth(st, self.compare(st, '==', x, y)) for y in other]
                        if None in rs and True not in rs:
                            break
                        if (True in rs) == (name == 'intersection_update'):
                            keep.append(x)
                    else:
                        self.put(st, base, o.but(items=tuple(keep)))
                        return NONE
            if name == 'copy':
                return self.new(st, o)
            if name == 'index' and len(args) >= 1:
                for i, x in enumerate(o.items):
                    r = self.truth(st, self.compare(st, '==', x, args[0]))
                    if r is True:
                        return K(i)
                    if r is None:
                        return None
                if self.oracle is not None and o.exact:
                    raise Dead(st, T('excval', ('ValueError',)))
                return None
            if name == 'count' and len(args) == 1 and o.exact:
                n = 0
                for x in o.items:
                    r = self.truth(st, self.compare(st, '==', x, args[0]))
                    if r is None:
                        return None
                    n += r
                return K(n)
            if name == 'reverse' and o.exact:
                self.event('reverse', base, args, {}, st, node, mod)
                self.put(st, base, o.but(items=tuple(reversed(o.items))))
                return NONE
            if name == 'sort':
                self.event('sort', base, args, kwargs, st, node, mod)
                if o.exact:
                    r = self.sort_known(st, list(o.items), kwargs, node, mod)
                    if r is not None:
                        self.put(st, base, self.obj(st, base).but(items=tuple(r)))
                        return NONE
                self.put(st, base, o.but(items=(), rest=tuple(dict.fromkeys(o.items + o.rest)),
                                         origin=T('sorted', ())))
                return NONE
            if name in ('issubset', 'issuperset', 'isdisjoint') and len(args) == 1 and o.kind == 'set' and o.exact:
                k = self.iter_known(st, args[0])
                if k is not None and not k[1] and all(self.distinct(st, x) for x in o.items + tuple(k[0])):
                    x, y = set(o.items), set(k[0])
                    return K(x <= y if name == 'issubset' else x >= y if name == 'issuperset' else not x & y)
            if name in ('union', 'intersection', 'difference') and len(args) == 1:
                k = self.iter_known(st, args[0])
                if k is not None and not k[1] and o.exact:
                    b = k[0]
                    if name == 'union':
                        return self.new(st, Obj('set', tuple(dict.fromkeys(o.items + tuple(b)))))
                    if all(self.is_const_like(x) for x in list(o.items) + b) or all(self.distinct(st, x) for x in list(o.items) + b):
                        if name == 'intersection':
                            return self.new(st, Obj('set', tuple(x for x in o.items if x in b)))
                        return self.new(st, Obj('set', tuple(x for x in o.items if x not in b)))
        if o.kind == 'dict':
            if name == 'get' and len(args) in (1, 2):
                d = args[1] if len(args) == 2 else kwargs.get('default', NONE)
                unk = False
                res = None
                for k, v in o.items:
                    r = self.truth(st, self.compare(st, '==', k, args[0]))
                    if r is True:
                        return v
                    if r is None:
                        unk = True
                if not unk and o.exact:
                    return d
                v = self.mk('item', base, args[0])
                return self.phi(v, d) if not isinstance(v, K) else v
            if name in ('keys', 'values', 'items') and not args:
                if name == 'keys':
                    it, rs = [k for k, _ in o.items], [k for k, _ in o.rest]
                elif name == 'values':
                    it, rs = [v for _, v in o.items], [v for _, v in o.rest]
                else:
                    it, rs = [Tup(x) for x in o.items], [Tup(x) for x in o.rest]
                if not rs:
                    return Tup(it)
                return self.new_list(st, it, tuple(dict.fromkeys(rs)))
            if name == 'setdefault' and 1 <= len(args) <= 2:
                d = args[1] if len(args) > 1 else NONE
                has = self.compare(st, 'in', args[0], base)
                t = self.truth(st, has)
                self.event('setdefault', base, args, {}, st, node, mod)
                if t is True:
                    return self.getitem(st, base, args[0])
                self._rawsetitem(st, base, args[0], d)
                if t is False:
                    return d
                return self.phi(self.mk('item', base, args[0]), d)
            if name == 'update':
                self.event('dupdate', base, args, kwargs, st, node, mod)
                for a in args:
                    if isinstance(a, Ref) and self.obj(st, a).kind == 'dict':
                        ao = self.obj(st, a)
                        for k, v in ao.items:
                            self._rawsetitem(st, base, k, v)
                        if ao.rest:
                            o = self.obj(st, base)
                            self.put(st, base, o.but(rest=tuple(dict.fromkeys(o.rest + ao.rest))))
                    else:
                        el = T('elem', (a,))
                        o = self.obj(st, base)
                        self.put(st, base, o.but(rest=o.rest + ((el, T('item', (a, el))),)))
                for k, v in kwargs.items():
                    if k != '**':
                        self._rawsetitem(st, base, K(k), v)
                return NONE
            if name == 'pop' and args:
                self.event('dpop', base, args, {}, st, node, mod)
                v = self.getitem(st, base, args[0])
                self.del_item(st, base, args[0])
                if isinstance(v, T) and v.op == 'undef' and len(args) > 1:
                    return args[1]
                return v
            if name == 'popitem' and not args and not kwargs and o.exact and o.items:
                self.event('dpop', base, [o.items[-1][0]], {}, st, node, mod)
                self.put(st, base, o.but(items=o.items[:-1]))
                return Tup(o.items[-1])
            if name == 'clear':
                self.event('clear', base, args, {}, st, node, mod)
                self.put(st, base, o.but(items=(), rest=()))
                return NONE
            if name == 'copy':
                return self.new(st, o)
        return None

    def lift(self, st, r):
        if isinstance(r, list):
            return self.new_list(st, [self.lift(st, x) for x in r])
        if isinstance(r, tuple):
            return Tup([self.lift(st, x) for x in r])
        return K(r)

    def call_builtin(self, st, n, args, kwargs, node, mod):
        A = [self.norm(st, a) for a in args]
        opaque = lambda: self.mk('call', Bi(n), tuple(A), tuple(sorted(kwargs.items())))
        if n == 'len' and len(A) == 1:
            v = A[0]
            if isinstance(v, Tup):
                return K(len(v.items))
            if isinstance(v, K) and isinstance(v.v, (str, bytes, range)):
                return K(len(v.v))
            if isinstance(v, Ref):
                o = self.obj(st, v)
                if o.kind in ('list', 'dict', 'set') and o.exact:
                    return K(len(o.items))
                if o.kind == 'inst' and o.cls is not None and o.cls.mod.startswith('verif_'):
                    m, _ = self.class_attr(o.cls, '__len__')
                    if isinstance(m, Fn):
                        return self.call(st, BM(m, v), [], {}, node, mod)
            if isinstance(v, T) and v.op == 'ite':
                return self.ite(v.args[0], self.call_builtin(st, n, [v.args[1]], {}, node, mod),
                                self.call_builtin(st, n, [v.args[2]], {}, node, mod))
            return opaque()
        if n == 'range':
            if all(isinstance(a, K) and isinstance(a.v, int) for a in A):
                return K(range(*[a.v for a in A]))
            return opaque()
        if n in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'enumerate', 'zip', 'iter', 'filter',
                 'map'):
            if n in ('list', 'tuple', 'set', 'frozenset') and not A:
                return self.new_list(st, []) if n == 'list' else Tup([]) if n == 'tuple' else \
                    self.new(st, Obj('set'))
            if n in ('list', 'tuple', 'set', 'frozenset', 'iter') and len(A) == 1:
                k = self.iter_known(st, A[0])
                if k is not None and (not k[1] or n in ('list', 'set')):
                    if n == 'list':
                        return self.new_list(st, k[0], k[1])
                    if n in ('set', 'frozenset'):
                        return self.new(st, Obj('set', tuple(dict.fromkeys(k[0])), tuple(k[1])))
                    return Tup(k[0])
                if n == 'list':
                    return self.new_list(st, (), (self.elem_of(st, A[0]),), origin=opaque())
                return opaque()
            if n == 'sorted' and A:
                k = self.iter_known(st, A[0])
                if k is not None and not k[1]:
                    r = self.sort_known(st, k[0], kwargs, node, mod)
                    if r is not None:
                        return self.new_list(st, r)
                return opaque()
            if n == 'reversed' and len(A) == 1:
                k = self.iter_known(st, A[0])
                if k is not None and not k[1]:
                    return Tup(list(reversed(k[0])))
                return opaque()
            if n == 'enumerate':
                k = self.iter_known(st, A[0])
                start = A[1].v if len(A) > 1 and isinstance(A[1], K) else 0
                if k is not None and not k[1]:
                    return Tup([Tup([K(i + start), x]) for i, x in enumerate(k[0])])
                return opaque()
            if n == 'zip':
                ks = [self.iter_known(st, a) for a in A]
                if all(k is not None and not k[1] for k in ks) and ks:
                    return Tup([Tup(x) for x in zip(*[k[0] for k in ks])])
                return opaque()
            if n == 'map' and len(A) >= 2:
                ks = [self.iter_known(st, a) for a in A[1:]]
                if all(k is not None and not k[1] for k in ks):
                    return Tup([self.call(st, A[0], list(x), {}, node, mod) for x in zip(*[k[0] for k in ks])])
                els = [self.elem_any(st, a) for a in A[1:]]
                v = self.call(st, A[0], els, {}, node, mod)
                return self.mk('comp', 'map', v, Tup(A[1:]) if len(A) > 2 else A[1], ())
            if n == 'filter' and len(A) == 2:
                k = self.iter_known(st, A[1])
                if k is not None and not k[1]:
                    out = []
                    for x in k[0]:
                        t = self.truth1(st, self.call(st, A[0], [x], {}, node, mod) if A[0] != NONE else x)
                        if t is None:
                            return opaque()
                        if t:
                            out.append(x)
                    return Tup(out)
                return opaque()
        if n == 'dict':
            if not A:
                return self.new_dict(st, [(K(k), v) for k, v in kwargs.items()])
            if isinstance(A[0], Ref) and self.obj(st, A[0]).kind == 'dict':
                r = self.new(st, self.obj(st, A[0]))
                for k, v in kwargs.items():
                    self._rawsetitem(st, r, K(k), v)
                return r
            k = self.iter_known(st, A[0])
            if k is not None and not k[1] and all(isinstance(x, Tup) and len(x.items) == 2 for x in k[0]):
                return self.new_dict(st, [tuple(x.items) for x in k[0]])
            return opaque()
        if n in ('all', 'any') and len(A) == 1:
            k = self.iter_known(st, A[0])
            if k is not None:
                ts = [self.truth(st, x) for x in k[0]]
                if n == 'all' and False in ts:
                    return FALSE
                if n == 'any' and True in ts:
                    return TRUE
                if not k[1]:
                    if n == 'all' and all(t is True for t in ts):
                        return TRUE
                    if n == 'any' and all(t is False for t in ts):
                        return FALSE
                    items = tuple(x for x, t in zip(k[0], ts) if t is None)
                    if len(items) == 1:
                        return items[0]
                    return self.mk('and' if n == 'all' else 'or', *items)
            return opaque()
        if n in ('min', 'max', 'sum', 'abs', 'round', 'divmod', 'pow', 'ord', 'chr', 'repr'):
            vals = A
            if len(A) == 1 and n in ('min', 'max', 'sum'):
                k = self.iter_known(st, A[0])
                vals = k[0] if k is not None and not k[1] else None
            if vals and n in ('min', 'max') and set(kwargs) == {'key'}:
                r = self.sort_known(st, vals, {'key': kwargs['key'], 'reverse': K(n == 'max')}, node, mod)
                if r:
                    return r[0]
            if vals is not None and all(isinstance(a, K) for a in vals) and not kwargs:
                try:
                    pv = [a.v for a in vals]
                    r = {'min': min, 'max': max, 'abs': lambda x: abs(x[0]), 'sum': sum}.get(n)
                    if n in ('round', 'divmod', 'pow', 'ord', 'chr', 'repr'):
                        return self.lift(st, __builtins__[n](*pv) if isinstance(__builtins__, dict)
                                         else getattr(__builtins__, n)(*pv))
                    return K(r(pv))
                except Exception:
                    return opaque()
            return opaque()
        if n in ('str', 'int', 'float', 'bool', 'bytes'):
            if len(A) == 1 and isinstance(A[0], K) and not isinstance(A[0].v, LV) and not kwargs:
                try:
                    return K(PYTYPES[n](A[0].v))
                except Exception:
                    return opaque()
            if not A:
                return K(PYTYPES[n]())
            if n == 'bool':
                t = self.truth1(st, A[0])
                if t is not None:
                    return K(t)
            return opaque()
        if n == 'isinstance' and len(A) == 2:
            r = self.isinst(st, A[0], A[1])
            return K(r) if r is not None else opaque()
        if n == 'issubclass' and len(A) == 2:
            if isinstance(A[0], Cls):
                cs = self.iter_known(st, A[1])
                cs = cs[0] if cs else [A[1]]
                if any(c in A[0].mro for c in cs):
                    return TRUE
                if all(isinstance(c, Cls) for c in cs):
                    return FALSE
            return opaque()
        if n == 'type' and len(A) == 1:
            v = A[0]
            if isinstance(v, K):
                if v.v is None:
                    return Bi('NoneType')
                return Bi(type(v.v).__name__) if type(v.v).__name__ in BUILTINS else opaque()
            if isinstance(v, Tup):
                return Bi('tuple')
            if isinstance(v, Ref):
                o = self.obj(st, v)
                if o.kind in ('list', 'dict', 'set'):
                    return Bi(o.kind)
                if o.cls is not None:
                    return o.cls
            if v in self.symtype:
                return self.symtype[v]
            if isinstance(v, Fn):
                return self.ext('types.FunctionType')
            if isinstance(v, BM):
                return self.ext('types.MethodType')
            return opaque()
        if n in ('getattr', 'hasattr') and len(A) >= 2 and (isinstance(A[1], K) and not isinstance(A[1].v, str) or isinstance(A[1], Ref)):
            raise Dead(st, T('excval', ('TypeError',)))
        if n == 'getattr' and len(A) >= 2 and isinstance(A[1], K):
            v = self.getattr(st, A[0], A[1].v, node, mod)
            if len(A) == 3 and isinstance(v, T) and v.op == 'attr':
                b = A[0]
                if isinstance(b, Cls) or (isinstance(b, Ref) and self.obj(st, b).kind == 'inst' and
                                          self.obj(st, b).open is None and not any(
                                              not isinstance(c, Cls) for c in self.obj(st, b).cls.mro)):
                    return A[2]
                h = self.truth(st, self.mk('call', Bi('hasattr'), (A[0], A[1]), ()))
                if h is True:
                    return v
                if h is False:
                    return A[2]
                return self.mk('getattr_d', A[0], A[1].v, A[2])
            return v
        if n == 'getattr' and len(A) >= 2:
            return self.mk('dynattr', A[0], A[1])
        if n == 'setattr' and len(A) == 3:
            if isinstance(A[1], K):
                self.setattr(st, A[0], A[1].v, A[2], node, mod)
            else:
                self.event('setattr', A[0], [A[1], A[2]], {}, st, node, mod)
            return NONE
        if n == 'delattr':
            self.event('delattr', A[0], A[1:], {}, st, node, mod)
            return NONE
        if n == 'hasattr' and len(A) == 2 and isinstance(A[1], K):
            b, a = A[0], A[1].v
            if a == '__origin__' and isinstance(b, (Bi, Cls)):
                return FALSE
            if a == '__annotations__':
                if isinstance(b, Cls):
                    return TRUE
                if isinstance(b, (Bi, T)):
                    return FALSE
            if isinstance(b, Mod) and self.repo.has(b.name):
                m = self.repo.module(b.name)
                if self.mod_attr(b.name, a, st) is not None:
                    return TRUE
                if not any(isinstance(x, ast.ImportFrom) and any(y.name == '*' for y in x.names) for x in m.tree.body):
                    return FALSE
            if type(b).__name__ == 'Arr' and a in ('shape', 'dtype', 'ndim', 'detach' if b.lib == 'torch' else 'size'):
                return TRUE
            if isinstance(b, Ref):
                o = self.obj(st, b)
                if o.kind == 'inst':
                    if a in o.attrs:
                        return TRUE
                    if o.cls is not None and self.class_attr(o.cls, a)[0] is not None:
                        return TRUE
                    if o.open is None and o.cls is not None and all(isinstance(c, Cls) or c == Bi('object') or c == T('ext', ('abc.ABC',))
                                                                    for c in o.cls.mro):
                        return FALSE
            if isinstance(b, K) and type(b.v) in (int, float, bool, type(None), str):
                return K(hasattr(b.v, a))
            if isinstance(b, Cls):
                if self.class_attr(b, a)[0] is not None:
                    return TRUE
                if all(isinstance(c, Cls) or c == Bi('object') for c in b.mro):
                    return FALSE
            if (b, a) in st.symattr:
                return TRUE
            return opaque()
        if n == 'super':
            cls, self_v = None, None
            if len(A) == 2:
                cls, self_v = A
            else:
                f = next((x for x in reversed(self.stack) if x.cls is not None), None)
                if f is not None:
                    cls = f.cls
                    fo = st.frame
                    while fo is not None:
                        o = self.obj(st, fo)
                        first = f.node.args.args[0].arg if f.node.args.args else None
                        if first in o.attrs:
                            self_v = o.attrs[first]
                            break
                        fo = o.parent
            if isinstance(cls, Cls) and self_v is not None:
                return T('super', (cls, self_v))
            return opaque()
        if n == 'slice':
            a = [None] * 3
            if len(A) == 1:
                return T('slice', (NONE, A[0], NONE))
            A2 = list(A) + [NONE] * (3 - len(A))
            return T('slice', tuple(A2[:3]))
        if n == 'next' and A:
            k = self.iter_known(st, A[0])
            if k is not None and k[0]:
                return k[0][0]
            if k is not None and not k[0] and not k[1] and len(A) > 1:
                return A[1]
            el = self.elem_any(st, A[0])
            return self.phi(el, A[1]) if len(A) > 1 else el
        if n in ('print',):
            self.event('call', Bi(n), A, kwargs, st, node, mod)
            return NONE
        if n in ('open', 'eval', 'exec', '__import__', 'input'):
            e = self.event('call', Bi(n), A, kwargs, st, node, mod)
            return opaque()
        if n == 'callable' and isinstance(A[0], (Fn, BM, Cls, Part, Bi)):
            return TRUE
        return opaque()

    def clone(self, st, v, deep, memo):
        """copy of a list, dict, set or plain instance; None when it is none of those"""
        v = self.norm(st, v)
        if isinstance(v, Tup):
            return Tup([self.clone(st, x, deep, memo) for x in v.items]) if deep else v
        if not isinstance(v, Ref):
            return v
        if v in memo:
            return memo[v]
        o = self.obj(st, v)
        if o.kind not in ('list', 'dict', 'set') and (o.cls is None or o.attrs is None or any(
                self.class_attr(o.cls, m)[0] is not None for m in ('__copy__', '__deepcopy__', '__reduce__', '__getstate__'))):
            return None if not memo else v
        memo[v] = r = self.new(st, o)
        if not deep:
            return r
        sub = lambda x: self.clone(st, x, True, memo)
        if o.attrs is not None:
            o = o.but(attrs={k: sub(x) for k, x in o.attrs.items()})
        if o.kind == 'dict':
            o = o.but(items=tuple((k, sub(x)) for k, x in o.items))
        elif o.kind in ('list', 'set'):
            o = o.but(items=tuple(sub(x) for x in o.items))
        self.put(st, r, o)
        return r

    def isinst(self, st, v, c):
        v = self.norm(st, v)
        cs = self.iter_known(st, c)
        if cs is not None:
            rs = [self.isinst(st, v, x) for x in cs[0]]
            if True in rs:
                return True
            if all(r is False for r in rs) and not cs[1]:
                return False
            return None
        if isinstance(c, T) and c.op == 'bin' and c.args[0] == '+':
            a, b = self.isinst(st, v, c.args[1]), self.isinst(st, v, c.args[2])
            return True if True in (a, b) else (False if a is False and b is False else None)
        if isinstance(v, K):
            if isinstance(c, Bi) and c.name in PYTYPES:
                return isinstance(v.v, PYTYPES[c.name])
            if isinstance(c, (Cls,)):
                return False
            if isinstance(c, T) and c.op == 'ext':
                return False if not c.args[0].endswith('Number') else None
            return None
        if isinstance(v, T) and v.op == 'dtype' and isinstance(c, T) and c.op == 'ext' and c.args[0] == 'torch.dtype':
            return True
        if type(v).__name__ == 'Arr' and isinstance(c, Bi) and c.name in PYTYPES and (v.rank or v.lib == 'torch'):
            return False
        if isinstance(v, Tup):
            if isinstance(c, Bi):
                return c.name == 'tuple'
            return False if isinstance(c, Cls) or (isinstance(c, T) and c.op == 'ext') else None
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o.kind in ('list', 'dict', 'set'):
                if isinstance(c, Bi):
                    return c.name == o.kind
                return False if isinstance(c, Cls) or (isinstance(c, T) and c.op == 'ext') else None
            if o.cls is not None:
                if c in o.cls.mro:
                    return True
                if isinstance(c, Cls):
                    return False if o.open is None or isinstance(c, Cls) else None
                if isinstance(c, Bi) and c.name in PYTYPES:
                    return False
                if all(isinstance(x, Cls) or x == Bi('object') and o.open is None for x in o.cls.mro):
                    return False
            return None
        if isinstance(v, (Fn, BM, Part)):
            if isinstance(c, (Cls, Bi)):
                return False
        if isinstance(v, Cls):
            if isinstance(c, Cls) and all(isinstance(x, Cls) or x == Bi('object') for x in c.mro):
                return False
            if isinstance(c, Bi) and c.name in PYTYPES:
                return False
        if isinstance(v, T):
            tc = self.symtype.get(v)
            if tc is not None:
                if c in tc.mro:
                    return True
                if isinstance(c, Cls) and tc not in c.mro:
                    return False
            if v.op == 'ite':
                a, b = self.isinst(st, v.args[1], c), self.isinst(st, v.args[2], c)
                return a if a is b else None
        return None

    # ------------------------------------------------------------------------------- expressions
    def binop(self, st, op, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        if self.arrays is not None and 'Arr' in (type(a).__name__, type(b).__name__):
            return self.arrays.binop(st, op, a, b)
        if isinstance(a, K) and isinstance(b, K):
            try:
                r = PYBIN[op](a.v, b.v)
                if isinstance(r, (str, bytes)) and len(r) > 100000:
                    return self.mk('bin', op, a, b)
                return K(r) if not isinstance(r, (list, tuple)) else self.lift(st, r)
            except Exception:
                return self.mk('bin', op, a, b)
        if op == '+':
            ka = self.seq_known(st, a)
            kb = self.seq_known(st, b)
            if ka is not None and kb is not None and ka[2] == kb[2]:
                if ka[1] or kb[1]:
                    if not ka[1]:
                        return self.new_list(st, tuple(ka[0]) + tuple(kb[0]), kb[1])
                    return self.new_list(st, ka[0], tuple(dict.fromkeys(tuple(ka[1]) + tuple(kb[0]) + tuple(kb[1]))))
                items = tuple(ka[0]) + tuple(kb[0])
                return Tup(items) if ka[2] == 'tup' else self.new_list(st, items)
        if op == '*':
            for x, y in ((a, b), (b, a)):
                k = self.seq_known(st, x)
                if k is not None and not k[1]:
                    if isinstance(y, K) and isinstance(y.v, int) and len(k[0]) * y.v <= 256:
                        it = tuple(k[0]) * y.v
                        return Tup(it) if k[2] == 'tup' else self.new_list(st, it)
                    if k[2] == 'list':
                        return self.new_list(st, (), tuple(dict.fromkeys(k[0])), origin=T('bin', ('*', x, y)))
        if op in ('-', '&', '|', '^'):
            sa, sb = self.as_set(st, a), self.as_set(st, b)
            if sa is not None and sb is not None:
                if op == '|':
                    return self.new(st, Obj('set', tuple(dict.fromkeys(sa + sb))))
                if all(self.distinct(st, x) for x in sa + sb):
                    f = (lambda x: x not in sb) if op in '-^' else (lambda x: x in sb)
                    r = tuple(x for x in sa if f(x))
                    if op == '^':
                        r += tuple(x for x in sb if x not in sa)
                    return self.new(st, Obj('set', r))
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, T) and x.op == 'ite' and isinstance(y, K) and x.size < 40:
                l = self.binop(st, op, *((x.args[1], y) if not sw else (y, x.args[1])))
                r = self.binop(st, op, *((x.args[2], y) if not sw else (y, x.args[2])))
                return self.ite(x.args[0], l, r)
        return self.mk('bin', op, a, b)

    def distinct(self, st, v):
        """values that are equal only to themselves"""
        if self.is_const_like(v):
            return True
        if isinstance(v, Tup):
            return all(self.distinct(st, x) for x in v.items)
        if isinstance(v, Ref):
            o = self.obj(st, v)
            return o is not None and o.kind == 'inst' and o.cls is not None and self.class_attr(o.cls, '__eq__')[0] is None
        return False

    def as_set(self, st, v):
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o is not None and o.kind == 'set' and o.exact:
                return o.items
        if isinstance(v, Tup):                      # the keys of a dictionary
            return tuple(v.items)
        return None

    def seq_known(self, st, v):
        if isinstance(v, Tup):
            return v.items, (), 'tup'
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o.kind == 'list':
                return o.items, o.rest, 'list'
        return None

    def ev(self, st, e, mod):
        self.nsteps += 1
        if self.nsteps > self.steps:
            raise AnalysisBroken('analysis step budget exhausted')
        t = type(e)
        if t is ast.Constant:
            return K(e.value)
        if t is ast.Name:
            return self.getvar(st, e.id, mod)
        if t is ast.Attribute:
            b = self.ev(st, e.value, mod)
            if isinstance(b, T) and b.op == 'super':
                cls, self_v = b.args
                sc = None
                if isinstance(self_v, Ref):
                    sc = self.obj(st, self_v).cls
                elif self_v in self.symtype:
                    sc = self.symtype[self_v]
                elif isinstance(self_v, Cls):
                    sc = self_v
                v, c = self.class_attr(sc or cls, e.attr, after=cls)
                if v is not None:
                    return self.bind(st, v, self_v, sc or cls)
                return self.mk('superattr', cls, self_v, e.attr)
            return self.getattr(st, b, e.attr, e, mod)
        if t is ast.Call:
            return self.ev_call(st, e, mod)
        if t is ast.BinOp:
            a = self.ev(st, e.left, mod)
            b = self.ev(st, e.right, mod)
            return self.binop(st, BINOPS[type(e.op)], a, b)
        if t is ast.UnaryOp:
            v = self.norm(st, self.ev(st, e.operand, mod))
            if isinstance(e.op, ast.Not):
                tr = self.truth(st, v)
                if tr is not None:
                    return K(not tr)
                return self.neg(v) if isinstance(v, T) else self.mk('not', v)
            if isinstance(v, K):
                try:
                    return K({ast.USub: operator.neg, ast.UAdd: operator.pos,
                              ast.Invert: operator.invert}[type(e.op)](v.v))
                except Exception:
                    pass
            if self.arrays is not None and type(v).__name__ == 'Arr':
                return self.arrays.unary(st, {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)], v)
            return self.mk('un', {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)], v)
        if t is ast.BoolOp:
            return self.ev_bool(st, e, mod)
        if t is ast.Compare:
            left = self.ev(st, e.left, mod)
            parts = []
            for op, r in zip(e.ops, e.comparators):
                rv = self.ev(st, r, mod)
                c = self.compare(st, CMPS[type(op)], left, rv)
                if len(e.ops) == 1 and type(c).__name__ == 'Arr' and c.shape:
                    return c
                tr = self.truth(st, c)
                if tr is False:
                    return FALSE
                if tr is None:
                    parts.append(c)
                left = rv
            if not parts:
                return TRUE
            return parts[0] if len(parts) == 1 else self.mk('and', *parts)
        if t is ast.IfExp:
            c = self.ev(st, e.test, mod)
            a, b = self.branch(st, c)
            if b is None:
                return self.ev(st, e.body, mod)
            if a is None:
                return self.ev(st, e.orelse, mod)
            rs, dead = [], None
            for s2, x in ((a, e.body), (b, e.orelse)):
                try:
                    rs.append((s2, self.ev(s2, x, mod)))
                except Dead as d:
                    dead = d
            if not rs:
                raise dead
            s, v = self.join(rs)
            st.become(s)
            return v
        if t is ast.Tuple:
            return Tup(self.ev_elts(st, e.elts, mod))
        if t is ast.List:
            items = self.ev_elts(st, e.elts, mod)
            if any(isinstance(x, T) and x.op == 'star' for x in items):
                i = next(i for i, x in enumerate(items) if isinstance(x, T) and x.op == 'star')
                rest = [self.elem_any(st, x.args[0]) if isinstance(x, T) and x.op == 'star' else x for x in items[i:]]
                return self.new_list(st, items[:i], tuple(dict.fromkeys(rest)))
            return self.new_list(st, items)
        if t is ast.Set:
            return self.new(st, Obj('set', tuple(dict.fromkeys(self.ev_elts(st, e.elts, mod)))))
        if t is ast.Dict:
            r = self.new_dict(st, [])
            for k, v in zip(e.keys, e.values):
                if k is None:
                    dv = self.ev(st, v, mod)
                    self.call_method(st, r, 'update', [dv], {}, e, mod)
                else:
                    kv = self.ev(st, k, mod)
                    self._rawsetitem(st, r, kv, self.ev(st, v, mod))
            return r
        if t is ast.Subscript:
            b = self.ev(st, e.value, mod)
            k = self.ev(st, e.slice, mod)
            return self.getitem(st, b, k, e, mod)
        if t is ast.Slice:
            f = lambda x: NONE if x is None else self.norm(st, self.ev(st, x, mod))
            return T('slice', (f(e.lower), f(e.upper), f(e.step)))
        if t is ast.Lambda:
            return self.make_fn(st, e, mod)
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            return self.ev_comp(st, e, mod)
        if t is ast.JoinedStr:
            parts = []
            for x in e.values:
                if isinstance(x, ast.Constant):
                    parts.append(K(x.value))
                else:
                    v = self.norm(st, self.ev(st, x.value, mod))
                    if isinstance(v, K) and x.format_spec is None and x.conversion == -1:
                        v = K(str(v.v))
                    else:
                        v = self.mk('fmt', v)
                    parts.append(v)
            if all(isinstance(p, K) for p in parts):
                return K(''.join(str(p.v) for p in parts))
            merged = []
            for p in parts:
                if merged and isinstance(p, K) and isinstance(merged[-1], K):
                    merged[-1] = K(merged[-1].v + p.v)
                else:
                    merged.append(p)
            return self.mk('fstr', *merged)
        if t is ast.Starred:
            return T('star', (self.ev(st, e.value, mod),))
        if t is ast.NamedExpr:
            v = self.ev(st, e.value, mod)
            self.assign(st, e.target, v, mod, e)
            return v
        if t is ast.Yield:
            v = self.ev(st, e.value, mod) if e.value is not None else NONE
            self.event('yield', K('yield'), [v], {}, st, e, mod)
            return T('top', ())
        if t is ast.Await:
            return self.ev(st, e.value, mod)
        return T('top', ())

    def ev_elts(self, st, elts, mod):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(st, x.value, mod)
                k = self.iter_known(st, v)
                if k is not None and not k[1]:
                    out += k[0]
                else:
                    out.append(T('star', (v,)))
            else:
                out.append(self.ev(st, x, mod))
        return out

    def ev_bool(self, st, e, mod):
        is_and = isinstance(e.op, ast.And)
        vals = []
        cur = st
        conds = []          # (cond, state at that point)
        stop = None
        snaps = []
        for i, x in enumerate(e.values):
            if i == 0:
                v = self.ev(cur, x, mod)
            else:
                try:
                    v = self.ev(cur, x, mod)
                except Dead:
                    # evaluating this operand raises: result comes from the earlier short circuit
                    if not snaps:
                        raise
                    base = snaps[-1][0]
                    c = snaps[-1][1]
                    a, b = self.branch(base, c)
                    s = b if is_and else a
                    if s is not None and s is not st:
                        st.become(s)
                    return vals[-1] if len(vals) == 1 else self.mk('and' if is_and else 'or', *vals)
            t = self.truth(cur, v)
            if t is (not is_and) and t is not None:
                vals.append(v)
                stop = True
                break
            if t is is_and and i < len(e.values) - 1:
                continue
            vals.append(v)
            if i < len(e.values) - 1:
                snap = cur.copy()
                snaps.append((snap, v))
                nxt = cur.copy()
                self.assume_fact(nxt, v, is_and)
                nxt.pc = nxt.pc + ((v if isinstance(v, T) else T('truthy', (v,)), is_and),)
                cur = nxt
        # merge side effects
        if cur is not st:
            if any(True for _ in snaps):
                items = []
                dirty = cur.dirty or any(s.dirty for s, _ in snaps[1:])
                if dirty:
                    acc = cur
                    for snap, v in reversed(snaps):
                        s2 = snap.copy()
                        c = v if isinstance(v, T) else None
                        acc = self.merge2(c if is_and else (self.neg(c) if c is not None else None), acc, None, s2,
                                          None, snap.pc)[0]
                    st.become(acc)
        if len(vals) == 1:
            return vals[0]
        if vals and all(isinstance(v, K) for v in vals):
            r = vals[0].v
            for v in vals[1:]:
                r = (r and v.v) if is_and else (r or v.v)
            return K(r)
        if not vals:
            return K(is_and)
        last = vals[-1]
        if stop and is_and and isinstance(last, K) and not last.v:
            return FALSE
        if stop and (not is_and) and isinstance(last, K) and last.v is True:
            return TRUE
        # value-carrying or/and: x or default
        bools = all(self.boolish(v) for v in vals)
        if not bools and len(vals) == 2:
            if is_and:
                return self.ite(vals[0] if isinstance(vals[0], T) else None, vals[1], vals[0])
            return self.ite(vals[0] if isinstance(vals[0], T) else None, vals[0], vals[1])
        flat = []
        opn = 'and' if is_and else 'or'
        for v in vals:
            flat += list(v.args) if isinstance(v, T) and v.op == opn else [v]
        return self.mk(opn, *flat)

    def boolish(self, v):
        if isinstance(v, K):
            return isinstance(v.v, bool)
        if isinstance(v, T):
            if v.op in ('cmp', 'not', 'and', 'or'):
                return True
            if v.op == 'call' and isinstance(v.args[0], Bi) and v.args[0].name in ('isinstance', 'hasattr', 'all',
                                                                                   'any', 'issubclass', 'callable'):
                return True
            if v.op in ('ite',):
                return self.boolish(v.args[1]) and self.boolish(v.args[2])
        return False

    def ev_comp(self, st, e, mod):
        fr = self.new(st, Obj('frame', attrs={}, parent=st.frame if st.frame != self.modframe.get(mod) else None,
                              mod=mod))
        saved = st.frame
        st.frame = fr.id
        results = []        # (exact?, value)
        info = {'exact': True, 'iters': [], 'conds': []}

        def elt(s):
            if isinstance(e, ast.DictComp):
                return (self.ev(s, e.key, mod), self.ev(s, e.value, mod))
            return self.ev(s, e.elt, mod)

        def gen(s, i, exact, cs):
            if i == len(e.generators):
                results.append((exact, elt(s), tuple(cs)))
                return
            g = e.generators[i]
            it = self.norm(s, self.ev(s, g.iter, mod))
            k = self.iter_known(s, it)
            if k is not None and len(k[0]) <= 5 * self.unroll:
                elems = [(x, exact) for x in k[0]]
                if k[1]:
                    elems.append((self.phi(*k[1]), False))
            else:
                elems = [(self.elem_of(s, it), False)]
                info['iters'].append(it)
            for x, ex in elems:
                self.assign(s, g.target, x, mod, e)
                ok, s2, cs2 = True, s, list(cs)
                for c in g.ifs:
                    cv = self.ev(s2, c, mod)
                    tr = self.truth1(s2, cv)
                    if tr is False:
                        ok = False
                        break
                    if tr is None:
                        ex = False
                        cs2.append(cv)
                        s2 = s2.copy()
                        self.assume_fact(s2, cv, True)
                        s2.pc = s2.pc + ((cv if isinstance(cv, T) else T('truthy', (cv,)), True),)
                if ok:
                    try:
                        gen(s2, i + 1, ex, cs2)
                    except Dead:
                        pass
                    if s2 is not s and s2.dirty:
                        pc = s.pc
                        m = self.merge2(None, s2, None, s, None, pc)[0]
                        s.become(m)
        gen(st, 0, True, [])
        st.frame = saved
        info['exact'] = all(x[0] for x in results) and not info['iters']
        if isinstance(e, ast.DictComp):
            ex = []
            rest = []
            for x, kv, _ in results:
                (ex if x else rest).append(kv)
            if not rest:
                ks = [self.norm(st, k) for k, _ in ex]
                if len(set(ks)) < len(ks) and all(self.distinct(st, k) for k in ks):
                    d = {}
                    for k, (_, v) in zip(ks, ex):
                        d[k] = v
                    ex = list(d.items())
            return self.new_dict(st, ex, rest)
        if info['exact']:
            items = [v for _, v, _ in results]
            if isinstance(e, ast.SetComp):
                return self.new(st, Obj('set', tuple(dict.fromkeys(items))))
            if isinstance(e, ast.GeneratorExp):
                return Tup(items)
            return self.new_list(st, items)
        if not results:
            return self.new_list(st, []) if not isinstance(e, ast.GeneratorExp) else Tup([])
        if len(info['iters']) == 1 and len(e.generators) == 1 and len(results) == 1:
            term = self.mk('comp', type(e).__name__, results[0][1], info['iters'][0], results[0][2])
        else:
            term = T('comp', (type(e).__name__, self.phi(*[v for _, v, _ in results]),
                              Tup(info['iters']), ()))
        if isinstance(e, ast.ListComp):
            pre = []
            rest = []
            for x, v, _ in results:
                if x and not rest:
                    pre.append(v)
                elif v not in rest:
                    rest.append(v)
            return self.new_list(st, pre, rest, origin=term)
        return term

    def ev_call(self, st, e, mod):
        # super().__init__ etc. handled through Attribute
        fn = self.ev(st, e.func, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(st, a.value, mod)
                k = self.iter_known(st, v)
                if k is not None and not k[1]:
                    args += k[0]
                else:
                    args.append(T('star', (v,)))
            else:
                args.append(self.ev(st, a, mod))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(st, k.value, mod)
            if k.arg is None:
                v = self.norm(st, v)
                if isinstance(v, Ref) and self.obj(st, v).kind == 'dict' and self.obj(st, v).exact and all(
                        isinstance(x, K) for x, _ in self.obj(st, v).items):
                    for x, y in self.obj(st, v).items:
                        kwargs[x.v] = y
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        if isinstance(fn, T) and fn.op == 'attr' and fn.args[1] in ('fill', 'fill_') and len(args) == 1 and isinstance(e.func, ast.Attribute) and self.arrays is not None:
            n = self.arrays.filled(st, fn.args[0], args[0])
            if n is not None:
                self.assign(st, e.func.value, n, mod, e)
                return n
        return self.call(st, fn, args, kwargs, e, mod)

    # ------------------------------------------------------------------------------------ helpers
    def frz(self, st, v, depth=8):
        """structural term for a value (heap references expanded)"""
        v = self.norm(st, v)
        if depth <= 0:
            return v
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o is None:
                return v
            if o.kind in ('list', 'set'):
                return T(o.kind, tuple(self.frz(st, x, depth - 1) for x in o.items) + (
                    (T('rest', tuple(self.frz(st, x, depth - 1) for x in o.rest)),) if o.rest else ()))
            if o.kind == 'dict':
                return T('dict', tuple(Tup((self.frz(st, a, depth - 1), self.frz(st, b, depth - 1)))
                                       for a, b in o.items) + ((T('rest', ()),) if o.rest else ()))
            if o.kind == 'inst':
                if o.open is not None:
                    return o.open
                return v
            return v
        if isinstance(v, Tup):
            return Tup([self.frz(st, x, depth - 1) for x in v.items])
        if isinstance(v, T):
            def f(a):
                if isinstance(a, V):
                    return self.frz(st, a, depth - 1)
                if isinstance(a, tuple):
                    return tuple(f(x) for x in a)
                return a
            return T(v.op, tuple(f(a) for a in v.args))
        return v

    def run(self, qual, args=(), kwargs=None, st=None, self_v=None):
        """analyse a function/method from an initial abstract state; returns (state, value) or (state, None) if it
        always raises"""
        st = st or State()
        fn = self.lookup(qual) if isinstance(qual, str) else qual
        if self_v is not None and isinstance(fn, Fn):
            fn = BM(fn, self_v)
        try:
            v = self.call(st, fn, list(args), dict(kwargs or {}), None, '<root>')
            return st, v
        except Dead as d:
            return d.st, None


def guarded_off(I, st, fn, args, kwargs):
    """does the body of fn do nothing in state st because of its leading guard (`if not g: return` or `if g: body`)?"""
    s2 = st.copy()
    vars_ = I.bind_args(s2, fn, args, kwargs)
    fr = I.new(s2, Obj('frame', attrs=vars_, parent=fn.frame, mod=fn.mod))
    s2.frame = fr.id
    body = [x for x in fn.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))
            and not isinstance(x, ast.Pass)]
    log, I.log_events = I.log_events, False
    try:
        for i, x in enumerate(body):
            if isinstance(x, ast.If):
                try:
                    t = I.truth(s2, I.ev(s2, x.test, fn.mod))
                except Dead:
                    return False
                br = x.body if t is True else x.orelse if t is False else None
                if br is None:
                    return False
                br = [y for y in br if not isinstance(y, ast.Pass) and not (
                    isinstance(y, ast.Expr) and (isinstance(y.value, ast.Constant) or 'log.' in ast.unparse(y)))]
                if br and isinstance(br[0], ast.Return):
                    return True
                if not br:
                    if i == len(body) - 1:
                        return True
                    continue
                return False
            if isinstance(x, ast.Return) and (x.value is None or isinstance(x.value, ast.Constant)):
                return True
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and 'self.graph' not in ast.unparse(x):
                try:
                    for r in I.exec_stmt(s2, x, fn.mod):
                        if r[0] == 'next' and r[1] is not s2:
                            s2.become(r[1])
                except Dead:
                    return False
                continue
            return False
        return True
    finally:
        I.log_events = log


def subterms(v, seen=None):
    """all sub-values of a value (no heap expansion)"""
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        yield x
        if isinstance(x, T):
            stack.extend(x.args)
        elif isinstance(x, Tup):
            stack.extend(x.items)
        elif isinstance(x, BM):
            stack.extend((x.fn, x.self))
        elif isinstance(x, Part):
            stack.append(x.fn)
            stack.extend(x.args)
            stack.extend(v for _, v in x.kwargs)
