"""Interpretation of context managers, typed exceptions and generators as coroutines, along a single path: what a `with` block or a `try` leaves behind is decided for
each way of leaving it. Generators run in a thread of their own that shares the state of the interpreter with their consumer and never runs at the same time."""
import ast
import builtins
import threading
from .interp import Interp, State, K, T, Fn, BM, Cls, Ref, Tup, NONE, TRUE, FALSE, Bi, Dead, Obj, Wrap
from .arr import Unk

threading.stack_size(256 << 20)


class Abort(BaseException):
    pass


def names_of(v, I, st):
    """the names of the classes of an exception value"""
    if isinstance(v, T) and v.op == 'excval':
        n = str(v.args[0]).split('(')[0].split(',')[0].strip(' (')
    elif isinstance(v, T) and v.op == 'call':
        f = v.args[0]
        n = f.name if isinstance(f, Bi) else str(f.args[0]) if isinstance(f, T) and f.op == 'ext' else 'Exception'
    elif isinstance(v, Bi):
        n = v.name
    elif isinstance(v, Ref) and I.obj(st, v).cls is not None:
        r = set()
        for c in I.obj(st, v).cls.mro:
            r |= {c.name} if isinstance(c, Cls) else names_of(c, I, st)
        return r
    elif isinstance(v, Cls):
        r = set()
        for c in v.mro:
            r |= {c.name} if isinstance(c, Cls) else names_of(c, I, st)
        return r
    else:
        n = 'Exception'
    n = n.rpartition('.')[2]
    c = getattr(builtins, n, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return {x.__name__ for x in c.__mro__}
    return {n, 'Exception', 'BaseException'}


class Coro:
    def __init__(self, I, fn, args, kwargs):
        self.I, self.fn, self.args, self.kwargs = I, fn, args, kwargs
        self.turn, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.thread, self.done, self.out, self.inp = None, False, None, None
        self.st, self.sfx, self.rfx = None, [], []

    def resume(self, st, exc=None):
        """run until the next yield or the end; returns ('yield', v), ('return', v) or ('raise', exc)"""
        I = self.I
        if self.done:
            return 'return', NONE
        frame = st.frame
        self.inp = (st, exc)
        self.base = (len(I.stack), len(I.raises))
        I.stack.extend(self.sfx)
        I.raises.extend(self.rfx)
        I.active.append(self)
        if self.thread is None:
            self.thread = threading.Thread(target=self.run, daemon=True)
            self.thread.start()
        else:
            self.turn.release()
        self.back.acquire()
        I.active.pop()
        k, v, x = self.out
        self.sfx, self.rfx = I.stack[self.base[0]:], I.raises[self.base[1]:]
        del I.stack[self.base[0]:]
        del I.raises[self.base[1]:]
        if k == 'host':
            self.done = True
            raise v
        st.become(x)
        st.frame = frame
        if k != 'yield':
            self.done = True
        return k, v

    def run(self):
        I = self.I
        st = State()
        st.become(self.inp[0])
        try:
            vars_ = I.bind_args(st, self.fn, self.args, self.kwargs)
            fr = I.new(st, Obj('frame', attrs=vars_, parent=self.fn.frame, mod=self.fn.mod))
            st.frame = fr.id
            I.stack.append(self.fn)
            I.analysed.add(self.fn.qual)
            try:
                if self.inp[1] is not None:
                    res = [('raise', st, self.inp[1])]
                else:
                    res = I.exec_block(st, self.fn.node.body, self.fn.mod)
            except Dead as d:
                res = [('raise', d.st, d.exc)]
            if len(res) != 1:
                raise Unk('%d paths through %s' % (len(res), self.fn.qual))
            k, x, v = res[0]
            self.out = ('raise', v, x) if k == 'raise' else ('return', v if v is not None else NONE, x)
        except Abort:
            return
        except BaseException as e:
            self.out = ('host', e, None)
        self.back.release()

    def give(self, st, v):
        """called in the thread of the generator"""
        frame = st.frame
        self.out = ('yield', v, st)
        self.back.release()
        self.turn.acquire()
        if self.inp is None:
            raise Abort()
        x, exc = self.inp
        st.become(x)
        st.frame = frame
        if exc is not None:
            raise Dead(st, exc)
        return NONE

    def abort(self):
        if self.thread is not None and self.thread.is_alive():
            I = self.I
            keep = list(I.stack), list(I.raises), I.infinal, list(I.caught)
            I.stack.extend(self.sfx)
            I.raises.extend(self.rfx)
            self.inp = None
            self.turn.release()
            self.thread.join()
            I.stack[:], I.raises[:], I.infinal, I.caught[:] = keep


class CtxInterp(Interp):
    def setup(self):
        self.active, self.coros, self.infinal, self.caught = [], [], 0, []
        self.I = self

    # -------------------------------------------------------------------------------- attributes
    def pobj(self, st, v):
        """attributes of a patchable object and the object it inherits from"""
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o.kind == 'inst' and o.cls is not None and o.cls.name == 'PObj':
                return o
        return None

    def getattr(self, st, base, name, node=None, mod=None):
        b = self.norm(st, base)
        if isinstance(b, Cls) and name == '__module__' and (b, name) not in st.symattr:
            return K('torch.nn' if b.mod.startswith('verif_') else b.mod)
        if isinstance(b, T) and b.op == 'slice' and name in ('start', 'stop', 'step') and len(b.args) == 3:
            return b.args[('start', 'stop', 'step').index(name)]
        if isinstance(b, (Cls, Fn)) or isinstance(b, T) and b.op == 'ext':
            if (b, name) in st.symattr:
                return self.norm(st, st.symattr[(b, name)])
            if name == '__dict__' and not isinstance(b, Fn):
                return T('clsdict', (b,))
        o = self.pobj(st, b)
        if o is not None:
            if name == '__dict__':
                return self.new_dict(st, [(K(k), v) for k, v in o.attrs.items() if k != '_base_'])
            x = b
            while o is not None:
                if name in o.attrs:
                    return self.norm(st, o.attrs[name])
                x = o.attrs.get('_base_')
                o = self.pobj(st, x) if x is not None else None
            raise Dead(st, T('excval', ('AttributeError',)))
        return Interp.getattr(self, st, base, name, node, mod)

    def compare(self, st, op, a, b, nofact=False):
        for x, y in ((a, b), (b, a)):
            if op in ('is', 'is not', '==', '!=') and isinstance(x, T) and x.op == 'slice' and isinstance(self.norm(st, y), K):
                return K(op in ('is not', '!='))
        return super().compare(st, op, a, b, nofact)

    def binop(self, st, op, a, b):
        # models of tensors define the operators they support
        for x, y, p in ((a, b, ''), (b, a, 'r')):
            x = self.norm(st, x)
            n = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv'}.get(op)
            if isinstance(x, Ref) and n:
                o = self.obj(st, x)
                if o is not None and o.kind == 'inst' and o.cls is not None and o.cls.mod.startswith('verif_'):
                    m, _ = self.class_attr(o.cls, '__%s%s__' % (p, n))
                    if isinstance(m, Fn):
                        return self.call(st, BM(m, x), [self.norm(st, y)], {}, None, None)
        return super().binop(st, op, a, b)

    def getitem(self, st, base, key, node=None, mod=None):
        b, k = self.norm(st, base), self.norm(st, key)
        if isinstance(b, T) and b.op == 'clsdict' and isinstance(k, K):
            c = b.args[0]
            if (c, k.v) in st.symattr:
                return self.norm(st, st.symattr[(c, k.v)])
            if isinstance(c, Cls):
                v = self.class_attr(c, k.v)[0]
                if v is None:
                    raise Dead(st, T('excval', ('KeyError',)))
                return v
            return self.ext(c.args[0] + '.' + k.v)
        if isinstance(b, T) and b.op == 'ext' and b.args[0] == 'sys.modules' and isinstance(k, K):
            return self.ext(k.v)
        return Interp.getitem(self, st, base, key, node, mod)

    def call_builtin(self, st, n, args, kwargs, node, mod):
        A = [self.norm(st, a) for a in args]
        if n in ('int', 'float') and len(A) == 1 and isinstance(A[0], K) and isinstance(A[0].v, str):
            try:
                return K((int if n == 'int' else float)(A[0].v))
            except ValueError:
                raise Dead(st, T('excval', ('ValueError',)))
        if n == 'type' and len(A) == 1 and isinstance(A[0], T) and A[0].op == 'slice':
            return Bi('slice')
        if n == 'type' and len(A) == 1 and isinstance(A[0], K) and A[0].v is Ellipsis:
            return Bi('ellipsis')
        if n in ('hasattr', 'getattr') and len(A) > 1 and isinstance(A[1], K):
            if self.pobj(st, A[0]) is not None:
                try:
                    v = self.getattr(st, A[0], A[1].v)
                    return TRUE if n == 'hasattr' else v
                except Dead:
                    if n == 'getattr' and len(A) == 2:
                        raise
                    return FALSE if n == 'hasattr' else A[2]
            if (A[0], A[1].v) in st.symattr and n == 'getattr':
                return self.getattr(st, A[0], A[1].v)
            if n == 'getattr' and len(A) == 3 and isinstance(A[0], Ref):
                try:
                    return super().call_builtin(st, n, args, kwargs, node, mod)
                except Dead as d:
                    if str(d.exc) != str(T('excval', ('AttributeError',))):
                        raise
                    return A[2]
        if n == 'delattr' and len(A) == 2 and isinstance(A[1], K):
            if isinstance(A[0], Ref) and self.obj(st, A[0]).kind == 'inst':
                o = self.obj(st, A[0])
                if A[1].v not in o.attrs:
                    raise Dead(st, T('excval', ('AttributeError',)))
                at = dict(o.attrs)
                del at[A[1].v]
                self.put(st, A[0], o.but(attrs=at))
                return NONE
            if st.symattr.pop((A[0], A[1].v), None) is not None:
                return NONE
        if n == 'vars' and len(A) == 1 and self.pobj(st, A[0]) is not None:
            return self.getattr(st, A[0], '__dict__')
        return Interp.call_builtin(self, st, n, args, kwargs, node, mod)

    def close(self):
        for c in self.coros:
            c.abort()
        self.coros = []

    # ------------------------------------------------------------------------------- generators
    def call(self, st, fn, args, kwargs, node, mod):
        f = self.norm(st, fn)
        if isinstance(f, BM) and isinstance(f.fn, Wrap) and f.fn.kind == 'contextmanager':
            args, f = [f.self] + list(args), f.fn
        if isinstance(f, Wrap) and f.kind == 'contextmanager' and isinstance(f.fn, Fn):
            self.coros.append(Coro(self, f.fn, list(args), dict(kwargs)))
            return T('cm', (len(self.coros) - 1,))
        if isinstance(f, T) and f.op == 'ext' and f.args[0] in ('verif_ctx.enter', 'verif_ctx.exit'):
            a = [self.norm(st, x) for x in args]
            if f.args[0] == 'verif_ctx.enter':
                return self.enter(st, a[0], node, mod)
            exc = None if a[1] == NONE else a[1]
            try:
                return NONE if self.leave(st, a[0], exc, node, mod) or exc is None else exc
            except Dead as d:
                if d.st is not st:
                    st.become(d.st)
                return d.exc
        return Interp.call(self, st, fn, args, kwargs, node, mod)

    def bind(self, st, v, self_v, cls):
        if isinstance(v, Wrap) and v.kind == 'contextmanager' and self_v is not None:
            return BM(v, self_v)
        return Interp.bind(self, st, v, self_v, cls)

    def ev(self, st, e, mod):
        if isinstance(e, ast.Name) and e.id == 'Ellipsis':
            return K(Ellipsis)
        if type(e) is ast.Yield and self.active:
            v = self.ev(st, e.value, mod) if e.value is not None else NONE
            return self.active[-1].give(st, v)
        return Interp.ev(self, st, e, mod)

    # ------------------------------------------------------------------------- context managers
    def enter(self, st, v, node, mod):
        v = self.norm(st, v)
        if isinstance(v, T) and v.op == 'cm':
            k, x = self.coros[v.args[0]].resume(st)
            if k == 'raise':
                raise Dead(st, x)
            if k == 'return':
                raise Dead(st, T('excval', ('RuntimeError',)))
            return x
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o.cls is not None and self.class_attr(o.cls, '__enter__')[0] is not None:
                return self.call(st, self.getattr(st, v, '__enter__'), [], {}, node, mod)
        return self.mk('enter', v)

    def leave(self, st, v, exc, node, mod):
        """returns whether the exception is swallowed"""
        v = self.norm(st, v)
        if isinstance(v, T) and v.op == 'cm':
            k, x = self.coros[v.args[0]].resume(st, exc)
            if k == 'raise':
                if x == exc:
                    return False
                raise Dead(st, x)
            if k == 'yield':
                raise Dead(st, T('excval', ('RuntimeError',)))
            return exc is not None
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o.cls is not None and self.class_attr(o.cls, '__exit__')[0] is not None:
                r = self.call(st, self.getattr(st, v, '__exit__'), [NONE, NONE, NONE] if exc is None else [K('type'), exc, K('tb')], {}, node, mod)
                return self.truth1(st, r) is True and exc is not None
        if isinstance(v, T) and v.op == 'call' and isinstance(v.args[0], T) and v.args[0].op == 'ext' and v.args[0].args[0] == 'contextlib.suppress' and exc is not None:
            return bool({self.typename(x) for x in v.args[1]} & names_of(exc, self, st))
        return False

    def typename(self, v):
        return v.name if isinstance(v, (Bi, Cls)) else v.args[0].rpartition('.')[2] if isinstance(v, T) and v.op == 'ext' else '?'

    def one(self, res, what):
        if len(res) != 1:
            raise Unk('%d paths out of %s' % (len(res), what))
        return res[0]

    def _exec(self, st, s, mod):
        if type(s) is ast.With:
            return self.exec_with(st, s, 0, mod)
        if type(s) is ast.Raise and s.exc is None and self.caught:
            return [('raise', st, self.caught[-1])]
        return Interp._exec(self, st, s, mod)

    def exec_with(self, st, s, i, mod):
        if i == len(s.items):
            return self.exec_block(st, s.body, mod)
        it = s.items[i]
        v = self.ev(st, it.context_expr, mod)
        w = self.enter(st, v, s, mod)
        self.event('with', v, [], {}, st, s, mod)
        try:
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, w, mod, s)
            k, x, r = self.one(self.exec_with(st, s, i + 1, mod), 'the body of with')
        except Dead as d:
            k, x, r = 'raise', d.st, d.exc
        try:
            if self.leave(x, v, r if k == 'raise' else None, s, mod):
                k, r = 'next', None
        except Dead as d:
            k, x, r = 'raise', d.st, d.exc
        return [(k, x, r)]

    # -------------------------------------------------------------------------------- exceptions
    def handles(self, hd, exc, st, mod):
        if hd.type is None:
            return True
        ts = hd.type.elts if isinstance(hd.type, ast.Tuple) else [hd.type]
        return bool({ast.unparse(t).rpartition('.')[2] for t in ts} & names_of(exc, self, st))

    def exec_try(self, st, s, mod):
        self.raises.append([])
        try:
            res = self.exec_block(st, s.body, mod)
        finally:
            inner = self.raises.pop()
        if inner:
            raise Unk('several ways out of a try block')
        k, x, v = self.one(res, 'a try block')
        if k == 'raise':
            for hd in s.handlers:
                if self.handles(hd, v, x, mod):
                    if hd.name:
                        self.setvar(x, hd.name, v, mod)
                    self.event('except', K(ast.unparse(hd.type) if hd.type is not None else ''), [], {}, x, hd, mod)
                    self.caught.append(v)
                    try:
                        k, x, v = self.one(self.exec_block(x, hd.body, mod), 'an exception handler')
                    finally:
                        self.caught.pop()
                    break
        elif k == 'next' and s.orelse:
            k, x, v = self.one(self.exec_block(x, s.orelse, mod), 'an else block')
        if s.finalbody:
            self.infinal += 1
            try:
                k2, x, v2 = self.one(self.exec_block(x, s.finalbody, mod), 'a finally block')
            finally:
                self.infinal -= 1
            if k2 != 'next':
                k, v = k2, v2
        return [(k, x, v)]
