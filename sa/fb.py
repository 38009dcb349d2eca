"""Abstract flatbuffer builder: records the tables that a build() method creates.

Calls of schema_generated writer functions are intercepted (their bodies are the subject of C05), so that a build method's
effect is a tree of tables, vectors and strings over the symbolic attributes of the built object."""
from .interp import T, K, Fn, Ref, Tup, NONE

MOD = 'tinynn.converter.schemas.tflite.schema_generated.'


class Table:
    def __init__(self, name, pc, n):
        self.name, self.pc, self.fields, self.n = name, pc, {}, n
        self.closed = False

    def value(self, field):
        """the value if written exactly once on the path that starts the table, else None"""
        w = self.fields.get(field)
        if w and len(w) == 1 and w[0][0] == ():
            return w[0][1]
        return None


class FB:
    def __init__(self, interp, tables):
        self.I = interp
        self.names = sorted(tables, key=len, reverse=True)
        self.tables = {}
        self.open = []
        self.count = 0
        self.errors = []
        interp.hooks.append(self.hook)
        self.builder = interp.sym('builder')
        self.vec = self.last_vec = None

    def reset(self):
        self.tables, self.open, self.errors, self.vec, self.last_vec = {}, [], [], None, None

    def split(self, qual):
        f = qual[len(MOD):]
        if '.' in f:
            return None
        for t in self.names:
            if f.startswith(t):
                r = f[len(t):]
                if r in ('Start', 'End') or r.startswith('Add') or (r.startswith('Start') and r.endswith('Vector')):
                    return t, r
        return None

    def handle(self, kind, what):
        self.count += 1
        h = T('sym', ('%s#%d' % (kind, self.count),))
        self.tables[h] = what
        return h

    def hook(self, I, st, fn, args, kwargs, node, mod):
        if isinstance(fn, Fn) and fn.qual.startswith(MOD):
            s = self.split(fn.qual)
            if s is None:
                return NotImplemented
            if kwargs:
                args = I_bind(fn, args, kwargs)
            t, r = s
            if r == 'Start':
                self.open.append(Table(t, st.pc, None))
                return NONE
            if r == 'End':
                if not self.open:
                    self.errors.append('%sEnd without Start' % t)
                    return NONE
                tb = self.open.pop()
                if tb.name != t:
                    self.errors.append('%sStart closed by %sEnd' % (tb.name, t))
                return self.handle('table', tb)
            if r.startswith('Add'):
                if not self.open:
                    self.errors.append('%s outside a table' % fn.name)
                    return NONE
                tb = self.open[-1]
                if tb.name != t:
                    self.errors.append('%s%s used inside %s' % (t, r, tb.name))
                pc = st.pc[len(tb.pc):] if st.pc[:len(tb.pc)] == tb.pc else st.pc
                tb.fields.setdefault(r[3:], []).append((pc, I.frz(st, args[1]) if len(args) > 1 else None))
                return NONE
            # StartXVector
            self.vec = ['vector', '%s.%s' % (t, r[5:-6]), args[1] if len(args) > 1 else None, []]
            return NONE
        if isinstance(fn, T) and fn.op == 'attr' and fn.args[0] == self.builder:
            m = fn.args[1]
            if m == 'CreateNumpyVector':
                return self.handle('array', ('array', I.frz(st, args[0])))
            if m == 'CreateString':
                return self.handle('string', ('string', I.frz(st, args[0])))
            if m == 'CreateByteVector':
                return self.handle('bytes', ('bytes', I.frz(st, args[0])))
            if m == 'PrependUOffsetTRelative':
                if self.vec is None:
                    self.errors.append('offset outside a vector')
                else:
                    self.vec[3].append(I.frz(st, args[0]))
                return NONE
            if m == 'EndVector':
                v = self.vec
                if v is None:
                    # the same vector ended with the other signature of EndVector (fallback for older builders)
                    return self.last_vec if self.last_vec is not None else NotImplemented
                self.vec = None
                self.last_vec = self.handle('vector', tuple(v))
                return self.last_vec
        return NotImplemented


def I_bind(fn, args, kwargs):
    names = [a.arg for a in fn.node.args.args]
    out = list(args)
    for n in names[len(args):]:
        if n in kwargs:
            out.append(kwargs[n])
    return out
