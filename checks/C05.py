"""C05: the serialisation layer (schema_generated.py) follows the target file format."""
import ast
from sa.framework import load_table
from sa.interp import State, K, T, Cls, subterms
from sa.repo import AnalysisBroken

TITLE = 'serialisation layer follows the file format'
EXPLANATION = ('Every writer function of schema_generated is executed abstractly and the builder calls it performs (slot, '
               'width, default, value operand) are compared with the frozen schema derived from the runtime\'s own schema '
               'module; every enumeration member and every reader accessor (offset, flags, default) likewise.')
MOD = 'tinynn.converter.schemas.tflite.schema_generated'


def calls_on(I, name):
    return [e for e in I.events if e.kind == 'call' and isinstance(e.fn, T) and e.fn.op == 'attr'
            and isinstance(e.fn.args[0], T) and e.fn.args[0].op == 'sym' and e.fn.args[0].args[0] == name]


def run(ctx):
    tab = load_table('tflite_schema.json')
    I = ctx.interp()
    m = I.repo.module(MOD)
    rel = m.rel()
    ctx.rule('enum', 'every enumeration member has the value of the file format', 200)
    ctx.rule('writer', 'every table writer stores its argument in the slot, width and default of the file format', 150)
    ctx.rule('start', 'every table is started with enough slots and ended with EndObject', 100)
    ctx.rule('vector', 'every vector is started with the element size and alignment of the file format', 30)
    ctx.rule('reader', 'every reader accessor uses the offset, width and default of the file format', 250)
    tables = tab['tables']

    def line(n):
        return '%s:%d' % (rel, getattr(n, 'lineno', 0))

    def const(v):
        if isinstance(v, K):
            return int(v.v) if isinstance(v.v, bool) else v.v
        return None

    # enumerations and readers
    for cname, node in m.defs.items():
        if not isinstance(node, ast.ClassDef):
            continue
        c = I.lookup(MOD + '.' + cname)
        if cname in tab['enums']:
            oracle = tab['enums'][cname]
            for k, v in c.attrs.items():
                if k.startswith('_') or not isinstance(v, K) or not isinstance(v.v, int):
                    continue
                if k in oracle:
                    ctx.expect(v.v == oracle[k], 'enum', '%s.%s' % (cname, k), line(node),
                               'value %s, the file format defines %s' % (v.v, oracle[k]))
                else:
                    ctx.expect(v.v not in oracle.values(), 'enum', '%s.%s' % (cname, k), line(node),
                               'value %s belongs to another member in the file format' % v.v)
        elif cname in tab['readers']:
            oracle = tab['readers'][cname]
            for meth in node.body:
                if not isinstance(meth, ast.FunctionDef) or meth.name not in oracle:
                    continue
                o = oracle[meth.name]
                I.events.clear()
                st = State()
                inst = I.new_inst(st, c, {}, open=I.sym('self'))
                args = [I.sym(a.arg) for a in meth.args.args[1:]]
                r = I.run('%s.%s.%s' % (MOD, cname, meth.name), args, {}, st, inst)
                offs, flags, defaults = set(), set(), set()
                seen = []
                for e in I.events:
                    if isinstance(e.fn, T) and e.fn.op == 'attr' and e.fn.args[1] == 'Offset' and e.args:
                        offs.add(const(e.args[0]))
                    for a in list(e.args):
                        for s in subterms(a):
                            seen.append(s)
                if r is not None:
                    seen += list(subterms(r[1]))
                for s in seen:
                    if isinstance(s, T) and s.op in ('ext', 'attr'):
                        nm = str(s.args[-1])
                        nm = nm.split('.')[-1]
                        if nm.endswith('Flags') and nm != 'UOffsetTFlags':
                            flags.add(nm)
                inst_name = '%s.%s' % (cname, meth.name)
                ctx.ob('reader', inst_name)
                if offs != set(o['offset']):
                    ctx.finding('reader', inst_name, line(meth), 'reads offset %s, the file format defines %s'
                                % (sorted(map(str, offs)), o['offset']))
                if flags and o['flags'] and flags != set(o['flags']):
                    ctx.finding('reader', inst_name, line(meth), 'reads with %s, the file format defines %s'
                                % (sorted(flags), o['flags']))
                if r is not None and o['default'] and not args:
                    t = r[1]
                    d = None
                    if isinstance(t, T) and t.op == 'ite':
                        for x in t.args[1:]:
                            if isinstance(x, K):
                                d = x.v
                    if d is not None:
                        want = set(str(x) for x in o['default'])
                        norm = {'False': '0', 'True': '1', '0.0': '0', '1.0': '1'}
                        ctx.expect(norm.get(str(d), str(d)) in {norm.get(w, w) for w in want}, 'reader',
                                   inst_name + ':default', line(meth),
                                   'default %r, the file format defines %s' % (d, sorted(want)))

    # writers
    names = sorted(tables, key=len, reverse=True)
    seen_tables = {}
    for fname, node in m.defs.items():
        if not isinstance(node, ast.FunctionDef):
            continue
        params = [a.arg for a in node.args.args]
        if not params:
            continue
        tname = next((t for t in names if fname.startswith(t) and (
            fname[len(t):] in ('Start', 'End') or fname[len(t):].startswith('Add')
            or (fname[len(t):].startswith('Start') and fname.endswith('Vector')))), None)
        if tname is None:
            continue
        rest = fname[len(tname):]
        I.events.clear()
        args = [I.sym('builder')] + [I.sym(p) for p in params[1:]]
        r = I.run(MOD + '.' + fname, args)
        ev = calls_on(I, 'builder')
        got = [(e.fn.args[1], [x.v if isinstance(x, K) else x for x in e.args]) for e in ev]
        loc = line(node)
        seen_tables.setdefault(tname, set()).add(rest)
        ret = r[1] if r else None
        if rest == 'Start':
            ok = len(got) == 1 and got[0][0] == 'StartObject' and isinstance(got[0][1][0], int)
            if ok:
                used = [f['slot'] for n, f in tables[tname]['fields'].items()
                        if isinstance(m.defs.get('%sAdd%s' % (tname, n)), ast.FunctionDef)]
                ok = got[0][1][0] > max(used or [-1])
            ctx.expect(ok, 'start', fname, loc, 'table started by %s, the file format has %d slots'
                       % (got, tables[tname]['n']))
        elif rest == 'End':
            ok = len(got) == 1 and got[0][0] == 'EndObject' and isinstance(ret, T) and ret.op == 'call' \
                and isinstance(ret.args[0], T) and ret.args[0].args[-1] == 'EndObject'
            ctx.expect(ok, 'start', fname, loc, 'table not ended by returning EndObject(): %s' % got)
        elif rest.startswith('Add'):
            f = tables[tname]['fields'].get(rest[3:])
            if f is None:
                ctx.skip(fname, 'field not in the frozen schema')
                continue
            ok, why = len(got) == 1, 'builder calls %s' % got
            if ok:
                meth, a = got[0]
                val = a[1] if len(a) > 1 else None
                # the value operand is the parameter (possibly wrapped by the offset type conversion)
                vs = [s for s in subterms(val) if isinstance(s, T) and s.op == 'sym'] if val is not None else []
                slot_ok = a[0] == f['slot']
                meth_ok = meth == f['write']
                dflt = a[2] if len(a) > 2 else None
                dflt = int(dflt) if isinstance(dflt, bool) else dflt
                val_ok = [v.args[0] for v in vs] == [params[1]]
                conv = isinstance(val, T) and val.op == 'call'
                if conv and 'UOffsetTFlags' not in repr(val.args[0]):
                    val_ok = False
                if isinstance(val, T) and val.op not in ('sym', 'call'):
                    val_ok = False
                ok = slot_ok and meth_ok and dflt == f['default'] and val_ok
                why = '%s(%s), the file format requires %s(%s, <%s>, %s)' % (
                    meth, ', '.join(map(str, a)), f['write'], f['slot'], params[1], f['default'])
            ctx.expect(ok, 'writer', fname, loc, why)
        else:
            v = tab['vectors'].get(fname)
            if v is None:
                ctx.skip(fname, 'vector not in the frozen schema')
                continue
            ok = len(got) == 1 and got[0][0] == 'StartVector' and [x if isinstance(x, int) else '$value'
                                                                    for x in got[0][1]] == v[1]
            ctx.expect(ok, 'vector', fname, loc, '%s, the file format requires StartVector%s' % (got, v[1]))
    for t, have in seen_tables.items():
        ctx.expect({'Start', 'End'} <= have, 'start', t, rel, 'table has no Start/End function')
    ctx.use(I)
