"""Freezes the target file format (from the installed runtime's own schema module) as tables/tflite_schema.json.
Only the abstract syntax of that module is read. Run once; the result is committed."""
import ast, json, os, re, sys
SRC = '/opt/venv/lib/python3.12/site-packages/tensorflow/lite/python/schema_py_generated.py'
t = ast.parse(open(SRC).read())
enums, tables, writers, readers = {}, {}, {}, {}
for n in t.body:
    if isinstance(n, ast.ClassDef):
        if n.name.endswith('T') and any(isinstance(m, ast.FunctionDef) and m.name == 'InitFromBuf' for m in n.body):
            continue
        mem = {}
        for m in n.body:
            if isinstance(m, ast.Assign) and isinstance(m.value, ast.Constant) and isinstance(m.value.value, int):
                mem[m.targets[0].id] = m.value.value
            elif isinstance(m, ast.Assign) and isinstance(m.value, ast.UnaryOp):
                mem[m.targets[0].id] = -m.value.operand.value
        if mem:
            enums[n.name] = mem
        elif any(isinstance(m, ast.FunctionDef) and m.name == 'Init' for m in n.body):
            rd = {}
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name[0].isupper() and not m.name.startswith('GetRootAs'):
                    src = ast.unparse(m)
                    offs = re.findall(r'_tab\.Offset\((\d+)\)', src)
                    if not offs: continue
                    flags = sorted(set(x for x in re.findall(r'number_types\.(\w+Flags)', src) if x != 'UOffsetTFlags'))
                    strides = sorted(set(int(x) for x in re.findall(r'\) \* (\d+)\)', src)))
                    ret = [ast.unparse(r.value) for r in ast.walk(m) if isinstance(r, ast.Return) and isinstance(r.value, ast.Constant)]
                    rd[m.name] = {'offset': sorted(set(map(int, offs))), 'flags': flags, 'default': ret}
            readers[n.name] = rd
    elif isinstance(n, ast.FunctionDef):
        calls = [c for c in ast.walk(n) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and ast.unparse(c.func.value) == 'builder']
        if not calls or '(builder' not in ast.unparse(n.args).join('()'): continue
        c = calls[0]
        args = []
        for a in c.args:
            if isinstance(a, ast.Constant): args.append(a.value)
            elif isinstance(a, ast.UnaryOp): args.append(ast.literal_eval(a))
            else: args.append('$value')
        writers[n.name] = [c.func.attr, args]
for w, (f, a) in writers.items():
    if w.endswith('Start') and f == 'StartObject':
        tables[w[:-5]] = {'n': a[0], 'fields': {}}
for w, (f, a) in writers.items():
    m = None
    for tn in tables:
        if w.startswith(tn + 'Add') and f.startswith('Prepend') and f.endswith('Slot'):
            if m is None or len(tn) > len(m): m = tn
    if m: tables[m]['fields'][w[len(m) + 3:]] = {'slot': a[0], 'write': f, 'default': a[2]}
vectors = {w: [f, a] for w, (f, a) in writers.items() if f == 'StartVector'}
for tn in tables:
    for f in tables[tn]['fields'].values():
        f['default'] = f['default'] if not isinstance(f['default'], bool) else int(f['default'])
json.dump({'enums': enums, 'tables': tables, 'vectors': vectors, 'readers': readers}, open(os.path.join(os.path.dirname(__file__), '..', 'tables', 'tflite_schema.json'), 'w'), indent=0, sort_keys=True)
print(len(enums), len(tables), len(vectors), sum(len(v) for v in readers.values()))
