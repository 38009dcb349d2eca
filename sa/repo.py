"""Source loading and name resolution for the analysed repository (no import of its code)."""
import ast, os, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """An anchor vanished or the analyser cannot give an answer (error exit, not a verdict)."""


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.defs = {}
        for n in self.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]

    def rel(self):
        return os.path.relpath(self.path, REPO)


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.cache = {}
        base = os.path.join(self.root, 'tinynn')
        if not os.path.isdir(base):
            raise AnalysisBroken('no tinynn package under %s' % self.root)
        self.paths = {}
        for d, ds, fs in os.walk(base):
            ds[:] = [x for x in ds if x != '__pycache__']
            for f in fs:
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.paths[rel] = p

    def add_model(self, name, path):
        self.paths[name] = path

    def has(self, name):
        return name in self.paths or any(p.startswith(name + '.') for p in self.paths)

    def module(self, name):
        if name not in self.modules:
            if name not in self.paths:
                raise AnalysisBroken('module %s not found' % name)
            with open(self.paths[name], encoding='utf-8') as f:
                src = f.read()
            try:
                self.modules[name] = Module(name, self.paths[name], src)
            except SyntaxError as e:
                raise AnalysisBroken('cannot parse %s: %s' % (self.paths[name], e))
        return self.modules[name]

    def all_modules(self):
        return [self.module(n) for n in sorted(self.paths)]

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.paths):
            with open(self.paths[n], 'rb') as f:
                h.update(n.encode()); h.update(f.read())
        return h.hexdigest()

    @staticmethod
    def resolve_from(mod, node):
        """absolute module name of an ImportFrom"""
        if node.level == 0:
            return node.module
        pkg = mod.package
        for _ in range(node.level - 1):
            pkg = pkg.rpartition('.')[0]
        return pkg + ('.' + node.module if node.module else '')
