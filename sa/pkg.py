"""The package's syntax trees: modules, functions, scopes, calls."""
import ast, builtins, os, warnings, symtable

class Fn(object):
    def __init__(self, mod, qual, node, cls=None):
        self.mod = mod; self.qual = qual; self.node = node; self.cls = cls

class Module(object):
    def __init__(self, name, path, rel):
        self.name = name; self.path = path; self.rel = rel
        self.src = open(path, encoding='utf-8', errors='replace').read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.src, path)
        self.fns = []
        self.collect(self.tree.body, '', None)
    def collect(self, body, pre, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.fns.append(Fn(self, pre + n.name, n, cls))
                self.collect(n.body, pre + n.name + '.', None)
            elif isinstance(n, ast.ClassDef): self.collect(n.body, pre + n.name + '.', n.name)
            else:
                for f in ('body', 'orelse', 'finalbody', 'handlers'):
                    for x in getattr(n, f, []) or []:
                        if isinstance(x, ast.ExceptHandler): self.collect(x.body, pre, cls)
                        elif isinstance(x, ast.stmt): self.collect([x], pre, cls)

def is_test(f):
    return any(p.startswith('Test') or p.startswith('test_') for p in f.qual.split('.'))

def modules(repo, scripts=False):
    """library modules of the package (and optionally its scripts)"""
    out = []
    base = os.path.join(repo, 'wiz')
    for d, ds, fs in os.walk(base):
        ds.sort()
        if '__pycache__' in d: continue
        for f in sorted(fs):
            if not f.endswith('.py'): continue
            p = os.path.join(d, f); rel = os.path.relpath(p, repo)
            top = d == base
            if not top and not scripts and rel not in ('wiz/examples/CurledWake_2D.py', 'wiz/examples/CurledWake.py'): continue
            if f == 'test_modules.py': continue
            name = rel[:-3].replace(os.sep, '.')
            if name.endswith('.__init__'): name = name[:-9]
            try: out.append(Module(name, p, rel))
            except SyntaxError as e: out.append(e)
    return out

BUILTIN = set(dir(builtins)) | {'__name__', '__file__', '__doc__', '__builtins__', '__path__', '__package__', '__spec__', '__class__', '__module__', '__qualname__'}

def toplevel(tree):
    """names bound at module level; star imports"""
    names = set(); stars = []
    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n): names.add(n.name); [self.visit(d) for d in n.decorator_list]
        visit_AsyncFunctionDef = visit_FunctionDef
        def visit_ClassDef(self, n): names.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_Import(self, n):
            for a in n.names: names.add(a.asname or a.name.split('.')[0])
        def visit_ImportFrom(self, n):
            for a in n.names:
                if a.name == '*': stars.append((n.module, n.level))
                else: names.add(a.asname or a.name)
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)
        def visit_ExceptHandler(self, n):
            if n.name: names.add(n.name)
            self.generic_visit(n)
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    V().visit(tree)
    for n in ast.walk(tree):
        if isinstance(n, ast.Global): names.update(n.names)
    return names, stars
