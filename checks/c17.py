"""Scope analysis of every function of the package (each free name must be bound in an enclosing scope,
the module, an import or the builtins; no local is read that nothing has assigned), a lint for debugger
and interactive calls, and abstract interpretation of every computation under every option for reads of
names or attributes that are not bound on the path taken."""
import ast, symtable, os
from sa import pkg, allruns

DEBUG = {'breakpoint', 'set_trace', 'post_mortem', 'embed', 'input', 'raw_input', 'launch_ipdb_on_exception', 'quit', 'exit', '_exit', 'interact'}

def run(rep, repo, tier):
    ms = pkg.modules(repo)
    tops = {}
    for m in ms:
        if not isinstance(m, SyntaxError): tops[m.name] = pkg.toplevel(m.tree)
    for m in ms:
        if isinstance(m, SyntaxError):
            rep.fail('source parses', str(m.filename), 'syntax error', (m.filename, m.lineno, '')); continue
        module(rep, m, tops)
    for r in allruns.everything(repo, tier): one(rep, r)
    return 400

def resolve(m, tops, seen=()):
    """names visible at module level, or None when a star import cannot be resolved"""
    names, stars = tops[m]
    out = set(names); open_ = False
    for mod, level in stars:
        t = mod or ''
        if level: t = m.rsplit('.', 1)[0] + ('.' + t if t else '')
        if t in tops and t not in seen:
            n, o = resolve(t, tops, seen + (m,)); out |= n; open_ |= o
        elif t.startswith(('pybra', 'welib')): pass       # optional helpers: exception formatting and colours
        else: open_ = True
    return out, open_

def module(rep, m, tops):
    names, open_ = resolve(m.name, tops)
    try: st = symtable.symtable(m.src, m.path, 'exec')
    except SyntaxError: return
    loc = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load): loc.setdefault(n.id, []).append(n.lineno)
    def walk(t, qual):
        for c in t.get_children():
            q = (qual + '.' if qual else '') + c.get_name()
            if 'Test' in q.split('.')[0]: continue
            for s in c.get_symbols():
                if not s.is_referenced(): continue
                nm = s.get_name()
                if s.is_global() or c.get_type() == 'class' and not s.is_assigned() and not s.is_imported():
                    if nm in names or nm in pkg.BUILTIN: rep.ok('names are defined')
                    elif open_: rep.undecided('names are defined', m.rel, 'star import of an outside module')
                    else:
                        ln = [l for l in loc.get(nm, []) if l >= c.get_lineno()]
                        rep.fail('names are defined', m.name + '.' + q, 'name %s is not defined anywhere' % nm, (m.rel, ln[0] if ln else c.get_lineno(), q), firm=True)
                elif s.is_local() and not (s.is_assigned() or s.is_parameter() or s.is_imported()):
                    rep.fail('names are defined', m.name + '.' + q, 'local %s is never assigned' % nm, (m.rel, c.get_lineno(), q), firm=True)
            walk(c, q)
    walk(st, '')
    for f in m.fns:
        if pkg.is_test(f): continue
        bad = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                if nm in DEBUG:
                    bad = True
                    rep.fail('no debugger or prompt in a computation', m.name + '.' + f.qual, 'calls %s' % nm, (m.rel, n.lineno, f.qual), firm=True)
        straight(rep, m, f)
        if not bad: rep.ok('no debugger or prompt in a computation', m.name + '.' + f.qual)

def straight(rep, m, f):
    """a local read before the only statements that can bind it"""
    params = set(a.arg for a in f.node.args.args + f.node.args.kwonlyargs) | ({f.node.args.vararg.arg} if f.node.args.vararg else set()) | ({f.node.args.kwarg.arg} if f.node.args.kwarg else set())
    first = {}; stores = {}
    nested = set()
    for n in ast.walk(f.node):
        if n is not f.node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)):
            nested.update(id(x) for x in ast.walk(n)); 
    glob = set(x for n in ast.walk(f.node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names)
    if any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(f.node)): inloop = set(id(x) for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While)) for x in ast.walk(n))
    else: inloop = set()
    for n in ast.walk(f.node):
        if id(n) in nested: continue
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Store): stores.setdefault(n.id, []).append(n)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node: stores.setdefault(n.name, []).append(n)
    ok = True
    for n in ast.walk(f.node):
        if id(n) in nested or not isinstance(n, ast.Name) or not isinstance(n.ctx, ast.Load): continue
        if n.id in params or n.id in glob or n.id not in stores or id(n) in inloop: continue
        if min(s.lineno for s in stores[n.id]) > n.lineno and not any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(f.node)):
            ok = False
            rep.fail('names are defined', m.name + '.' + f.qual, 'local %s is read before it is assigned' % n.id, (m.rel, n.lineno, f.qual), firm=True)
    if ok: rep.ok('locals are assigned before use', m.name + '.' + f.qual)

def one(rep, r):
    bad = False
    for e in r.it.events:
        if e.kind == 'undefname':
            bad = True; rep.fail('every path finds its names', fn(e.loc), 'name %s is not bound on this path' % e.name, e.loc, configs='%s %s' % (r.key, r.label), firm=True)
        elif e.kind == 'noattr':
            bad = True; rep.fail('every path finds its names', fn(e.loc), 'attribute %s of %s does not exist' % (e.name, e.cls), e.loc, configs='%s %s' % (r.key, r.label), firm=True)
        elif e.kind == 'issue' and e.what == 'arity':
            bad = True; rep.fail('calls match signatures', fn(e.loc), e.detail, e.loc, configs='%s %s' % (r.key, r.label), firm=True)
    rep.count('configurations')
    if not bad: rep.ok('every path finds its names', '%s %s' % (r.key, r.label))

def fn(loc): return loc[2] if loc and len(loc) > 2 else '?'
