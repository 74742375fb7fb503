"""Termination by syntax and call graph: every loop of the library either runs over a collection or range
that its body does not extend, or is a while loop with a counter that strictly advances on every pass
towards a bound that does not change; and no function can call itself again, directly or through others."""
import ast
from sa import pkg
from sa.report import Broken

def run(rep, repo, tier):
    ms = pkg.modules(repo)
    fns = {}
    nloop = 0
    for m in ms:
        if isinstance(m, SyntaxError): rep.fail('source parses', str(m.filename), 'syntax error', (m.filename, m.lineno, '')); continue
        for f in m.fns:
            if pkg.is_test(f): continue
            fns[(m.name, f.qual)] = f
            nloop += loops(rep, m, f)
    rep.count('loops', nloop); rep.count('functions', len(fns))
    recursion(rep, ms, fns)
    rep.assume('iterating an array, list or range of finite length ends')
    return 60

def own(node):
    """statements of a function without nested functions"""
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)): continue
        yield n
        st.extend(ast.iter_child_nodes(n))

def names(e): return set(n.id for n in ast.walk(e) if isinstance(n, ast.Name))

def loops(rep, m, f):
    k = 0
    for n in own(f.node):
        loc = (m.rel, getattr(n, 'lineno', 0), f.qual)
        if isinstance(n, ast.For):
            k += 1
            bad = extended(n)
            if bad: rep.fail('loops end', '%s.%s' % (m.name, f.qual), 'the loop extends the collection it runs over', loc)
            elif endless(n.iter): rep.fail('loops end', '%s.%s' % (m.name, f.qual), 'loop over an endless iterator', loc) if not exits(n.body, f.node, n) else rep.ok('loops end', loc)
            else: rep.ok('loops end', '%s:%d %s' % loc)
        elif isinstance(n, ast.While):
            k += 1
            if bounded(n, f.node): rep.ok('loops end', '%s:%d %s' % loc)
            else: rep.fail('loops end', '%s.%s' % (m.name, f.qual), 'no counter bounds the number of passes of a while loop', loc)
    return k

def endless(it):
    return isinstance(it, ast.Call) and (isinstance(it.func, ast.Attribute) and it.func.attr in ('count', 'cycle') or isinstance(it.func, ast.Name) and it.func.id in ('count', 'cycle'))

def extended(n):
    """for x in L: L.append(...)"""
    if not isinstance(n.iter, ast.Name): return False
    for x in ast.walk(ast.Module(n.body, [])):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'insert') and isinstance(x.func.value, ast.Name) and x.func.value.id == n.iter.id:
            return True
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == n.iter.id: return True
    return False

def counters(body):
    """variables advanced on every pass: {name: +1/-1} (at the top level of the body, before any continue)"""
    out = {}
    for s in body:
        if any(isinstance(x, ast.Continue) for x in ast.walk(s)): break
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) and s.value.value > 0:
            if isinstance(s.op, ast.Add): out[s.target.id] = 1
            elif isinstance(s.op, ast.Sub): out[s.target.id] = -1
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp):
            v, t = s.value, s.targets[0].id
            c = None
            if isinstance(v.left, ast.Name) and v.left.id == t and isinstance(v.right, ast.Constant): c = v.right.value
            elif isinstance(v.right, ast.Name) and v.right.id == t and isinstance(v.left, ast.Constant) and isinstance(v.op, ast.Add): c = v.left.value
            if isinstance(c, (int, float)) and c > 0:
                if isinstance(v.op, ast.Add): out[t] = 1
                elif isinstance(v.op, ast.Sub): out[t] = -1
    return out

def assigned(body):
    s = {}
    for x in ast.walk(ast.Module(body, [])):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): s[x.id] = s.get(x.id, 0) + 1
    return s

def conj(t):
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        return [c for v in t.values for c in conj(v)]
    return [t]
def disj(t):
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        return [c for v in t.values for c in disj(v)]
    return [t]

def compares(t):
    """(left, op, right) in both orientations"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        inv = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        return [(l, inv[o], r) for l, o, r in compares(t.operand) if o in inv]
    if not isinstance(t, ast.Compare): return []
    out = []; l = t.left
    rv = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for o, r in zip(t.ops, t.comparators):
        if type(o) in rv: out += [(l, type(o), r), (r, rv[type(o)], l)]
        l = r
    return out

def bounded(n, fn):
    cs = counters(n.body); asg = assigned(n.body)
    def bound(l, op, r, stay):
        """l op r keeps (stay) or ends the loop"""
        if not isinstance(l, ast.Name) or l.id not in cs or asg.get(l.id) != 1: return False
        if any(v in asg for v in names(r)) or any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'int', 'min', 'max')) for x in ast.walk(r)): return False
        up = cs[l.id] > 0
        if stay: return op in ((ast.Lt, ast.LtE) if up else (ast.Gt, ast.GtE))
        return op in ((ast.Gt, ast.GtE) if up else (ast.Lt, ast.LtE))
    for t in conj(n.test):
        if any(bound(l, o, r, True) for l, o, r in compares(t)): return True
    # an unconditional exit test in the body
    for s in n.body:
        if any(isinstance(x, ast.Continue) for x in ast.walk(s)) and not isinstance(s, ast.If): break
        if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Break, ast.Return, ast.Raise)):
            for t in disj(s.test):
                if any(bound(l, o, r, False) for l, o, r in compares(t)): return True
        if any(isinstance(x, ast.Continue) for x in ast.walk(s)): break
    return False

def exits(body, fn, loop):
    w = ast.While(test=ast.Constant(True), body=body, orelse=[])
    return bounded(w, fn)

def recursion(rep, ms, fns):
    """call graph over functions of the package; a cycle is a possible endless recursion"""
    byname = {}
    for (mod, q), f in fns.items(): byname.setdefault((mod, q.split('.')[-1]), []).append((mod, q))
    imports = {}
    for m in ms:
        if isinstance(m, SyntaxError): continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level: base = 'wiz' + ('.' + base if base else '')
                for a in n.names: imports[(m.name, a.asname or a.name)] = (base, a.name)
    graph = {}
    for key, f in fns.items():
        out = set()
        for n in own(f.node):
            if not isinstance(n, ast.Call): continue
            c = n.func
            if isinstance(c, ast.Name):
                tgt = imports.get((key[0], c.id))
                local = byname.get((key[0], c.id))
                if local: out.update(l for l in local if visible(l, key))
                elif tgt and (tgt[0], tgt[1]) in byname: out.update(byname[tgt])
                elif tgt:
                    # a class: its constructor
                    for k in fns:
                        if k[0] == tgt[0] and k[1] == tgt[1] + '.__init__': out.add(k)
            elif isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name) and c.value.id == 'self' and '.' in key[1]:
                cls = key[1].rsplit('.', 1)[0]
                k = (key[0], cls + '.' + c.attr)
                if k in fns: out.add(k)
        for n in own(f.node):   # properties
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self' and '.' in key[1]:
                k = (key[0], key[1].rsplit('.', 1)[0] + '.' + n.attr)
                if k in fns and any(isinstance(d, ast.Name) and d.id == 'property' for d in fns[k].node.decorator_list): out.add(k)
        graph[key] = out
    rep.count('call edges', sum(len(v) for v in graph.values()))
    for k in graph:
        seen = set(); st = list(graph[k]); hit = False
        while st:
            x = st.pop()
            if x == k: hit = True; break
            if x in seen: continue
            seen.add(x); st.extend(graph.get(x, ()))
        if hit:
            if guarded(fns[k], k): rep.undecided('no endless recursion', '%s.%s' % k, 'recursive calls behind a condition')
            else: rep.fail('no endless recursion', '%s.%s' % k, 'calls itself again on every path', (fns[k].mod.rel, fns[k].node.lineno, k[1]))
        else: rep.ok('no endless recursion', '%s.%s' % k)

def visible(l, key):
    """a bare name refers to module functions or to functions nested in the caller (or beside it)"""
    pre = l[1].rsplit('.', 1)[0] if '.' in l[1] else ''
    return pre == '' or key[1] == pre or key[1].startswith(pre + '.')

def guarded(f, key):
    name = key[1].split('.')[-1]
    for s in f.node.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == name or isinstance(n.func, ast.Attribute) and n.func.attr == name):
                return isinstance(s, ast.If) or earlier_return(f.node.body, s)
            if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == 'self':
                return isinstance(s, ast.If) or earlier_return(f.node.body, s)
    return True

def earlier_return(body, s):
    for x in body:
        if x is s: return False
        if isinstance(x, ast.If) and any(isinstance(y, (ast.Return, ast.Raise)) for y in ast.walk(x)): return True
    return False
