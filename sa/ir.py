"""Hash-consed value graph.

Every node denotes an *elementwise* value: the value one element of an array has.  A masked
assignment x[m]=v and np.where(m,v,x) therefore build the same node, sel(m,v,x), and so do a
loop storing x[i]=f(a[i]) and the vectorised x=f(a).  Nodes carry the first source location that
built them, which is what the checks report.
"""
import math
from . import taint

INF = float('inf')

class Node(object):
    __slots__ = ('id', 'op', 'attr', 'args', 'loc')
    def __init__(self, id, op, attr, args, loc):
        self.id = id; self.op = op; self.attr = attr; self.args = args; self.loc = loc
    def __repr__(self):
        return 'n%d:%s' % (self.id, self.op)

COMM = {'+', '*', 'and', 'or', '==', '!=', 'max', 'min'}

def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)

class Graph(object):
    def __init__(self):
        self.tab = {}
        self.n = 0
        self.curloc = ('?', 0, '?')
        self._mus = 0
        self.alllocs = {}
    # -- raw construction
    def mk(self, op, args=(), attr=None):
        key = (op, attr if not isinstance(attr, float) else ('f', repr(attr)), tuple(a.id for a in args))
        nd = self.tab.get(key)
        if nd is None:
            if op == 'unk': taint.note('unknown node', attr, self.curloc)
            self.n += 1
            nd = Node(self.n, op, attr, tuple(args), self.curloc)
            self.tab[key] = nd
        return nd
    def const(self, v):
        if isinstance(v, bool):
            return self.mk('bool', (), v)
        if isinstance(v, float):
            if v != v:
                return self.mk('const', (), 'nan')
            if v == int(v) if abs(v) < 1e15 else False:
                v = int(v)
        if isinstance(v, complex):
            return self.mk('const', (), 'complex')
        return self.mk('const', (), v)
    def cval(self, n):
        """python number of a constant node, or None"""
        if n.op == 'const':
            return float('nan') if n.attr == 'nan' else (None if n.attr == 'complex' else n.attr)
        if n.op == 'bool':
            return n.attr
        return None
    def new_mu(self, key):
        self._mus += 1
        self.n += 1
        nd = Node(self.n, 'mu', (key, self._mus), (), self.curloc)
        self.tab[('mu', self._mus)] = nd
        return nd
    # -- arithmetic
    def add(self, a, b):
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None and cb is not None:
            return self.const(ca + cb)
        if ca is not None and not isinstance(ca, bool) and ca == 0: return b
        if cb is not None and not isinstance(cb, bool) and cb == 0: return a
        for x, y, cy in ((a, b, cb), (b, a, ca)):
            if cy is not None and x.op == '+':
                for i in (0, 1):
                    c2 = self.cval(x.args[i])
                    if c2 is not None and isnum(c2) and isnum(cy): return self.add(x.args[1-i], self.const(c2 + cy))
        if a.op == '*' and self._isneg(a, b): return self.const(0)
        if b.op == '*' and self._isneg(b, a): return self.const(0)
        return self._comm('+', a, b)
    def _isneg(self, m, x):
        return m.op == '*' and len(m.args) == 2 and any(self.cval(m.args[i]) == -1 and m.args[1-i] is x for i in (0, 1))
    def _comm(self, op, a, b):
        if a.id > b.id: a, b = b, a
        return self.mk(op, (a, b))
    def sub(self, a, b):
        if a is b and a.op not in ('mu',):
            return self.const(0)
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None and cb is not None:
            return self.const(ca - cb)
        if cb is not None and cb == 0: return a
        if cb is not None: return self.add(a, self.const(-cb))
        # (x + b) - b
        return self.add(a, self.neg(b))
    def neg(self, a):
        return self.mul(self.const(-1), a)
    def mul(self, a, b):
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None and cb is not None:
            return self.const(ca * cb)
        if ca is not None:
            if ca == 0: return self.const(0)
            if ca == 1 and ca is not True: return b
        if cb is not None:
            if cb == 0: return self.const(0)
            if cb == 1 and cb is not True: return a
        # fold nested constant factor
        if ca is not None and b.op == '*':
            for i in (0, 1):
                c2 = self.cval(b.args[i])
                if c2 is not None and not isinstance(c2, bool): return self.mul(self.const(ca * c2), b.args[1-i])
        if cb is not None and a.op == '*':
            for i in (0, 1):
                c2 = self.cval(a.args[i])
                if c2 is not None and not isinstance(c2, bool): return self.mul(self.const(cb * c2), a.args[1-i])
        if a is b:
            return self.pow(a, self.const(2))
        return self._comm('*', a, b)
    def div(self, a, b):
        ca, cb = self.cval(a), self.cval(b)
        if cb is not None and cb == 1: return a
        if ca is not None and cb is not None:
            if cb == 0:
                return self.const(float('nan')) if ca == 0 else self.const(INF if ca > 0 else -INF)
            try:
                return self.const(ca / cb)
            except Exception:
                pass
        if ca is not None and ca == 0: return self.const(0)
        if cb is not None and cb not in (0,) and abs(cb) != INF and cb == cb:
            return self.mul(a, self.const(1.0 / cb))
        return self.mk('/', (a, b))
    def pow(self, a, b):
        ca, cb = self.cval(a), self.cval(b)
        if cb is not None:
            if cb == 0: return self.const(1)
            if cb == 1: return a
            if cb == 0.5: return self.fn('sqrt', a)
            if ca is not None:
                try:
                    r = ca ** cb
                    if isnum(r): return self.const(r)
                except Exception:
                    pass
        return self.mk('pow', (a, b))
    def fn(self, name, *args):
        cs = [self.cval(a) for a in args]
        if all(c is not None for c in cs):
            f = FOLD.get(name)
            if f is not None:
                try:
                    r = f(*cs)
                    if isinstance(r, bool) or isnum(r): return self.const(r)
                except Exception:
                    pass
        if name == 'isinf': return self.or_(self.cmp('==', args[0], self.const(INF)), self.cmp('==', args[0], self.const(-INF)))
        if name == 'isfinite': return self.not_(self.or_(self.fn('isinf', args[0]), self.fn('isnan', args[0])))
        if name == 'abs' and args[0].op == 'fn' and args[0].attr in ('abs', 'sqrt', 'exp', 'cosh'): return args[0]
        return self.mk('fn', args, name)
    # -- logic
    def cmp(self, op, a, b):
        if op == '>': return self.cmp('<', b, a)
        if op == '>=': return self.cmp('<=', b, a)
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None and cb is not None:
            return self.const({'<': ca < cb, '<=': ca <= cb, '==': ca == cb, '!=': ca != cb}[op])
        if a.op == 'dim' and cb is not None or b.op == 'dim' and ca is not None:
            # symbolic axes stand for generic lengths (>= 3), never a specific small one
            c = cb if a.op == 'dim' else ca
            if c in (0, 1, 2):
                if op == '==': return self.const(False)
                if op == '!=': return self.const(True)
                if op in ('<', '<='): return self.const(b.op == 'dim')
        if op in ('==', '!='):
            if a is b and a.op in ('dim',): return self.const(op == '==')
            if a.id > b.id: a, b = b, a
        return self.mk('cmp', (a, b), op)
    def not_(self, a):
        if a.op == 'bool': return self.const(not a.attr)
        if a.op == 'not': return a.args[0]
        if a.op == 'cmp' and a.attr in ('==', '!='):
            return self.mk('cmp', a.args, '!=' if a.attr == '==' else '==')
        return self.mk('not', (a,))
    def and_(self, a, b):
        if a.op == 'bool': return b if a.attr else a
        if b.op == 'bool': return a if b.attr else b
        if a is b: return a
        if self.not_(a) is b: return self.const(False)
        return self._comm('and', a, b)
    def or_(self, a, b):
        if a.op == 'bool': return a if a.attr else b
        if b.op == 'bool': return b if b.attr else a
        if a is b: return a
        if self.not_(a) is b: return self.const(True)
        return self._comm('or', a, b)
    def truth(self, a):
        c = self.cval(a)
        if c is not None: return self.const(bool(c))
        if a.op in ('cmp', 'not', 'and', 'or', 'bool'): return a
        if a.op in ('input',) and a.attr and a.attr[0] == 'b': return a
        return a
    BOOL = ('cmp', 'and', 'or', 'not', 'bool', 'isnan', 'isinf', 'isfinite', 'exists')
    def sel(self, c, a, b):
        if c.op == 'bool': return a if c.attr else b
        if a is b: return a
        if c.op == 'not': return self.sel(c.args[0], b, a)
        ca, cb = self.cval(a), self.cval(b)
        # boolean-valued
        if isinstance(ca, bool) and isinstance(cb, bool):
            return c if ca else self.not_(c)
        if a.op in self.BOOL and b.op in self.BOOL:
            return self.or_(self.and_(c, a), self.and_(self.not_(c), b))
        # redundant nesting
        if a.op == 'sel' and a.args[0] is c: return self.sel(c, a.args[1], b)
        if b.op == 'sel' and b.args[0] is c: return self.sel(c, a, b.args[2])
        # accumulate-in-branch normal forms
        if a.op == '+':
            for i in (0, 1):
                if a.args[i] is b: return self.add(b, self.sel(c, a.args[1-i], self.const(0)))
        if b.op == '+':
            for i in (0, 1):
                if b.args[i] is a: return self.add(a, self.sel(c, self.const(0), b.args[1-i]))
        if a.op == 'upd' and a.args[0] is b:
            return self.upd(b, a.args[1], self.sel(c, a.args[2], self.at(b, a.args[1])))
        if b.op == 'upd' and b.args[0] is a:
            return self.upd(a, b.args[1], self.sel(c, self.at(a, b.args[1]), b.args[2]))
        if a.op == 'upd' and b.op == 'upd' and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
            return self.upd(a.args[0], a.args[1], self.sel(c, a.args[2], b.args[2]))
        return self.mk('sel', (c, a, b))
    # -- arrays
    def at(self, x, i):
        if x.op in ('const', 'bool'): return x
        if x.op == 'iota': return i
        if x.op == 'upd':
            if x.args[1] is i: return x.args[2]
            c1, c2 = self.cval(x.args[1]), self.cval(i)
            if c1 is not None and c2 is not None and c1 != c2 and (c1 < 0) == (c2 < 0):
                return self.at(x.args[0], i)
        return self.mk('at', (x, i))
    def upd(self, x, i, v):
        if x.op == 'upd' and x.args[1] is i: return self.upd(x.args[0], i, v)
        if v.op == 'at' and v.args[0] is x and v.args[1] is i: return x
        return self.mk('upd', (x, i, v))
    # -- traversal helpers
    def contains(self, root, target):
        seen = set(); st = [root]
        while st:
            n = st.pop()
            if n is target: return True
            if n.id in seen: continue
            seen.add(n.id); st.extend(n.args)
        return False
    def reach(self, roots):
        seen = {}; st = list(roots)
        while st:
            n = st.pop()
            if n.id in seen: continue
            seen[n.id] = n; st.extend(n.args)
        return seen
    def rebuild(self, n, args):
        """same operator, new arguments, with simplification"""
        op = n.op
        if op == '+': return self.add(*args)
        if op == '*': return self.mul(*args)
        if op == '/': return self.div(*args)
        if op == 'pow': return self.pow(*args)
        if op == 'fn': return self.fn(n.attr, *args)
        if op == 'cmp': return self.cmp(n.attr, *args)
        if op == 'not': return self.not_(*args)
        if op == 'and': return self.and_(*args)
        if op == 'or': return self.or_(*args)
        if op == 'sel': return self.sel(*args)
        if op == 'at': return self.at(*args)
        if op == 'upd': return self.upd(*args)
        return self.mk(op, args, n.attr)
    def subst(self, root, f, memo=None):
        """bottom-up rebuild; f(node)->replacement node or None (None: descend)"""
        memo = {} if memo is None else memo
        def go(n):
            r = memo.get(n.id)
            if r is not None: return r
            r = f(n)
            if r is None:
                if n.op == 'mu' or not n.args:
                    r = n
                else:
                    na = [go(a) for a in n.args]
                    if all(x is y for x, y in zip(na, n.args)):
                        r = n
                    else:
                        old = self.curloc
                        self.curloc = n.loc
                        r = self.rebuild(n, na)
                        self.curloc = old
            memo[n.id] = r
            return r
        return go(root)

FOLD = {
    'sqrt': lambda x: math.sqrt(x) if x >= 0 else float('nan'),
    'sin': lambda x: _clean(math.sin(x)), 'cos': lambda x: _clean(math.cos(x)), 'tan': math.tan,
    'arctan': math.atan, 'arccos': math.acos, 'arcsin': math.asin, 'exp': math.exp, 'log': math.log,
    'cosh': math.cosh, 'sinh': math.sinh, 'tanh': math.tanh, 'abs': abs, 'floor': lambda x: int(math.floor(x)),
    'ceil': lambda x: int(math.ceil(x)), 'arctan2': math.atan2, 'sign': lambda x: (x > 0) - (x < 0),
    'mod': lambda a, b: a % b, 'floordiv': lambda a, b: a // b, 'max': max, 'min': min,
    'int': int, 'isnan': lambda x: x != x, 'isinf': lambda x: abs(x) == INF, 'round': lambda x: round(x),
    'isfinite': lambda x: not (x != x or abs(x) == INF),
}
def _clean(v):
    return 0 if abs(v) < 1e-15 else v

def show(g, n, depth=4):
    if n.op == 'const' or n.op == 'bool': return repr(n.attr)
    if n.op == 'input': return str(n.attr[-1] if isinstance(n.attr, tuple) else n.attr)
    if depth == 0: return '…'
    a = [show(g, x, depth-1) for x in n.args]
    if n.op in ('+', '*', '/', 'pow', 'and', 'or') and len(a) == 2: return '(%s %s %s)' % (a[0], '**' if n.op == 'pow' else n.op, a[1])
    if n.op == 'cmp': return '(%s %s %s)' % (a[0], n.attr, a[1])
    if n.op == 'fn': return '%s(%s)' % (n.attr, ', '.join(a))
    if n.op == 'mu': return 'mu%d' % n.attr[1]
    return '%s%s(%s)' % (n.op, '' if n.attr is None else '<%s>' % (n.attr,), ', '.join(a))
