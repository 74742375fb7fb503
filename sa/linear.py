"""Linearity domain: ('Z',) zero; ('C',) independent of the strengths; ('L', atoms) homogeneous of degree
one in the strengths; ('T', why, unknown?, loc) anything else."""
from .dom import Domain, evaluate

Z = ('Z',); C = ('C',)

class Linear(Domain):
    def __init__(self, g, names):
        self.g = g; self.names = names
    def begin(self): pass
    def T(self, n, why, unknown=False): return ('T', why, unknown, n.loc)
    def join(self, n, a, b):
        if a is None: return b
        if b is None: return a
        return self.sum(n, a, b)
    def widen(self, n, a, old): return a if a[0] == 'T' else self.T(n, 'loop-carried value', True)
    def sum(self, n, a, b, what='adds a quantity proportional to the strength to one that is not'):
        for x in (a, b):
            if x[0] == 'T': return x
        if a[0] == 'Z': return b
        if b[0] == 'Z': return a
        if a[0] == b[0] == 'C': return C
        if a[0] == b[0] == 'L': return ('L', a[1] | b[1])
        return self.T(n, what)
    def isstr(self, n):
        while n.op in ('at', 'gather') and n.args: n = n.args[0]
        return n.op == 'input' and (n.attr[1] if isinstance(n.attr, tuple) else n.attr).split('[')[0] in self.names
    def guard(self, c, val):
        """c is a test of one strength against zero: (atom node, truth value for which it is zero)"""
        if c.op == 'not':
            r = self.guard(c.args[0], val)
            return None if r is None else (r[0], not r[1])
        if c.op == 'exists':
            r = self.guard(c.args[0], val)
            return None
        if c.op == 'cmp':
            a, b = c.args
            for x, y, sw in ((a, b, False), (b, a, True)):
                if self.g.cval(y) != 0 or self.g.cval(y) is None: continue
                inner = x
                absd = False
                if x.op == 'fn' and x.attr == 'abs': inner = x.args[0]; absd = True
                if x.op == 'pow' and self.g.cval(x.args[1]) == 2: inner = x.args[0]; absd = True
                v = val(inner)
                if v is None or v[0] != 'L' or len(v[1]) != 1 or not self.isstr(inner): continue
                if c.attr == '==': return (inner, True)
                if c.attr == '!=': return (inner, False)
                if absd:
                    # 0 < |x|  /  |x| <= 0
                    if c.attr == '<' and sw: return (inner, False)
                    if c.attr == '<=' and not sw: return (inner, True)
        return None
    def transfer(self, n, av):
        op = n.op; g = self.g
        if op in ('const', 'bool'):
            v = g.cval(n)
            return Z if v == 0 and not isinstance(v, bool) else C
        if op == 'input':
            nm = n.attr[1] if isinstance(n.attr, tuple) else n.attr
            return ('L', frozenset([nm])) if nm.split('[')[0] in self.names else C
        if op == 'uninit': return Z
        if not n.args: return C
        if op == 'mu': return None
        if any(a is None for a in av):
            ks = [a for a in av if a is not None]
            if op in ('+', 'upd') and ks: return ks[0]
            if op == 'sel': return av[1] if av[1] is not None else av[2]
            return None
        for a in av:
            if a[0] == 'T' and op not in ('sel',): return a
            if a[0] == 'A' and op not in ('cmp', 'at'): return self.T(n, 'uses the magnitude of the strength')
        lin = [a for a in av if a[0] in 'LA']
        if op == '+': return self.sum(n, av[0], av[1])
        if op == '*':
            if Z in av: return Z
            if len(lin) == 2: return self.T(n, 'product of two quantities proportional to the strength')
            return lin[0] if lin else C
        if op == '/':
            if av[0][0] == 'Z': return Z
            if av[1][0] == 'L': return self.T(n, 'divides by a quantity proportional to the strength')
            return av[0]
        if op == 'cmp' or op in ('and', 'or', 'not', 'exists', 'keyeq', 'isinst', 'is'):
            if op == 'cmp' and lin: self.val.setdefault(n.id, None)
            return ('L', frozenset(['?'])) if lin else C
        if op == 'sel':
            c, a, b = av
            for x in (a, b):
                if x[0] == 'T': return x
            if c[0] == 'T': return c
            if c[0] == 'L':
                gd = self.guard(n.args[0], lambda x: self.vals.get(x.id))
                if gd is None: return self.T(n, 'chooses between values on the strength itself')
                atom = self.vals[gd[0].id][1]
                zero_branch, other = (a, b) if gd[1] else (b, a)
                if other[0] == 'Z' and zero_branch[0] in ('Z',): return Z
                # other must vanish with the tested strength alone
                same = n.args[1] is n.args[2]
                if zero_branch[0] == 'Z' and other[0] == 'L':
                    if other[1] <= atom: return other
                    return self.T(n, 'drops the contribution of other strengths when one of them is zero')
                if zero_branch[0] == 'C' and other[0] == 'C': return C if same else self.T(n, 'chooses between values on the strength itself')
                if zero_branch[0] == 'L' and other[0] == 'L' and (zero_branch[1] | other[1]) <= atom: return other
                if zero_branch[0] == 'L' and other[0] == 'Z' and zero_branch[1] <= atom: return Z
                return self.T(n, 'chooses between values on the strength itself')
            return self.branch(n, a, b)
        if op == 'pow':
            if lin:
                if self.g.cval(n.args[1]) == 2: return ('A', av[0][1])
                return self.T(n, 'raises a quantity proportional to the strength to a power')
            return av[0] if av[0][0] == 'Z' else C
        if op == 'fn':
            if not lin:
                if n.attr in ('sin', 'tan', 'sqrt', 'abs', 'arctan', 'arcsin', 'sinh', 'tanh') and av[0][0] == 'Z': return Z
                return C
            if n.attr in ('real', 'float'): return av[0]
            if n.attr == 'abs': return ('A', av[0][1])
            return self.T(n, 'applies %s to a quantity proportional to the strength' % n.attr)
        if op in ('at', 'slice', 'gather', 'rev', 'cumsum', 'last', 'ravel'):
            if any(a[0] == 'L' for a in av[1:]): return self.T(n, 'indexes with the strength')
            return av[0]
        if op == 'sum': return av[0]
        if op in ('upd', 'updsl'):
            if op == 'upd' and av[1][0] == 'L': return self.T(n, 'indexes with the strength')
            return self.branch(n, av[0], av[-1])
        if op == 'concat':
            r = av[0]
            for a in av[1:]: r = self.branch(n, r, a)
            return r
        if op == 'red':
            nm = n.attr[0]
            if any(a[0] == 'L' for a in av[1:]): return self.T(n, 'integrates over the strength')
            if nm in ('trapz', 'sum', 'mean'): return av[0]
            return self.T(n, 'takes the %s of a quantity proportional to the strength' % nm) if lin else C
        if op == 'cumtrapz':
            return self.T(n, 'integrates over the strength') if av[1][0] == 'L' else av[0]
        if not lin: return C
        return self.T(n, 'operation ' + op, True)
    def branch(self, n, a, b):
        if a[0] == 'Z': return b
        if b[0] == 'Z': return a
        if a[0] == 'L' and b[0] == 'L': return ('L', a[1] | b[1])
        if a[0] == 'C' and b[0] == 'C': return C
        if a[0] == 'T': return a
        if b[0] == 'T': return b
        return self.T(n, 'one case is proportional to the strength, another is not')

from . import dom as _dom
def evaluate(d, roots, maxit=12):
    # the guard rule looks at the values of sub-expressions of a condition
    seq, mus = _dom.order(roots)
    d.vals = {}; d.val = {}
    for n in mus: d.vals[n.id] = None
    for k in range(maxit):
        ch = False
        for n in seq:
            if n.op == 'mu':
                v = d.vals.get(n.args[0].id)
                if len(n.args) > 1 and d.vals.get(n.args[1].id) is not None: v = d.join(n, v, d.vals[n.args[1].id])
            else: v = d.transfer(n, [d.vals.get(a.id) for a in n.args])
            if d.vals.get(n.id, '#') != v: d.vals[n.id] = v; ch = True
        if not ch: break
    return d.vals
