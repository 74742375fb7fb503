"""Dimensional analysis of the value graph: exponents of (length, time)."""
from fractions import Fraction
from .dom import Domain, evaluate

ANY = 'any'; TOP = 'top'; BOOL = 'bool'
D0 = (Fraction(0), Fraction(0))
DIMLESS = {'exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'sinh', 'cosh', 'tanh', 'arcsin', 'arccos', 'arctan', 'arcsinh', 'arccosh', 'arctanh', 'ellipk', 'ellipe', 'ellipkm1', 'ellippi', 'gamma', 'erf'}
ANGLE = {'sin', 'cos', 'tan', 'sinc', 'deg2rad', 'rad2deg', 'radians', 'degrees'}
SAME = {'abs', 'max', 'min', 'hypot', 'floor', 'ceil', 'round', 'real', 'nan_to_num', 'clip', 'mod', 'fmod', 'float', 'int'}

def show(u):
    if u in (ANY, TOP, BOOL): return u
    if u == D0: return 'dimensionless'
    p = []
    for s, e in (('m', u[0]), ('s', u[1])):
        if e: p.append(s if e == 1 else '%s^%s' % (s, e))
    return '·'.join(p)

class Units(Domain):
    def __init__(self, g, inputs, tol=1e-4, ksig=None):
        """ksig: {opaque function name: ({param: dims}, [dims of output k])}"""
        self.g = g; self.inputs = inputs; self.tol = tol; self.ksig = ksig or {}
        self.issues = {}; self.unknown = {}
    def begin(self): self.issues = {}; self.unknown = {}
    def bad(self, n, kind, a, b=None):
        self.issues.setdefault((n.loc, kind, show(a), show(b) if b is not None else ''), n)
    def join2(self, n, a, b, kind):
        if a is None: return b
        if b is None: return a
        if a == ANY: return b
        if b == ANY: return a
        if a == TOP or b == TOP: return TOP
        if a == BOOL and b == BOOL: return BOOL
        if a == BOOL: a = D0
        if b == BOOL: b = D0
        if a != b:
            self.bad(n, kind, *sorted([a, b], key=str)); return a
        return a
    def join(self, n, a, b): return self.join2(n, a, b, 'a variable changes dimension from one loop pass to the next')
    def widen(self, n, a, old): return old if old != ANY else a
    def top(self, n, why=None):
        self.unknown.setdefault((n.loc, why or n.op), n); return TOP
    def need0(self, n, a, kind):
        if a in (ANY, TOP, BOOL, None) or a == D0: return
        self.bad(n, kind, a)
    def transfer(self, n, av):
        op = n.op; g = self.g
        if op == 'const':
            v = g.cval(n)
            if v is None or v != v or v == 0 or abs(v) == float('inf'): return ANY
            return D0
        if op in ('bool', 'cmp', 'not', 'and', 'or', 'exists', 'keyeq', 'isinst', 'is'):
            if op == 'cmp' and not any(a is None for a in av):
                small = any(g.cval(x) is not None and not isinstance(g.cval(x), bool) and abs(g.cval(x)) <= self.tol for x in n.args)
                if not small: self.join2(n, av[0], av[1], 'compares quantities of different dimension')
            return BOOL
        if op == 'input':
            u = self.inputs.get(n.attr[1] if isinstance(n.attr, tuple) else n.attr)
            if u is None: return self.top(n, 'input ' + str(n.attr))
            return ANY if u == ANY else (Fraction(u[0]), Fraction(u[1]))
        if op == 'uninit': return ANY
        if op in ('iota', 'dim', 'loopidx', 'bound', 'argmin', 'arangelen', 'ndim'): return D0
        if any(a is None for a in av):
            # operand not evaluated yet (loop): only sel/+ can give something useful
            ks = [a for a in av if a is not None]
            if op == 'sel': return self.join2(n, av[1], av[2], 'selects between quantities of different dimension')
            if op in ('+', 'upd', 'updsl', 'updf'): return ks[0] if ks else None
            return None
        if op == '+': return self.join2(n, av[0], av[1], 'adds or subtracts quantities of different dimension')
        if op in ('*', '/'):
            a, b = [D0 if x == BOOL else x for x in av]
            if a == TOP or b == TOP: return TOP
            if op == '*':
                if a == ANY or b == ANY: return ANY
                return (a[0] + b[0], a[1] + b[1])
            if a == ANY or b == ANY: return ANY
            return (a[0] - b[0], a[1] - b[1])
        if op == 'pow':
            a = av[0]
            c = g.cval(n.args[1])
            if c is None:
                self.need0(n, av[1], 'exponent carries a dimension')
                self.need0(n, a, 'power with variable exponent of a quantity with dimension')
                return D0
            if a in (ANY, TOP): return a
            if a == BOOL: return D0
            f = Fraction(c).limit_denominator(60)
            return (a[0] * f, a[1] * f)
        if op == 'fn':
            f = n.attr
            if f in ('sqrt', 'cbrt'):
                a = av[0]
                if a in (ANY, TOP): return a
                h = Fraction(1, 2 if f == 'sqrt' else 3)
                return D0 if a == BOOL else (a[0] * h, a[1] * h)
            if f in DIMLESS or f in ANGLE:
                for a in av: self.need0(n, a, '%s of a quantity with dimension' % f)
                return D0
            if f == 'arctan2':
                self.join2(n, av[0], av[1], 'arctan2 of quantities of different dimension'); return D0
            if f in ('sign', 'isnan', 'isinf', 'isfinite'): return D0
            if f in SAME:
                u = av[0]
                for a in av[1:]: u = self.join2(n, u, a, '%s of quantities of different dimension' % f)
                return u
            if f == 'floordiv': return self.transfer_div(av)
            return self.top(n, 'function ' + f)
        if op == 'sel': return self.join2(n, av[1], av[2], 'selects between quantities of different dimension')
        if op in ('at', 'slice', 'gather', 'rev', 'cumsum', 'last', 'ravel', 'sort', 'outer0'): return av[0]
        if op == 'sum': return av[0]
        if op in ('upd', ): return self.join2(n, av[0], av[2], 'stores a quantity of another dimension in an array')
        if op == 'updsl': return self.join2(n, av[0], av[-1], 'stores a quantity of another dimension in an array')
        if op == 'concat':
            u = av[0]
            for a in av[1:]: u = self.join2(n, u, a, 'concatenates quantities of different dimension')
            return u
        if op == 'cumtrapz': return self.mulu(av[0], av[1])
        if op == 'red':
            nm = n.attr[0]
            if nm == 'trapz': return self.mulu(av[0], av[1]) if len(av) > 1 else av[0]
            if nm in ('sum', 'mean', 'max', 'min', 'amax', 'amin', 'nansum', 'std', 'median', 'any', 'all'): return av[0]
            return self.top(n, 'reduction ' + nm)
        if op == 'linspace': return self.join2(n, av[0], av[1], 'linspace bounds of different dimension')
        if op in ('kout', 'sout'):
            name = n.attr[0]; k = n.attr[1]; params = n.attr[3] if op == 'kout' else n.attr[2]
            sig = self.ksig.get(name)
            if sig is None: return self.top(n, 'call of ' + name)
            for p, a in zip(params, av):
                x = sig[0].get(p)
                if x is None or a in (ANY, TOP, BOOL) or a is None: continue
                x = (Fraction(x[0]), Fraction(x[1]))
                if a != x: self.bad(n, 'argument %s of %s has another dimension' % (p, name), a, x)
            u = sig[1](k)
            return self.top(n, 'result %s of %s' % (k, name)) if u is None else (Fraction(u[0]), Fraction(u[1]))
        if op == 'pack':
            u = av[0]
            for a in av[1:]: u = self.join2(n, u, a, 'array elements of different dimension')
            return u
        if op == 'interp':
            self.join2(n, av[0], av[1], 'interpolates at a quantity of another dimension'); return av[2]
        if op == 'outer': return self.mulu(av[0], av[1])
        return self.top(n)
    def mulu(self, a, b):
        a = D0 if a == BOOL else a; b = D0 if b == BOOL else b
        if TOP in (a, b): return TOP
        if ANY in (a, b): return ANY
        return (a[0] + b[0], a[1] + b[1])
    def transfer_div(self, av):
        a, b = av
        if TOP in (a, b): return TOP
        if ANY in (a, b): return ANY
        return (a[0] - b[0], a[1] - b[1])
