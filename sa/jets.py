"""Leading behaviour of an expression as a parameter tends to zero from above: truncated power series
(rational exponents) whose coefficients are expressions of the value graph free of the parameter."""
from fractions import Fraction as Q
from math import factorial

class Lost(Exception):
    """the expansion cannot be carried out (operation without a known expansion, unknown sign, ...)"""

class Open(Exception):
    """a comparison that the limit does not decide"""

def limits(s, at, n, order=4, most=16, power=0, roots=()):
    """[(assumed comparisons, coefficient of par^power in n)], nothing of n growing faster"""
    out = []; st = [{}]
    while st:
        a = st.pop()
        if len(a) > 4 or len(out) > most: raise Lost('too many cases')
        j = Jets(s, at, order, a); j.roots = roots
        try:
            v = j.value(n)
            if power: v = Series({e - power: x for e, x in v.t.items()}, v.prec - power if v.prec < INF else INF)
            out.append((a, j.limit0(v)))
        except Open as x:
            c = x.args[0]
            st += [{**a, c.id: True}, {**a, c.id: False}]
    return out

class Series(object):
    __slots__ = ('t', 'prec')
    def __init__(self, t, prec): self.t = t; self.prec = prec     # exponent -> node; O(par^prec)

INF = Q(10 ** 6)
SLOW = Q(1, 1000)

class Jets(object):
    def __init__(self, s, at, order=4, assume=None):
        """s: session; at: {input name: {exponent: node}}, what the inputs become"""
        self.assume = assume or {}
        self.s = s; self.g = s.g; self.nf = s.nf; self.at = at; self.order = Q(order); self.memo = {}; self.zmemo = {}
    def iszero(self, n):
        c = self.g.cval(n)
        if c is not None: return c == 0
        r = self.zmemo.get(n.id)
        if r is None:
            r = self.zmemo[n.id] = self.nf.iszero(self.nf.nf(n)) is True
        return r
    def clean(self, t, prec):
        return Series({e: n for e, n in t.items() if e < prec and not self.iszero(n)}, prec)
    def const(self, n): return self.clean({Q(0): n}, INF)
    def lead(self, a):
        if not a.t:
            if a.prec >= INF: raise ZeroDivisionError()
            raise Lost('leading term beyond the expansion')
        v = min(a.t); return v, a.t[v]
    def add(self, a, b):
        t = dict(a.t)
        for e, n in b.t.items(): t[e] = self.g.add(t[e], n) if e in t else n
        return self.clean(t, min(a.prec, b.prec))
    def mul(self, a, b):
        if not a.t and a.prec >= INF or not b.t and b.prec >= INF: return Series({}, INF)
        va = min(a.t) if a.t else a.prec; vb = min(b.t) if b.t else b.prec
        prec = min(va + b.prec, vb + a.prec, va + vb + self.order if INF not in (va, vb) else INF)
        if a.prec >= INF and b.prec >= INF and len(a.t) * len(b.t) == 1: prec = INF
        t = {}
        for e, x in a.t.items():
            for f, y in b.t.items():
                if e + f >= prec: continue
                p = self.g.mul(x, y)
                t[e + f] = self.g.add(t[e + f], p) if e + f in t else p
        return self.clean(t, prec)
    def scale(self, a, c): return self.mul(a, self.const(self.g.const(c)))
    def split(self, a):
        """a = lead * (1 + u)"""
        v, c = self.lead(a)
        g = self.g
        u = self.clean({e - v: g.div(n, c) for e, n in a.t.items() if e != v}, min(a.prec - v, INF) if a.prec < INF else INF)
        return v, c, u
    def compose(self, coef, u):
        """sum coef[k] u^k, u without constant term"""
        if u.t and min(u.t) <= 0: raise Lost('composition')
        r = self.const(coef[0]) if not isinstance(coef[0], (int, float)) else self.const(self.g.const(coef[0]))
        p = None
        if not u.t: return Series(r.t, min(r.prec, u.prec))
        step = min(u.t)
        for k in range(1, len(coef)):
            p = u if p is None else self.mul(p, u)
            c = coef[k] if not isinstance(coef[k], (int, float)) else self.g.const(coef[k])
            r = self.add(r, self.mul(p, self.const(c)))
            if step * (k + 1) >= self.order: break
        n = len(coef)
        prec = min(r.prec, step * n, max(self.order, step))
        return self.clean(r.t, prec)
    def power(self, a, p):
        """a^p for a number p"""
        g = self.g
        if p == int(p) and 0 <= p <= 6:
            r = self.const(g.const(1))
            for _ in range(int(p)): r = self.mul(r, a)
            return r
        v, c, u = self.split(a)
        coef = [1.0]
        n = int(self.order / min(u.t)) + 2 if u.t else 1
        for k in range(1, n): coef.append(coef[-1] * (p - k + 1) / k)
        r = self.compose(coef, u)
        fp = Q(p).limit_denominator(12)
        if abs(p) == 0.5 and self.roots:
            q = self.root(c)
            if q is not None: return self.mul(Series({v * fp: q if p > 0 else g.div(g.const(1.0), q)}, INF), r)
        return self.mul(Series({v * fp: g.pow(c, g.const(p)) if p != 0.5 else g.fn('sqrt', c)}, INF), r)
    def value(self, n):
        r = self.memo.get(n.id)
        if r is None: r = self.memo[n.id] = self._value(n)
        return r
    def sign(self, n):
        """sign of a coefficient"""
        c = self.g.cval(n)
        if c is not None: return (c > 0) - (c < 0)
        p = self.nf.nf(n)
        sg = self.s.split.facts.sign(p) if getattr(self.s.split, 'facts', None) else None
        if sg is None and self.nf.nonneg_poly(p): sg = 1
        if sg is None and self.nf.nonneg_poly(self.nf.scale(p, -1.0)): sg = -1
        return sg
    roots = ()      # nonnegative quantities whose squares are recognised under a square root
    def root(self, c):
        for q in self.roots:
            if self.iszero(self.g.sub(c, self.g.mul(q, q))): return q
    def poch(self, k):
        r = 1.0
        for i in range(k): r *= (0.5 + i) / (i + 1)
        return r
    def free(self, n):
        return not any(x.op == 'input' and x.attr[1] in self.at for x in self.g.reach([n]).values())
    def limit0(self, a):
        """the constant term, when nothing grows"""
        if any(e < 0 for e in a.t): raise Lost('unbounded')
        if a.prec <= 0: raise Lost('precision')
        return a.t.get(Q(0), self.g.const(0))
    def nothing(self, n):
        """exactly zero, whatever the parameter"""
        try: v = self.value(n)
        except (Lost, ZeroDivisionError): return False
        return not v.t and v.prec >= INF
    def _value(self, n):
        g = self.g
        if n.op == 'input':
            d = self.at.get(n.attr[1])
            if d is None: return self.const(n)
            return self.clean(dict(d), INF)
        if not n.args or self.free(n): return self.const(n)
        if n.op == '+': return self.add(self.value(n.args[0]), self.value(n.args[1]))
        if n.op == '*':
            a, b = n.args
            if self.nothing(b): return Series({}, INF)
            return self.mul(self.value(a), self.value(b))
        if n.op == '/':
            return self.mul(self.value(n.args[0]), self.power(self.value(n.args[1]), -1))
        if n.op == 'pow':
            p = g.cval(n.args[1])
            if p is None: raise Lost('variable exponent')
            return self.power(self.value(n.args[0]), float(p) if p != int(p) else int(p))
        if n.op == 'sel':
            b = self.truth(n.args[0])
            return self.value(n.args[1 if b else 2])
        if n.op == 'fn': return self.fn(n)
        raise Lost('operation %s' % n.op)
    def truth(self, c):
        if c.op == 'bool': return c.attr
        if c.op == 'not': return not self.truth(c.args[0])
        if c.op == 'and': return all([self.truth(x) for x in c.args])
        if c.op == 'or': return any([self.truth(x) for x in c.args])
        if c.op == 'cmp':
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                if self.g.cval(y) in (float('inf'), -float('inf')):
                    self.value(x)               # raises when it is itself unbounded
                    return {'==': False, '!=': True}.get(c.attr, (self.g.cval(y) > 0) == (x is a))
            u = self.tolerance(c)
            if u is not None: return u
            d = self.add(self.value(a), self.scale(self.value(b), -1))
            if not d.t and d.prec >= INF: return c.attr in ('==', '<=')
            v, k = self.lead(d)
            if c.attr == '==': return False
            if c.attr == '!=': return True
            sg = self.sign(k)
            if sg in (None, 0):
                if c.id in self.assume: return self.assume[c.id]
                raise Open(c)
            return sg < 0
        if c.op == 'fn' and c.attr == 'isnan': self.value(c.args[0]); return False      # (raises where it has no value)
        raise Lost('condition %s' % c.op)
    def tolerance(self, c):
        """comparison with a small fixed tolerance: its value away from the special point"""
        d = self.s.split.canon([c])[0]; neg = False
        if d.op == 'not': neg = True; d = d.args[0]
        if d.op == 'bool': return d.attr != neg
        if d.op != 'cond' or d.attr[0] == '==': return None
        v = self.nf.usual(d.attr[0], self.nf.condpoly(d.attr))
        return None if v is None else v != neg
    def taylor(self, a, ds):
        """f(c+u) from the derivatives ds[k] at c"""
        c = self.limit0(a)
        u = self.clean({e: x for e, x in a.t.items() if e != 0}, a.prec)
        ds = ds(c)
        return self.compose([self.g.mul(d, self.g.const(1.0 / factorial(k))) for k, d in enumerate(ds)], u)
    def fn(self, n):
        g = self.g; f = n.attr
        if f in ('sin', 'cos') and n.args[0].op == 'fn' and n.args[0].attr == 'arctan2':
            y, x = [self.value(v) for v in n.args[0].args]
            return self.mul(y if f == 'sin' else x, self.power(self.add(self.mul(y, y), self.mul(x, x)), -0.5))
        A = [self.value(x) for x in n.args]
        a = A[0]; c0 = g.const
        if f == 'sqrt': return self.power(a, 0.5)
        if f == 'abs':
            if not a.t: return a
            v, k = self.lead(a); s = self.sign(k)
            if s is None: raise Lost('sign')
            return self.scale(a, 1 if s >= 0 else -1)
        if f == 'sign':
            if not a.t and a.prec >= INF: return a
            v, k = self.lead(a); s = self.sign(k)
            if s is None: raise Lost('sign')
            return self.const(c0(float(s))) if s else Series({}, INF)
        if f in ('sin', 'cos'):
            def ds(c):
                s, k = g.fn('sin', c), g.fn('cos', c)
                cyc = [s, k, g.neg(s), g.neg(k)] if f == 'sin' else [k, g.neg(s), g.neg(k), s]
                return [cyc[i % 4] for i in range(7)]
            return self.taylor(a, ds)
        if f == 'exp':
            if any(e < 0 for e in a.t):
                v, k = self.lead(a)
                if self.sign(k) == -1: return Series({}, INF)     # beats every power
                raise Lost('exponential growth ' + self.nf.show(self.nf.nf(k),5))
            return self.taylor(a, lambda c: [g.fn('exp', c)] * 7)
        if f == 'cosh': return self.taylor(a, lambda c: [g.fn('cosh' if i % 2 == 0 else 'sinh', c) for i in range(7)])
        if f in ('ellipk', 'ellipe'):
            c = self.limit0(a)
            if self.iszero(c):
                import math
                h = math.pi / 2; co = []
                for k in range(6):
                    b = math.prod((2 * i - 1) / (2 * i) for i in range(1, k + 1)) ** 2
                    co.append(h * b if f == 'ellipk' else h * b / (1 - 2 * k))
                return self.compose(co, self.clean(a.t, a.prec))
            d = self.add(a, self.const(c0(-1.0)))
            if self.iszero(self.limit0(d)):
                # logarithmic: K grows slower than any power, E - 1 is of the order of (1-m) log(1-m)
                v = self.lead(d)[0] if d.t else d.prec
                if v >= INF: raise Lost('elliptic integral at its pole')
                return Series({}, -SLOW) if f == 'ellipk' else Series({Q(0): c0(1.0)}, v - SLOW)
            e = [x for x in a.t if x > 0]
            return Series({Q(0): g.fn(f, c)}, min([a.prec] + e))
        if f == 'ellippi':
            c = [self.limit0(x) for x in A]
            pr = min([x.prec for x in A] + [e for x in A for e in x.t if e > 0] + [INF])
            if all(self.iszero(x) for x in c):
                # sum over i, k of n^i m^k (1/2)_k / k! (1/2)_{i+k} / (i+k)! pi/2
                w = lambda k: self.poch(k)
                r = Series({}, INF)
                st = min([e for x in A for e in x.t] or [Q(1)])
                N = int(self.order / st) + 1; pw = [[self.const(c0(1.0))], [self.const(c0(1.0))]]
                for x, l in zip(A, pw):
                    for _ in range(N): l.append(self.mul(l[-1], x))
                for i in range(N + 1):
                    for k in range(N + 1 - i):
                        r = self.add(r, self.scale(self.mul(pw[0][i], pw[1][k]), w(k) * w(i + k) * 1.5707963267948966))
                return Series(r.t, min(r.prec, st * (N + 1), max(self.order, st)))
            d = self.add(A[0], self.const(c0(-1.0)))
            if self.iszero(c[1]) and not self.iszero(self.limit0(d)):
                h = self.scale(self.power(self.scale(d, -1), -0.5), 1.5707963267948966)
                return Series({e: x for e, x in h.t.items() if e <= 0}, min(h.prec, pr))
            if self.iszero(self.limit0(d)) and d.t:
                # pi/2 (1-n)^(-1/2) (1-m)^(-1/2) + O(1) as n tends to 1
                h = self.mul(self.power(self.scale(d, -1), -0.5), self.const(g.mul(c0(1.5707963267948966), g.pow(g.sub(c0(1.0), c[1]), c0(-0.5)))))
                return Series({e: x for e, x in h.t.items() if e < 0}, min(h.prec, Q(0)))
            return Series({Q(0): g.fn(f, *c)}, pr)
        if f in ('max', 'min'):
            d = self.add(A[0], self.scale(A[1], -1))
            v, k = self.lead(d); s = self.sign(k)
            if s is None: raise Lost('sign')
            return A[0] if (s > 0) == (f == 'max') else A[1]
        if f == 'arctan2':
            # scale invariant: divide by the common power of the parameter
            v = min(min(x.t) for x in A if x.t) if any(x.t for x in A) else Q(0)
            A = [Series({e - v: k for e, k in x.t.items()}, x.prec - v if x.prec < INF else INF) for x in A]
        c = [self.limit0(x) for x in A]
        return Series({Q(0): g.fn(f, *c)}, min([x.prec for x in A] + [e for x in A for e in x.t if e > 0] + [INF]))
