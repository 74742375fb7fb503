"""Exact partial derivatives of value-graph nodes with respect to an input."""

class NoDerivative(Exception): pass

class Diff(object):
    def __init__(self, s):
        self.s = s; self.g = s.g; self.memo = {}; self.dep = {}
    def __call__(self, n, x):
        """derivative of n with respect to the input named x"""
        return self.d(n, self.s.inp(x))
    def depends(self, n, x):
        k = (n.id, x.id)
        r = self.dep.get(k)
        if r is None: r = self.dep[k] = self.g.contains(n, x)
        return r
    def d(self, n, x):
        k = (n.id, x.id)
        r = self.memo.get(k)
        if r is None:
            old = self.g.curloc; self.g.curloc = n.loc
            r = self.memo[k] = self._d(n, x)
            self.g.curloc = old
        return r
    def _d(self, n, x):
        g = self.g; c = g.const
        if n is x: return c(1)
        if not self.depends(n, x): return c(0)
        a = n.args
        if n.op == '+': return g.add(self.d(a[0], x), self.d(a[1], x))
        if n.op == '*': return g.add(g.mul(self.d(a[0], x), a[1]), g.mul(a[0], self.d(a[1], x)))
        if n.op == '/':
            da, db = self.d(a[0], x), self.d(a[1], x)
            r = g.div(da, a[1])
            if g.cval(db) == 0: return r
            return g.sub(r, g.div(g.mul(a[0], db), g.mul(a[1], a[1])))
        if n.op == 'pow':
            p = g.cval(a[1])
            if p is None: raise NoDerivative('variable exponent')
            return g.mul(g.mul(c(p), g.pow(a[0], c(p - 1))), self.d(a[0], x))
        if n.op == 'sel': return g.sel(a[0], self.d(a[1], x), self.d(a[2], x))
        if n.op in ('sum', 'red'):
            if any(self.depends(y, x) for y in a[1:]): raise NoDerivative('%s over moving points' % n.op)
            if n.op == 'red' and n.attr[0] not in ('trapz', 'sum'): raise NoDerivative('reduction %s' % (n.attr,))
            return g.mk(n.op, (self.d(a[0], x),) + tuple(a[1:]), n.attr)
        if n.op == 'fn': return self.fn(n, x)
        raise NoDerivative('operation %s' % n.op)
    def fn(self, n, x):
        g = self.g; c = g.const; f = n.attr; a = n.args[0]; m = g.mul; q = g.div
        if f in ('arctan2', 'ellippi', 'max', 'min'):
            D = [self.d(y, x) for y in n.args]
            if f == 'arctan2':
                y, z = n.args
                return q(g.sub(m(D[0], z), m(y, D[1])), g.add(m(y, y), m(z, z)))
            if f in ('max', 'min'):
                return g.sel(g.cmp('<' if f == 'min' else '>', n.args[0], n.args[1]), D[0], D[1])
            nn, mm = n.args
            E = g.fn('ellipe', mm); K = g.fn('ellipk', mm)
            mn = g.sub(mm, nn); n1 = g.sub(nn, c(1)); m1 = g.sub(mm, c(1))
            dn = q(g.add(g.add(E, q(m(mn, K), nn)), q(m(g.sub(m(nn, nn), mm), n), nn)), m(c(2), m(mn, n1)))
            dm = q(g.add(q(E, m1), n), m(c(-2), mn))
            return g.add(m(dn, D[0]), m(dm, D[1]))
        da = self.d(a, x)
        if f == 'sqrt': r = q(c(0.5), n)
        elif f == 'sin': r = g.fn('cos', a)
        elif f == 'cos': r = g.neg(g.fn('sin', a))
        elif f == 'exp': r = n
        elif f == 'tanh': r = g.sub(c(1), m(n, n))
        elif f == 'sinh': r = g.fn('cosh', a)
        elif f == 'cosh': r = g.fn('sinh', a)
        elif f == 'tan': r = g.add(c(1), m(n, n))
        elif f == 'arcsin': r = q(c(1), g.fn('sqrt', g.sub(c(1), m(a, a))))
        elif f == 'arccos': r = q(c(-1), g.fn('sqrt', g.sub(c(1), m(a, a))))
        elif f == 'expm1': r = g.fn('exp', a)
        elif f == 'log1p': r = q(c(1), g.add(c(1), a))
        elif f in ('floor', 'ceil', 'round', 'heaviside'): return c(0)
        elif f == 'log': r = q(c(1), a)
        elif f == 'abs': r = q(n, a)
        elif f == 'sign': return c(0)
        elif f == 'arctan': r = q(c(1), g.add(c(1), m(a, a)))
        elif f == 'ellipk': r = q(g.sub(g.fn('ellipe', a), m(g.sub(c(1), a), n)), m(c(2), m(a, g.sub(c(1), a))))
        elif f == 'ellipe': r = q(g.sub(n, g.fn('ellipk', a)), m(c(2), a))
        else: raise NoDerivative('function %s' % f)
        return m(r, da)

def integrand(g, n, memo=None):
    """n with every reduction replaced by what it adds up, when n is linear in reductions of one kind"""
    kinds = set()
    for x in g.reach([n]).values():
        if x.op in ('sum', 'red'): kinds.add((x.op, x.attr, tuple(a.id for a in x.args[1:])))
    if len(kinds) > 1: return None
    if not kinds: return n
    return g.subst(n, lambda x: x.args[0] if x.op in ('sum', 'red') else None, {} if memo is None else memo)
