"""Case distinction on the conditions that decide a set of expressions, and comparing expressions
case by case as normal forms."""
from .simp import Cofactor
from .poly import TooBig

class Facts(object):
    """what the current case says about each compared quantity: an interval and excluded points"""
    def __init__(self, nf, d=None): self.nf = nf; self.d = d or {}
    def form(self, p):
        nf = self.nf
        c = p.t.get((), 0.0)
        F = type(p)({m: x for m, x in p.t.items() if m != ()})
        s = 1.0
        if nf.lead0(F) < 0: F = nf.scale(F, -1.0); s = -1.0
        l = abs(nf.lead0(F))
        F = nf.scale(F, 1.0 / l); s *= l
        return nf.key(F), s, c, F
    def get(self, k, F):
        r = self.d.get(k)
        if r is None:
            lo = 0.0 if self.nf.nonneg_poly(F) else -float('inf')
            hi = 0.0 if self.nf.nonneg_poly(self.nf.scale(F, -1.0)) else float('inf')
            strict = len(F.t) == 1 and all(self.nf.atoms[a].name in self.nf.positive for a, _ in list(F.t)[0])
            r = (lo, lo == 0.0 and strict, hi, False, frozenset())
        return self.link(k, F, r)
    def absof(self, F):
        """q when the form is |q|"""
        if len(F.t) != 1: return None
        (m, c), = F.t.items()
        if c != 1.0 or len(m) != 1 or m[0][1] != 1: return None
        at = self.nf.atoms[m[0][0]]
        return at.data if at.kind == 'abs' and not isinstance(at.data, list) else None
    def link(self, k, F, r):
        """what is known of q bounds |q|, and the other way round"""
        lo, ls, hi, hs, ne = r
        q = self.absof(F)
        if q is not None and set(q.t) != {()}:
            kq, s, c, Fq = self.form(q)
            if c == 0.0 and kq in self.d:
                a, as_, b, bs, _ = self.d[kq]
                t = abs(s)
                if a > 0 and (a * t > lo or a * t == lo and as_): lo, ls = a * t, as_
                if b < 0 and (-b * t > lo or -b * t == lo and bs): lo, ls = -b * t, bs
                u, us = (b, bs) if b > -a else (-a, as_) if -a > b else (b, as_ and bs)
                if u * t < hi: hi, hs = u * t, us
        else:
            for k2, d in self.d.items():
                q = self.absof(self.nf.__dict__.setdefault('factforms', {}).get(k2, F))
                if q is None: continue
                kq, s, c, Fq = self.form(q)
                if kq != k or c != 0.0: continue
                t = abs(s); l, l_, u, u_ = d[0] / t, d[1], d[2] / t, d[3]
                if u < hi: hi, hs = u, u_
                if -u > lo: lo, ls = -u, u_
                if l > 0:
                    if lo > -l or lo == -l and (ls or l_):
                        if l > lo or l == lo and l_: lo, ls = l, l_
                    elif hi < l or hi == l and (hs or l_):
                        if -l < hi or -l == hi and l_: hi, hs = -l, l_
        return (lo, ls, hi, hs, ne)
    def value(self, op, p):
        """truth of p<0 / p==0 under the facts, or None"""
        k, s, c, F = self.form(p)
        lo, ls, hi, hs, ne = self.get(k, F)
        b = -c / s                         # s*F + c <0 <=> F < b (s>0) or F > b (s<0)
        if op == '==':
            if lo == hi == b and not ls and not hs: return True
            if b < lo or b > hi or b == lo and ls or b == hi and hs or b in ne: return False
            return None
        if s > 0:
            if hi < b or hi == b and (hs or hi in ne): return True
            if lo >= b: return False
        else:
            if lo > b or lo == b and (ls or lo in ne): return True
            if hi <= b: return False
        return self.follows(k, p)
    def follows(self, k, p):
        """truth of p < 0 from one of the facts on another quantity: p plus a positive multiple of what is known
        not to be negative has only terms of one sign"""
        if len(p.t) > 4: return None
        nf = self.nf; forms = nf.__dict__.get('factforms', {})
        for k2, (lo, ls, hi, hs, ne) in self.d.items():
            G = forms.get(k2)
            if G is None or k2 == k or len(G.t) > 4: continue
            com = [m for m in G.t if m in p.t]
            if not com: continue
            for bound, strict, sg in ((lo, ls, 1.0), (hi, hs, -1.0)):
                if bound in (float('inf'), -float('inf')): continue
                q = dict((m, sg * x) for m, x in G.t.items()); q[()] = q.get((), 0.0) - sg * bound      # q >= 0
                for m in com:
                    for want in (1.0, -1.0):      # p >= 0 or -p > 0
                        lam = want * p.t[m] / q[m]
                        if lam <= 0: continue
                        r = {x: want * p.t.get(x, 0.0) - lam * q.get(x, 0.0) for x in set(p.t) | set(q)}
                        r = type(p)({x: v for x, v in r.items() if abs(v) > 1e-12})
                        if r.t and not nf.nonneg_poly(r): continue
                        if want > 0: return False
                        if strict: return True
        return None
    def sign(self, p):
        if not p.t: return None
        if set(p.t) == {()}: return 1 if p.t[()] > 0 else -1
        k, s, c, F = self.form(p)
        v = self.value('<', p)
        if v is True: return -1
        if self.value('<', self.nf.scale(p, -1.0)) is True: return 1
        lo, ls, hi, hs, ne = self.get(k, F)
        if v is False: return 1        # p >= 0: |p| = p
        return None
    def assume(self, op, p, v):
        k, s, c, F = self.form(p)
        lo, ls, hi, hs, ne = self.get(k, F)
        b = -c / s
        if op == '==':
            if v: lo = hi = b; ls = hs = False
            else: ne = ne | {b}
        else:
            up = (s > 0) == v              # F bounded above
            strict = v
            if up:
                if b < hi or b == hi and strict: hi, hs = b, strict
            else:
                if b > lo or b == lo and strict: lo, ls = b, strict
        d = dict(self.d); d[k] = (lo, ls, hi, hs, ne)
        self.nf.__dict__.setdefault('factforms', {})[k] = F
        return Facts(self.nf, d)

class Split(object):
    def __init__(self, g, nf, limit=4096):
        self.g = g; self.nf = nf; self.cf = Cofactor(g); self.limit = limit; self.names = {}
    def canon(self, roots):
        """replace lane-independent comparisons by canonical condition nodes"""
        g, nf = self.g, self.nf
        def f(n):
            if n.op != 'cmp': return None
            k = nf.cond(n)
            (op, i), neg = k
            if op in ('T', 'F'): return g.const((op == 'T') != neg)
            p = nf.condpoly((op, i))
            if any(isinstance(d, tuple) for d in nf.pdeps(p)): return n
            c = g.mk('cond', (), (op, i))
            self.names.setdefault(c.id, n)
            if all(nf.scalar(a) for m in p.t for a, _ in m): self.cf.uniform.add(c.id)
            return g.not_(c) if neg else c
        memo = {}
        # conditions are replaced innermost first: comparisons whose operands contain selections
        # are compared through the normal form with indicators
        return [g.subst(r, f, memo) for r in roots]
    def pick(self, roots, done=()):
        for n in topo(roots):
            if n.op == 'sel':
                c = self.atomic(n.args[0], done)
                if c is not None: return c
        return None
    def atomic(self, c, done=()):
        if c.op in ('and', 'or', 'not'):
            for a in c.args:
                x = self.atomic(a, done)
                if x is not None: return x
            return None
        if c.id in done: return None      # decided here, left only where other lanes are meant
        if c.op == 'cond': return c
        if c.op in ('cmp', 'bool'): return None
        return c if not c.args or c.op in ('exists', 'isinst', 'keyeq') else None
    def usual(self, c):
        return self.nf.usual(c.attr[0], self.nf.condpoly(c.attr)) if c.op == 'cond' else None
    def run(self, roots, facts=None, regular=False):
        """regular: only the case in which no tolerance guard and no exact equality fires"""
        if regular:
            no = self.g.const(False)
            roots = [self.g.subst(r, lambda x: no if x.op == 'fn' and x.attr == 'isnan' else None) for r in roots]
        roots = self.canon(roots)
        st = [(roots, facts or Facts(self.nf), [])]
        k = 0
        while st:
            rs, fx, path = st.pop()
            cf = self.cf
            rs = [cf.go(r, {}) for r in rs]
            c = self.pick(rs, {x.id for x, _ in path})
            if c is None:
                self.facts = fx
                yield path, rs
                k += 1
                if k > self.limit: raise TooBig()
                continue
            vals = [True, False]
            if c.op == 'cond':
                p = self.nf.condpoly(c.attr)
                v = fx.value(c.attr[0], p)
                if v is not None: vals = [v]
                elif regular:
                    v = self.usual(c)
                    if v is not None: vals = [v]
            for v in vals:
                f2 = fx.assume(c.attr[0], self.nf.condpoly(c.attr), v) if c.op == 'cond' else fx
                env = cf.assume({}, c, v)
                r2 = [cf.go(r, cf.restrict_all(r, env)) for r in rs]
                st.append((r2, f2, path + [(c, v)]))
    def describe(self, path):
        out = []
        for c, v in path:
            n = self.names.get(c.id)
            out.append('%s%s' % ('' if v else 'not ', self.nf.show1(self.nf.condpoly(c.attr), 0) + (' < 0' if c.attr[0] == '<' else ' == 0') if c.op == 'cond' else c.op))
        return ' and '.join(out)

def topo(roots):
    seen = set(); out = []
    st = [(r, 0) for r in roots]
    while st:
        n, i = st.pop()
        if i == 0:
            if n.id in seen: continue
            seen.add(n.id)
        if n.op == 'mu': continue
        if i < len(n.args):
            st.append((n, i + 1))
            if n.args[i].id not in seen: st.append((n.args[i], 0))
        else:
            out.append(n)
    return out
