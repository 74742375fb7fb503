"""Normal forms of value-graph expressions: sums of monomials over atoms, with rational exponents.

Two expressions built by different code for the same quantity have difference zero here when they
agree as algebraic expressions over their atoms (inputs, elliptic integrals, reductions, kernel
outputs, ...), using  sqrt(p^2)=|p|,  sin^2=1-cos^2,  angle sums,  cos/sin of arctan and arctan2,
linearity of sums and integrals, and clearing of denominators.  Nothing is evaluated numerically
except literal constants.
"""
import math
from fractions import Fraction

class TooBig(Exception): pass
TERMS = 6000
INF = float('inf')
NANL = 'nan'

def fr(x):
    if isinstance(x, Fraction): return int(x) if x.denominator == 1 else x
    if isinstance(x, int): return x
    f = Fraction(x).limit_denominator(720)
    return int(f) if f.denominator == 1 else f

class Atom(object):
    __slots__ = ('id', 'kind', 'data', 'nonneg', 'deps', 'name', 'poly', 'gdeps')

class P(object):
    """polynomial: {monomial: coefficient}"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t

class NF(object):
    def __init__(self, g, positive=(), axes=None, angles=None):
        """positive: names of inputs known to be > 0; axes: {input name: set of axes}"""
        self.g = g
        self.atoms = []; self.tab = {}
        self.byfn = {}
        self.positive = set(positive)
        self.axes = axes or {}
        self.memo = {}
        self.canon = {}; self.ncanon = 0; self.nn = set(); self.snnmemo = {}
        self.angles = angles or {}
        self.subs = {}           # node id -> Poly
        self.zero = P({}); self.one = P({(): 1.0})
    # ---------------------------------------------------------------- atoms
    def atom(self, key, kind, data=None, nonneg=False, deps=frozenset(), name=''):
        a = self.tab.get(key)
        if a is None:
            a = Atom(); a.id = len(self.atoms); a.kind = kind; a.data = data; a.nonneg = nonneg; a.deps = frozenset(deps); a.name = name
            self.atoms.append(a); self.tab[key] = a
        return a
    def var(self, a, e=1): return P({((a.id, e),): 1.0})
    def const(self, c):
        return P({(): float(c)}) if c != 0 else self.zero
    def key(self, p):
        """identity of a polynomial up to rounding of its coefficients"""
        ms = frozenset(p.t)
        lst = self.canon.setdefault(ms, [])
        for q, i in lst:
            if all(abs(c - q[m]) <= 1e-9 * max(abs(c), abs(q[m])) or c != c and q[m] != q[m] for m, c in p.t.items()): return i
        self.ncanon += 1
        lst.append((p.t, self.ncanon))
        return self.ncanon
    # ---------------------------------------------------------------- arithmetic
    def add(self, p, q, s=1.0):
        t = dict(p.t)
        for m, c in q.t.items():
            v = t.get(m)
            if v is None: t[m] = s * c
            else:
                w = v + s * c
                if abs(w) <= 1e-11 * max(abs(v), abs(c)): del t[m]
                else: t[m] = w
        if len(t) > TERMS: raise TooBig()
        return P(t)
    def scale(self, p, s): return P({m: c * s for m, c in p.t.items()}) if s != 0 else self.zero
    def mulmono(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            s = d.get(a, 0) + e
            if s == 0: d.pop(a, None)
            else: d[a] = fr(s) if not isinstance(s, int) else s
        return d
    def mul(self, p, q):
        if not p.t or not q.t: return self.zero
        if len(p.t) * len(q.t) > 40 * TERMS: raise TooBig()
        t = {}; pend = []
        for m1, c1 in p.t.items():
            for m2, c2 in q.t.items():
                d = self.mulmono(m1, m2)
                c = c1 * c2
                if self.reduced(d):
                    m = tuple(sorted(d.items()))
                    v = t.get(m)
                    if v is None: t[m] = c
                    else:
                        w = v + c
                        if abs(w) <= 1e-11 * max(abs(v), abs(c)): del t[m]
                        else: t[m] = w
                else: pend.append((d, c))
        r = P(t)
        for d, c in pend: r = self.add(r, self.reduce(d, c))
        if len(r.t) > TERMS: raise TooBig()
        return r
    def reduced(self, d):
        for a, e in d.items():
            k = self.atoms[a].kind
            if k == 'sin' and e >= 2: return False
            if k == 'base' and e >= 1: return False
            if k == 'ind' and e != 1: return False
            if k == 'abs' and e >= 2: return False
            if k == 'lit' : pass
        return True
    def reduce(self, d, c):
        """rewrite a raw monomial into reduced form"""
        r = P({(): c}); rest = {}
        extra = []
        for a, e in d.items():
            at = self.atoms[a]
            if at.kind == 'sin' and e >= 2:
                n = int(e // 2)
                cs = self.atoms[at.data]
                extra.append(self.powint(P({(): 1.0, ((cs.id, 2),): -1.0}), n))
                if e - 2 * n: rest[a] = e - 2 * n
            elif at.kind == 'base' and e >= 1:
                n = int(math.floor(e))
                extra.append(self.powint(at.data, n))
                if e - n: rest[a] = fr(e - n)
            elif at.kind == 'ind' and e != 1:
                if e > 0: rest[a] = 1
                else: rest[a] = e
            elif at.kind == 'abs' and e >= 2:
                n = int(e // 2)
                extra.append(self.powint(at.data, 2 * n))
                if e - 2 * n: rest[a] = fr(e - 2 * n)
            else: rest[a] = e
        r = P({tuple(sorted(rest.items())): c})
        for x in extra: r = self.mul(r, x)
        return r
    def powint(self, p, n):
        r = self.one
        for _ in range(n): r = self.mul(r, p)
        return r
    # ---------------------------------------------------------------- powers
    def snn(self, n):
        """nonnegative by its structure (a sum of squares, ...)"""
        r = self.snnmemo.get(n.id)
        if r is None:
            op = n.op
            if op == 'const': v = self.g.cval(n); r = v is not None and v >= 0
            elif op == 'input':
                nm = n.attr[1] if isinstance(n.attr, tuple) else n.attr
                r = nm in self.positive or nm.split('[')[0] in self.positive
            elif op == 'pow':
                c = self.g.cval(n.args[1]); r = c is not None and (c == int(c) and int(c) % 2 == 0) or self.snn(n.args[0])
            elif op == 'fn': r = n.attr in ('sqrt', 'abs', 'exp', 'cosh', 'ellipk', 'ellipe', 'hypot')
            elif op in ('+', '*', '/'): r = all(self.snn(a) for a in n.args)
            elif op == 'at': r = self.snn(n.args[0])
            elif op == 'sel': r = self.snn(n.args[1]) and self.snn(n.args[2])
            else: r = False
            self.snnmemo[n.id] = r
        return r
    def nonneg_poly(self, p):
        if self.nn and self.key(p) in self.nn: return True
        for m, c in p.t.items():
            if c < 0: return False
            for a, e in m:
                if not (self.atoms[a].nonneg or (isinstance(e, int) and e % 2 == 0)): return False
        return True
    def content(self, p):
        """(coefficient > 0, monomial dict, remaining poly): p = c * mono * rest"""
        ms = list(p.t)
        com = {}
        allat = set(a for m in ms for a, _ in m)
        for a in allat:
            es = [dict(m).get(a, 0) for m in ms]
            mn = min(es)
            if mn != 0 and self.atoms[a].kind != 'ind': com[a] = mn
        inv = tuple((a, -e) for a, e in com.items())
        rest = P({})
        raw = []
        t = {}
        for m, c in p.t.items():
            d = self.mulmono(m, inv)
            if self.reduced(d):
                mm = tuple(sorted(d.items())); t[mm] = t.get(mm, 0.0) + c
            else: raw.append((d, c))
        rest = P(t)
        for d, c in raw: rest = self.add(rest, self.reduce(d, c))
        if raw and len(rest.t) > 1:
            # expansion may have changed the content
            c2, m2, r2 = self.content(rest)
            return c2, self.mulmono(tuple(com.items()), tuple(m2.items())), r2
        if not rest.t: return 0.0, {}, self.zero
        lead = self.lead(rest)
        c = abs(lead)
        return c, com, self.scale(rest, 1.0 / c)
    def lead(self, p):
        m = max(p.t, key=lambda m: (sum(abs(e) for _, e in m), m))
        return p.t[m]
    def pow(self, p, e):
        e = fr(e)
        if e == 0: return self.one
        if e == 1: return p
        if not p.t:
            if e > 0: return self.zero
            return self.var(self.atom(('lit', 'inf'), 'lit', name='inf'))
        if isinstance(e, int) and e > 0 and (e <= 3 or len(p.t) == 1 or (e <= 6 and len(p.t) <= 3)): return self.powint(p, e)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            return self.powmono(dict(m), c, e)
        nn = self.key(p) in self.nn
        c, com, rest = self.content(p)
        if not rest.t: return self.pow(self.zero, e)
        if len(rest.t) == 1:
            (m, cc), = rest.t.items()
            return self.powmono(self.mulmono(tuple(com.items()), m), c * cc, e)
        if not isinstance(e, int) and len(rest.t) == 2 and () in rest.t:
            (m2, k2), = [x for x in rest.t.items() if x[0]]
            if len(m2) == 1 and m2[0][1] == 2 and self.atoms[m2[0][0]].kind == 'cos' and abs(k2 + rest.t[()]) < 1e-12 and k2 < 0:
                # (1-cos^2)^e = |sin|^2e
                sa = [x for x in self.atoms if x.kind == 'sin' and x.data == m2[0][0]]
                if sa: return self.mul(self.powmono(com, c * -k2, e), self.pow(self.abs(self.var(sa[0])), 2 * e))
        sgn = 1.0
        if isinstance(e, int):
            if self.lead(rest) < 0:
                rest = self.scale(rest, -1.0)
                if e % 2: sgn = -1.0
            out = self.powmono(com, c, e)
        else:
            # only factors known nonnegative (or squares) may be pulled out of the root
            pos = {a: x for a, x in com.items() if self.atoms[a].nonneg or isinstance(x, int) and x % 2 == 0}
            neg = {a: x for a, x in com.items() if a not in pos}
            if neg: rest = self.mul(P({tuple(sorted(neg.items())): 1.0}), rest)
            out = self.powmono(pos, c, e)
        at = self.atom(('base', self.key(rest)), 'base', rest, self.nonneg_poly(rest) or not isinstance(e, int), self.pdeps(rest))
        if nn and all(self.atoms[a].nonneg or isinstance(x, int) and x % 2 == 0 for a, x in com.items()): at.nonneg = True
        if not isinstance(e, int): at.nonneg = True
        x = self.reduce({at.id: e}, sgn) if e >= 1 else P({((at.id, e),): sgn})
        return self.mul(out, x)
    def powmono(self, d, c, e):
        """(c * mono)^e"""
        if isinstance(e, int):
            dd = {a: x * e if isinstance(x * e, int) else fr(x * e) for a, x in d.items()}
            return self.reduce(dd, c ** e)
        keep = {}; res = {}
        extra = []
        for a, x in d.items():
            at = self.atoms[a]
            if at.nonneg: res[a] = fr(x * e)
            elif isinstance(x, int) and x % 2 == 0:
                y = fr(x * e)
                if isinstance(y, int) and y % 2 == 0: res[a] = y
                else: extra.append((a, y))
            else: keep[a] = x
        if c < 0 and not keep:
            # root of a negative literal: leave opaque
            keep = dict(keep)
        if len(keep) == 1 and c > 0:
            # the root is real only where this factor is nonnegative
            (a, x), = keep.items()
            if self.atoms[a].kind != 'ind':
                res[a] = fr(x * e); keep = {}
        out = self.reduce(res, abs(c) ** float(e))
        for a, y in extra:
            ab = self.absatom(P({((a, 1),): 1.0}))
            out = self.mul(out, self.reduce({ab.id: y}, 1.0))
        if keep or c < 0:
            q = P({tuple(sorted(keep.items())): 1.0 if c > 0 else -1.0})
            at = self.atom(('base', self.key(q)), 'base', q, True, self.pdeps(q))
            out = self.mul(out, self.reduce({at.id: e}, 1.0))
        return out
    def absatom(self, p):
        return self.atom(('abs', self.key(p)), 'abs', p, True, self.pdeps(p))
    def abs(self, p):
        if self.nonneg_poly(p): return p
        if self.nonneg_poly(self.scale(p, -1.0)): return self.scale(p, -1.0)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            out = self.const(abs(c))
            for a, e in m:
                at = self.atoms[a]
                if at.nonneg or isinstance(e, int) and e % 2 == 0: out = self.mul(out, P({((a, e),): 1.0}))
                elif at.kind == 'ind': out = self.mul(out, P({((a, e),): 1.0}))
                else: out = self.mul(out, self.reduce({self.absatom(P({((a, 1),): 1.0})).id: e}, 1.0))
            return out
        c, com, rest = self.content(p)
        if self.lead(rest) < 0: rest = self.scale(rest, -1.0)
        out = self.abs(P({tuple(sorted(com.items())): c})) if com else self.const(c)
        if self.nonneg_poly(rest): return self.mul(out, rest)
        return self.mul(out, self.var(self.absatom(rest)))
    def pdeps(self, p):
        s = frozenset()
        for m in p.t:
            for a, _ in m: s |= self.atoms[a].deps
        return s
    # ---------------------------------------------------------------- zero test
    def iszero(self, p, depth=0):
        if not p.t: return True
        try:
            q = self.clear(p)
        except TooBig:
            return None
        mx = max(abs(c) for c in p.t.values())
        return all(abs(c) <= 1e-8 * max(mx, 1e-300) for c in q.t.values())
    def clear(self, p):
        """multiply by powers of the bases until no denominators remain, and expand"""
        for _ in range(40):
            low = {}
            for m in p.t:
                for a, e in m:
                    if self.atoms[a].kind in ('base',) and e < 0:
                        low[a] = min(low.get(a, 0), e)
            if not low: break
            a = max(low, key=lambda a: a)       # outermost base first
            n = -math.floor(low[a])
            t = P({}); raw = []; tt = {}
            for m, c in p.t.items():
                d = self.mulmono(m, ((a, n),))
                if self.reduced(d):
                    mm = tuple(sorted(d.items())); tt[mm] = tt.get(mm, 0.0) + c
                else: raw.append((d, c))
            t = P({m: c for m, c in tt.items() if abs(c) > 0})
            for d, c in raw: t = self.add(t, self.reduce(d, c))
            p = t
        return p
    def unitbounded(self, p):
        """plus or minus a product of sines and cosines"""
        return len(p.t) == 1 and all(abs(c) <= 1 and all(self.atoms[a].kind in ('cos', 'sin') and e > 0 for a, e in m) for m, c in p.t.items())
    def eq(self, p, q): return self.iszero(self.add(p, q, -1.0))
    # ---------------------------------------------------------------- functions
    def fnatom(self, name, args, nonneg=False, extra=()):
        k = ('fn', name, extra, tuple(self.key(a) for a in args))
        at = self.tab.get(k)
        if at is not None: return at
        for b in self.byfn.get((name, extra, len(args)), ()) if not name.startswith('red:') else ():
            if all(self.eq(x, y) for x, y in zip(args, b.data)):
                self.tab[k] = b; return b
        deps = frozenset()
        for a in args: deps |= self.pdeps(a)
        at = self.atom(k, 'fn', list(args), nonneg, deps, name)
        self.byfn.setdefault((name, extra, len(args)), []).append(at)
        return at
    def neglead(self, p): return bool(p.t) and self.lead(p) < 0
    def trig(self, p):
        """(cos p, sin p)"""
        k = ('trig', self.key(p))
        r = self.memo.get(k)
        if r is not None: return r
        terms = sorted(p.t.items())
        if not terms: r = (self.one, self.zero)
        elif len(terms) == 1: r = self.trig1(terms[0])
        elif len(terms) <= 5:
            c, s = self.trig1(terms[0])
            for t in terms[1:]:
                c2, s2 = self.trig1(t)
                c, s = self.add(self.mul(c, c2), self.mul(s, s2), -1.0), self.add(self.mul(s, c2), self.mul(c, s2))
            r = (c, s)
        else: r = self.trigatom(p)
        self.memo[k] = r
        return r
    def trig1(self, term):
        m, c = term
        if m == ():
            return self.const(clean(math.cos(c))), self.const(clean(math.sin(c)))
        n = abs(c)
        unit = P({m: 1.0})
        if n == int(n) and 1 <= n <= 3:
            cs, sn = self.trigunit(unit, m)
            C, S = cs, sn
            for _ in range(int(n) - 1):
                C, S = self.add(self.mul(C, cs), self.mul(S, sn), -1.0), self.add(self.mul(S, cs), self.mul(C, sn))
            if c < 0: S = self.scale(S, -1.0)
            return C, S
        C, S = self.trigatom(P({m: n}))
        if c < 0: S = self.scale(S, -1.0)
        return C, S
    def trigunit(self, unit, m):
        for a, e in m:
            at = self.atoms[a]
            if e == 1 and len(m) > 1 and at.kind == 'fn' and at.name == 'sign':
                m2 = tuple(x for x in m if x[0] != a)
                c, s = self.trigunit(P({m2: 1.0}), m2)
                sg = self.var(at)
                return self.add(self.one, self.mul(self.mul(sg, sg), self.add(c, self.one, -1.0))), self.mul(sg, s)
        if len(m) == 1 and m[0][1] == 1:
            at = self.atoms[m[0][0]]
            if at.kind == 'fn' and at.name == 'arctan2':
                b, a = at.data
                h = self.pow(self.add(self.mul(a, a), self.mul(b, b)), -0.5)
                return self.mul(a, h), self.mul(b, h)
            if at.kind == 'fn' and at.name == 'mod' and set(at.data[1].t) == {()}:
                q = at.data[1].t[()] / math.pi
                if q > 0 and abs(q / 2 - round(q / 2)) < 1e-12: return self.trig(at.data[0])
                if abs(q - 1) < 1e-12:                                  # into [0, pi)
                    c, s = self.trig(at.data[0])
                    return self.mul(c, self.fn('sign', [s])), self.abs(s)
            if at.kind == 'fn' and at.name == 'arctan':
                a, = at.data
                h = self.pow(self.add(self.one, self.mul(a, a)), -0.5)
                return h, self.mul(a, h)
            if at.kind == 'fn' and at.name == 'arccos':
                a, = at.data
                return a, self.pow(self.add(self.one, self.mul(a, a), -1.0), 0.5)
            if at.kind == 'fn' and at.name == 'arcsin':
                a, = at.data
                return self.pow(self.add(self.one, self.mul(a, a), -1.0), 0.5), a
        return self.trigatom(unit)
    def trigatom(self, p):
        sg = 1.0
        if self.neglead(p): p = self.scale(p, -1.0); sg = -1.0
        k = self.key(p); d = self.pdeps(p)
        c = self.atom(('cos', k), 'cos', p, False, d)
        s = self.atom(('sin', k), 'sin', c.id, False, d)
        return self.var(c), self.scale(self.var(s), sg)
    def fn(self, name, args):
        if name == 'sqrt': return self.pow(args[0], Fraction(1, 2))
        if name == 'cbrt': return self.pow(args[0], Fraction(1, 3))
        if name == 'abs': return self.abs(args[0])
        if name == 'expm1': return self.add(self.fn('exp', args), self.one, -1.0)
        if name == 'log1p': return self.fn('log', [self.add(args[0], self.one)])
        if name == 'hypot': return self.pow(self.add(self.mul(args[0], args[0]), self.mul(args[1], args[1])), Fraction(1, 2))
        if name in ('sin', 'cos', 'tan'):
            c, s = self.trig(args[0])
            return c if name == 'cos' else s if name == 'sin' else self.mul(s, self.pow(c, -1))
        if name == 'arctan2':
            b, a = args
            if not b.t and self.nonneg_poly(a): return self.zero
            # common positive factor
            ca, ma, ra = self.content(a) if a.t else (0, {}, a)
            cb, mb, rb = self.content(b) if b.t else (0, {}, b)
            com = {}
            if a.t and b.t:
                for x in set(ma) & set(mb):
                    if self.atoms[x].nonneg: com[x] = min(ma[x], mb[x])
                inv = {tuple(sorted((x, -e) for x, e in com.items())): 1.0 / ca}
                a, b = self.mul(a, P(dict(inv))), self.mul(b, P(dict(inv)))
            # arctan2(sin t, cos t) = t
            if len(a.t) == 1 and len(b.t) == 1:
                (m1, c1), = a.t.items(); (m2, c2), = b.t.items()
                if len(m1) == 1 and len(m2) == 1 and abs(c1 - 1) < 1e-12 and abs(abs(c2) - 1) < 1e-12 and m1[0][1] == 1 and m2[0][1] == 1:
                    a1, a2 = self.atoms[m1[0][0]], self.atoms[m2[0][0]]
                    if a1.kind == 'cos' and a2.kind == 'sin' and a2.data == a1.id: return self.scale(a1.data, c2)
            if self.neglead(b): return self.scale(self.var(self.fnatom('arctan2', [self.scale(b, -1.0), a])), -1.0)
            return self.var(self.fnatom('arctan2', [b, a]))
        if name in ('arctan', 'arcsin', 'sinh', 'tanh', 'arcsinh', 'erf', 'sign'):
            p = args[0]
            if not p.t: return self.zero
            if name == 'arctan' and len(p.t) == 1: pass
            if name == 'sign':
                c, com, rest = self.content(p)
                if c: p = self.mul(self.scale(p, 1.0 / c), P({tuple(sorted((a, -e) for a, e in com.items() if self.atoms[a].nonneg and self.atoms[a].kind == 'in')): 1.0}))
                for v in (1.0, -1.0):       # a positive constant and nonnegative terms
                    if () in p.t and p.t[()] * v > 0 and self.nonneg_poly(self.scale(p, v)): return self.const(v)
            if self.neglead(p): return self.scale(self.var(self.fnatom(name, [self.scale(p, -1.0)])), -1.0)
            return self.var(self.fnatom(name, [p]))
        if name == 'cosh':
            p = args[0]
            return self.var(self.fnatom(name, [self.scale(p, -1.0) if self.neglead(p) else p], True))
        if name in ('max', 'min'):
            for p, q in (args, args[::-1]) if len(args) == 2 else ():
                if len(q.t) == 1 and () in q.t and self.unitbounded(p):
                    k = q.t[()]
                    if k >= 1: return p if name == 'min' else q
                    if k <= -1: return p if name == 'max' else q
            ks = sorted(args, key=self.key)
            return self.var(self.fnatom(name, ks, all(self.nonneg_poly(a) for a in args)))
        if name == 'clip' and len(args) == 3:
            return self.var(self.fnatom('clip', args))
        if name in ('real', 'float', 'nan_to_num'): return args[0]
        return self.var(self.fnatom(name, args, name in ('exp', 'ellipk', 'ellipe')))
    # ---------------------------------------------------------------- conditions
    def cond(self, n):
        """canonical (key, negated) of an atomic condition, or None"""
        if n.op == 'cmp':
            d = self.add(self.nf(n.args[0]), self.nf(n.args[1]), -1.0)
            op = n.attr
            neg = False
            if op == '<=':          # d<=0  <=>  not (-d<0)
                d = self.scale(d, -1.0); neg = True; op = '<'
            if op == '!=': neg = True; op = '=='
            if not d.t: return ('T' if op == '==' else 'F', None), neg
            d = self.posnorm(d)
            if op == '==' and len(d.t) == 1:
                (m, _), = d.t.items()
                if len(m) == 1 and m[0][1] > 0 and self.atoms[m[0][0]].kind == 'fn' and self.atoms[m[0][0]].name == 'sign': d = self.atoms[m[0][0]].data[0]
            if op == '<':
                if self.nonneg_poly(d) or self.sos(d): return ('F', None), neg
                for m, cc in d.t.items():
                    if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'lit' and self.atoms[m[0][0]].name == 'inf':
                        return ('T' if cc < 0 else 'F', None), neg
            c = abs(self.lead0(d))
            d = self.scale(d, 1.0 / c)
            if op == '==' and self.lead0(d) < 0: d = self.scale(d, -1.0)
            if set(d.t) == {()}:
                v = d.t[()]
                return ('T' if (v < 0 if op == '<' else v == 0) else 'F', None), neg
            return (op, self.condkey(op, d)), neg
        return None
    def posnorm(self, d):
        """multiply by positive quantities: denominators known positive, and positive common factors"""
        for _ in range(6):
            low = {}
            for m in d.t:
                for a, e in m:
                    at = self.atoms[a]
                    if e < 0 and (at.kind == 'base' and at.nonneg or at.kind == 'in' and at.name in self.positive): low[a] = min(low.get(a, 0), e)
            if not low: break
            a = max(low)
            d = self.mul(d, P({((a, -low[a]),): 1.0}))
        com = {}
        for a in set(a for m in d.t for a, _ in m):
            at = self.atoms[a]
            if at.kind == 'in' and at.name in self.positive:
                mn = min(dict(m).get(a, 0) for m in d.t)
                if mn > 0: com[a] = -mn
        if com: d = self.mul(d, P({tuple(sorted(com.items())): 1.0}))
        return d
    def sos(self, p):
        """nonnegative as a sum of squares of binomials (sufficient test)"""
        sq = {}; cross = []
        for m, c in p.t.items():
            even = all(self.atoms[a].nonneg and False or isinstance(e, int) and e % 2 == 0 for a, e in m)
            if even and c > 0: sq[m] = c
            elif c > 0 and all(self.atoms[a].nonneg or isinstance(e, int) and e % 2 == 0 for a, e in m): pass
            else: cross.append((m, c))
        for m, c in cross:
            ok = False
            for a in list(sq):
                if sq[a] < abs(c) / 2 * (1 - 1e-9): continue
                ha = tuple((x, e // 2) for x, e in a)
                hb = self.mulmono(m, tuple((x, -e) for x, e in ha))
                b = tuple(sorted((x, fr(2 * e)) for x, e in hb.items()))
                if a == b: continue
                # b may be stored expanded (square root of a sum): compare its expansion
                need = abs(c) / 2
                ex = self.reduce(dict(b), 1.0)
                if all(mm in sq and sq[mm] >= need * cc * (1 - 1e-9) for mm, cc in ex.t.items()) and a not in ex.t:
                    sq[a] -= need
                    for mm, cc in ex.t.items(): sq[mm] -= need * cc
                    ok = True; break
            if not ok: return False
        return True
    def usual(self, op, p):
        """truth of p<0 / p==0 away from exact coincidences and tolerance neighbourhoods, or None"""
        if any(self.atoms[a].kind == 'dim' or self.atoms[a].name == 'op:ndim' for m in p.t for a, _ in m): return None       # numbers of points or members: any
        if op == '==': return False
        mx = max(abs(c) for c in p.t.values())
        big = {m: c for m, c in p.t.items() if abs(c) > 1e-4 * mx}
        if len(big) == len(p.t):
            return None
        tiny = [c for m, c in p.t.items() if m not in big]
        F = type(p)(big)
        if set(p.t) - set(big) == {()} and all(len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'in' for m in big) \
           and not self.nonneg_poly(F) and not self.nonneg_poly(self.scale(F, -1.0)): return None      # given quantities of either sign: not a tolerance
        if all(c < 0 for c in tiny): return False      # quantity - tolerance < 0: the guard
        if all(c > 0 for c in tiny): return True
        return None
    def lead0(self, p):
        ms = [m for m in p.t if m != ()]
        if not ms: return p.t[()]
        m = max(ms, key=lambda m: (sum(abs(e) for _, e in m), m))
        return p.t[m]
    def condkey(self, op, d):
        k = ('cp', op, self.key(d))
        r = self.tab.get(k)
        if r is not None: return r
        lst = self.byfn.setdefault(('cond', op), [])
        for (q, i) in lst:
            if set(q.t) == set(d.t) and self.eq(q, d): self.tab[k] = i; return i
        lst.append((d, len(lst)))
        self.tab[k] = lst[-1][1]
        return self.tab[k]
    def condpoly(self, key): return self.byfn[('cond', key[0])][key[1]][0]
    # ---------------------------------------------------------------- graph to normal form
    def nf(self, n):
        r = self.memo.get(n.id)
        if r is None:
            st = [n]
            while st:
                x = st[-1]
                if x.id in self.memo: st.pop(); continue
                todo = [a for a in x.args if a.id not in self.memo] if x.op != 'mu' else []
                if todo and not (x.op == 'cmp'): st.extend(todo); continue
                if x.op == 'cmp':
                    todo = [a for a in x.args if a.id not in self.memo]
                    if todo: st.extend(todo); continue
                self.memo[x.id] = self.nf1(x)
                st.pop()
            r = self.memo[n.id]
        return r
    def opq(self, n, deps=frozenset()):
        args = [self.memo[a.id] for a in n.args] if n.op != 'mu' else []
        attr = n.attr if n.op != 'mu' else n.id
        return self.var(self.fnatom('op:' + n.op, args, False, (repr(attr),)))
    def ind(self, c):
        """indicator polynomial of a condition"""
        if c.op == 'bool': return self.one if c.attr else self.zero
        if c.op == 'not': return self.add(self.one, self.ind(c.args[0]), -1.0)
        if c.op == 'and': return self.mul(self.ind(c.args[0]), self.ind(c.args[1]))
        if c.op == 'or':
            a, b = self.ind(c.args[0]), self.ind(c.args[1])
            return self.add(self.add(a, b), self.mul(a, b), -1.0)
        k = self.cond(c)
        if k is not None:
            (op, i), neg = k
            if op in ('T', 'F'):
                v = (op == 'T') != neg
                return self.one if v else self.zero
            p = self.condpoly((op, i))
            at = self.atom(('ind', op, i), 'ind', None, True, self.pdeps(p), 'I')
            x = self.var(at)
            return self.add(self.one, x, -1.0) if neg else x
        at = self.atom(('indn', c.op, c.attr if not isinstance(c.attr, float) else repr(c.attr), tuple(self.key(self.nf(a)) for a in c.args)), 'ind', None, True, frozenset(), 'I')
        return self.var(at)
    def nf1(self, n):
        if n.id in self.subs: return self.subs[n.id]
        op = n.op; M = self.memo
        A = [M[a.id] for a in n.args] if op != 'mu' else []
        if op == 'const':
            v = self.g.cval(n)
            if v is None or v != v: return self.var(self.atom(('lit', 'nan'), 'lit', name='nan'))
            if abs(v) == INF: return self.scale(self.var(self.atom(('lit', 'inf'), 'lit', None, True, name='inf')), 1.0 if v > 0 else -1.0)
            return self.const(v)
        if op == 'input':
            nm = n.attr[1] if isinstance(n.attr, tuple) else n.attr
            if nm in self.angles: pass
            return self.var(self.atom(('in', nm), 'in', None, nm in self.positive or nm.split('[')[0] in self.positive, self.axes.get(nm, ()), nm))
        if op == '+':
            r = self.add(A[0], A[1])
            if len(r.t) > 1 and self.snn(n): self.nn.add(self.key(r))
            return r
        if op == '*': return self.mul(A[0], A[1])
        if op == '/': return self.mul(A[0], self.inv(n.args[1]))
        if op == 'pow':
            e = self.g.cval(n.args[1])
            if e is None: return self.opq(n)
            return self.powgraph(n.args[0], e)
        if op == 'fn':
            if n.attr == 'sqrt': return self.powgraph(n.args[0], 0.5)
            return self.fn(n.attr, A)
        if op == 'sel':
            i = self.ind(n.args[0])
            if not i.t: return A[2]
            if i.t == {(): 1.0}: return A[1]
            return self.add(self.mul(i, A[1]), self.mul(self.add(self.one, i, -1.0), A[2]))
        if op in ('cmp', 'not', 'and', 'or', 'bool'): return self.ind(n)
        if op == 'linspace':
            ax = ('cnt', n.args[2].id)
            lo, hi = A[0], A[1]
            # lo + (hi-lo)*lane
            t = self.fnatom('lane', [A[2]], True, (repr(n.attr),))
            t.deps = t.deps | self.laneaxis(n)
            return self.add(lo, self.mul(self.add(hi, lo, -1.0), self.var(t)))
        if op == 'iota':
            return self.var(self.atom(('iota', n.attr), 'iota', None, True, {n.attr}, 'i'))
        if op == 'loopidx':
            return self.var(self.atom(('loop', n.attr), 'loop', None, True, {('loop', n.id)}, 'i'))
        if op == 'dim': return self.var(self.atom(('dim', n.attr), 'dim', None, True, (), 'n'))
        if op == 'red' and n.attr[0] in ('trapz', 'sum', 'mean') and len(A) == (2 if n.attr[0] == 'trapz' else 1):
            axes = n.attr[1]
            if n.attr[0] == 'trapz': return self.linred('trapz', A[0], set(axes), [self.dropoffset(A[1], set(axes))], n)
            return self.linred(n.attr[0], A[0], set(axes), [], n)
        if op == 'sum':
            axis, lid = n.attr
            return self.linred('sum', A[0], {('loop', lid)}, [], n, ('loopsum', axis))
        if op == 'at':
            # distribute over a sum of scalar multiples
            return self.at(A[0], A[1], n)
        return self.opq(n)
    def dropoffset(self, p, axes):
        """an integration variable counts up to an additive constant"""
        return P({m: c for m, c in p.t.items() if self.pdeps(P({m: c})) & axes})
    def laneaxis(self, n):
        c = self.g.cval(n.args[2])
        return {('cnt', n.args[2].id)} | ({('len', c), c} if c is not None else set())
    def inv(self, n): return self.powgraph(n, -1)
    def powgraph(self, n, e):
        """power distributed over the factors of a product where that is exact"""
        e = fr(e)
        if n.op == '*' and (isinstance(e, int) or any(self.nonneg_poly(self.nf(a)) for a in n.args)):     # (a root of the product is real)
            return self.mul(self.powgraph(n.args[0], e), self.powgraph(n.args[1], e))
        if n.op == '/' and isinstance(e, int):
            return self.mul(self.powgraph(n.args[0], e), self.powgraph(n.args[1], -e))
        if n.op == 'pow' and isinstance(e, int):
            c = self.g.cval(n.args[1])
            if c is not None: return self.powgraph(n.args[0], fr(c) * e)
        if n.op == 'fn' and n.attr == 'sqrt' and isinstance(e, int): return self.powgraph(n.args[0], Fraction(e, 2))
        return self.pow(self.nf(n), e)
    def at(self, p, i, n):
        out = self.zero
        ik = self.key(i)
        ideps = self.pdeps(i)
        for m, c in p.t.items():
            t = self.const(c)
            for a, e in m:
                at = self.atoms[a]
                if at.kind in ('dim', 'lit', 'loop') or at.kind == 'fn' and at.name == 'op:at' and not at.deps or self.scalar(a):
                    t = self.mul(t, P({((a, e),): 1.0}))
                else:
                    b = self.fnatom('op:at', [P({((a, 1),): 1.0}), i], at.nonneg)
                    t = self.mul(t, self.reduce({b.id: e}, 1.0))
            out = self.add(out, t)
        return out
    POINTWISE = {'cos', 'sin', 'tan', 'sqrt', 'exp', 'log', 'arctan2', 'arctan', 'arccos', 'arcsin', 'abs', 'max', 'min', 'sign'}
    def scalar(self, a, d=0):
        """built pointwise from inputs declared scalar: the same at every index"""
        at = self.atoms[a]
        if at.kind in ('dim', 'lit'): return True
        if at.kind == 'in': return at.name in self.axes and not self.axes[at.name]
        if d > 6: return False
        if at.kind == 'sin': return self.scalar(at.data, d + 1)
        if at.kind == 'fn':
            if at.name not in self.POINTWISE: return False
            ds = at.data
        elif at.kind in ('base', 'abs', 'cos'): ds = at.data if isinstance(at.data, (list, tuple)) else [at.data]
        else: return False
        try: return all(self.scalar(x, d + 1) for q in ds for m in q.t for x, _ in m)
        except AttributeError: return False
    def linred(self, name, p, axes, extra, n, tag=None):
        out = {}
        groups = {}
        for m, c in p.t.items():
            dep = []; ind = []
            for a, e in m:
                (dep if self.atoms[a].deps & axes else ind).append((a, e))
            k = tuple(ind)
            groups.setdefault(tuple(dep), []).append((k, c))
        r = self.zero
        for dep, lst in groups.items():
            q = P({dep: 1.0})
            key = (name, tag or repr(sorted(map(str, axes))) if name != 'trapz' else '', )
            if name == 'mean' and not dep:
                red = self.one
            else:
                fa = self.fnatom('red:' + name, [q] + extra, False, (repr(key[1]) if name != 'trapz' else '',))
                d = frozenset()
                for a, _ in dep: d |= self.atoms[a].deps
                if fa.deps != d - axes: fa.deps = d - axes
                red = self.var(fa)
            r = self.add(r, self.mul(P(dict((k, c) for k, c in lst)), red)) if len(set(k for k, _ in lst)) == len(lst) else self.add(r, self.mul(self.sumterms(lst), red))
        return r
    def sumterms(self, lst):
        r = self.zero
        for k, c in lst: r = self.add(r, P({k: c}))
        return r
    def resolve_signs(self, p, sign, depth=0):
        """replace |q| by q or -q where sign(q) tells (+1, -1 or None)"""
        out = self.zero; ch = False
        for m, c in p.t.items():
            t = P({(): c})
            for a, e in m:
                at = self.atoms[a]; r = None
                if at.kind == 'abs':
                    s = sign(at.data)
                    if s: r = self.pow(at.data if s > 0 else self.scale(at.data, -1.0), e)
                elif at.kind == 'fn' and at.name == 'sign':
                    s = sign(at.data[0])
                    if s: r = self.const(s ** e)
                elif at.kind == 'fn' and depth < 3 and not at.name.startswith(('red:', 'op:')):
                    ds = [self.resolve_signs(x, sign, depth + 1) for x in at.data]
                    if any(x is not y for x, y in zip(ds, at.data)): r = self.pow(self.fn(at.name, ds), e)
                elif at.kind == 'base' and depth < 3:
                    x = self.resolve_signs(at.data, sign, depth + 1)
                    if x is not at.data: r = self.pow(x, e)
                if r is None: t = self.mul(t, P({((a, e),): 1.0}))
                else: t = self.mul(t, r); ch = True
            out = self.add(out, t)
        return out if ch else p
    # ---------------------------------------------------------------- printing
    def show(self, p, n=6):
        out = []
        for m, c in list(p.t.items())[:n]:
            s = '%.6g' % c
            for a, e in m: s += '·%s%s' % (self.aname(a), '' if e == 1 else '^%s' % e)
            out.append(s)
        if len(p.t) > n: out.append('… (%d terms)' % len(p.t))
        return ' + '.join(out) or '0'
    def aname(self, a, d=0):
        at = self.atoms[a]
        if at.kind in ('in', 'iota', 'loop', 'dim', 'lit'): return at.name
        if d > 2: return at.kind + '…'
        if at.kind == 'fn':
            nm = at.name
            return '%s(%s)' % (nm, ', '.join(self.show1(x, d + 1) for x in at.data))
        if at.kind == 'base': return '(' + self.show1(at.data, d + 1) + ')'
        if at.kind == 'abs': return '|' + self.show1(at.data, d + 1) + '|'
        if at.kind == 'cos': return 'cos(' + self.show1(at.data, d + 1) + ')'
        if at.kind == 'sin': return 'sin(' + self.show1(self.atoms[at.data].data, d + 1) + ')'
        return at.kind + str(at.id)
    def show1(self, p, d):
        out = []
        for m, c in list(p.t.items())[:3]:
            s = '' if c == 1 and m else '%.4g' % c
            for a, e in m: s += ('·' if s else '') + self.aname(a, d) + ('' if e == 1 else '^%s' % e)
            out.append(s)
        if len(p.t) > 3: out.append('…')
        return ' + '.join(out) or '0'

def clean(v): return 0.0 if abs(v) < 1e-14 else v
