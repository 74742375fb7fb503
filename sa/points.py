"""Definedness of the operations that are live at a given point."""
from .interp import Num

def special(E):
    """(entry, configuration, description, -, session -> {input: node})"""
    out = []
    def add(key, labs, name, f):
        e = E[key]
        for lab, _ in e.configs:
            if labs is None or lab in labs: out.append((key, lab, name, None, f))
    c = lambda s, x: s.g.const(x)
    def rim(z):
        def f(s):
            g = s.g; p = s.inp('phi'); R = s.inp('R')
            return {'Xcp': g.mul(R, g.fn('cos', p)), 'Ycp': g.mul(R, g.fn('sin', p)), 'Zcp': c(s, 0) if z == 0 else s.inp('h') if z > 0 else g.neg(s.inp('h'))}
        return f
    def axis(z): return lambda s: {'Xcp': c(s, 0), 'Ycp': c(s, 0), 'Zcp': c(s, 0) if z == 0 else s.inp('h') if z > 0 else s.g.neg(s.inp('h'))}
    for k in ('vc_tang_u', 'ring_u'):
        for z, w in ((0, 'the centre'), (1, 'the axis downstream'), (-1, 'the axis upstream')): add(k, None, 'on ' + w, axis(z))
        for z, w in ((0, 'the rim'), (1, 'the sheet'), (-1, 'the upstream continuation of the sheet')): add(k, None, 'on ' + w, rim(z))
    def fin(r):
        def f(s):
            m = (axis if r == 0 else rim)(1)(s)
            return m
        return f
    for r, w in ((0, 'the axis'), (1, 'the sheet')): add('cylinder_tang_u', None, 'on ' + w, fin(r))
    for k in ('vc_longi_u_polar', 'vc_longi_u'):
        for r, w in ((0, 'axis'), (1, 'sheet')):
            for z, v in ((1, 'downstream'), (0, 'in the rotor plane'), (-1, 'upstream')):
                def lo(s, r=r, z=z, k=k):
                    if k == 'vc_longi_u': return (rim if r else axis)(z)(s)
                    return {'vr': s.inp('R') if r else c(s, 0), 'vz': c(s, 0) if z == 0 else s.inp('h') if z > 0 else s.g.neg(s.inp('h'))}
                if (k, r, z) != ('vc_longi_u', 0, 0): add(k, None, 'on the %s, %s' % (w, v), lo)
    def rz(r, z): return lambda s: {'r': c(s, 0) if r == 0 else s.inp('r0'), 'z': s.inp('z0') if z == 0 else s.g.add(s.inp('z0'), s.inp('h'))}
    for r, z, w in ((0, 0, 'centre'), (1, 0, 'ring itself'), (0, 1, 'axis')): add('ring_u_polar', None, 'on the ' + w, rz(r, z))
    for x, w in ((0, 'its own position'),):
        add('doublet_u', None, 'at ' + w, lambda s: {'Xcp': s.inp('x0[0]'), 'Ycp': s.inp('x0[1]'), 'Zcp': s.inp('x0[2]')})
        add('doublet_u_polar', None, 'at ' + w, lambda s: {'rcp': c(s, 0), 'zcp': s.inp('z0')})
    def dl(r, z): return lambda s: {'rcp': s.inp('rcp') if r else c(s, 0), 'zcp': c(s, 0) if z == 0 else s.inp('h') if z > 0 else s.g.neg(s.inp('h'))}
    for r, z, w in ((0, 0, 'its origin'), (0, 1, 'the line'), (0, -1, 'the axis upstream'), (1, 0, 'the plane of its origin')): add('doublet_line_polar_u', None, 'on ' + w, dl(r, z))
    for z, w in ((0, 'its origin'), (1, 'the line itself'), (-1, 'its continuation upstream')):
        if z >= 0:
            for k in [k for k in E if k.startswith('vl_semiinf_u[')]:
                add(k, None, 'on ' + w, lambda s, z=z: {'xa': c(s, 0), 'ya': c(s, 0), 'za': c(s, 0) if z == 0 else s.inp('h'), 'xe': c(s, 0), 'ye': c(s, 0), 'ze': c(s, 1)})
    for k in [k for k in E if k.startswith('vps_u[')]:
        if 'SmoothModel=0' not in k: add(k, None, 'at its own position', lambda s: {k: c(s, 0) for k in ('CP[0]', 'CP[1]', 'XV[0]', 'XV[1]')})
    for k in [k for k in E if k.startswith('vp_u[')]:
        add(k, None, 'at its own position', lambda s: {'CP[0]': s.inp('Pv[0]'), 'CP[1]': s.inp('Pv[1]')})
    return out

class Live(object):
    def __init__(self, s, m):
        self.s = s; self.g = s.g; self.m = m; self.memo = {}; self.smemo = {}; self.bad = []; self.vmemo = {}
        d = {s.inp(k).id: v for k, v in m.items()}
        self.f = lambda n: d.get(n.id)
    def sub(self, n): return self.g.subst(n, self.f, self.smemo)
    def zero(self, n):
        """does the substituted expression vanish: True, False or None"""
        n = self.sub(n)
        r = self.vmemo.get(n.id)
        if r is None: r = self.vmemo[n.id] = (self._zero(n),)
        return r[0]
    def _zero(self, n):
        c = self.g.cval(n)
        if c is not None: return c == 0
        nf = self.s.nf
        vs = set()
        for path, rs in self.s.split.run([n], None, True):
            c = self.g.cval(rs[0])
            if c is not None: vs.add(c == 0); continue
            p = nf.nf(rs[0])
            z = nf.iszero(p)
            if z is True: vs.add(True); continue
            vs.add(False)
        return vs.pop() if len(vs) == 1 else None
    def truth(self, c):
        if c.op == 'bool': return c.attr
        if c.op == 'not': t = self.truth(c.args[0]); return None if t is None else not t
        if c.op in ('and', 'or'):
            ts = [self.truth(x) for x in c.args]
            stop = c.op == 'or'
            if stop in ts: return stop
            return None if None in ts else not stop
        if c.op == 'cmp':
            for x, y in (c.args, c.args[::-1]):
                if self.g.cval(y) in (float('inf'), -float('inf')) and c.attr in ('==', '!='):
                    return (self.pole(x) and self.g.cval(y) > 0) == (c.attr == '==')
            d = self.s.split.canon([self.sub(c)])[0]
            if d.op == 'not': neg = True; d = d.args[0]
            else: neg = False
            if d.op == 'bool': return d.attr != neg
            if d.op == 'cond':
                from .cases import Facts
                p = self.s.nf.condpoly(d.attr)
                v = Facts(self.s.nf).value(d.attr[0], p)
                if v is None: v = self.s.nf.usual(d.attr[0], p)
                return None if v is None else v != neg
        return None
    def pole(self, x):
        """an elliptic integral at its pole, found among the live alternatives"""
        if x.op == 'sel':
            t = self.truth(x.args[0])
            if t is None: return False
            return self.pole(x.args[1 if t else 2])
        if x.op == 'fn' and x.attr == 'ellipk': return self.one(x.args[0]) is True
        if x.op == 'fn' and x.attr == 'ellippi': return self.one(x.args[0]) is True or self.one(x.args[1]) is True
        if x.op == '/': return self.zero(x.args[1]) is True and self.zero(x.args[0]) is False
        return False
    def one(self, m): return self.zero(self.g.sub(m, self.g.const(1)))
    def check(self, roots):
        """outputs whose value at the point is not a finite number: [(node, reason, sure)]"""
        self.ev = {}
        out = {}
        for r in roots:
            st, why, at = self.state(r)
            if st in FIN: continue
            out.setdefault((at.id, why), (at, why, st != '?'))
        return list(out.values())
    def state(self, n):
        """value of a live node in extended arithmetic: z zero, f finite, i +-infinite, n not a number, ? unknown"""
        r = self.ev.get(n.id)
        if r is None:
            self.ev[n.id] = ('f', '', n)
            r = self.ev[n.id] = self._state(n)
        return r
    def nonzero(self, n, st):
        if st == 'z': return False
        z = self.zero(n)
        return None if z is None else not z
    def _state(self, n):
        g = self.g
        if n.op == 'const':
            c = g.cval(n)
            if c is None: return ('f', '', n)
            if c != c: return ('n', 'the value is nan', n)
            if abs(c) == float('inf'): return ('i', 'the value is %s' % c, n)
            return ('z' if c == 0 else 'f', '', n)
        if n.op == 'sel':
            t = self.truth(n.args[0])
            if t is not None: return self.state(n.args[1 if t else 2])
            a, b = self.state(n.args[1]), self.state(n.args[2])
            if a[0] in FIN and b[0] in FIN: return a if a[0] == b[0] else ('f', '', n)
            if a[0] == b[0]: return a
            return a if b[0] in FIN else b
        if n.op in ('cmp', 'and', 'or', 'not', 'bool', 'input', 'dim', 'mu', 'iota'): return ('f', '', n)
        ss = [self.state(x) for x in n.args]
        for s in ss:
            if s[0] in 'n?': return s
        S = [s[0] for s in ss]; inf = [s for s in ss if s[0] == 'i']
        if n.op == '/': return self.quot(n, n.args, ss)
        if n.op == '*':
            if inf:
                for x, st in zip(n.args, S):
                    if st == 'i': continue
                    nz = self.nonzero(x, st)
                    if nz is not True: return ('n' if nz is False else '?', 'infinity times zero' + (' is possible' if nz is None else '') + ': ' + inf[0][1], n)
                return inf[0]
            return ('z' if 'z' in S else 'f', '', n)
        if n.op == 'pow':
            e = g.cval(n.args[1])
            if inf: return ('z', '', n) if e is not None and e < 0 else inf[0] if e is not None and e > 0 else ('?', 'a power of infinity', n)
            if e is not None and e < 0:
                nz = self.nonzero(n.args[0], S[0])
                if nz is None: return ('?', 'a divisor may vanish', n)
                if not nz: return ('i', 'division by zero', n)
            return ('f', '', n)
        if n.op == '+':
            if len(inf) > 1: return ('?', 'a difference of infinite terms is possible: ' + inf[0][1], n)
            if inf: return inf[0]
            return ('z' if all(s == 'z' for s in S) else 'f', '', n)
        if n.op == 'fn':
            if inf:
                if n.attr in ('sqrt', 'abs', 'cosh'): return inf[0]
                if n.attr in ('arctan', 'tanh', 'sign', 'arctan2'): return ('f', '', n)
                if n.attr == 'exp':
                    s = self.sign(n.args[0])
                    if s: return ('z', '', n) if s < 0 else inf[0]
                if n.attr in ('sin', 'cos', 'tan'): return ('n', inf[0][1], n)
                return ('?', '%s of infinity' % n.attr, n)
            if n.attr in ('ellipk', 'ellippi') and self.pole(n): return ('i', 'elliptic integral at its pole', n)
            if n.attr == 'log':
                nz = self.nonzero(n.args[0], S[0])
                if nz is None: return ('?', 'a logarithm of zero is possible', n)
                if not nz: return ('i', 'logarithm of zero', n)
            return ('f', '', n)
        if inf: return inf[0]
        return ('f', '', n)
    def quot(self, n, args, ss):
        a, b = ss
        if b[0] == 'i': return ('z', '', n) if a[0] != 'i' else ('n', 'infinity over infinity: ' + b[1], n)
        nz = self.nonzero(args[1], b[0])
        if nz is None: return ('?', 'a divisor may vanish', n)
        if nz: return a if a[0] != 'f' else ('f', '', n)
        if a[0] == 'i': return a
        na = self.nonzero(args[0], a[0])
        return ('i' if na else 'n', 'division by zero', n)
    def sign(self, n):
        """sign of an infinite value: 1, -1 or None"""
        if n.op == 'const':
            c = self.g.cval(n)
            return (c > 0) - (c < 0) if c is not None else None
        if n.op == 'sel':
            t = self.truth(n.args[0])
            return None if t is None else self.sign(n.args[1 if t else 2])
        if n.op == 'fn' and n.attr in ('sqrt', 'abs', 'exp', 'cosh', 'ellipk'): return 1
        if n.op == 'pow':
            if n.args[0].op != 'sel' and self.g.cval(n.args[1]) not in (1, 3): return 1
            return self.sign(n.args[0])
        if n.op in ('*', '/'):
            r = 1
            for x in n.args:
                s = self.sign(x)
                if s is None: return None
                r *= s
            return r
        if n.op == '+':
            for x in n.args:
                if self.state(x)[0] == 'i': return self.sign(x)
        if n.op == 'input' and (n.attr[1] in self.s.nf.positive if hasattr(self.s.nf, 'positive') else False): return 1
        return None

FIN = 'zf'
