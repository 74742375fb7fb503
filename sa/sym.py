"""Comparing outputs of entry points as normal forms, case by case."""
import itertools, time
from . import kern, poly, cases
from .poly import TooBig

def leaves(r):
    return [(p + s, n) for p, v in kern.outputs(r.it, r.value) for s, n in kern.nodes_of(r.it, v)]

START = time.time(); TOTAL = 420
BUDGET = 25     # seconds of case distinction per comparison

def ratio(p, q):
    """the constant c with p = c*q, or None"""
    if not p.t or p.t.keys() != q.t.keys(): return None
    m = next(iter(p.t)); k = p.t[m] / q.t[m]
    return k if all(abs(p.t[m] - k * q.t[m]) <= 1e-12 * abs(p.t[m]) for m in p.t) else None

class Sess(object):
    """one interpreter (one value graph) with a normal-form engine"""
    def __init__(self, repo, positive=('R', 'vr', 'rho', 'ntheta', 'R0'), opaque=None, axes=None, opaque_elliptic=True, it=None):
        self.repo = repo
        self.it = it or kern.new_interp(repo, opaque, opaque_elliptic)
        self.g = self.it.g
        self.nf = poly.NF(self.g, positive, axes)
        self.split = cases.Split(self.g, self.nf)
    def inp(self, n): return self.g.mk('input', (), ('num', n))
    def run(self, e, cfg, over=None):
        r = kern.run_entry(self.repo, e, cfg, over=over, it=self.it)
        r.leaves = [] if r.dead else leaves(r)
        return r
    def sub(self, node, m):
        """replace input nodes {name: node}"""
        d = {self.inp(k).id: v for k, v in m.items()}
        return self.g.subst(node, lambda n: d.get(n.id))
    def subpairs(self, node, pairs):
        d = {a.id: b for a, b in pairs}
        return self.g.subst(node, lambda n: d.get(n.id))
    def both(self, diffs, facts=None, limit=600, budget=10):
        """the regular case, then every other case: a difference found in one of the others counts only
        when that case does not rest on an exact equality (which the normal form does not use)"""
        res = self.zero(diffs, facts, limit, True)
        if any(r[1] is not True for r in res): return res
        self.noeq = True; self.budget = budget
        try: r2 = self.zero(diffs, facts, limit, False)
        finally: self.noeq = False; self.budget = BUDGET
        d = {r[0]: r for r in r2 if r[1] is False}
        return [d.get(r[0], r) for r in res]
    noeq = False; budget = BUDGET
    def zero(self, diffs, facts=None, limit=600, regular=False):
        """diffs: [(label, node)] -> [(label, verdict, case text, residual text)]; verdict True/False/None,
        one entry per label (the first failing case)"""
        self.split.limit = limit
        out = {l: (True, '', '') for l, _ in diffs}
        ncase = 0; t0 = time.time()
        rest = []
        for l, n in diffs:
            if self.direct(n): continue
            rest.append((l, n))
        alld = diffs; diffs = rest
        self.ncases = 1
        if not diffs: return [(l,) + out[l] for l, _ in alld]
        try:
            for path, rs in self.split.run([n for _, n in diffs], facts, regular):
                ncase += 1
                if all(out[l][0] is False for l, _ in diffs): break
                if self.noeq and any(v and c.op == 'cond' and c.attr[0] == '==' for c, v in path): continue
                if time.time() - t0 > self.budget or time.time() - START > TOTAL: raise TooBig()
                for (l, _), r in zip(diffs, rs):
                    if out[l][0] is False: continue
                    try:
                        p = self.nf.nf(r)
                        z = self.nf.iszero(p)
                        if not z:
                            p = self.nf.resolve_signs(p, self.split.facts.sign)
                            z = self.nf.iszero(p)
                        if z is False and self.signsplit(p): z = True
                        if z is False and self.vague(p): z = None
                    except TooBig:
                        p = None; z = None
                    if z is not True: out[l] = (z, self.split.describe(path), self.nf.show(p, 3) if p else 'expression too large')
        except TooBig:
            for l in out:
                if out[l][0] is True: out[l] = (None, '', 'too many cases')
        self.ncases = ncase
        for l, n in alld:
            if out[l][0] is None and not self.inmm:
                m = self.minmax(n)
                if m is None: continue
                self.inmm = True
                try: r = self.zero([(l, m)], facts, limit, regular)[0]
                finally: self.inmm = False
                if r[1] is not None: out[l] = r[1:]
        return [(l,) + out[l] for l, _ in alld]
    inmm = False
    def minmax(self, n):
        """maxima and minima written as selections (both orders of the two sides are possible)"""
        g = self.g
        ms = [x for x in g.reach([n]).values() if x.op == 'fn' and x.attr in ('max', 'min') and len(x.args) == 2]
        if not ms or len(ms) > 4: return None
        # innermost first: each one is rewritten in terms of the rewritten ones below it
        new = {}
        def sub(x): return g.subst(x, lambda y: new.get(y.id))
        for m in sorted(ms, key=lambda m: m.id):
            a, b = (sub(x) for x in m.args)
            new[m.id] = g.sel(g.cmp('<', a, b), *((b, a) if m.attr == 'max' else (a, b)))
        return sub(n)
    def signsplit(self, p):
        """zero for every choice of the signs of the quantities under |.| and sign(.)"""
        qs = []; st = [a for m in p.t for a, _ in m]; seen = set()
        while st:
            a = st.pop()
            if a in seen: continue
            seen.add(a); at = self.nf.atoms[a]
            ds = at.data if at.kind == 'fn' else [at.data] if at.kind in ('base', 'abs', 'cos') else []
            if at.kind == 'abs' or at.kind == 'fn' and at.name == 'sign':
                q = ds[0]
                if not any(ratio(q, x) for x in qs): qs.append(q)
            for d in ds:
                for m in d.t: st += [x for x, _ in m]
        if not qs or len(qs) > 4: return False
        for combo in itertools.product((1, -1), repeat=len(qs)):
            def sign(d):
                s = self.split.facts.sign(d)
                if s: return s
                for q, v in zip(qs, combo):
                    k = ratio(d, q)
                    if k: return v if k > 0 else -v
                return None
            if self.nf.iszero(self.nf.resolve_signs(p, sign)) is not True: return False
        return True
    def direct(self, n):
        """zero without distinguishing cases (conditions as 0/1 variables)"""
        if n.op == 'const': return self.g.cval(n) == 0
        old = poly.TERMS
        poly.TERMS = 400
        try: return self.nf.iszero(self.nf.nf(n)) is True
        except TooBig: return False
        finally: poly.TERMS = old
    VAGUE = {'max', 'min', 'clip', 'nan_to_num', 'floor', 'mod', 'arctan2', 'op:call', 'op:unk', 'op:mu', 'op:gather', 'op:slice', 'op:concat', 'op:red', 'op:sel', 'op:updsl', 'op:updx', 'op:outer', 'op:ravel', 'op:last', 'op:interp', 'arcsin'}
    def vague(self, p):
        """the residual involves operations the normal form has no algebra for"""
        seen = set(); logs = 0
        st = [a for m in p.t for a, _ in m]
        while st:
            a = st.pop()
            if a in seen: continue
            seen.add(a)
            at = self.nf.atoms[a]
            if at.kind == 'fn' and at.name in self.VAGUE: return True
            if at.kind == 'fn' and at.name == 'log':      # one logarithm alone cannot cancel
                logs += 1
                if logs > 1: return True
            if at.kind == 'sin': st.append(at.data); continue
            ds = at.data if at.kind == 'fn' else [at.data] if at.kind in ('base', 'abs', 'cos') else []
            for d in ds:
                for m in d.t: st += [x for x, _ in m]
        return False

def report(rep, rule, where, results, locs, cfg=None, what=None):
    """results of Sess.zero into the report; locs: {label: loc}"""
    for l, z, case, res in results:
        if z is True: rep.ok(rule, '%s %s%s' % (where, l, ' [%s]' % cfg if cfg else ''))
        elif z is None: rep.undecided(rule, where + ' ' + l, res)
        else: rep.fail(rule, where, l, locs.get(l), ['residual: ' + res] + (['case: ' + case] if case else []), cfg)
