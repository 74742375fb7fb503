"""Removing case distinctions already decided by an enclosing one: within the branch of sel(c,a,b)
where c is known, c is replaced by its truth value."""

LANE = {'at', 'gather', 'slice', 'rev', 'cumsum', 'cumtrapz', 'concat', 'last', 'sort', 'exists', 'interp', 'argmin', 'upd', 'updsl', 'updf', 'updx', 'outer', 'bound'}

class Cofactor(object):
    def __init__(self, g):
        self.g = g; self.sup = {}; self.memo = {}; self.known = {}; self.catoms = {}; self.uniform = set()   # conditions that are the same at every lane
    def support(self, root):
        """atomic conditions deciding some sel below a node (frozenset of ids)"""
        sup = self.sup
        st = [(root, 0)]
        busy = set()
        while st:
            n, i = st.pop()
            if n.id in sup: continue
            if i == 0: busy.add(n.id)
            if n.op == 'mu': sup[n.id] = frozenset(); continue
            if i < len(n.args):
                st.append((n, i + 1))
                if n.args[i].id not in sup: st.append((n.args[i], 0))
            else:
                s = frozenset()
                for a in n.args: s |= sup.get(a.id, frozenset())
                if n.op == 'sel': s |= self.atoms(n.args[0])
                sup[n.id] = s
        return sup[root.id]
    def atoms(self, c):
        s = self.catoms.get(c.id)
        if s is None:
            s = frozenset([c.id])
            if c.op in ('and', 'or', 'not'):
                for a in c.args: s |= self.atoms(a)
            if c.op == 'cmp' and c.attr == '!=': s |= frozenset([self.g.mk('cmp', c.args, '==').id])
            self.catoms[c.id] = s
        return s
    def assume(self, env, c, v):
        """env extended with c == v and what follows"""
        env = dict(env)
        g = self.g
        st = [(c, v)]
        while st:
            while st:
                c, v = st.pop()
                if c.op == 'not': st.append((c.args[0], not v)); continue
                if c.op == 'bool': continue
                if c.op == 'cmp' and c.attr == '!=':
                    st.append((g.mk('cmp', c.args, '=='), not v))
                env[c.id] = v
                self.known[c.id] = c
                if c.op == 'and' and v or c.op == 'or' and not v:
                    for a in c.args: st.append((a, v))
                if c.op == 'cmp' and c.attr in ('<', '<='):
                    a, b = c.args
                    rev_s = g.mk('cmp', (b, a), '<'); rev_n = g.mk('cmp', (b, a), '<=')
                    if c.attr == '<':
                        env[rev_n.id] = not v
                        if v: env[rev_s.id] = False; env[g.mk('cmp', (a, b), '<=').id] = True
                    else:
                        env[rev_s.id] = not v
                        if not v: env[rev_n.id] = True; env[g.mk('cmp', (a, b), '<').id] = False
            # a disjunction with one open member (and dually)
            for k, v in list(env.items()):
                d = self.known.get(k)
                if d is None or not (d.op == 'or' and v or d.op == 'and' and not v): continue
                vs = [(a, self.value(a, env)) for a in d.args]
                if any(x is v for _, x in vs): continue
                op = [a for a, x in vs if x is None]
                if len(op) == 1 and self.value(op[0], env) is None: st.append((op[0], v))
        return env
    def value(self, c, env):
        if c.id in env: return env[c.id]
        if c.op == 'bool': return c.attr
        if c.op == 'not':
            v = self.value(c.args[0], env); return None if v is None else not v
        if c.op == 'cmp' and c.attr == '!=':
            v = env.get(self.g.mk('cmp', c.args, '==').id); return None if v is None else not v
        if c.op == 'and':
            vs = [self.value(a, env) for a in c.args]
            return False if False in vs else None if None in vs else True
        if c.op == 'or':
            vs = [self.value(a, env) for a in c.args]
            return True if True in vs else None if None in vs else False
        return None
    def simpc(self, c, env):
        """condition with its decided parts replaced"""
        v = self.value(c, env)
        if v is not None: return self.g.const(v)
        if c.op == 'not': return self.g.not_(self.simpc(c.args[0], env))
        if c.op == 'and': return self.g.and_(self.simpc(c.args[0], env), self.simpc(c.args[1], env))
        if c.op == 'or': return self.g.or_(self.simpc(c.args[0], env), self.simpc(c.args[1], env))
        return c
    def go(self, n, env):
        if not n.args or n.op == 'mu': return n
        s = self.support(n)
        if not s: return n
        key = (n.id, tuple(sorted(env.items())) if env else ())
        r = self.memo.get(key)
        if r is not None: return r
        g = self.g
        if n.op == 'sel':
            c = n.args[0]
            v = self.value(c, env)
            if v is None:
                a = self.go(n.args[1], self.restrict(n.args[1], self.assume(env, c, True)))
                b = self.go(n.args[2], self.restrict(n.args[2], self.assume(env, c, False)))
                c2 = self.go(self.simpc(c, env), self.restrict(c, env))
                if c2 is c and a is n.args[1] and b is n.args[2]: r = n
                else:
                    old = g.curloc; g.curloc = n.loc
                    r = g.sel(c2, a, b); g.curloc = old
            else:
                x = n.args[1] if v else n.args[2]
                r = self.go(x, self.restrict(x, env))
        else:
            e2 = env
            if n.op in LANE or n.op == 'red' and not all(isinstance(a, tuple) and a[0] == 'cnt' for a in n.attr[1]):
                # the operand is taken at other lanes, where the condition may differ
                e2 = {k: v for k, v in env.items() if k in self.uniform}
            na = [self.go(a, self.restrict(a, e2)) for a in n.args]
            if all(x is y for x, y in zip(na, n.args)): r = n
            else:
                old = g.curloc; g.curloc = n.loc
                r = g.rebuild(n, na); g.curloc = old
        self.memo[key] = r
        return r
    def restrict(self, n, env):
        if not env: return env
        s = self.support(n)
        if not s: return {}
        imp = [(k, self.atoms(self.known[k])) for k in env if self.known.get(k) is not None and self.known[k].op in ('or', 'and')]
        more = True
        while more:     # facts reaching s through compound conditions
            more = False
            for k, a in list(imp):
                if not s.isdisjoint(a): s = s | a; imp.remove((k, a)); more = True
        return {k: v for k, v in env.items() if k in s}
    def restrict_all(self, n, env):
        self.support(n)
        return self.restrict(n, env)
def cofactor(g, root, memo=None):
    """memo: a Cofactor shared between roots"""
    cf = memo or Cofactor(g)
    return cf.go(root, {})
