"""Evaluating the value graph over an abstract domain, to a fixpoint through loop nodes (mu)."""

class Domain(object):
    bottom = None          # value of a loop-carried node before its first evaluation
    def join(self, n, a, b): raise NotImplementedError
    def transfer(self, n, av): raise NotImplementedError
    def widen(self, n, a): return a
    def eq(self, a, b): return a == b

def order(roots):
    """children-first order of the nodes reachable from roots (a loop node comes after its initial
    value only), and the loop nodes"""
    out = []; seen = set(); mus = []
    st = []
    pend = list(roots)
    while pend:
        r = pend.pop()
        st.append((r, 0))
        while st:
            n, i = st.pop()
            if i == 0:
                if n.id in seen: continue
                seen.add(n.id)
            kids = n.args[:1] if n.op == 'mu' else n.args
            if i < len(kids):
                st.append((n, i + 1))
                if kids[i].id not in seen: st.append((kids[i], 0))
            else:
                out.append(n)
                if n.op == 'mu':
                    mus.append(n)
                    if len(n.args) > 1: pend.append(n.args[1])
    return out, mus

def evaluate(dom, roots, maxit=12):
    """{node id: abstract value}"""
    seq, mus = order(roots)
    val = {}
    for n in mus: val[n.id] = dom.bottom
    last = None
    for k in range(maxit):
        dom.begin()
        changed = False
        for n in seq:
            if n.op == 'mu':
                v = val.get(n.args[0].id)
                if len(n.args) > 1:
                    nx = val.get(n.args[1].id)
                    if nx is not None: v = dom.join(n, v, nx)
                if k >= maxit - 3: v = dom.widen(n, v, val[n.id]) if val[n.id] is not None and not dom.eq(v, val[n.id]) else v
            else:
                v = dom.transfer(n, [val.get(a.id) for a in n.args])
            if n.id not in val or not dom.eq(val[n.id], v):
                val[n.id] = v; changed = True
        if not changed: break
    return val
