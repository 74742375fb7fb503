"""The value graph of every kernel is compared with its own reflection: the lateral coordinate of the
point (and of the singularity) is negated and, inside integrals over a full circle, the integration
angle as well.  Components must be even or odd as a mirror image requires (rings of vorticity and
doublets reflect onto themselves, axial vorticity onto its opposite)."""
import math
from sa import entries, kern, sym

SIG = {'tang': {'x': 1, 'y': -1, 'z': 1, 'r': 1, 'psi': -1},
       'swirl': {'x': -1, 'y': 1, 'z': -1, 'r': -1, 'psi': 1}}
SIG['ss'] = SIG['tang']
LEG = ['z', 'psi', 'x', 'y', 'z', 'x', 'r']

def comps(e, cfg, n):
    if e.get('legacy'): return LEG[:n]
    if n == 1: return ['x' if e.func == 'ss_u' else 'z']
    pol = cfg[0].startswith('polar') or cfg[1].get('polar_out') is True
    if n == 2: return ['r', 'z'] if pol else ['x', 'y']
    return ['r', 'psi', 'z'] if pol else ['x', 'y', 'z']

YS = {'Ycp': 'x', 'vpsi': '', 'Ycyl': '', 'Yr': '', 'ya': '', 'ye': '', 'm[1]': '', 'x0[1]': '', 'CP[1]': '', 'Pv[1]': '', 'XV[1]': ''}

def run(rep, repo, tier):
    for e in entries.kernels():
        names = [x[0] for x in e.args]
        if not any(k.split('[')[0] in names for k in YS): continue
        if e.get('fam') not in SIG: continue
        for cfg in e.configs: one(rep, repo, e, cfg)
    return 120

def circles(s, node):
    """integration variables over a full circle below a node: {linspace node: candidate offsets}"""
    out = {}
    ns = s.g.reach([node])
    for n in ns.values():
        if n.op == 'linspace':
            d = s.nf.add(s.nf.nf(n.args[1]), s.nf.nf(n.args[0]), -1.0)
            full = set(d.t) == {()} and abs(d.t[()] - 2 * math.pi) < 1e-9
            if full: out[n] = [s.g.const(0)]
    for n in ns.values():
        if n.op == '+':
            for i in (0, 1):
                if n.args[i] in out and not any(s.g.contains(n.args[1 - i], l) for l in out):
                    if n.args[1 - i] not in out[n.args[i]]: out[n.args[i]].append(n.args[1 - i])
    return out

def reflect(s, node, names, offs):
    """node with the lateral inputs negated and circle variables reversed"""
    g = s.g
    flip = {}
    for k in YS:
        flip[s.inp(k).id] = g.neg(s.inp(k))
    memo = {}
    def go(n, inside):
        key = (n.id, inside)
        r = memo.get(key)
        if r is not None: return r
        if n.id in flip: r = flip[n.id]
        elif n.op == 'linspace' and inside and n in offs:
            # t -> -t where t = n + offset
            r = g.neg(g.add(n, g.mul(g.const(2), offs[n])))
        elif n.op == 'red' and n.attr[0] == 'trapz' and len(n.args) > 1:
            r = g.mk('red', (go(n.args[0], True), n.args[1]) + tuple(n.args[2:]), n.attr)
        elif n.op == 'mu' or not n.args: r = n
        else:
            na = [go(a, inside or n.op == 'red') for a in n.args]
            if all(x is y for x, y in zip(na, n.args)): r = n
            else:
                old = g.curloc; g.curloc = n.loc; r = g.rebuild(n, na); g.curloc = old
        memo[key] = r
        return r
    return go(node, False)

def one(rep, repo, e, cfg):
    s = sym.Sess(repo); g = s.g
    r = s.run(e, cfg)
    rep.count('configurations')
    rule = 'mirror-symmetric flow'
    if r.dead: rep.undecided(rule, e.key, 'no path returns'); return
    names = [x[0] for x in e.args]
    L = [n for _, n in r.leaves]
    cs = comps(e, cfg, len(L))
    if len(cs) != len(L): rep.undecided(rule, e.key, 'unexpected number of components'); return
    sig = SIG[e.get('fam')]
    circ = {}
    for n in L: circ.update(circles(s, n))
    tries = [{}]
    for l, offs in circ.items(): tries = [dict(t, **{}) | {l: o} for t in tries for o in offs]
    best = None
    for t in tries[:6]:
        D = []; locs = {}
        for i, (c, n) in enumerate(zip(cs, L)):
            l = 'component %s is not %s under reflection' % (c, 'even' if sig[c] > 0 else 'odd')
            if l in locs: l += ' (%d)' % i
            m = reflect(s, n, names, t)
            D.append((l, g.sub(m, n) if sig[c] > 0 else g.add(m, n))); locs[l] = n.loc
        res = s.zero(D, regular=True)
        if best is None or sum(x[1] is True for x in res) > sum(x[1] is True for x in best): best = res
        if all(x[1] is True for x in res): break
    rep.count('cases', s.ncases)
    sym.report(rep, rule, e.key, best, locs, cfg[0])
