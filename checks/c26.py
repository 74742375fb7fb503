"""Value-graph evaluation of the grid layout for concrete numbers of rows and columns (one to five, and just above
any whole number the module compares something with) with symbolic spacings and hub height, compared with the set of positions of a regular grid: every position
exactly once, evenly spaced laterally around the origin and downstream from it, all at hub height, and the
same again at minus hub height with mirrors.  Also the thrust-strength relation of the constant-thrust grid."""
from collections import Counter
from sa import kern, sym, turb
from sa.interp import Num, NONE, PathDead, PyC
from sa.sizes import beyond
from checks.c13 import leaves

def run(rep, repo, tier):
    top = 5 if tier == 'quick' else 8
    for nx in range(1, top):
        for nz in range(1, top):
            for mirror in (False, True):
                for dz in (True, False): layout(rep, repo, nx, nz, mirror, dz)
    # larger grids: just above every whole number something is compared with in the module
    big = beyond(repo, 'wiz.WindFarm', 2, 200)
    for n in big:
        for nx, nz in ((1, n), (n, 1), (2, (n + 1) // 2)): layout(rep, repo, nx, nz, False, True); layout(rep, repo, nx, nz, True, False)
    strength(rep, repo, 2, 1)
    for n in big: strength(rep, repo, 2, (n + 1) // 2); strength(rep, repo, 1, n); strength(rep, repo, n, 1)
    return 40

def lin(s, node, names):
    """node as a linear combination of the named inputs with numeric coefficients, or None"""
    p = s.nf.nf(node); out = Counter()
    for m, c in p.t.items():
        if m == (): return None
        if len(m) != 1 or m[0][1] != 1: return None
        nm = s.nf.atoms[m[0][0]].name
        if nm not in names: return None
        out[nm] = c
    return out

def layout(rep, repo, nx, nz, mirror, dz):
    where = 'gridLayout'; lab = '%d x %d%s%s' % (nx, nz, ',mirror' if mirror else '', '' if dz else ',one spacing')
    s = sym.Sess(repo); it = s.it; g = s.g
    S = lambda n: Num(s.inp(n))
    f = it.func('wiz.WindFarm', 'gridLayout')
    if f is None: raise kern.Anchor('wiz.WindFarm.gridLayout not found')
    kw = {'nx': it.num(nx), 'xSpacing': S('dx'), 'nz': it.num(nz), 'hub_height': S('h'), 'mirror': it.num(mirror)}
    if dz: kw['zSpacing'] = S('dz')
    rep.count('layouts')
    rule = 'every grid position is used exactly once'
    try: L = leaves(it, it.call(f, [], kw))
    except PathDead: rep.fail(rule, where, 'the layout ends in an error', None, configs=lab); return
    n = nx * nz * (2 if mirror else 1)
    if len(L) % 3: rep.undecided(rule, where + ' ' + lab, 'layout not understood'); return
    if len(L) // 3 != n: rep.fail(rule, where, 'number of positions is not the number of turbines', None, configs=lab); return
    X, Y, Z = [[q for _, q in L[k * n:(k + 1) * n]] for k in range(3)]
    zn = 'dz' if dz else 'dx'
    cx = [lin(s, q, ('dx',)) for q in X]; cy = [lin(s, q, ('h',)) for q in Y]; cz = [lin(s, q, (zn,)) for q in Z]
    if any(c is None for c in cx): rep.fail(rule, where, 'lateral positions are not multiples of the lateral spacing', None, configs=lab); return
    if any(c is None for c in cz): rep.fail(rule, where, 'longitudinal positions are not multiples of the longitudinal spacing', None, configs=lab); return
    if any(c is None for c in cy): rep.fail(rule, where, 'vertical positions are not the hub height', None, configs=lab); return
    pos = Counter((round(a['dx'], 9), round(b['h'], 9), round(c[zn], 9)) for a, b, c in zip(cx, cy, cz))
    xs = sorted({p[0] for p in pos}); zs = sorted({p[2] for p in pos}); ys = sorted({p[1] for p in pos})
    def even(v): return all(abs(b - a - 1) < 1e-9 for a, b in zip(v, v[1:]))
    bad = None
    if ys != ([-1, 1] if mirror else [1]): bad = 'turbines (and mirrors) are not at plus (and minus) hub height'
    elif len(xs) != nx or not even(xs): bad = 'lateral positions are not evenly spaced'
    elif len(zs) != nz or not even(zs): bad = 'longitudinal positions are not evenly spaced'
    elif zs[0] != 0: bad = 'the first row is not at the origin'
    elif abs(xs[0] + xs[-1] + (nx + 1) % 2) > 1e-9: bad = 'the rows are not centred'
    elif len(pos) != n: bad = 'a grid position is used twice or left out'
    if bad: rep.fail(rule, where, bad, None, configs=lab)
    else: rep.ok(rule, '%s %s' % (where, lab))

def strength(rep, repo, nx, nz):
    """uniform strength of the constant-thrust grid: momentum theory"""
    rule = 'strength of a constant-thrust turbine'; where = 'windfarm_gridlayout_CTconst'
    got = []
    def cap(it, f, env):
        got.append(env); z = it.arr(it.g.const(0), ('P',))
        from sa.interp import Tup
        return Tup([z, z, z])
    s = sym.Sess(repo, opaque={'wiz.VortexCylinder.vcs_tang_u': cap, 'wiz.VortexCylinder.vc_tang_u': cap}, positive=('R', 'U0')); it = s.it; g = s.g
    f = it.func('wiz.WindFarm', where)
    if f is None: raise kern.Anchor('wiz.WindFarm.%s not found' % where)
    S = lambda n: Num(s.inp(n))
    P = [it.arr(s.inp(n), ('P',)) for n in ('Xcp', 'Ycp', 'Zcp')]
    try: it.call(f, P + [S('R'), S('CT'), S('U0'), it.num(nx), S('dx'), it.num(nz), S('dz')], {})
    except PathDead: pass
    one = g.const(1)
    D = []
    for e in got:
        gam = e.get('gamma_t')
        for k, nd in kern.nodes_of(it, gam) if gam is not None else []:
            w = g.add(one, g.div(nd, s.inp('U0')))
            D.append(('far-wake velocity balances the thrust', g.sub(g.mul(w, w), g.sub(one, s.inp('CT')))))
        Rv = e.get('R')
        for k, nd in kern.nodes_of(it, Rv) if Rv is not None else []:
            D.append(('radius of every turbine', g.sub(nd, s.inp('R'))))
    rep.count('configurations')
    if not D: rep.undecided(rule, where, 'strengths not found'); return
    sym.report(rep, rule, where, s.zero(D, regular=True), {}, '')
