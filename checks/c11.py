"""Value-graph analysis of the wake-blanking option in the coordinates of the rotor: points are placed at
radius q R and distance w R downstream of the hub for symbolic q, w, azimuth, yaw and hub position.  Under
q<1 and w>=0 every component must vanish; under q>1.1, or w<-1, every component must be the one
computed without the option; case by case on the conditions of the code, for every model, orientation, skew,
ground and component option."""
from sa import kern, sym, turb
from sa.cases import Facts
from checks.c13 import leaves

POS = ('R', 'q')
RULE = 'blanked exactly in the wake'

def local(s, ori):
    """global coordinates of the point at radius q R, azimuth a, w R downstream"""
    g = s.g; i = s.inp
    R, q, w, a, y = i('R'), i('q'), i('w'), i('a'), i('yaw')
    lx, ly, lz = g.mul(g.mul(R, q), g.fn('cos', a)), g.mul(g.mul(R, q), g.fn('sin', a)), g.mul(R, w)
    c, sn = g.fn('cos', y), g.fn('sin', y)
    h = [i('hub%d' % k) for k in range(3)]
    if ori == 'z':
        d = [g.add(g.mul(c, lx), g.mul(sn, lz)), ly, g.sub(g.mul(c, lz), g.mul(sn, lx))]
    else:
        d = [g.sub(g.mul(c, lz), g.mul(sn, lx)), g.add(g.mul(c, lx), g.mul(sn, lz)), ly]
    return {P: g.add(x, y) for P, x, y in zip(('Xg', 'Yg', 'Zg'), h, d)}

def run(rep, repo, tier):
    for model in ('VC', 'VCFF', 'VD', 'SS'):
        for ori in ('z', 'x'):
            for ncyl in ((1, 'n') if model == 'VC' else (1,)):
                for chi in ('sym', None, 0):
                    for ground in (False, True):
                        for comp in (('tang',), ('root',), ('tang', 'longi', 'root')):
                            if model != 'VC' and 'longi' in comp: continue
                            one(rep, repo, model, ori, ncyl, chi, ground, comp)
    return 100

def one(rep, repo, model, ori, ncyl, chi, ground, comp):
    r = turb.make_turbine(repo, ori=ori, ncyl=ncyl, model=model, chi=chi); it = r.it
    kw = {c: (c in comp) for c in ('tang', 'longi', 'root')}
    lab = 'Model=%s,%s,ncyl=%s,chi=%s,ground=%s,%s' % (model, ori, ncyl, chi, ground, '+'.join(comp))
    rep.count('configurations')
    v = []
    for nw in (True, False):
        turb.compute_u(r, only_ind=True, no_wake=nw, ground=ground, **kw)
        v.append(None if r.dead else leaves(it, r.value))
    turb.compute_u(r, only_ind=True, ground=ground, **kw)
    dflt = None if r.dead else leaves(it, r.value)
    if v[0] is None or v[1] is None: rep.undecided(RULE, 'WindTurbine.compute_u ' + lab, 'no path returns'); return
    s = sym.Sess('', it=it, positive=POS, axes={k: () for k in ('R', 'chi', 'yaw', 'hub0', 'hub1', 'hub2', 'U0', 'U1', 'U2', 'Lambda')}); g = s.g
    m = local(s, ori)
    A = [s.sub(n, m) for _, n in v[0]]; B = [s.sub(n, m) for _, n in v[1]]
    one_ = g.const(1)
    def fact(*cs):
        f = Facts(s.nf)
        for op, node, val in cs: f = f.assume(op, s.nf.nf(node), val)
        return f
    q, w = s.inp('q'), s.inp('w')
    inside = fact(('<', g.sub(q, one_), True), ('<', w, False))
    ups = fact(('<', g.add(w, one_), True)); out = fact(('<', g.sub(g.const(1.1), q), True))
    def comps(txt, nodes): return [('%s, component %d' % (txt, k), n) for k, n in enumerate(nodes)]
    where = 'WindTurbine.compute_u'
    locs = {'not zero in the wake, component %d' % k: n.loc for k, (_, n) in enumerate(v[0])}
    sym.report(rep, RULE, where, s.zero(comps('not zero in the wake', A), inside), locs, lab)
    D = [g.sub(a, b) for a, b in zip(A, B)]
    sym.report(rep, RULE, where, s.zero(comps('changed upstream of the rotor', D), ups), {}, lab)
    sym.report(rep, RULE, where, s.zero(comps('changed outside of the rotor radius', D), out), {}, lab)
    if dflt is not None:
        sym.report(rep, 'no blanking unless requested', where, s.zero(comps('default differs from no blanking', [g.sub(a, b) for (_, a), (_, b) in zip(dflt, v[1])])), {}, lab)
