"""The Cartesian coordinates of the point are replaced by x=rho cos(a), y=rho sin(a) in the value graph of
every straight (unskewed) singularity; the polar components must not depend on a, case by case, as
algebraic normal forms.  Skewed routines are checked with zero skew where their formula is closed."""
from sa import entries, kern, sym

STRAIGHT = ['vc_tang_u_doublet', 'vc_tang_u', 'vc_longi_u', 'vc_root_u', 'cylinder_tang_semi_inf_u_raw', 'cylinder_tang_u',
            'vl_semiinf_straight_u', 'ring_u', 'rings_u', 'ss_u']
AXIAL = ['vc_longi_u_polar', 'vl_semiinf_straight_u_polar', 'svc_root_u_polar']

def run(rep, repo, tier):
    E = dict((e.key, e) for e in entries.kernels())
    for k in STRAIGHT + AXIAL + ['svc_root_u', 'doublet_line_u', 'doublet_u']:
        e = E[k]
        for cfg in e.configs:
            if cfg[0].startswith('cart'): continue
            one(rep, repo, e, cfg)
    return 25

def one(rep, repo, e, cfg):
    s = sym.Sess(repo); g = s.g
    over = {}
    if e.key == 'rings_u':
        for nm in ('Xr', 'Yr'): over[nm] = lambda it: it.arr(it.g.const(0), ('nring',))
    if e.key == 'svc_root_u_polar' or e.key == 'svc_root_u' or e.key == 'doublet_line_u':
        over['m'] = lambda it: it.num(0)
    r = s.run(e, cfg, over)
    rep.count('configurations')
    if r.dead: rep.undecided('no azimuthal dependence', e.key, 'no path returns'); return
    a, b, rho = s.inp('angle_a'), s.inp('angle_b'), s.inp('rho')
    def at(n, t):
        return s.sub(n, {'Xcp': g.mul(rho, g.fn('cos', t)), 'Ycp': g.mul(rho, g.fn('sin', t)), 'vpsi': t,
                         'm[0]': g.const(0), 'm[1]': g.const(0), 'x0[0]': g.const(0), 'x0[1]': g.const(0)})
    L = r.leaves
    cartesian = e.key in ('doublet_line_u', 'doublet_u')
    if cartesian:
        # Cartesian only: rotate the components by the azimuth first
        ns = [n for _, n in L]
        def pol(t):
            x, y, z = [at(n, t) for n in ns[:3]]
            c, sn = g.fn('cos', t), g.fn('sin', t)
            return [g.add(g.mul(x, c), g.mul(y, sn)), g.sub(g.mul(y, c), g.mul(x, sn)), z]
        A, B = pol(a), pol(b)
        D = [('component %d varies with azimuth' % i, g.sub(x, y)) for i, (x, y) in enumerate(zip(A, B))]
        locs = {'component %d varies with azimuth' % i: n.loc for i, n in enumerate(ns)}
    else:
        D = []; locs = {}
        for i, (p, n) in enumerate(L):
            l = 'component %d varies with azimuth' % i
            D.append((l, g.sub(at(n, a), at(n, b)))); locs[l] = n.loc
    res = s.zero(D, regular=cartesian)
    rep.count('cases', s.ncases)
    sym.report(rep, 'flow of a straight singularity is axisymmetric', e.key, res, locs, cfg[0])
