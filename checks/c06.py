"""Point coordinates and the position of the singularity (cylinder, ring, doublet, vortex point, turbine
hub) are displaced together in the value graph; every output must be unchanged, as an algebraic normal
form.  With a ground plane the displacement is restricted to be parallel to it."""
from sa import entries, kern, sym, turb, poly, cases

COORD = {'Xcp': 'x', 'Ycp': 'y', 'Zcp': 'z', 'zcp': 'z', 'z': 'z', 'vz': 'z', 'CP[0]': 'x', 'CP[1]': 'y', 'Pv[0]': 'x', 'Pv[1]': 'y', 'XV[0]': 'x', 'XV[1]': 'y',
         'x0[0]': 'x', 'x0[1]': 'y', 'x0[2]': 'z', 'Xcyl': 'x', 'Ycyl': 'y', 'Zcyl': 'z', 'Xr': 'x', 'Yr': 'y', 'Zr': 'z', 'z0': 'z', 'z1': 'z', 'z2': 'z'}

def run(rep, repo, tier):
    for e in entries.kernels():
        roles = [x[3] for x in e.args]
        if not any(str(r).startswith('org') for r in roles): continue
        for cfg in e.configs: kernel(rep, repo, e, cfg)
    turbines(rep, repo, tier)
    return 60

AX = dict((d, ()) for d in ('dx', 'dy', 'dz'))

def moved(e, cfg):
    """axes along which the routine has both a coordinate and an origin"""
    pos = set(); org = set()
    for name, kind, dims, role in e.args:
        if role in ('x', 'y', 'z'): pos.add(role)
        if role == 'xy': pos |= {'x', 'y'}
        if role == 'org3': org |= {'x', 'y', 'z'}
        if str(role).startswith('org:'): org |= set(role[4:])
    ax = pos & org
    if cfg[1].get('Ground'): ax.discard('y')
    return ax

def kernel(rep, repo, e, cfg):
    s = sym.Sess(repo, axes=AX, positive=('R', 'vr', 'rho', 'ntheta', 'r0', 'rcp', 'r')); g = s.g
    over = {}
    if e.key == 'doublet_line_polar_u_num': pass
    r = s.run(e, cfg, over)
    rep.count('configurations')
    rule = 'velocity unchanged when points and singularity move together'
    if r.dead: rep.undecided(rule, e.key, 'no path returns'); return
    names = set(x[0] for x in e.args)
    for ax in sorted(moved(e, cfg)):
        m = {}
        for k, a in COORD.items():
            if a == ax and (k.split('[')[0] in names): m[k] = g.add(s.inp(k), s.inp('d' + ax))
        if e.key == 'doublet_line_polar_u_num': m['zmax'] = g.add(s.inp('zmax'), s.inp('dz'))
        D = []; locs = {}
        for p, n in r.leaves:
            l = 'output %s changes when everything is displaced along %s' % (p, ax)
            D.append((l, g.sub(s.sub(n, m), n))); locs[l] = n.loc
        res = s.both(D)
        sym.report(rep, rule, e.key, res, locs, cfg[0])

def turbines(rep, repo, tier):
    rule = 'velocity unchanged when points and turbine move together'
    for model in ('VC', 'VCFF', 'VD', 'SS'):
        for ori in ('z', 'x'):
            for ncyl in (1, 'n'):
                if ncyl != 1 and model != 'VC': continue
                for chi in ('sym', None, 0):
                    for ground in (False, True):
                        for nw in (False, True):
                            r = turb.make_turbine(repo, ori=ori, ncyl=ncyl, model=model, ground=ground, chi=chi)
                            turb.compute_u(r, longi=True, root=True, only_ind=False, no_wake=nw)
                            where = 'WindTurbine.compute_u'
                            cfg = 'Model=%s,%s,ncyl=%s,chi=%s,ground=%s,no_wake=%s' % (model, ori, ncyl, chi, ground, nw)
                            rep.count('configurations')
                            if r.dead: rep.undecided(rule, where + ' ' + cfg, 'no path returns'); continue
                            s = sym.Sess(repo, axes=AX, it=r.it); g = s.g
                            vert = 1 if ori == 'z' else 2
                            for i, (ax, P) in enumerate(zip('xyz', ('Xg', 'Yg', 'Zg'))):
                                if ground and i == vert: continue
                                m = {P: g.add(s.inp(P), s.inp('d' + ax)), 'hub%d' % i: g.add(s.inp('hub%d' % i), s.inp('d' + ax))}
                                D = []; locs = {}
                                for p, n in sym.leaves(r):
                                    l = 'output %s changes when points and hub are displaced along %s' % (p, ax)
                                    D.append((l, g.sub(s.sub(n, m), n))); locs[l] = n.loc
                                res = s.zero(D)
                                sym.report(rep, rule, where, res, locs, cfg)
