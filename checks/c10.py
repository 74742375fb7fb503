"""Value-graph comparison of the ground option: with ground the induced velocity must equal the velocity
without ground plus the same with the hub (or the cylinder) at its mirror position, once each and with the
same strength, for every model, orientation, skew and component; the value of the option given in a call
must win over the setting of the turbine; and the velocity normal to the plane that tangential vorticity
induces at the plane must vanish as a normal form (parity of the kernels included)."""
from sa import entries, kern, sym, turb
from sa.interp import NONE, PathDead
from checks.c13 import leaves, nonzero, strip

POS = ('R', 'vr', 'rho', 'ntheta', 'r0', 'rcp', 'r')
RULE = 'ground adds the mirrored singularity exactly once'

def run(rep, repo, tier):
    kernels(rep, repo)
    turbines(rep, repo)
    override(rep, repo)
    return 60

def kernels(rep, repo):
    E = dict((e.key, e) for e in entries.kernels())
    for key in ('vcs_tang_u', 'svcs_tang_u', 'svcs_longi_u'):
        e = E[key]
        for cfg in e.configs:
            if not cfg[1].get('Ground'): continue
            op = {k: turb.kernel_handler(k, []) for k in turb.KERNELS}
            s = sym.Sess(repo, positive=POS, opaque=op); g = s.g
            r = s.run(e, cfg)
            r0 = s.run(e, (cfg[0], dict(cfg[1], Ground=False)))
            rep.count('configurations')
            if r.dead or r0.dead: rep.undecided(RULE, key, 'no path returns'); continue
            A = nonzero(s, [n for _, n in r.leaves], ('gamma_t', 'gamma_l')); B = nonzero(s, [n for _, n in r0.leaves], ('gamma_t', 'gamma_l'))
            m = {'Ycyl': g.neg(s.inp('Ycyl'))}
            D = []; locs = {}
            for k, (a, b) in enumerate(zip(A, B)):
                l = 'component %d is not direct plus mirrored' % k
                D.append((l, g.sub(a, g.add(b, s.sub(b, m))))); locs[l] = a.loc
            sym.report(rep, RULE, key, s.zero(D, regular=True), locs, cfg[0])
    # no flow through the plane
    rule = 'tangential vorticity induces no velocity through the plane'
    for cfg in E['vcs_tang_u'].configs:
        if not cfg[1].get('Ground'): continue
        s = sym.Sess(repo, positive=POS); g = s.g
        r = s.run(E['vcs_tang_u'], cfg)
        if r.dead: rep.undecided(rule, 'vcs_tang_u', 'no path returns'); continue
        n = nonzero(s, [n for _, n in r.leaves], ('gamma_t',))[1]
        sym.report(rep, rule, 'vcs_tang_u', s.zero([('velocity through the plane', s.sub(n, {'Ycp': g.const(0)}))], regular=True), {}, cfg[0])

def turbines(rep, repo):
    for model in ('VC', 'VCFF', 'VD', 'SS'):
        for ori in ('z', 'x'):
            iv = 1 if ori == 'z' else 2
            for ncyl in ((1, 'n') if model == 'VC' else (1,)):
                for chi in ('sym', None, 0):
                    for comp in (('tang',), ('root',), ('longi',), ('tang', 'longi', 'root')):
                        if model != 'VC' and 'longi' in comp: continue
                        if ncyl != 1 and 'longi' in comp and chi != 'sym': continue    # straight longitudinal cylinders have no image
                        r = turb.make_turbine(repo, ori=ori, ncyl=ncyl, model=model, chi=chi); it = r.it
                        kw = {c: (c in comp) for c in ('tang', 'longi', 'root')}
                        lab = 'Model=%s,%s,ncyl=%s,chi=%s,%s' % (model, ori, ncyl, chi, '+'.join(comp))
                        rep.count('configurations')
                        v = []
                        for gr in (True, False):
                            turb.compute_u(r, only_ind=True, ground=gr, **kw)
                            v.append(None if r.dead else leaves(it, r.value))
                        if v[0] is None or v[1] is None: rep.undecided(RULE, 'WindTurbine.compute_u ' + lab, 'no path returns'); continue
                        s = sym.Sess('', it=it, positive=POS, axes={k: () for k in ('chi', 'yaw', 'hub0', 'hub1', 'hub2', 'U0', 'U1', 'U2')}); g = s.g
                        A = strip(g, [n for _, n in v[0]]); B = strip(g, [n for _, n in v[1]])
                        h = 'hub%d' % iv; m = {h: g.neg(s.inp(h))}
                        D = []; locs = {}
                        for k, (a, b) in enumerate(zip(A, B)):
                            l = 'component %d is not direct plus mirrored' % k
                            D.append((l, g.sub(a, g.add(b, s.sub(b, m))))); locs[l] = a.loc
                        if len(A) != 3 or len(B) != 3: rep.fail(RULE, 'WindTurbine.compute_u', 'not three components', None, configs=lab)
                        sym.report(rep, RULE, 'WindTurbine.compute_u', s.zero(D, regular=ncyl != 1 and 'longi' in comp), locs, lab)

def override(rep, repo):
    rule = 'the ground option of a call wins over the setting of the turbine'
    for ori in ('z', 'x'):
        for ncyl in (1, 'n'):
            for own in (False, True):
                r = turb.make_turbine(repo, ori=ori, ncyl=ncyl, ground=own); it = r.it
                val = {}
                for g_ in (None, False, True):
                    turb.compute_u(r, only_ind=True, ground=g_, root=True)
                    val[g_] = None if r.dead else [n for _, n in leaves(it, r.value)]
                    if g_ is None:
                        turb.compute_u(r, only_ind=True, root=True)
                        val['absent'] = None if r.dead else [n for _, n in leaves(it, r.value)]
                if any(v is None for v in val.values()): rep.undecided(rule, 'WindTurbine.compute_u', 'no path returns'); continue
                rep.count('configurations')
                s = sym.Sess('', it=it); lab = '%s,ncyl=%s,own=%s' % (ori, ncyl, own)
                ref = turb.make_turbine(repo, ori=ori, ncyl=ncyl, ground=not own)
                D = []
                for k, (a, b, c) in enumerate(zip(val[None], val[own], val['absent'])):
                    D.append(('default is not the setting of the turbine, component %d' % k, s.g.sub(a, b)))
                    D.append(('leaving the option out is not the setting of the turbine, component %d' % k, s.g.sub(c, b)))
                sym.report(rep, rule, 'WindTurbine.compute_u', s.zero(D), {}, lab)
                if all(x is y for x, y in zip(val[True], val[False])): rep.fail(rule, 'WindTurbine.compute_u', 'the option has no effect', None, configs=lab)
                else: rep.ok(rule, 'option has an effect ' + lab)
                # the other value equals what a turbine with that setting gives: compared by construction in one graph
                o2 = it.obj(r.wt)['attrs']; k0 = [n for n in o2 if n.lower() == 'ground']
                if k0:
                    o2[k0[0]] = it.num(not own)
                    turb.compute_u(r, only_ind=True, root=True)
                    b = None if r.dead else [n for _, n in leaves(it, r.value)]
                    if b is not None: sym.report(rep, rule, 'WindTurbine.compute_u', s.zero([('call option differs from the same setting, component %d' % k, s.g.sub(x, y)) for k, (x, y) in enumerate(zip(val[not own], b))]), {}, lab)
