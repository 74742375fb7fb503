"""Value-graph comparison and exhaustiveness: for each wake model, skew, component and orientation the
velocity of a turbine must equal that of the documented kernel evaluated at the rotor-frame coordinates with
the turbine's own strength of that component, radius and skew; a model or cut radius given in the call wins
over the turbine's; the far-field model is the cylinder inside and the doublet line outside the cut radius.
For values outside the documented ones every path must end in an error."""
from sa import entries, kern, sym, turb
from sa.interp import Num, Arr, PyC, Tup, NONE, PathDead, Phi
from checks.c13 import leaves, strip
from checks.c11 import local

RULE = 'the requested model is evaluated with the strength of its component'
AXES = {k: () for k in ('R', 'chi', 'yaw', 'hub0', 'hub1', 'hub2', 'U0', 'U1', 'U2', 'Lambda', 'cut')}

# model, skewed, component -> (module, kernel, {parameter: what})
VC, VS, VD = 'wiz.VortexCylinder', 'wiz.VortexCylinderSkewed', 'wiz.VortexDoublet'
TABLE = {
    ('VC', False, 'tang'): (VC, 'vc_tang_u', {'gamma_t': 'gamma_t', 'R': 'R', 'polar_out': False}),
    ('VC', True, 'tang'): (VS, 'svc_tang_u', {'gamma_t': 'gamma_t', 'R': 'R', 'm': 'm', 'polar_out': False}),
    ('VC', False, 'longi'): (VC, 'vc_longi_u', {'gamma_l': 'gamma_l', 'R': 'R', 'polar_out': False}),
    ('VC', True, 'longi'): (VS, 'svc_longi_u', {'gamma_l': 'gamma_l', 'R': 'R', 'm': 'm', 'polar_out': False}),
    ('VCFF', False, 'tang'): (VC, 'vc_tang_u_doublet', {'gamma_t': 'gamma_t', 'R': 'R', 'r_bar_Cut': 'cut', 'polar_out': False}),
    ('VD', False, 'tang'): (VD, 'doublet_line_u', {'dmz_dz': 'dm'}),
    ('SS', False, 'tang'): ('wiz.SelfSimilar', 'ss_u', {'gamma_t': 'gamma_t', 'R': 'R'}),
}
for mod in ('VC', 'VCFF', 'VD', 'SS'):
    TABLE[mod, False, 'root'] = (VC, 'vc_root_u', {'Gamma_r': 'Gamma_r', 'polar_out': False})
    TABLE[mod, True, 'root'] = (VS, 'svc_root_u', {'Gamma_r': 'Gamma_r', 'm': 'm', 'polar_out': False})

SCHI = 0.3

def run(rep, repo, tier):
    for (model, skew, comp), spec in sorted(TABLE.items()):
        for ori in ('z', 'x'):
            for ncyl in (1, 'n') if (model == 'VC' and comp == 'root') else (1,):
                for how in ('own', 'call'): one(rep, repo, model, skew, comp, ori, ncyl, how, spec)
    several(rep, repo)
    farfield(rep, repo)
    reject(rep, repo)
    return 80

def attr(it, w, n):
    return it.obj(w)['attrs'].get(n)

def one(rep, repo, model, skew, comp, ori, ncyl, how, spec):
    lab = 'Model=%s,%s,%s,%s,ncyl=%s,%s' % (model, 'skewed' if skew else 'straight', comp, ori, ncyl, how)
    rep.count('configurations')
    best = None
    for opaque in (True, False):
        op = {} if opaque else {'wiz.Solver.WakeVorticityFromCt': turb.solver_handler('WakeVorticityFromCt', 'nr'), 'wiz.Solver.WakeVorticityFromGamma': turb.solver_handler('WakeVorticityFromGamma', 'nr')}
        other = 'SS' if model != 'SS' else 'VD'
        r = turb.make_turbine(repo, ori=ori, ncyl=ncyl, model=model if how == 'own' else other, chi='sym' if skew else 0, opaque=op, opaque_kernels=opaque); it = r.it; g = it.g
        kw = {c: c == comp for c in ('tang', 'longi', 'root')}
        if how == 'call': kw['Model'] = model
        cut = Num(g.mk('input', (), ('num', 'cut')))
        turb.compute_u(r, only_ind=True, R_far_field=cut, **kw)
        if r.dead: best = 'no path returns'; continue
        A = leaves(it, r.value)
        s = sym.Sess('', it=it, positive=('R', 'q', 'cut'), axes=AXES)
        # the kernel at rotor coordinates
        i = s.inp
        X = {'Xcp': it.arr(i('xl'), ('P',)), 'Ycp': it.arr(i('yl'), ('P',)), 'Zcp': it.arr(i('zl'), ('P',))}
        chi = i('chi')
        val = {'R': Num(i('R')), 'm': Num(g.fn('tan', chi)), 'cut': cut}
        for n in ('gamma_t', 'gamma_l', 'Gamma_r'): val[n] = attr(it, r.wt, n)
        if val['gamma_t'] is not None: val['dm'] = it.binop('Mult', val['gamma_t'], Num(g.mul(g.const(3.141592653589793), g.pow(i('R'), g.const(2)))))
        args = dict(X)
        for p, w in spec[2].items(): args[p] = it.num(w) if isinstance(w, bool) else val[w]
        f = it.func(spec[0], spec[1])
        if f is None: raise kern.Anchor('%s.%s not found' % spec[:2])
        try: v = it.call(f, [], args)
        except PathDead: best = 'kernel does not return'; continue
        K = [n for _, n in leaves(it, v)]
        if len(K) == 1: K = [g.const(0), g.const(0), K[0]]
        c, sn = g.fn('cos', i('yaw')), g.fn('sin', i('yaw'))
        rot = lambda x, y, z: [g.add(g.mul(c, x), g.mul(sn, z)), y, g.sub(g.mul(c, z), g.mul(sn, x))] if ori == 'z' else [g.sub(g.mul(c, z), g.mul(sn, x)), g.add(g.mul(c, x), g.mul(sn, z)), y]
        G = rot(*K); d = rot(i('xl'), i('yl'), i('zl'))
        m = {P: g.add(i('hub%d' % k), d[k]) for k, P in enumerate(('Xg', 'Yg', 'Zg'))}
        A2 = strip(g, [s.sub(n, m) for _, n in A]); G2 = strip(g, G)
        D = [('component %d is not that of the documented kernel (%s, %s, %s)' % (k, model, 'skewed' if skew else 'straight', comp), g.sub(a, b)) for k, (a, b) in enumerate(zip(A2, G2))]
        res = s.zero(D, regular=True)
        if best is None or isinstance(best, str): best = (res, {l: A[k][1].loc for k, (l, _) in enumerate(D)})
        if all(x[1] is True for x in res): best = (res, {}); break
        if best[0] is not res and all(x[1] is not False for x in res): best = (res, {})
    if isinstance(best, str): rep.fail(RULE, 'WindTurbine.compute_u', '%s for a documented combination (%s, %s, %s)' % (best, model, skew, comp), None, configs=lab)
    else: sym.report(rep, RULE, 'WindTurbine.compute_u', best[0], best[1], lab)

def several(rep, repo):
    """turbines with several cylinders: the routine for many cylinders, with the strengths and radii of the turbine"""
    V, W = VC, VS
    T = {(False, 'tang'): (V, 'vcs_tang_u', 'gamma_t'), (True, 'tang'): (W, 'svcs_tang_u', 'gamma_t'), (False, 'longi'): (V, 'vcs_longi_u', 'gamma_l'), (True, 'longi'): (W, 'svcs_longi_u', 'gamma_l')}
    for (skew, comp), (mod, fn, par) in sorted(T.items()):
        for ori in ('z', 'x'):
            lab = 'several cylinders,%s,%s,%s' % ('skewed' if skew else 'straight', comp, ori)
            rep.count('configurations')
            best = None
            for opaque in (True, False):
                op = {} if opaque else {'wiz.Solver.WakeVorticityFromCt': turb.solver_handler('WakeVorticityFromCt', 'nr'), 'wiz.Solver.WakeVorticityFromGamma': turb.solver_handler('WakeVorticityFromGamma', 'nr')}
                r = turb.make_turbine(repo, ori=ori, ncyl='n', chi='sym' if skew else 0, opaque=op, opaque_kernels=opaque); it = r.it; g = it.g
                turb.compute_u(r, only_ind=True, **{c: c == comp for c in ('tang', 'longi', 'root')})
                if r.dead: best = 'no path returns'; continue
                A = leaves(it, r.value)
                s = sym.Sess('', it=it, positive=('R',), axes=AXES); i = s.inp
                gam = attr(it, r.wt, par); rad = attr(it, r.wt, 'r')
                if not isinstance(gam, Arr) or not isinstance(rad, Arr) or gam.shape != rad.shape or len(gam.shape) != 1: best = None; break
                row = lambda a: it.arr({(0,) + k: n for k, n in it.content(a).items()}, (1,) + a.shape)
                z1 = it.arr({(0,): g.const(0)}, (1,))
                args = {'Xcp': it.arr(i('xl'), ('P',)), 'Ycp': it.arr(i('yl'), ('P',)), 'Zcp': it.arr(i('zl'), ('P',)), par: row(gam), 'R': row(rad), 'Xcyl': z1, 'Ycyl': z1, 'Zcyl': z1}
                f = it.func(mod, fn)
                if f is None: raise kern.Anchor('%s.%s not found' % (mod, fn))
                if skew: args['m'] = it.arr({(0,): g.fn('tan', i('chi'))}, (1,) + gam.shape)
                try: v = it.call(f, [], args)
                except PathDead: best = 'kernel does not return'; continue
                K = [n for _, n in leaves(it, v)]
                if len(K) != 3: best = None; break
                c, sn = g.fn('cos', i('yaw')), g.fn('sin', i('yaw'))
                rot = lambda x, y, z: [g.add(g.mul(c, x), g.mul(sn, z)), y, g.sub(g.mul(c, z), g.mul(sn, x))] if ori == 'z' else [g.sub(g.mul(c, z), g.mul(sn, x)), g.add(g.mul(c, x), g.mul(sn, z)), y]
                G = rot(*K); d = rot(i('xl'), i('yl'), i('zl'))
                m = {P: g.add(i('hub%d' % k), d[k]) for k, P in enumerate(('Xg', 'Yg', 'Zg'))}
                A2 = strip(g, [s.sub(n, m) for _, n in A]); G2 = strip(g, G)
                D = [('component %d is not that of the documented kernel (%s, %s)' % (k, fn, par), g.sub(a, b)) for k, (a, b) in enumerate(zip(A2, G2))]
                res = s.zero(D, regular=True)
                if best is None or isinstance(best, str) or all(x[1] is not False for x in res): best = (res, {l: A[k][1].loc for k, (l, _) in enumerate(D)})
                if all(x[1] is True for x in res): break
            if isinstance(best, str): rep.fail(RULE, 'WindTurbine.compute_u', '%s for a documented combination (%s)' % (best, lab), None, configs=lab)
            elif best is None: rep.undecided(RULE, lab, 'strengths of the cylinders not found')
            else: sym.report(rep, RULE, 'WindTurbine.compute_u', best[0], best[1], lab)

def farfield(rep, repo):
    rule = 'far-field model is the cylinder inside and the doublet line outside the cut radius'
    from sa.cases import Facts
    E = dict((e.key, e) for e in entries.kernels())
    for pol in ('polar', 'cart'):
        s = sym.Sess(repo, positive=('R', 'rho', 'r_bar_Cut', 'cut', 's_')); g = s.g; it = s.it
        # points at distance s R from the origin: X= s R sin b cos a ...
        a_, b_, q = s.inp('a'), s.inp('b'), s.inp('s_')
        rad = g.mul(s.inp('R'), q)
        r = s.run(E['vc_tang_u_doublet'], [c for c in E['vc_tang_u_doublet'].configs if c[0].startswith(pol)][0])
        r1 = s.run(E['vc_tang_u'], [c for c in E['vc_tang_u'].configs if c[0] == pol + ',eps0'][0])
        if r.dead or r1.dead: rep.undecided(rule, 'vc_tang_u_doublet', 'no path returns'); continue
        X, Y, Z = [s.inp(n) for n in ('Xcp', 'Ycp', 'Zcp')]
        f = it.func(VD, 'doublet_line_polar_u')
        if f is None: raise kern.Anchor('doublet_line_polar_u not found')
        rc = g.fn('sqrt', g.add(g.mul(X, X), g.mul(Y, Y)))
        dm = g.mul(s.inp('gamma_t'), g.mul(g.const(3.141592653589793), g.mul(s.inp('R'), s.inp('R'))))
        L = [n for _, n in leaves(it, it.call(f, [it.arr(rc, ('P',)), it.arr(Z, ('P',)), Num(dm)], {}))]
        if pol == 'cart':
            ps = g.fn('arctan2', Y, X); L = [g.mul(L[0], g.fn('cos', ps)), g.mul(L[0], g.fn('sin', ps)), L[1]]
        A = [n for _, n in r.leaves]; V = [n for _, n in r1.leaves]
        m = {'Zcp': g.mul(rad, g.fn('cos', b_)), 'Xcp': g.mul(g.mul(rad, g.fn('sin', b_)), g.fn('cos', a_)), 'Ycp': g.mul(g.mul(rad, g.fn('sin', b_)), g.fn('sin', a_))}
        # the distance is decided from the definition: sqrt(x^2+y^2+z^2) against cut*R
        dist = g.fn('sqrt', g.add(g.add(g.mul(X, X), g.mul(Y, Y)), g.mul(Z, Z)))
        cutR = g.mul(s.inp('r_bar_Cut'), s.inp('R'))
        far = Facts(s.nf).assume('<', s.nf.nf(g.sub(cutR, dist)), True)
        near = Facts(s.nf).assume('<', s.nf.nf(g.sub(dist, cutR)), True)
        rep.count('configurations', 2)
        sym.report(rep, rule, 'vc_tang_u_doublet', s.zero([('outside: component %d is not the doublet line' % k, g.sub(x, y)) for k, (x, y) in enumerate(zip(A, L))], far, regular=True), {}, pol)
        sym.report(rep, rule, 'vc_tang_u_doublet', s.zero([('inside: component %d is not the cylinder' % k, g.sub(x, y)) for k, (x, y) in enumerate(zip(A, V))], near, regular=True), {}, pol)

def expect_error(rep, where, what, dead, lab):
    rule = 'values outside of the documented ones are rejected'
    rep.count('rejections')
    if dead: rep.ok(rule, '%s: %s' % (where, what))
    else: rep.fail(rule, where, '%s gives a result instead of an error' % what, None, configs=lab)

def reject(rep, repo):
    F = dict(tang=False, longi=False, root=False)
    for ori in ('z', 'x'):
        for how in ('own', 'call'):
            def t(model, what, chi=0, ncyl=1, **kw):
                r = turb.make_turbine(repo, ori=ori, ncyl=ncyl, model=model if how == 'own' else None, chi=chi)
                if how == 'call': kw['Model'] = model
                n = len(r.it.events)
                turb.compute_u(r, only_ind=True, **dict(F, **kw))
                # a vanishing strength needs no model
                zero = not r.dead and any(e.kind == 'raise' for e in r.it.events[n:]) and all(r.it.g.cval(x) == 0 for _, x in leaves(r.it, r.value))
                expect_error(rep, 'WindTurbine.compute_u', what, r.dead or zero, '%s,%s' % (ori, how))
            for chi in (0, SCHI):
                t('unknown', 'an unknown wake model', chi, tang=True)
                t('unknown', 'an unknown wake model', chi, longi=True)
                t('vc', 'an unknown wake model', chi, tang=True)
                if how == 'own' and ori == 'z':
                    for m in ('V', 'VCF', 'VCFFF', 'VDD', 'S', 'SSS', 'VC ', ''): t(m, 'an unknown wake model', chi, tang=True)
                t('unknown', 'an unknown wake model (several cylinders)', chi, ncyl='n', tang=True)
                for m in ('VCFF', 'VD', 'SS'):
                    t(m, 'the longitudinal component of a model without one', chi, longi=True)
                    t(m, 'several cylinders with a model without them', chi, ncyl='n', tang=True)
            for m in ('VCFF', 'VD', 'SS'): t(m, 'a skewed wake with a model without skew', SCHI, tang=True)
    # kernels and solvers
    E = dict((e.key, e) for e in entries.kernels()); S = dict((e.key, e) for e in entries.solver())
    def k(e, kw, what):
        r = kern.run_entry(repo, e, ('', kw))
        expect_error(rep, e.func, what, r.dead, str(kw))
    for m in ('unknown', 'Saff', 'Saffman2', 'lin', 'linear2', 'S', 'l', ''): k(E['ring_u_polar'], {'reg_method': m, 'epsilon': 0.1}, 'an unknown regularization')
    for m in (-1, 6, 7, 12): k(E['vl_semiinf_u[visc_model=1]'], {'visc_model': m}, 'an unknown viscous model')
    for sm, ko in ((3, 2), (-1, 2), (1, 3), (1, 10), (2, 3), (2, 12)):
        k(E['vps_u[SmoothModel=1,KernelOrder=2]'], {'SmoothModel': sm, 'KernelOrder': ko}, 'an unknown smoothing model or kernel order')
    for n in ('InductionsFromCirculation_VC_Cont', 'WakeVorticityFromCirculation_Cont', 'WakeVorticityFromCirculation_Discr'):
        for m in ('unknown', 'a', 'analytica', 'analytical2', 'num', ''):
            e = S[n]; c = dict(e.configs[0][1]); c['method'] = m
            k(e, c, 'an unknown method')
    # a turbine without loading cannot give a velocity
    for ori in ('z', 'x'):
        r = turb.make_turbine(repo, ori=ori, load=False)
        for kw in (dict(tang=True), dict(root=True), dict(longi=True), {}):
            turb.compute_u(r, **dict(F, **kw))
            expect_error(rep, 'WindTurbine.compute_u', 'a turbine whose loading has not been set', r.dead, ori)
    # loading without a specification
    for kw in ({}, {'gamma_t_Ct': 'f'}):
        r = turb.make_turbine(repo, load=False); it = r.it
        k2 = {'Lambda': r.S('Lambda')}
        try:
            if kw:
                f = it.func('wiz.elliptic', 'ellipticPiCarlson')
                k2['gamma_t_Ct'] = f
            turb.method(it, r.wt, 'update_loading', [], k2); dead = False
        except PathDead: dead = True
        expect_error(rep, 'WindTurbine.update_loading', 'loading without thrust or circulation', dead, str(kw))
