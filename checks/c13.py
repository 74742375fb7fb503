"""Value-graph comparison of superpositions: routines for many cylinders, rings or vortex points against
the sum, over every member, of the same routine for one member (the loop or reduction is kept symbolic, so
the number of members is arbitrary) and against the single routine; a turbine with several components or
cylinders against the sum of the parts; a farm of any number of turbines against the sum of its turbines
evaluated at the same points under the same options."""
from sa import entries, kern, sym, turb, allruns, simp
from sa.interp import Num, Arr, NONE, PathDead, PyC, Tup
from sa.sizes import beyond

POS = ('R', 'vr', 'rho', 'ntheta', 'r', 'r0', 'rcp', 'Rr')

def leaves(it, v): return [(p + s, n) for p, x in kern.outputs(it, v) for s, n in kern.nodes_of(it, x)]

def run(rep, repo, tier):
    E = dict((e.key, e) for e in entries.kernels())
    for key, single, names in (
            ('vcs_tang_u', 'vc_tang_u', {'gamma_t': 'gamma_t', 'R': 'R'}), ('vcs_longi_u', 'vc_longi_u', {'gamma_l': 'gamma_l', 'R': 'R'}),
            ('svcs_tang_u', 'svc_tang_u', {'gamma_t': 'gamma_t', 'R': 'R', 'm': 'm'}), ('svcs_longi_u', 'svc_longi_u', {'gamma_l': 'gamma_l', 'R': 'R', 'm': 'm'})):
        cylinders(rep, repo, E, key, single, names)
    few(rep, repo, E)
    rings(rep, repo, E)
    for k in sorted(E):
        if k.startswith('vps_u['): points(rep, repo, E[k])
    components(rep, repo)
    multi(rep, repo)
    farms(rep, repo)
    grid(rep, repo)
    return 150

def nonzero(s, nodes, names):
    """within the members, strengths are taken as non-zero (their zero case is the linearity property)"""
    g = s.g
    def strength(x):
        while x.op == 'at' or x.op == 'fn' and x.attr == 'abs': x = x.args[0]
        return x.op == 'input' and str(x.attr[1]).split('[')[0] in names
    cf = simp.Cofactor(g); env = {}
    for n in g.reach(nodes).values():
        if n.op == 'cmp' and any(g.cval(a) == 0 for a in n.args):
            o = n.args[0] if g.cval(n.args[1]) == 0 else n.args[1]
            if o.op in ('at', 'fn', 'input') and strength(o):
                if n.attr == '==': env[n.id] = False
                elif n.attr == '!=': env[n.id] = True
                elif n.attr == '<' and g.cval(n.args[0]) == 0 and o.op == 'fn': env[n.id] = True
                if n.id in env: cf.known[n.id] = n
    if not env: return nodes
    # conditions below a loop sum are the same lane by lane
    def go(n): return g.subst(n, lambda x: g.const(env[x.id]) if x.id in env else None)
    return [go(n) for n in nodes]

def members(s, axes):
    return [s.g.mk('loopidx', (), (a, 0)) for a in axes]

def at2(g, x, idx):
    for i in idx: x = g.mk('at', (x, i))
    return x

def total(s, node, idx, axes):
    g = s.g
    for i, a in list(zip(idx, axes))[::-1]: node = g.mk('sum', (node,), (a, i.id))
    return node

def compare(rep, s, rule, where, A, B, what, lab, names=()):
    g = s.g
    if len(A) != len(B):
        rep.fail(rule, where, '%s: %d against %d components' % (what, len(A), len(B)), None, configs=lab); return None
    A2 = nonzero(s, [n for _, n in A], names); B2 = nonzero(s, list(B), names)
    D = [('%s, component %d' % (what, k), g.sub(a, b)) for k, (a, b) in enumerate(zip(A2, B2))]
    return s.both(D), {l: A[k][1].loc for k, (l, _) in enumerate(D)}

def cylinders(rep, repo, E, key, single, names):
    rule = 'many members are the sum of single ones'
    e, es = E[key], E[single]
    for cfg in e.configs:
        if cfg[1].get('Ground'): continue
        eps0 = 'epsilon' in cfg[1]
        best = None
        for opaque in (True, False):
            op = {k: turb.kernel_handler(k, []) for k in turb.KERNELS} if opaque else None
            s = sym.Sess(repo, positive=POS, opaque=op); g = s.g
            r = s.run(e, cfg)
            rep.count('configurations')
            if r.dead: rep.undecided(rule, key, 'no path returns'); break
            c1 = dict(polar_out=False)
            if eps0: c1['epsilon'] = cfg[1]['epsilon']
            rs = s.run(es, ('', c1))
            if rs.dead: rep.undecided(rule, key, 'single routine does not return'); break
            ax = ('nc', 'nr'); i, j = members(s, ax)
            m = {'Xcp': g.sub(s.inp('Xcp'), at2(g, s.inp('Xcyl'), [i])), 'Ycp': g.sub(s.inp('Ycp'), at2(g, s.inp('Ycyl'), [i])), 'Zcp': g.sub(s.inp('Zcp'), at2(g, s.inp('Zcyl'), [i]))}
            for n in names: m[n] = at2(g, s.inp(n), [i, j])
            B = [total(s, s.sub(n, m), (i, j), ax) for _, n in rs.leaves]
            res = compare(rep, s, rule, key, r.leaves, B, 'velocity of many cylinders', cfg[0], names)
            if res is None: break
            best = res
            if all(x[1] is True for x in res[0]): break
        if best: sym.report(rep, rule, key, best[0], best[1], cfg[0])

FEW = {'gamma_t': ((2, 0), (0, 3), (5, 7)), 'gamma_l': ((0, 2), (3, 5), (0, 0)), 'R': ((11, 13), (17, 19), (23, 29)), 'm': ((31, 37), (0, 41), (43, 47)),
       'Xcyl': (1, 2, 4), 'Ycyl': (8, 8, 16), 'Zcyl': (32, 64, 32)}

def few(rep, repo, E):
    """a given number of cylinders at distinct places, some of them without strength"""
    rule = 'many members are the sum of single ones'
    for key, single in (('vcs_tang_u', 'vc_tang_u'), ('vcs_longi_u', 'vc_longi_u'), ('svcs_tang_u', 'svc_tang_u'), ('svcs_longi_u', 'svc_longi_u')):
        e = E[key]
        s = sym.Sess(repo, positive=POS, opaque={k: turb.kernel_handler(k, []) for k in turb.KERNELS}); it = s.it; g = s.g
        names = [a[0] for a in e.args if a[0] in FEW]; gam = [n for n in names if n.startswith('gamma')][0]
        def A(it, n):
            v = FEW[n]
            return it.arr({(i, j): g.const(x) for i, y in enumerate(v) for j, x in enumerate(y)}, (3, 2)) if isinstance(v[0], tuple) else it.arr({(i,): g.const(x) for i, x in enumerate(v)}, (3,))
        cfg = [c for c in e.configs if not c[1].get('Ground')][0]
        r = kern.run_entry(repo, e, cfg, it=it, over={n: lambda it, n=n: A(it, n) for n in names})
        rep.count('configurations')
        if r.dead: rep.undecided(rule, key, 'no path returns'); continue
        f = it.func(E[single].module, E[single].func)
        T = None; a = [s.inp(n) for n in ('Xcp', 'Ycp', 'Zcp')]
        for i in range(3):
            for j in range(2):
                if not FEW[gam][i][j]: continue
                kw = {n: it.num(FEW[n][i][j]) for n in names if isinstance(FEW[n][0], tuple)}
                P = [it.arr(g.sub(x, g.const(FEW[c][i])), ('P',)) for x, c in zip(a, ('Xcyl', 'Ycyl', 'Zcyl'))]
                for o in ('epsilon', 'ntheta'):
                    if o in r.args: kw[o] = r.args[o]
                L = [n for _, n in leaves(it, it.call(f, P, dict(kw, polar_out=it.num(False))))]
                T = L if T is None else [g.add(x, y) for x, y in zip(T, L)]
        D = [('velocity of six cylinders at three places, component %d' % k, g.sub(x, t)) for k, ((_, x), t) in enumerate(zip(leaves(it, r.value), T))]
        sym.report(rep, rule, key, s.zero(D), {}, cfg[0])

def rings(rep, repo, E):
    rule = 'many members are the sum of single ones'
    e, es = E['rings_u'], E['ring_u']
    for cfg in e.configs:
        s = sym.Sess(repo, positive=POS); g = s.g
        r = s.run(e, cfg); rs = s.run(es, ('', dict(cfg[1])))
        rep.count('configurations')
        if r.dead or rs.dead: rep.undecided(rule, 'rings_u', 'no path returns'); continue
        (i,) = members(s, ('nring',))
        m = {'Xcp': g.sub(s.inp('Xcp'), at2(g, s.inp('Xr'), [i])), 'Ycp': g.sub(s.inp('Ycp'), at2(g, s.inp('Yr'), [i])), 'Zcp': g.sub(s.inp('Zcp'), at2(g, s.inp('Zr'), [i])),
             'Gamma': at2(g, s.inp('Gamma_r'), [i]), 'R': at2(g, s.inp('Rr'), [i])}
        B = [total(s, s.sub(n, m), (i,), ('nring',)) for _, n in rs.leaves]
        res = compare(rep, s, rule, 'rings_u', r.leaves, B, 'velocity of many rings', cfg[0], ('Gamma_r', 'Gamma'))
        if res: sym.report(rep, rule, 'rings_u', res[0], res[1], cfg[0])

def points(rep, repo, e):
    rule = 'many members are the sum of single ones'
    s = sym.Sess(repo); g = s.g; it = s.it
    cfg = e.configs[0]
    r = s.run(e, cfg)
    one = {'XV': lambda it: it.arr({(0, k): it.g.mk('input', (), ('num', '1XV%d' % k)) for k in range(2)}, (1, 2)),
           'Gammas': lambda it: it.arr({(0,): it.g.mk('input', (), ('num', '1G'))}, (1,)), 'SmoothParam': lambda it: it.arr({(0,): it.g.mk('input', (), ('num', '1S'))}, (1,))}
    r1 = s.run(e, cfg, over=one)
    rep.count('configurations')
    if r.dead or r1.dead: rep.undecided(rule, e.key, 'no path returns'); return
    (i,) = members(s, ('nv',))
    m = {'1XV0': at2(g, s.inp('XV[0]'), [i]), '1XV1': at2(g, s.inp('XV[1]'), [i]), '1G': at2(g, s.inp('Gammas'), [i]), '1S': at2(g, s.inp('SmoothParam'), [i])}
    B = [total(s, s.sub(n, m), (i,), ('nv',)) for _, n in r1.leaves]
    res = compare(rep, s, rule, e.key, r.leaves, B, 'velocity of many vortex points', cfg[0], ('Gammas', '1G'))
    if res: sym.report(rep, rule, e.key, res[0], res[1], cfg[0])

def components(rep, repo):
    rule = 'components of a turbine add up'
    for ori in ('z', 'x'):
        for ncyl in (1, 'n'):
            for chi in ('sym', 0, None):
                for ground in (False, True):
                    r = turb.make_turbine(repo, ori=ori, ncyl=ncyl, chi=chi, ground=ground); it = r.it
                    def u(**k):
                        turb.compute_u(r, only_ind=True, **k)
                        return None if r.dead else leaves(it, r.value)
                    lab = '%s,ncyl=%s,chi=%s,ground=%s' % (ori, ncyl, chi, ground)
                    rep.count('configurations')
                    F = dict(tang=False, longi=False, root=False)
                    parts = [u(**dict(F, **{c: True})) for c in F]
                    for comb in (('tang', 'longi', 'root'), ('tang', 'root'), ('longi', 'root'), ('tang', 'longi'), ()):
                        A = u(**dict(F, **{c: True for c in comb}))
                        sel = [p for c, p in zip(F, parts) if c in comb]
                        if A is None or any(p is None for p in sel): rep.undecided(rule, 'WindTurbine.compute_u ' + lab, 'no path returns'); continue
                        s = sym.Sess('', it=it); g = s.g
                        D = []
                        for k, (p, n) in enumerate(A):
                            t = g.const(0)
                            for q in sel: t = g.add(t, q[k][1])
                            D.append(('the requested components do not add up, component %d' % k, g.sub(n, t)))
                        sym.report(rep, rule, 'WindTurbine.compute_u', s.zero(D), {}, lab + ',' + '+'.join(comb))

def multi(rep, repo):
    """several concentric cylinders: the sum over radii of the one-cylinder flow"""
    rule = 'concentric cylinders of a turbine add up'
    for ori in ('z', 'x'):
        for chi in ('sym', 0):
            for comp in ('tang', 'longi'):
                for ground in (False, True):
                    if ground and comp == 'longi' and chi == 0: continue     # the straight longitudinal routine has no ground image
                    r = turb.make_turbine(repo, ori=ori, ncyl='n', chi=chi, ground=ground); it = r.it
                    lab = '%s,chi=%s,%s,ground=%s' % (ori, chi, comp, ground)
                    F = dict(tang=False, longi=False, root=False); F[comp] = True
                    rep.count('configurations')
                    turb.compute_u(r, only_ind=True, **F)
                    if r.dead: rep.undecided(rule, lab, 'no path returns'); continue
                    A = leaves(it, r.value)
                    g = it.g
                    gam = strength(it, r.wt, 'gamma_t'); gal = strength(it, r.wt, 'gamma_l'); rad = strength(it, r.wt, 'r')
                    if gam is None or gal is None or rad is None: rep.undecided(rule, lab, 'strength of the cylinders not found'); continue
                    # a turbine with one cylinder whose strength and radius are the j-th ones
                    w = r.wt
                    at = it.obj(w)['attrs']
                    old = dict(at)
                    one = lambda n: it.arr({(0,): g.mk('input', (), ('num', n))}, (1,))
                    at['gamma_t'] = one('1g'); at['gamma_l'] = one('1gl'); at['R'] = Num(g.mk('input', (), ('num', '1r'))); at['r'] = one('1r')
                    turb.compute_u(r, only_ind=True, **F)
                    B = leaves(it, r.value) if not r.dead else None
                    at.clear(); at.update(old)
                    if B is None: rep.undecided(rule, lab, 'one cylinder: no path returns'); continue
                    best = None
                    s = sym.Sess('', it=it, positive=POS, axes={k: () for k in ('chi', 'yaw', 'm', 'hub0', 'hub1', 'hub2', 'U0', 'U1', 'U2')})
                    j = g.mk('loopidx', (), ('nr', 0))
                    m = {'1g': g.mk('at', (gam, j)), '1gl': g.mk('at', (gal, j)), '1r': g.mk('at', (rad, j))}
                    D = []
                    A2 = strip(g, [n for _, n in A]); B2 = strip(g, [n for _, n in B])
                    D = [('velocity of concentric cylinders, component %d' % k, g.sub(a, total(s, s.sub(b, m), (j,), ('nr',)))) for k, (a, b) in enumerate(zip(A2, B2))]
                    # the straight longitudinal routine (vanishing skew) has no ground image
                    res = s.zero(D, regular=ground and comp == 'longi')
                    sym.report(rep, rule, 'WindTurbine.compute_u', res, {}, lab)

def strength(it, w, name):
    v = it.obj(w)['attrs'].get(name)
    if not isinstance(v, Arr): return None
    c = it.content(v)
    return list(c.values())[0] if len(c) == 1 and v.shape == ('nr',) else None

def strip(g, nodes):
    """guards of a zero strength are taken as not zero"""
    memo = {}
    def isstr(x):
        while x.op in ('at', 'sel') or x.op == 'fn' and x.attr == 'abs': x = x.args[0] if x.op != 'sel' else x.args[1]
        return x.op == 'sout' or x.op == 'input' and x.attr[1] in ('1g', '1gl', 'gamma_t', 'gamma_l', 'Gamma_r')
    def f(x):
        if x.op == 'cmp' and any(g.cval(a) == 0 for a in x.args):
            o = x.args[0] if g.cval(x.args[1]) == 0 else x.args[1]
            if isstr(o):
                if x.attr == '==': return g.const(False)
                if x.attr == '!=': return g.const(True)
                if x.attr == '<' and g.cval(x.args[0]) == 0 and o.op == 'fn': return g.const(True)
        return None
    return [g.subst(n, f) for n in nodes]

OPTS = [{}, {'no_wake': True}, {'longi': True, 'root': True}, {'ground': True}, {'Model': 'VCFF', 'R_far_field': 5}, {'tang': False, 'root': True}]

ALIKE = {'name': PyC('T')}

def farms(rep, repo):
    rule = 'a farm is the sum of its turbines'
    for n in [0, 1, 2, 3, 'twice', 'alike'] + beyond(repo, 'wiz.WindFarm', 3, 120):
        for opts in OPTS[:4 if n in (0, 1, 2, 3, 'twice', 'alike') else 1]:
            r = allruns.farm(repo, n if isinstance(n, int) else 2, False, opts=opts, order=(0, 1, 0) if n == 'twice' else None, ctor=ALIKE if n == 'alike' else None); it = r.it; g = it.g
            rep.count('configurations')
            if r.dead: rep.undecided(rule, 'WindFarm.velocity_field', 'no path returns'); continue
            A = leaves(it, r.value)
            T = [g.const(0)] * 3
            kw = {k: PyC(v) if isinstance(v, str) else it.num(v) for k, v in opts.items()}
            for w in ([r.wts[k] for k in (0, 1, 0)] if n == 'twice' else r.wts[:n if isinstance(n, int) else 2]):
                L = leaves(it, turb.method(it, w, 'compute_u', list(r.pts), dict(kw, only_ind=it.num(True))))
                T = [g.add(t, x) for t, (_, x) in zip(T, L)]
            s = sym.Sess('', it=it)
            D = [('sum over %s turbines, component %d' % ({'twice': 'repeated', 'alike': 'alike'}.get(n, n), k), g.sub(a, t)) for k, ((_, a), t) in enumerate(zip(A, T))]
            sym.report(rep, rule, 'WindFarm.velocity_field', s.zero(D), {}, str(opts))
    for opts in OPTS:
        kw = {}
        r = allruns.sym_farm(repo, False); it = r.it
        k2 = {k: PyC(v) if isinstance(v, str) else it.num(v) for k, v in opts.items()}
        del r.calls[:]
        try: v = turb.method(it, r.farm, 'velocity_field', list(r.pts), k2)
        except PathDead: rep.fail(rule, 'WindFarm.velocity_field', 'no path returns', None, configs=str(opts)); continue
        rep.count('configurations')
        s = sym.Sess('', it=it); g = it.g
        idx = it.loop_index('nWT')
        D = [('sum over the turbines, component %d' % k, g.sub(n, g.mk('sum', (g.mk('wtu', (idx,), k),), ('nWT', idx.id)))) for k, (p, n) in enumerate(leaves(it, v))]
        if len(D) != 3: rep.fail(rule, 'WindFarm.velocity_field', 'not three components', None)
        sym.report(rep, rule, 'WindFarm.velocity_field', s.zero(D), {}, str(opts))
        if not r.calls: rep.fail(rule, 'WindFarm.velocity_field', 'no turbine is asked for its velocity', None, configs=str(opts))
        for env, i, loc in r.calls:
            for a, pt in zip(('Xg', 'Yg', 'Zg'), r.pts):
                same(rep, it, rule, env.get(a), pt, 'turbines are evaluated at other points (%s)' % a, loc, opts)
            for k, want in opts.items():
                got = env.get(k)
                gv = got.v if isinstance(got, PyC) else g.cval(got.node) if isinstance(got, Num) else None
                if gv == want: rep.ok(rule, 'option %s reaches the turbines' % k)
                else: rep.fail(rule, 'WindFarm.velocity_field', 'option %s does not reach the turbines' % k, loc, configs=str(opts))

def same(rep, it, rule, a, b, what, loc, opts):
    ok = isinstance(a, Arr) and isinstance(b, Arr) and it.content(a) == it.content(b)
    if ok: rep.ok(rule, 'points')
    else: rep.fail(rule, 'WindFarm.velocity_field', what, loc, configs=str(opts))

def grid(rep, repo):
    """constant-thrust farm on a grid: the sum of cylinders at the layout positions"""
    rule = 'a grid farm is the sum of its turbines'
    for nx, nz, mirror in ((1, 1, False), (3, 2, False), (2, 2, True)):
        op = {k: turb.kernel_handler(k, []) for k in turb.KERNELS}
        s = sym.Sess(repo, opaque=op, positive=POS); g = s.g; it = s.it
        S = lambda n: Num(s.inp(n))
        f = it.func('wiz.WindFarm', 'windfarm_gridlayout_CTconst'); fl = it.func('wiz.WindFarm', 'gridLayout')
        if f is None or fl is None: raise kern.Anchor('wiz.WindFarm: grid layout functions not found')
        P = [it.arr(s.inp(n), ('P',)) for n in ('Xcp', 'Ycp', 'Zcp')]
        kw = {'hub_height': S('h'), 'mirror': it.num(mirror)}
        rep.count('configurations')
        try:
            A = leaves(it, it.call(f, P + [S('R'), S('CT'), S('U0'), it.num(nx), S('dx'), it.num(nz), S('dz')], kw))
            lay = leaves(it, it.call(fl, [it.num(nx), S('dx'), it.num(nz)], dict(kw, zSpacing=S('dz'))))
        except PathDead: rep.undecided(rule, 'windfarm_gridlayout_CTconst', 'no path returns'); continue
        n = len(lay) // 3
        xs, ys, zs = [[q for _, q in lay[k * n:(k + 1) * n]] for k in range(3)]
        E = [e for e in entries.kernels() if e.key == 'vc_tang_u'][0]
        rs = s.run(E, ('', {'polar_out': False, 'epsilon': 0}))
        gam = g.mul(g.neg(s.inp('U0')), g.sub(g.const(1), g.fn('sqrt', g.sub(g.const(1), s.inp('CT')))))
        T = [g.const(0)] * 3
        for x, y, z in zip(xs, ys, zs):
            m = {'Xcp': g.sub(s.inp('Xcp'), x), 'Ycp': g.sub(s.inp('Ycp'), y), 'Zcp': g.sub(s.inp('Zcp'), z), 'gamma_t': gam}
            T = [g.add(t, s.sub(nd, m)) for t, (_, nd) in zip(T, rs.leaves)]
        def nz_(nodes):
            def fz(x):
                if x.op == 'cmp' and any(g.cval(a) == 0 for a in x.args) and any('CT' == str(y.attr[1]) for y in g.reach([x]).values() if y.op == 'input'):
                    return g.const(x.attr != '==') if x.attr in ('==', '!=') else g.const(True) if g.cval(x.args[0]) == 0 and x.args[1].op == 'fn' else None
            return [g.subst(q, fz) for q in nodes]
        A2 = nz_([q for _, q in A]); T2 = nz_(T)
        D = [('velocity of a grid of turbines, component %d' % k, g.sub(a, t)) for k, (a, t) in enumerate(zip(A2, T2))]
        sym.report(rep, rule, 'windfarm_gridlayout_CTconst', s.zero(D), {}, '%dx%d,mirror=%s' % (nx, nz, mirror))
