"""Algebraic laws of the wake solver on the value graph.  The routines are interpreted for rotors of one to
four, nine and thirty cylinders (and one more than any whole number the solver compares something with) with symbolic radii, circulation and operating point; the returned strengths are compared as
normal forms with: conservation of the circulation shed (cylinder by cylinder and in total with the root
vortex), causality (the strength of a cylinder does not depend on the loading inboard of it), zero strength
for zero loading, the rotor induction being half of that in the far wake, and the momentum balance of each
cylinder without swirl.  The thrust-circulation relations are compared with the equations they solve."""
from sa import entries, sym, cases
from sa.sizes import beyond
from checks.c13 import leaves

def run(rep, repo, tier):
    E = {e.key: e for e in entries.solver()}
    base = (1, 2, 3, 4, 9, 30) + ((5, 6, 7, 60) if tier == 'thorough' else ())
    # (and just above every whole number something is compared with in the solver)
    for n in base + tuple(n for n in beyond(repo, 'wiz.Solver', 4, 120) if n not in base):
        # (options that make the terms grow with the number of cylinders: few cylinders only)
        discrete(rep, repo, E['WakeVorticityFromCirculation_Discr'], n, tier)
        if n > 1: continuous(rep, repo, E['WakeVorticityFromCirculation_Cont'], n)
    thrust(rep, repo, E)
    for n in (1, 2, 3): fromct(rep, repo, n)
    return 150

def conc(it, name, n):
    return it.arr({(i,): it.g.mk('input', (), ('num', '%s%d' % (name, i))) for i in range(n)}, (n,))

def out(r, path):
    d = dict(r.leaves)
    return d.get(path)

def deps(g, node):
    return {n.attr[1] for n in g.reach([node]).values() if n.op == 'input'}

def laws(rep, s, r, n, where, lab, radius, swirl, scale, loc):
    """the laws shared by the two formulations"""
    g = s.g; I = s.inp
    gt = [out(r, '[0][%d]' % i) for i in range(n)]
    D = []
    if any(x is None for x in gt):
        rep.undecided('strengths are returned', where + ' ' + lab, 'tangential strengths not understood: %s' % [p for p, _ in r.leaves][:6]); return None
    if swirl:
        gl = [out(r, '[1][%d]' % i) for i in range(n)]; root = out(r, '[2]')
        if root is None: root = out(r, '[2][0]')
        if any(x is None for x in gl) or root is None:
            rep.undecided('circulation is conserved', where + ' ' + lab, 'longitudinal strengths not understood'); return gt
        tot = root
        for i in range(n):
            shed = g.mul(g.mul(g.const(2 * 3.141592653589793), radius[i]), gl[i])
            jump = I('Gamma_cp%d' % i) if i == n - 1 else g.sub(I('Gamma_cp%d' % i), I('Gamma_cp%d' % (i + 1)))
            D.append(('circulation shed between neighbouring radii (cylinder %d of %d)' % (i, n), g.sub(shed, g.mul(scale, jump))))
            tot = g.add(tot, shed)
        D.append(('root vortex and cylinders carry no net circulation', tot))
        D.append(('root vortex carries the circulation of the innermost radius', g.add(root, g.mul(scale, I('Gamma_cp0')))))
        sym.report(rep, 'circulation is conserved', where, s.zero(D, regular=True), {}, lab)
    else:
        bad = []
        for k in ('[1]', '[2]'):
            for p, x in r.leaves:
                if p.startswith(k) and not (s.g.cval(x) == 0): bad.append((k, x))
        for k, x in bad: rep.fail('no swirl, no longitudinal vorticity', where, 'longitudinal or root strength without swirl', loc, configs=lab)
        if not bad: rep.ok('no swirl, no longitudinal vorticity', where + ' ' + lab)
    zero = {('Gamma_cp%d' % i): g.const(0) for i in range(n)}
    D = [('strength of cylinder %d of %d for zero circulation' % (i, n), s.sub(x, zero)) for i, x in enumerate(gt)]
    if swirl: D += [('longitudinal strength %d of %d for zero circulation' % (i, n), s.sub(x, zero)) for i, x in enumerate(gl)] + [('root strength for zero circulation', s.sub(root, zero))]
    sym.report(rep, 'no loading, no wake', where, s.zero(D, regular=True), {}, lab)
    return gt

def discrete(rep, repo, e, n, tier):
    where = 'WakeVorticityFromCirculation_Discr'
    for lab, kw in e.configs:
        if n > 7 and (kw['bHighThrustCorr'] or kw['bTanInd_k'] or kw['bSwirl'] and 'r_cyl' in kw): continue
        s = sym.Sess(repo, ('R', 'U0', 'Omega', 'nB') + tuple('r_cp%d' % i for i in range(n)) + tuple('r_cyl%d' % i for i in range(n)))
        over = {k: (lambda it, k=k: conc(it, k, n)) for k in ('r_cp', 'Gamma_cp', 'r_cyl')}
        r = s.run(e, (lab, kw), over)
        lab2 = '%s,n=%d' % (lab, n)
        rep.count('configurations')
        if r.dead: rep.fail('strengths are returned', where, 'the solver always ends in an error', None, configs=lab2); continue
        g = s.g; I = s.inp
        gt = laws(rep, s, r, n, where, lab2, [I('r_cp%d' % i) for i in range(n)], kw['bSwirl'], I('nB'), None)
        if gt is None: continue
        for i in range(n):
            names = ['Gamma_cp'] + (['r_cp', 'r_cyl'] if 'r_cyl' not in kw else [])   # given radii do not move each other
            inner = {'%s%d' % (v, j) for v in names for j in range(i)} & deps(g, gt[i])
            # a mere mention may cancel: derivative-free test by substitution
            if inner:
                D = [('strength of cylinder %d of %d depends on the loading or radii inboard of it' % (i, n), g.sub(gt[i], s.sub(gt[i], {k: I(k + "'") for k in inner})))]
                sym.report(rep, 'loading acts on the wake inboard only', where, s.zero(D, regular=True), {}, lab2)
            else: rep.ok('loading acts on the wake inboard only', '%s %s cylinder %d' % (where, lab2, i))
        U0 = I('U0')
        a = [out(r, "[3]['a'][%d]" % i) for i in range(n)]
        if all(x is not None for x in a):
            D = []
            for i in range(n):
                t = g.const(0)
                for j in range(i, n): t = g.add(t, gt[j])
                D.append(('induction %d of %d is half of the one far downstream' % (i, n), g.add(g.mul(g.mul(g.const(2), U0), a[i]), t)))
            sym.report(rep, 'rotor induction is half the far-wake induction', where, s.zero(D, regular=True), {}, lab2)
        if not kw['bSwirl'] and not kw['bTanInd_k'] and not kw['bHighThrustCorr']:
            D = []
            for i in range(n):
                w = U0
                for j in range(i, n): w = g.add(w, gt[j])
                ct = g.div(g.mul(g.mul(I('nB'), I('Gamma_cp%d' % i)), I('Omega')), g.const(3.141592653589793))
                D.append(('far-wake velocity of cylinder %d of %d balances its thrust' % (i, n), g.sub(g.mul(w, w), g.sub(g.mul(U0, U0), ct))))
            sym.report(rep, 'momentum balance without swirl', where, s.zero(D, regular=True), {}, lab2)

        ap = [out(r, "[3]['a_prime'][%d]" % i) for i in range(n)]
        if all(x is not None for x in ap):
            D = []
            for i in range(n):
                rp = I('r_cp%d' % i)
                lhs = g.mul(g.mul(g.mul(g.const(4 * 3.141592653589793), I('Omega')), g.mul(rp, rp)), ap[i])
                D.append(('rotation of the wake at radius %d of %d is not that of the circulation' % (i, n), g.sub(lhs, g.mul(I('nB'), I('Gamma_cp%d' % i))) if kw['bSwirl'] else ap[i]))
            sym.report(rep, 'tangential induction', where, s.zero(D, regular=True), {}, lab2)
        else: rep.undecided('tangential induction', where + ' ' + lab2, 'tangential induction not returned')
        # rotation of the wake seen by each cylinder: mean of its two sides
        m = g.mul; q = g.const(3.141592653589793)
        rc = [I('R') if n == 1 else None] * n if 'r_cyl' in kw else [I('r_cyl%d' % i) for i in range(n)]
        if 'r_cyl' in kw and n > 1:
            rp = [I('r_cp%d' % i) for i in range(n)]
            rc = [m(g.const(0.5), g.add(rp[i], rp[i+1])) for i in range(n - 1)] + [g.add(rp[-1], m(g.const(0.5), g.sub(rp[-1], rp[-2])))]
        G = [m(I('nB'), I('Gamma_cp%d' % i)) for i in range(n)] + [g.const(0)]
        rot = [g.const(1)] * n
        if kw['bTanInd_k']: rot = [g.add(g.const(1), g.div(g.add(G[i], G[i+1]), m(m(g.const(4), q), m(I('Omega'), m(rc[i], rc[i]))))) for i in range(n)]
        h = [out(r, "[3]['h'][%d]" % i) for i in range(n)]
        if all(x is not None for x in h):
            D = []; w = U0
            for i in reversed(range(n)):
                w2 = g.add(w, gt[i])
                D.append(('pitch of the helix of cylinder %d of %d is that of the mean flow on its two sides' % (i, n), g.sub(m(h[i], m(I('Omega'), rot[i])), m(q, g.add(w, w2)))))
                w = w2
            sym.report(rep, 'pitch of the wake', where, s.zero(D, regular=True), {}, lab2)
        else: rep.undecided('pitch of the wake', where + ' ' + lab2, 'pitch not returned')
        if not kw['bSwirl'] and not kw['bHighThrustCorr']:
            D = []; w = U0
            for i in reversed(range(n)):
                w2 = g.add(w, gt[i])
                jump = m(m(g.sub(G[i], G[i+1]), rot[i]), g.div(I('Omega'), q))
                D.append(('the total pressure lost across cylinder %d of %d is that of the circulation shed there' % (i, n), g.add(g.sub(m(w2, w2), m(w, w)), jump)))
                w = w2
            sym.report(rep, 'pressure jump across each cylinder', where, s.zero(D, regular=True), {}, lab2)

        if not kw['bTanInd_k'] and 'r_cyl' not in kw and n > 1 and (not kw['bHighThrustCorr'] and kw['bSwirl'] or kw['bHighThrustCorr'] and n < 4):
            # thrust of the circulation, less the pressure deficit of the rotating wakes further out
            m = g.mul; q = g.const(3.141592653589793); D = []
            k = [g.div(m(m(I('nB'), I('Gamma_cp%d' % i)), I('Omega')), m(q, m(U0, U0))) for i in range(n)]
            il2 = [g.div(m(U0, U0), m(m(I('Omega'), I('Omega')), m(I('r_cyl%d' % i), I('r_cyl%d' % i)))) for i in range(n)]
            for i in range(n):
                w = g.const(1)
                for j in range(i, n): w = g.add(w, g.div(gt[j], U0))
                ct = m(k[i], g.add(g.const(1), m(g.const(0.25), m(k[i], il2[i])))) if kw['bSwirl'] else k[i]
                for j in range(i + 1, n - 1 if kw['bSwirl'] else 0): ct = g.sub(ct, m(m(g.const(0.25), m(k[j+1], k[j+1])), g.sub(il2[j], il2[j+1])))
                if kw['bHighThrustCorr']: spera(rep, s, 'high-thrust correction', where, lab2 + ',cylinder %d' % i, m(g.const(0.5), g.sub(g.const(1), w)), ct, kw['bSwirl']); continue
                D.append(('far-wake velocity of cylinder %d of %d balances its thrust and the wake rotation' % (i, n), g.sub(m(w, w), g.sub(g.const(1), ct))))
            if D: sym.report(rep, 'momentum balance with swirl', where, s.zero(D, regular=True), {}, lab2)
        if n == 1 and not kw['bTanInd_k']:
            m = g.mul; k = g.div(m(m(I('nB'), I('Gamma_cp0')), I('Omega')), m(g.const(3.141592653589793), m(U0, U0)))
            rc = I('R') if kw.get('r_cyl', 0) is None else I('r_cyl0')
            lam = g.div(m(I('Omega'), rc), U0)
            ct = m(k, g.add(g.const(1), g.div(k, m(g.const(4), m(lam, lam))))) if kw['bSwirl'] else k
            av = g.div(gt[0], m(g.const(-2), U0))
            if kw['bHighThrustCorr']: spera(rep, s, 'high-thrust correction', where, lab2, av, ct)
            elif kw['bSwirl']:
                sym.report(rep, 'momentum balance of one cylinder', where, s.zero([('4 a (1-a) is the thrust of the circulation', g.sub(m(m(g.const(4), av), g.sub(g.const(1), av)), ct))], regular=True), {}, lab2)

def continuous(rep, repo, e, n):
    where = 'WakeVorticityFromCirculation_Cont'
    for lab, kw in e.configs:
        if kw['bHighThrustCorr']: continue      # does not enter the strengths compared here
        s = sym.Sess(repo, ('R', 'U0', 'Omega') + tuple('r_cp%d' % i for i in range(n)))
        over = {k: (lambda it, k=k: conc(it, k, n)) for k in ('r_cp', 'Gamma_cp')}
        r = s.run(e, (lab, kw), over)
        lab2 = '%s,n=%d' % (lab, n)
        rep.count('configurations')
        if r.dead: rep.fail('strengths are returned', where, 'the solver always ends in an error', None, configs=lab2); continue
        g = s.g; I = s.inp
        rad = [out(r, "[3]['r_cp'][%d]" % i) for i in range(n)]
        if any(x is None for x in rad): rad = [I('r_cp%d' % i) for i in range(n)]
        gt = laws(rep, s, r, n, where, lab2, rad, kw['bSwirl'], g.const(1), None)
        h = [out(r, "[3]['h'][%d]" % i) for i in range(n)]
        if gt is None or any(x is None for x in h): continue
        G = [I('Gamma_cp%d' % i) for i in range(n)] + [g.const(0)]
        D = [('cylinder %d of %d carries the circulation shed, one turn per pitch' % (i, n), g.add(g.mul(gt[i], h[i]), g.sub(G[i], G[i+1]))) for i in range(n)]
        sym.report(rep, 'pitch of the wake', where, s.zero(D, regular=True), {}, lab2)
        a = [out(r, "[3]['a'][%d]" % i) for i in range(n)]; ap = [out(r, "[3]['a_prime'][%d]" % i) for i in range(n)]
        if any(x is None for x in a + ap): continue
        m = g.mul
        D = [('pitch %d of %d is that of the flow at the rotor' % (i, n), g.sub(m(h[i], m(I('Omega'), g.add(g.const(1), m(g.const(2), ap[i])))), m(g.const(2 * 3.141592653589793), m(I('U0'), g.sub(g.const(1), m(g.const(2), a[i])))))) for i in range(n)]
        sym.report(rep, 'pitch of the wake', where, s.zero(D, regular=True), {}, lab2)

def fromct(rep, repo, n):
    """the wake of a thrust is the wake of the circulation having that thrust"""
    from sa.interp import PathDead
    rule = 'the wake of a thrust is that of the circulation having it'; where = 'WakeVorticityFromCt'
    s = sym.Sess(repo, tuple('r%d' % i for i in range(n))); it = s.it; g = s.g; I = s.inp
    f = {k: it.func('wiz.Solver', k) for k in (where, 'WakeVorticityFromGamma', 'CirculationFromPrescribedCt')}
    for lam in (6, 50, 1000):
        lab = 'tip-speed ratio %s,n=%d' % (lam, n)
        Om = it.num(lam * 8. / 64)   # (numbers, so that swirl is decided)
        rep.count('configurations')
        try: A = leaves(it, it.call(f[where], [conc(it, 'r', n), conc(it, 'Ct', n), it.num(64.), it.num(8.), Om], {}))
        except PathDead: rep.fail(rule, where, 'the wake of a thrust always ends in an error', None, configs=lab); continue
        A = [(p, x) for p, x in A if p[:3] in ('[0]', '[1]', '[2]')]
        rb = it.arr({(i,): g.div(I('r%d' % i), g.const(64.)) for i in range(n)}, (n,))
        try:
            k = [x for _, x in leaves(it, it.call(f['CirculationFromPrescribedCt'], [rb, conc(it, 'Ct', n), it.num(lam), it.num(lam < 20)], {}))]
            gam = it.arr({(i,): g.div(g.mul(g.mul(k[i], g.const(3.141592653589793)), g.const(64.)), Om.node) for i in range(n)}, (n,))
            B = [(p, x) for p, x in leaves(it, it.call(f['WakeVorticityFromGamma'], [conc(it, 'r', n), gam, it.num(64.), it.num(8.), Om], {})) if p[:3] in ('[0]', '[1]', '[2]')]
        except (PathDead, IndexError): rep.undecided(rule, where + ' ' + lab, 'circulation not understood'); continue
        if [p for p, _ in A] != [p for p, _ in B] or not A: rep.undecided(rule, where + ' ' + lab, 'results not understood'); continue
        one = lambda x: g.subst(x, lambda q: I('unknown') if q.op == 'bound' else None)     # (the unknown of every minimisation alike)
        sym.report(rep, rule, where, s.zero([('strength %s' % p, g.sub(one(a), one(b))) for (p, a), (_, b) in zip(A, B)], regular=True), {}, lab)

def thrust(rep, repo, E):
    # k from Ct: Kutta-Joukowski thrust
    e = E['CirculationFromPrescribedCt']
    for lab, kw in e.configs:
        s = sym.Sess(repo, ('Lambda', 'vr_bar0', 'vCt0'))
        r = s.run(e, (lab, kw), {k: (lambda it, k=k: conc(it, k, 1)) for k in ('vr_bar', 'vCt')})
        g = s.g; rule = 'circulation matches the prescribed thrust'
        rep.count('configurations')
        k = None if r.dead else out(r, '[0]')
        if k is None: rep.undecided(rule, e.key + ' ' + lab, 'result not understood'); continue
        lr = g.mul(s.inp('Lambda'), s.inp('vr_bar0')); ct = s.inp('vCt0')
        kj = lambda x: g.mul(x, g.add(g.const(1), g.div(x, g.mul(g.const(4), g.pow(lr, g.const(2)))))) if kw['bSwirl'] else x
        mins = [x for x in g.reach([k]).values() if x.op == 'argmin' and x.args]
        if mins:
            # found by minimising: the objective vanishes at the solution
            D = []
            for m in mins:
                b = next((x for x in m.args[1:] if x.op == 'bound'), None)
                if b is None: continue
                D.append(('the equation solved for the circulation is the thrust of that circulation', s.sub(m.args[0], {'vCt0': kj(b)})))
            sym.report(rep, rule, e.key, s.zero(D, regular=True), {}, lab)
        else:
            sym.report(rep, rule, e.key, s.zero([('thrust of the circulation found', g.sub(kj(k), ct))], regular=True), {}, lab)
    e = E['InductionsFromPrescribedCtCq_ST']
    for lab, kw in e.configs:
        s = sym.Sess(repo, ('Lambda', 'vr_bar'))
        r = s.run(e, (lab, kw)); g = s.g; rule = 'stream-tube inductions satisfy their equations'
        rep.count('configurations')
        if r.dead or len(r.leaves) < 2: rep.undecided(rule, e.key + ' ' + lab, 'result not understood'); continue
        a, ap = r.leaves[0][1], r.leaves[1][1]
        one = g.const(1)
        D = [('axial induction: 4 a (1-a) is the thrust coefficient', g.sub(g.mul(g.mul(g.const(4), a), g.sub(one, a)), s.inp('Ct')))]
        if kw['bSwirl']: D.append(("tangential induction: 4 a' (1-a) lambda_r is the torque coefficient", g.sub(g.mul(g.mul(g.mul(g.const(4), ap), g.sub(one, a)), g.mul(s.inp('Lambda'), s.inp('vr_bar'))), s.inp('Cq'))))
        else: D.append(('tangential induction without swirl', ap))
        sym.report(rep, rule, e.key, s.zero(D, regular=True), {}, lab)
    e = E['InductionsFromCirculation_VC_Cont']
    for lab, kw in e.configs:
        if 'Cq' in kw and not kw['bHighThrustCorr']:
            s = sym.Sess(repo, ()); g = s.g; n = 2
            r = s.run(e, (lab, kw), {k: (lambda it, k=k: conc(it, k, n)) for k in ('vr_bar', 'lambda_r', 'k', 'Cq') if k not in kw}); rule = 'continuous inductions satisfy their equations'
            rep.count('configurations')
            if r.dead: rep.undecided(rule, e.key + ' ' + lab, 'ends in an error'); continue
            D = []
            one = g.const(1)
            for i in range(n):
                a, ap, ce, ck, cr = [out(r, p % i) for p in ('[0][%d]', '[1][%d]', "[2]['Ct_eff'][%d]", "[2]['Ct_KJ'][%d]", "[2]['Ct_rot'][%d]")]
                if None in (a, ap, ce, ck, cr): continue
                D.append(('thrust of the circulation (%d)' % i, g.sub(ck, g.mul(s.inp('k%d' % i), g.add(one, ap)))))
                D.append(('effective thrust (%d)' % i, g.sub(ce, g.sub(ck, cr))))
                four = g.mul(g.mul(g.const(4), a), g.sub(one, a))
                D.append(('axial induction: 4 a (1-a) is the effective thrust (%d)' % i, g.sub(four, ce)))
            if not D: rep.undecided(rule, e.key + ' ' + lab, 'result not understood'); continue
            sym.report(rep, rule, e.key, s.zero(D, regular=True), {}, lab)
    for lab, kw in e.configs:
        if kw['bHighThrustCorr']: continue
        # a rotor of three radii: rotation of the wake, and the correction applied to the thrust less that of the rotation
        s = sym.Sess(repo, tuple(v + str(i) for v in ('vr_bar', 'lambda_r') for i in range(3))); g = s.g; n = 3; m = g.mul; I = s.inp; one = g.const(1)
        r = s.run(e, (lab, kw), {k: (lambda it, k=k: conc(it, k, n)) for k in ('vr_bar', 'lambda_r', 'k', 'Cq') if k not in kw}); rule = 'continuous inductions satisfy their equations'
        rep.count('configurations')
        if r.dead: rep.undecided(rule, e.key + ' ' + lab, 'ends in an error'); continue
        D = []
        for i in range(n):
            a, ap, ce, cr = [out(r, p % i) for p in ('[0][%d]', '[1][%d]', "[2]['Ct_eff'][%d]", "[2]['Ct_rot'][%d]")]
            if None in (a, ap, ce, cr): rep.undecided(rule, e.key + ' ' + lab, 'result not understood'); continue
            lr = I('lambda_r%d' % i)
            if 'Cq' not in kw: D.append(("tangential induction: 4 a' (1-a) lambda_r is the torque coefficient (%d)" % i, g.sub(m(m(g.const(4), ap), m(g.sub(one, a), lr)), I('Cq%d' % i))))
            elif not kw['bSwirl']: D.append(('tangential induction without swirl (%d)' % i, ap))
            else: D.append(('tangential induction is that of the circulation (%d)' % i, g.sub(m(m(g.const(4), ap), m(lr, lr)), I('k%d' % i))))
            kb = I('k%d' % i)
            if kw['bSwirl']: ct = g.sub(m(kb, g.add(one, m(g.const(0.25), g.div(kb, m(lr, lr))))), cr)
            else: ct = kb; D.append(('no thrust of the rotation without swirl (%d)' % i, cr))
            D.append(('effective thrust is that of the circulation less that of the rotation (%d)' % i, g.sub(ce, ct)))
        sym.report(rep, rule, e.key, s.zero(D, regular=True), {}, lab)
    for lab, kw in e.configs:
        if not kw['bHighThrustCorr']: continue
        s = sym.Sess(repo, ()); g = s.g; rule = 'high-thrust correction'
        r = s.run(e, (lab, kw))
        rep.count('configurations')
        a = None if r.dead else out(r, '[0]')
        if a is None: rep.undecided(rule, e.key + ' ' + lab, 'result not understood'); continue
        ce = out(r, "[2]['Ct_eff']")
        cr = out(r, "[2]['Ct_rot']")
        if kw['bSwirl'] and (ce is None or cr is None): rep.undecided(rule, e.key + ' ' + lab, 'effective thrust not returned'); continue
        if kw['bSwirl']:     # the thrust of the rotation as a given quantity
            sw = lambda x: s.inp('Ct_rot') if x.id == cr.id else s.inp('lambda_r') if x.op == 'upd' and x.args[0].id == s.inp('lambda_r').id else None
            a, ce = g.subst(a, sw), g.subst(ce, sw)
        spera(rep, s, rule, e.key, lab, a, ce if kw['bSwirl'] else s.inp('k'))
    e = E['Ct_const_cutoff']
    for lab, kw in e.configs:
        s = sym.Sess(repo, ('r_bar_cut', 'vr_bar', 'r_bar_tip')); g = s.g
        r = s.run(e, (lab, kw)); rule = 'constant thrust joins its cut-offs'
        rep.count('configurations')
        if r.dead or len(r.leaves) != 1: rep.undecided(rule, e.key + ' ' + lab, 'result not understood'); continue
        c = r.leaves[0][1]; rb, cut, tip, c0 = [s.inp(x) for x in ('vr_bar', 'r_bar_cut', 'r_bar_tip', 'CT0')]
        one = g.const(1); hastip = 'r_bar_tip' not in kw
        # (facts as pairs a < b, law)
        below = [(rb, tip)] if hastip else []
        laws_ = [('constant thrust outside of the root cut-off', [(cut, rb)] + below, g.sub(c, c0)),
                 ('thrust proportional to the radius inside of the root cut-off', [(rb, cut)] + below, g.sub(g.mul(c, cut), g.mul(c0, rb)))]
        if hastip: laws_.append(('thrust linear to zero at the tip', [(cut, rb), (tip, rb)], g.sub(g.mul(c, g.sub(one, tip)), g.mul(c0, g.sub(one, rb)))))
        for t, fs, d in laws_: given(rep, s, rule, e.key, lab, t, fs, d)

def given(rep, s, rule, where, lab, what, less, d):
    """d vanishes where every (a, b) in less has a < b"""
    fx = cases.Facts(s.nf)
    for a, b in less:
        k, neg = s.nf.cond(s.g.mk('cmp', (a, b), '<'))
        if k[0] not in 'TF': fx = fx.assume(k[0], s.nf.condpoly(k), not neg)
    sym.report(rep, rule, where, s.zero([(what, d)], facts=fx, regular=True), {}, lab)

def spera(rep, s, rule, where, lab, a, ct, below=True):
    """momentum theory below the critical induction 0.34, its tangent above"""
    g = s.g; ac = 0.34; one = g.const(1); crit = g.const(4 * ac * (1 - ac)); m = g.mul
    if below: given(rep, s, rule, where, lab, 'momentum theory below the critical thrust', [(ct, crit)], g.sub(m(m(g.const(4), a), g.sub(one, a)), ct))
    given(rep, s, rule, where, lab, 'tangent of momentum theory beyond the critical thrust', [(crit, ct)],
          g.sub(m(g.const(4), g.add(g.const(ac * ac), m(g.const(1 - 2 * ac), a))), ct))
