"""Value-graph comparison: the velocity with the free stream minus the induced velocity alone must be the
free-stream vector, component by component, for every model, orientation, skew, ground, wake and component
option; a farm adds the vector it is given exactly once whatever the number of turbines, and none when it
is given none."""
from sa import turb, kern, sym, allruns
from sa.interp import Num, NONE, PathDead, PyC

def leaves(it, v): return [(p + s, n) for p, x in kern.outputs(it, v) for s, n in kern.nodes_of(it, x)]

def run(rep, repo, tier):
    rule = 'free stream added exactly once, only on request'
    for model in ('VC', 'VCFF', 'VD', 'SS'):
        for ori in ('z', 'x'):
            for ncyl in ((1, 'n') if model == 'VC' else (1,)):
                for chi in ('sym', 0, None):
                    for ground in (False, True):
                        r = turb.make_turbine(repo, ori=ori, ncyl=ncyl, model=model, ground=ground, chi=chi); it = r.it
                        for nw in (False, True):
                            for comp in (('tang',), ('root',), ('longi',), ('tang', 'longi', 'root'), ()):
                                if model != 'VC' and 'longi' in comp: continue
                                lab = 'Model=%s,%s,ncyl=%s,chi=%s,ground=%s,no_wake=%s,%s' % (model, ori, ncyl, chi, ground, nw, '+'.join(comp))
                                rep.count('configurations')
                                kw = {c: (c in comp) for c in ('tang', 'longi', 'root')}
                                vals = []
                                for only in (False, True):
                                    turb.compute_u(r, only_ind=only, no_wake=nw, **kw)
                                    vals.append(None if r.dead else leaves(it, r.value))
                                if vals[0] is None or vals[1] is None:
                                    if (vals[0] is None) != (vals[1] is None): rep.fail(rule, 'WindTurbine.compute_u', 'only one of the two variants returns', None, configs=lab)
                                    else: rep.undecided(rule, 'WindTurbine.compute_u ' + lab, 'no path returns')
                                    continue
                                pairs(rep, r, rule, 'WindTurbine.compute_u', vals[0], vals[1], 'U', lab)
                        # default is with the free stream
                        turb.compute_u(r); a = leaves(it, r.value)
                        turb.compute_u(r, only_ind=True); b = leaves(it, r.value)
                        pairs(rep, r, rule, 'WindTurbine.compute_u', a, b, 'U', 'default call')
    for n in (0, 1, 2, 3):
        for opts in ({}, {'no_wake': True}, {'longi': True, 'root': True}, {'ground': True}):
            r1 = allruns.farm(repo, n, True, opts=opts); it = r1.it
            if r1.dead: rep.undecided(rule, 'WindFarm.velocity_field', 'no path returns'); continue
            a = leaves(it, r1.value)
            kw = {k: it.num(v) for k, v in opts.items()}
            b = leaves(it, turb.method(it, r1.farm, 'velocity_field', list(r1.pts), kw))
            pairs(rep, r1, rule, 'WindFarm.velocity_field', a, b, 'V', '%d turbines %s' % (n, opts))
            # without a free stream nothing of the turbines' wind may enter additively
            rep.count('configurations')
            if n == 0:
                s = sym.Sess('', it=it)
                sym.report(rep, 'an empty farm induces nothing', 'WindFarm.velocity_field', s.zero([('component %s' % p, nd) for p, nd in b]), {}, str(opts))
    # asking the farm for anything else is refused, or answered the same
    for U0 in (False, True):
        for only in (False, True):
            r = allruns.sym_farm(repo, U0); it = r.it; del r.calls[:]
            kw = {'only_ind': it.num(only)}
            if U0: kw['U0'] = turb.vec(it, 'V')
            rep.count('configurations')
            try: turb.method(it, r.farm, 'velocity_field', list(r.pts), kw)
            except PathDead: rep.ok('farm asks turbines for induction only', '%s,only_ind=%s refused' % (r.label, only)); continue
            for env, i, loc in r.calls:
                oi = env.get('only_ind'); v = it.g.cval(oi.node) if isinstance(oi, Num) else None
                if v is True or v == 1: rep.ok('farm asks turbines for induction only', r.label)
                else: rep.fail('farm asks turbines for induction only', 'WindFarm.velocity_field', 'the free streams of the turbines are added up', loc, configs=r.label)
    for U0 in (False, True):
        r = allruns.sym_farm(repo, U0); it = r.it
        if r.dead: rep.undecided(rule, 'WindFarm.velocity_field', 'no path returns'); continue
        seen = False
        for env, i, loc in r.calls:
            oi = env.get('only_ind'); seen = True
            v = it.g.cval(oi.node) if isinstance(oi, Num) else None
            if v is True or v == 1: rep.ok('farm asks turbines for induction only', r.label)
            else: rep.fail('farm asks turbines for induction only', 'WindFarm.velocity_field', 'the turbine is asked for a velocity that contains the free stream', loc, configs=r.label)
        a = leaves(it, r.value)
        s = sym.Sess('', it=it); g = it.g
        from sa.interp import AbsIter
        idx = it.loop_index('nWT')
        D = []
        for k, (p, n) in enumerate(a):
            tot = [x for x in g.reach([n]).values() if x.op in ('red', 'sum') and any(y.op == 'wtu' for y in g.reach([x]).values())]
            want = s.inp('V%d' % k) if U0 else g.const(0)
            if len(tot) == 1: D.append(('component %d is not the sum over turbines plus the given free stream' % k, g.sub(g.sub(n, tot[0]), want)))
            else: rep.undecided(rule, 'WindFarm.velocity_field', 'no single sum over the turbines')
        if D: sym.report(rep, rule, 'WindFarm.velocity_field', s.zero(D), {}, r.label)
    return 300

def pairs(rep, r, rule, where, A, B, vec, lab):
    it = r.it; g = it.g
    s = sym.Sess('', it=it)
    if len(A) != 3 or len(B) != 3: rep.fail(rule, where, 'not three components', None, configs=lab); return
    D = []; locs = {}
    for k, ((p, a), (_, b)) in enumerate(zip(A, B)):
        l = 'component %d with and without free stream do not differ by it' % k
        D.append((l, g.sub(g.sub(a, b), s.inp('%s%d' % (vec, k))))); locs[l] = a.loc
    sym.report(rep, rule, where, s.zero(D), locs, lab)
