"""Value-graph comparison of histories: one turbine is taken through earlier, different settings of yaw,
position, wind, loading and skew with every query in between, another only through the final ones; the
velocities they return must be the same expression.  Every query leaves each attribute of the turbine
equal to what it was, and a repeated query returns the same expression."""
import itertools
from sa import turb, kern, sym, allruns
from sa.interp import Num, NONE, PathDead, Arr, PyC, Phi, Tup, Ext

def run(rep, repo, tier):
    for ori in ('z', 'x'):
        for chi in ('sym', None):
            for model in ('VC', 'VCFF', 'VD', 'SS'):
                for ncyl in ((1, 'n') if model == 'VC' else (1,)):
                    histories(rep, repo, ori, chi, model, ncyl)
                    if model == 'VC' or chi is None and ori == 'z': single(rep, repo, ori, chi, model, ncyl)
        queries(rep, repo, ori)
    redefined(rep, repo)
    loadings(rep, repo)
    farm(rep, repo)
    cached(rep, repo)
    return 150

def setters(it, r, tag, ncyl, chi):
    S = lambda n: Num(it.g.mk('input', (), ('num', n + tag)))
    def load(w):
        if ncyl == 1: turb.method(it, w, 'update_loading', [], {'Ct': S('Ct'), 'Lambda': S('Lambda')})
        else:
            A = lambda n: it.arr(it.g.mk('input', (), ('num', n + tag)), ('nr',))
            turb.method(it, w, 'update_loading', [], {'r': A('r'), 'Ct': A('Ct'), 'Lambda': S('Lambda'), 'nCyl': NONE})
    return {
        'yaw': lambda w: turb.method(it, w, 'update_yaw_pos', [S('yaw')]),
        'pos': lambda w: turb.method(it, w, 'update_position', [turb.vec(it, 'hub' + tag)]),
        'wind': lambda w: turb.method(it, w, 'update_wind', [turb.vec(it, 'U' + tag)]),
        'chi': lambda w: turb.method(it, w, 'set_chi', [S('chi') if tag or chi == 'sym' else NONE]),
        'load': load}

def new(r, ori, model):
    it = r.it
    es, ev = turb.ORI[ori]
    L3 = lambda t: it.lst([it.num(x) for x in t])
    return it.call(r.cls, [], {'R': r.S('R'), 'e_shaft_yaw0': L3(es), 'e_vert': L3(ev), 'Model': PyC(model)})

def ask(r, w, ground=None, **kw):
    it = r.it
    lr = kw.pop('lr', True)
    a = {'longi': it.num(lr), 'root': it.num(lr), 'ground': NONE if ground is None else it.num(ground)}
    return turb.method(it, w, 'compute_u', list(turb.points(it)), a)

def queries_all(r, w):
    it = r.it
    for a in ('yaw_wind', 'yaw_error', 'chi'): it.getattr(w, a)
    turb.method(it, w, 'tostring', [], {'short': it.num(False)})
    turb.method(it, w, 'rotor_disk_points', [])

def answers(r, w):
    it = r.it; out = []
    for a in ('yaw_wind', 'yaw_error', 'chi', 'e_shaft_g'):
        try: v = it.getattr(w, a)
        except PathDead: continue
        L = leaves(it, v) if isinstance(v, (Num, Arr)) else []
        out.append((a, L))
    out.append(('rotor_disk_points', leaves(it, turb.method(it, w, 'rotor_disk_points', [], {'nP': it.num(5)}))))
    return out

def leaves(it, v): return [(p + s, n) for p, x in kern.outputs(it, v) for s, n in kern.nodes_of(it, x)]

def histories(rep, repo, ori, chi, model, ncyl):
    rule = 'only the current settings count'
    where = 'WindTurbine'
    r = turb.make_turbine(repo, ori=ori, model=model, load=False, yaw=False, chi=None)
    it = r.it; lr = model == 'VC'
    kw = {'lr': lr}
    F = setters(it, r, '', ncyl, chi); O = setters(it, r, 'old', ncyl, chi)
    try:
        ref = new(r, ori, model)
        for k in ('wind', 'pos', 'yaw', 'load', 'chi'): F[k](ref)
        want = leaves(it, ask(r, ref, **kw)); wantg = leaves(it, ask(r, ref, ground=True, **kw)); wanta = answers(r, ref)
    except PathDead:
        rep.undecided(rule, where, 'reference history does not return'); return
    orders = [('yaw', 'wind', 'chi', 'pos', 'load'), ('wind', 'load', 'chi', 'yaw', 'pos'), ('chi', 'pos', 'wind', 'load', 'yaw')]
    for k, order in enumerate(orders):
        lab = '%s,%s,ncyl=%s,chi=%s,order %s' % (ori, model, ncyl, chi, '-'.join(order))
        rep.count('histories')
        try:
            w = new(r, ori, model)
            for q in ('wind', 'pos', 'yaw', 'load', 'chi')[::(1 if k % 2 == 0 else -1)]:
                O[q](w)
            ask(r, w, ground=True, **kw); queries_all(r, w); ask(r, w, **kw)
            for q in order:
                F[q](w)
                if k == 0: queries_all(r, w); ask(r, w, ground=(q == 'chi'), **kw)
            got = leaves(it, ask(r, w, **kw)); gotg = leaves(it, ask(r, w, ground=True, **kw)); again = leaves(it, ask(r, w, **kw)); gota = answers(r, w)
        except PathDead:
            rep.fail(rule, where, 'a history of settings ends in an error', None, configs=lab); continue
        for A, B, what in ((want, got, 'velocity'), (wantg, gotg, 'velocity above ground'), (got, again, 'repeated velocity')):
            compare(rep, r, rule, where, A, B, '%s depends on earlier settings or queries' % what if what[0] == 'v' else 'the same query gives another velocity', lab)
        for (n, A), (_, B) in zip(wanta, gota): compare(rep, r, rule, where, A, B, '%s depends on earlier settings or queries' % n, lab)

def single(rep, repo, ori, chi, model, ncyl):
    """only one setting was different before: the others are given again with the values they had all along"""
    rule = 'only the current settings count'; where = 'WindTurbine'
    r = turb.make_turbine(repo, ori=ori, model=model, load=False, yaw=False, chi=None)
    it = r.it; kw = {'lr': model == 'VC'}
    F = setters(it, r, '', ncyl, chi); O = setters(it, r, 'old', ncyl, chi)
    ORDER = ('wind', 'pos', 'yaw', 'load', 'chi')
    def final(w):
        return leaves(it, ask(r, w, **kw)), answers(r, w)
    try:
        ref = new(r, ori, model)
        for k in ORDER: F[k](ref)
        want, wanta = final(ref)
    except PathDead: return
    for other in ORDER:
        for again in (False, True):
            lab = '%s,%s,ncyl=%s,chi=%s,only %s was different%s' % (ori, model, ncyl, chi, other, ', the rest given again' if again else '')
            rep.count('histories')
            try:
                w = new(r, ori, model)
                for q in ORDER: (O if q == other else F)[q](w)
                queries_all(r, w); ask(r, w, ground=True, **kw); answers(r, w)
                # a loading refers to the wind it was given in
                for q in ORDER if again else ('wind', 'load') if other == 'wind' else (other,): F[q](w)
                got, gota = final(w)
            except PathDead:
                rep.fail(rule, where, 'a history of settings ends in an error', None, configs=lab); continue
            compare(rep, r, rule, where, want, got, 'velocity depends on earlier settings or queries', lab)
            for (n, A), (_, B) in zip(wanta, gota): compare(rep, r, rule, where, A, B, '%s depends on earlier settings or queries' % n, lab)

def redefined(rep, repo):
    """axes given anew, radius, model and ground option assigned: as on a turbine made that way"""
    rule = 'only the current settings count'; where = 'WindTurbine'
    ORDER = ('wind', 'pos', 'yaw', 'load', 'chi')
    for ori, old in (('z', 'x'), ('x', 'z')):
        for chi in ('sym', None):
            for model, ground in (('VC', False), ('VC', True)) + ((('VD', False), ('SS', True)) if chi == 'sym' else ()):
                r = turb.make_turbine(repo, ori=ori, model=model, load=False, yaw=False, chi=None); it = r.it
                F = setters(it, r, '', 1, chi); O = setters(it, r, 'old', 1, chi)
                kw = {'lr': model == 'VC'}
                L3 = lambda t: it.lst([it.num(x) for x in t])
                es, ev = turb.ORI[ori]; lab = '%s after %s,%s,ground=%s,chi=%s' % (ori, old, model, ground, chi)
                rep.count('histories')
                def final(w):
                    for k in ORDER: F[k](w)
                    a = list(turb.points(it)); c = {'longi': it.num(kw['lr']), 'root': it.num(kw['lr'])}
                    return leaves(it, turb.method(it, w, 'compute_u', a, c)), answers(r, w)
                try:
                    ref = it.call(r.cls, [], {'R': r.S('R'), 'e_shaft_yaw0': L3(es), 'e_vert': L3(ev), 'Model': PyC(model), 'Ground': it.num(ground)})
                    want, wanta = final(ref)
                except PathDead: rep.undecided(rule, where, 'reference history does not return'); continue
                try:
                    eo, vo = turb.ORI[old]
                    w = it.call(r.cls, [], {'R': r.S('Rold'), 'e_shaft_yaw0': L3(eo), 'e_vert': L3(vo), 'Model': PyC('VC'), 'Ground': it.num(not ground)})
                    for q in ORDER: O[q](w)
                    queries_all(r, w); ask(r, w); answers(r, w)
                    turb.method(it, w, 'set_yaw0_coord', [L3(es), L3(ev)])
                    it.setattr(w, 'R', r.S('R')); it.setattr(w, 'Model', PyC(model)); it.setattr(w, 'Ground', it.num(ground))
                    got, gota = final(w)
                except PathDead:
                    rep.fail(rule, where, 'a history of settings ends in an error', None, configs=lab); continue
                compare(rep, r, rule, where, want, got, 'velocity depends on the axes, radius, model or ground option of before', lab)
                for (n, A), (_, B) in zip(wanta, gota): compare(rep, r, rule, where, A, B, '%s depends on the axes, radius, model or ground option of before' % n, lab)

LOADS = ('Ct', 'Gamma', 'table')

def loading(r, w, kind, ncyl, tag, lam):
    it = r.it; S = lambda n: Num(it.g.mk('input', (), ('num', n + tag)))
    kw = {'nCyl': it.num(ncyl) if ncyl else NONE}
    if ncyl == 1: q = S('load')
    else:
        A = lambda n: it.arr(it.g.mk('input', (), ('num', n + tag)), ('nr',))
        kw['r'] = A('r'); q = A('load')
    kw['Gamma' if kind == 'Gamma' else 'Ct'] = q
    if kind == 'table': kw['gamma_t_Ct'] = Ext('numpy.sqrt')
    if lam == 'given': kw['Lambda'] = S('Lambda')
    elif lam is not None: kw['Lambda'] = it.num(lam)
    turb.method(it, w, 'update_loading', [], kw)

def loadings(rep, repo):
    """what an earlier loading (of another kind, with another tip-speed ratio or number of cylinders) leaves behind"""
    rule = 'only the current settings count'; where = 'WindTurbine.update_loading'
    inf = float('inf')
    r = turb.make_turbine(repo, load=False, yaw=False, chi=None); it = r.it
    def fresh():
        w = new(r, 'z', 'VC')
        turb.method(it, w, 'update_wind', [turb.vec(it, 'U')]); turb.method(it, w, 'set_chi', [it.num(0)])
        return w
    def result(w):
        out = []
        try: out.append(leaves(it, ask(r, w, lr=True)))
        except PathDead: out.append(None)
        return out
    def same(A, B, lab, what):
        rep.count('loading histories')
        for k, (a, b) in enumerate(zip(A, B)):
            if a is None and b is None: rep.ok(rule, lab)
            elif a is None or b is None: rep.fail(rule, where, '%s: with it a velocity is an error, without it is not' % what if b is None else '%s: without it a velocity is an error, with it is not' % what, None, configs=lab)
            else: compare(rep, r, rule, where, a, b, what, lab)
    for kind in LOADS:
        for ncyl in (1, None):
            for lam in ('given', inf):
                w = fresh(); loading(r, w, kind, ncyl, '', lam); want = result(w)
                # the next loading keeps the tip-speed ratio last given
                w3 = fresh()
                turb.method(it, w3, 'update_loading', [], {'Ct': Num(it.g.mk('input', (), ('num', 'loadnext'))), 'Lambda': Num(it.g.mk('input', (), ('num', 'Lambda'))) if lam == 'given' else it.num(lam)})
                want3 = result(w3)
                for okind in LOADS:
                    olam = inf if lam == 'given' else 'given'
                    # (vectors of another length left behind would be no velocity at all: same kind)
                    for oncyl, olam in ((ncyl, olam),) if okind != kind else ((None if ncyl == 1 else 1, olam), (3, None)):
                        lab = '%s,nCyl=%s,Lambda=%s after %s,nCyl=%s,Lambda=%s' % (kind, ncyl, lam, okind, oncyl, olam)
                        w = fresh()
                        try: loading(r, w, okind, oncyl, 'old', olam)
                        except PathDead: continue
                        result(w)
                        try: loading(r, w, kind, ncyl, '', lam)
                        except PathDead:
                            rep.fail(rule, where, 'a second loading ends in an error', None, configs=lab); continue
                        same(want, result(w), lab, 'velocity depends on an earlier loading')
                        try: loading(r, w, 'Ct', 1, 'next', None)
                        except PathDead:
                            rep.fail(rule, where, 'a loading without a tip-speed ratio ends in an error', None, configs=lab); continue
                        same(want3, result(w), lab + ', then Ct', 'the tip-speed ratio kept is not the last one given')

def compare(rep, r, rule, where, A, B, what, lab):
    it = r.it
    if len(A) != len(B):
        rep.fail(rule, where, what, None, configs=lab); return
    s = sym.Sess('', it=it)
    D = []; locs = {}
    for (p, a), (_, b) in zip(A, B):
        l = what
        if a is b: rep.ok(rule, lab + p); continue
        D.append((l + ' ' + p, it.g.sub(a, b))); locs[l + ' ' + p] = b.loc
    if D: sym.report(rep, rule, where, s.zero(D), locs, lab)

def snap(it, w):
    out = {}
    for k, v in it.obj(w)['attrs'].items(): out[k] = flat(it, v)
    return out

def flat(it, v):
    if isinstance(v, PyC): return ('py', v.v)
    if isinstance(v, Num): return ('n', v.node.id)
    if isinstance(v, Arr): return ('a', v.shape, tuple(sorted((k, n.id) for k, n in it.content(v).items())))
    if isinstance(v, Phi): return ('phi', v.c.id, flat(it, v.a), flat(it, v.b))
    if isinstance(v, Tup): return ('t',) + tuple(flat(it, x) for x in v.items)
    if hasattr(v, 'oid'): return ('o', v.oid)
    return ('x', type(v).__name__)

def queries(rep, repo, ori):
    rule = 'queries leave the turbine as it is'
    Q = {
        'yaw_wind': lambda r: r.it.getattr(r.wt, 'yaw_wind'), 'yaw_error': lambda r: r.it.getattr(r.wt, 'yaw_error'), 'chi': lambda r: r.it.getattr(r.wt, 'chi'),
        'tostring': lambda r: turb.method(r.it, r.wt, 'tostring', [], {'short': r.it.num(False)}), 'rotor_disk_points': lambda r: turb.method(r.it, r.wt, 'rotor_disk_points', []),
        'repr': lambda r: turb.method(r.it, r.wt, '__repr__', []),
    }
    for g in (None, True, False):
        for ind in (True, False):
            for nw in (True, False):
                for comp in ('tang', 'longi', 'root'):
                    Q['compute_u(ground=%s,only_ind=%s,no_wake=%s,%s)' % (g, ind, nw, comp)] = lambda r, g=g, ind=ind, nw=nw, comp=comp: turb.method(r.it, r.wt, 'compute_u', list(turb.points(r.it)),
                        {'ground': NONE if g is None else r.it.num(g), 'only_ind': r.it.num(ind), 'no_wake': r.it.num(nw), 'tang': r.it.num(comp == 'tang'), 'longi': r.it.num(comp == 'longi'), 'root': r.it.num(comp == 'root'), 'R_far_field': r.it.num(7)})
    for M in ('VCFF', 'VD', 'SS'):
        Q['compute_u(Model=%s)' % M] = lambda r, M=M: turb.method(r.it, r.wt, 'compute_u', list(turb.points(r.it)), {'Model': PyC(M)})
    for chi in ('sym', 0, None):
        r = turb.make_turbine(repo, ori=ori, chi=chi); it = r.it
        for name, q in Q.items():
            if 'Model' in name and chi != 0: continue
            before = snap(it, r.wt)
            rep.count('queries')
            try: v = q(r)
            except PathDead:
                rep.undecided(rule, name, 'query does not return'); continue
            after = snap(it, r.wt)
            ch = [k for k in before if after.get(k) != before[k]]
            what = name.split('(')[0]
            if ch:
                e = [x for x in it.events if x.kind in ('attrw', 'write')]
                rep.fail(rule, 'WindTurbine.' + what, 'changes %s of the turbine' % ', '.join(sorted(ch)), e[-1].loc if e else None, configs=name)
            else: rep.ok(rule, '%s,chi=%s,%s' % (ori, chi, name))

def farm(rep, repo):
    rule = 'queries leave the farm and its turbines as they are'
    r = allruns.farm(repo, 2); it = r.it
    if r.dead: rep.undecided(rule, 'WindFarm', 'velocity field does not return'); return
    pts = list(r.pts)
    b = [snap(it, w) for w in r.wts]; n = list(it.obj(r.farm)['items'])
    V1 = leaves(it, r.value)
    it.getattr(r.farm, 'layout'); it.getattr(r.farm, 'nWT')
    for m in ('tostring', '__repr__'): turb.method(it, r.farm, m, [])
    V2 = leaves(it, turb.method(it, r.farm, 'velocity_field', pts, {'U0': turb.vec(it, 'V')}))
    V3 = turb.method(it, r.farm, 'velocity_field', pts, {'no_wake': it.num(True)})
    a = [snap(it, w) for w in r.wts]
    for x, y in zip(b, a):
        ch = [k for k in x if y.get(k) != x[k]]
        if ch: rep.fail(rule, 'WindFarm.velocity_field', 'changes %s of a turbine' % ', '.join(sorted(ch)), None)
        else: rep.ok(rule, 'turbine of a farm')
    if [id(x) for x in it.obj(r.farm)['items']] != [id(x) for x in n]: rep.fail(rule, 'WindFarm', 'the list of turbines changed', None)
    else: rep.ok(rule, 'list of turbines')
    compare(rep, r, 'only the current settings count', 'WindFarm.velocity_field', V1, V2, 'repeated query differs', 'farm')
    # moving a turbine and moving it back; moving another one
    lay = it.getattr(r.farm, 'layout')
    A = it.arr({(i, j): it.g.mk('input', (), ('num', 'lay%d%d' % (i, j))) for i in range(2) for j in range(3)}, (2, 3))
    B = it.arr({(i, j): it.g.mk('input', (), ('num', ('hub%d' if i == 0 else 'hub1_%d') % j)) for i in range(2) for j in range(3)}, (2, 3))
    try:
        it.setattr(r.farm, 'layout', A); turb.method(it, r.farm, 'velocity_field', pts, {}); it.setattr(r.farm, 'layout', B)
        V4 = leaves(it, turb.method(it, r.farm, 'velocity_field', pts, {'U0': turb.vec(it, 'V')}))
        compare(rep, r, 'only the current settings count', 'WindFarm.velocity_field', V1, V4, 'moving the turbines away and back changes the velocity', 'farm')
    except PathDead: rep.fail('only the current settings count', 'WindFarm.layout', 'setting a layout ends in an error', None)

def cached(rep, repo):
    r = turb.make_turbine(repo)
    for q, loc, meth in r.it.cached:
        if q.startswith(('WindTurbine.', 'WindFarm.')): rep.fail('no cached method', q, 'a caching decorator keeps results across changes of the object', loc)
