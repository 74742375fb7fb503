"""Dataflow over lanes: points are arrays over a symbolic axis (one or two axes).  Every velocity component
must have the shape of the points, and its value graph must contain no operation that mixes, orders or
selects along the axes of the points (indexing, slicing, reversing, gathering, sorting, cumulating, reducing,
interpolating); a reduction used only to skip work is accepted when both alternatives are equal point by
point.  Complete elliptic integrals are taken as functions of their arguments."""
from sa import entries, kern, turb, allruns, sym
from sa.interp import Num, Arr, Phi, Tup, NONE, PathDead
from sa.simp import Cofactor

AX = ('P', 'Q')
ORDER = {'slice', 'rev', 'gather', 'updsl', 'cumsum', 'cumtrapz', 'concat', 'sort', 'exists', 'interp', 'argmin', 'last', 'red', 'sum', 'iota'}

def mentions(a):
    if a in AX: return True
    return isinstance(a, (tuple, list, set, frozenset)) and any(mentions(x) for x in a)

def crossing(it, n):
    """n mixes the points along their own axes"""
    if n.op == 'at': return mentions(it.atax.get(n.id, ()))
    if n.op == 'loopidx': return mentions(n.attr)
    if n.op in ('upd', 'updx', 'updf'): return mentions(it.atax.get(n.id, ()))
    if n.op in ORDER: return mentions(n.attr)
    return False

def skip_only(it, n, cf, nodes):
    """selections on `any point has c` whose two values agree where c is false at the point"""
    g = it.g
    def f(x):
        if x.op != 'sel': return None
        c = x.args[0]; A, B = x.args[1], x.args[2]
        if c.op == 'not': c = c.args[0]; A, B = B, A
        if c.op != 'red' or c.attr[0] not in ('any', 'all') or len(c.args) != 1: return None
        p = c.args[0]
        if any(crossing(it, y) for y in g.reach([p]).values()): return None
        v = c.attr[0] == 'all'
        A = g.subst(A, f, memo); B = g.subst(B, f, memo)
        env = cf.assume({}, p, v)
        one, two = cf.go(A, cf.restrict_all(A, env)), cf.go(B, cf.restrict_all(B, env))
        # any: the B branch is taken only where p is false everywhere; A must agree there
        if one is two: return A if not v else B
        return None
    memo = {}
    return [g.subst(n, f, memo) for n in nodes]

def check(rep, it, where, key, value, shape, cfg, names=None):
    rule = 'the velocity at a point depends on that point only'
    g = it.g
    L = kern.outputs(it, value)
    cf = Cofactor(g)
    for k, (p, v) in enumerate(L):
        lab = 'component %s' % p
        st = [v]; arrs = []
        while st:
            x = st.pop()
            if isinstance(x, Phi): st += [x.a, x.b]
            else: arrs.append(x)
        for x in arrs:
            sh = x.shape if isinstance(x, Arr) else () if isinstance(x, Num) else None
            if sh is None: rep.undecided('shape', where, type(x).__name__); continue
            if shape is None: shape = sh      # a single point: the same shape on every path
            if tuple(sh) != tuple(shape): rep.fail('each component has the shape of the points', where, '%s has shape %s' % (lab, sh), None, configs=cfg)
            else: rep.ok('each component has the shape of the points', '%s %s [%s]' % (key, p, cfg))
        nodes = [n for x in arrs for _, n in kern.nodes_of(it, x)]
        bad = [n for n in g.reach(nodes).values() if crossing(it, n)]
        if bad:
            nodes = skip_only(it, None, cf, nodes)
            bad = [n for n in g.reach(nodes).values() if crossing(it, n)]
        if not bad: rep.ok(rule, '%s %s [%s]' % (key, p, cfg))
        else:
            b = sorted(bad, key=lambda n: n.id)[0]
            kinds = sorted(set('%s%s' % (n.op, (':' + str(n.attr[0])) if n.op == 'red' else '') for n in bad))
            rep.fail(rule, where, '%s uses other points (%s)' % (lab, ', '.join(kinds)), b.loc, configs=cfg)

def mk2(name):
    return lambda it: it.arr(it.g.mk('input', (), ('num', name)), ('P', 'Q'), ['param:' + name])

def run(rep, repo, tier):
    for src in (entries.kernels, entries.curled):
        for e in src():
            pts = [a[0] for a in e.args if a[1] == 'P']
            for two in (False, True):
                if two and (e.get('points2d') or e.get('scalar') or not pts): continue
                over = {n: mk2(n) for n in pts} if two else None
                shape = ('P', 'Q') if two else None if e.get('scalar') and not pts else ('P',)
                for cfg in e.configs:
                    r = kern.run_entry(repo, e, cfg, over=over)
                    rep.count('configurations')
                    if r.dead: rep.undecided('shape', e.key, 'no path returns'); continue
                    if e.get('points2d'):
                        shape = ('P', 2)
                    check(rep, r.it, e.func, e.key, r.value, shape, '%s%s' % (cfg[0], ',2-D points' if two else ''))
    for r in allruns.turbines(repo, tier):
        rep.count('configurations')
        if r.dead: rep.undecided('shape', r.where, 'no path returns'); continue
        check(rep, r.it, r.where, r.where, r.value, ('P',), r.label)
    for ori in ('z', 'x'):
        for o in ({}, {'ground': True}, {'no_wake': True}, {'longi': True, 'root': True}):
            for chi in ('sym', 0):
                r = turb.make_turbine(repo, ori=ori, chi=chi)
                P = [mk2(n)(r.it) for n in ('Xg', 'Yg', 'Zg')]
                kw = {k: r.it.num(v) for k, v in o.items()}
                try: v = turb.method(r.it, r.wt, 'compute_u', P, kw)
                except PathDead: rep.undecided('shape', 'WindTurbine.compute_u', 'no path returns for 2-D points'); continue
                check(rep, r.it, 'WindTurbine.compute_u', 'compute_u', v, ('P', 'Q'), '%s,%s,chi=%s,2-D points' % (ori, o, chi))
    for u in (False, True):
        r = allruns.sym_farm(repo, u)
        if r.dead: rep.undecided('shape', r.where, 'no path returns'); continue
        check(rep, r.it, r.where, r.where, r.value, ('P',), r.label)
    # points given in another arrangement have the velocities of the same points in a vector
    for r in allruns.shapes(repo, same=True): arranged(rep, r, r.ref.value, r.ref.dead)
    for r in allruns.turbine_shapes(repo): arranged(rep, r, None if r.dead else r.refvalue, False)
    rep.assume('complete elliptic integrals (scipy and Carlson iteration) and azimuthal quadratures are functions of their arguments lane by lane')
    return 300

def arranged(rep, r, ref, refdead):
    rule = 'the arrangement of the points does not matter'; it = r.it
    rep.count('configurations')
    if refdead: return
    if r.dead:
        rep.fail(rule, r.where, 'no velocity for %s' % r.label.split(',')[-1], None, configs=r.label); return
    A, B = kern.outputs(it, ref), kern.outputs(it, r.value)
    if len(A) != len(B): rep.fail(rule, r.where, '%d components instead of %d' % (len(B), len(A)), None, configs=r.label); return
    D = []; locs = {}
    for (p, a), (_, b) in zip(A, B):
        if isinstance(b, Arr) and tuple(b.shape) != tuple(r.shape): rep.fail('each component has the shape of the points', r.where, 'component %s has shape %s' % (p, b.shape), None, configs=r.label); continue
        na, nb = kern.nodes_of(it, a), kern.nodes_of(it, b)
        if len(na) != 1 or len(nb) != 1: continue
        if na[0][1] is nb[0][1]: rep.ok(rule, r.label + p); continue
        l = 'component %s differs from that of a vector of points' % p
        D.append((l, it.g.sub(nb[0][1], na[0][1]))); locs[l] = nb[0][1].loc
    if D:
        s = sym.Sess('', it=it)
        sym.report(rep, rule, r.where, s.zero(D), locs, r.label)
