"""Must-fail analysis by abstract interpretation: each documented misuse (something other than a turbine put
in a farm, a layout of another shape, vortex points and control points of different dimension, negative radii,
a first cylinder of zero radius, loading without specification) must end every path in an error, and the
object or list concerned must be left as it was; the corresponding proper use must return, and setting a
layout must put every row on its own turbine."""
import itertools
from sa import entries, kern, sym, turb, allruns
from sa.interp import Num, Arr, PyC, Tup, NONE, PathDead
from checks.c05 import snap, leaves

RULE = 'misuse is rejected'; SAME = 'rejected requests change nothing'; GOOD = 'proper use is accepted'

def run(rep, repo, tier):
    append(rep, repo); layout(rep, repo); loading(rep, repo); kernels(rep, repo)
    return 30

def attempt(f):
    try: f(); return False
    except PathDead: return True

def verdict(rep, where, what, dead, lab=''):
    rep.count('misuses')
    if dead: rep.ok(RULE, '%s: %s %s' % (where, what, lab))
    else: rep.fail(RULE, where, '%s is accepted' % what, None, configs=lab)

def items(it, f): return list(it.obj(f)['items'])

def append(rep, repo):
    for n in (0, 1, 2):
        r = allruns.farm(repo, n); it = r.it
        other = it.call(allruns.farm_cls(it), [], {})
        bad = {'a number': it.num(3), 'a name': PyC('turbine'), 'nothing': NONE, 'a list': it.lst([]), 'a list of turbines': it.lst([r.wts[0]]),
               'a farm': other, 'a tuple': Tup([it.num(1)]), 'the class itself': r.cls, 'an array': it.arr(it.g.mk('input', (), ('num', 'q')), ('P',))}
        for what, v in bad.items():
            b = items(it, r.farm)
            dead = attempt(lambda: turb.method(it, r.farm, 'append', [v]))
            verdict(rep, 'WindFarm.append', what + ' in place of a turbine', dead)
            if [id(x) for x in items(it, r.farm)] == [id(x) for x in b]: rep.ok(SAME, 'append ' + what)
            else: rep.fail(SAME, 'WindFarm.append', 'the farm changes although the object is rejected', None, configs=what)
        b = items(it, r.farm)
        w = it.call(r.cls, [], {'R': r.S('R9')})
        dead = attempt(lambda: turb.method(it, r.farm, 'append', [w]))
        now = items(it, r.farm)
        if not dead and len(now) == n + 1 and now[-1] is w or not dead and len(now) == n + 1 and getattr(now[-1], 'oid', 0) == getattr(w, 'oid', 1): rep.ok(GOOD, 'append a turbine')
        else: rep.fail(GOOD, 'WindFarm.append', 'a turbine is not added at the end', None)

def layout(rep, repo):
    for n in (1, 2, 3): proper(rep, repo, n, ('numbers',))
    for n in (1, 2, 3):
        for shape in ((n - 1, 3), (n + 1, 3), (n, 2), (n, 4), (3 * n,), (1, n, 3), ()):
            if shape == (3,) and False or min(shape + (1,)) < 1: continue
            r = allruns.farm(repo, n); it = r.it; g = it.g
            S = lambda *k: g.mk('input', (), ('num', 'L' + '_'.join(map(str, k))))
            import itertools
            v = it.arr({k: S(*k) for k in itertools.product(*[range(a) for a in shape])}, shape) if shape else Num(S())
            b = [snap(it, w) for w in r.wts]
            dead = attempt(lambda: it.setattr(r.farm, 'layout', v))
            verdict(rep, 'WindFarm.layout', 'a layout of another shape', dead, '%d turbines, %s' % (n, shape))
            if [snap(it, w) for w in r.wts] == b: rep.ok(SAME, 'layout %s' % (shape,))
            else: rep.fail(SAME, 'WindFarm.layout', 'turbines are moved although the layout is rejected', None, configs='%d turbines, %s' % (n, shape))
        proper(rep, repo, n, ('array', 'list'))

def proper(rep, repo, n, hows):
    for how in hows:
        r = allruns.farm(repo, n); it = r.it; g = it.g
        S = lambda i, j: g.const([[500., 0., 120.], [-20., 30., 90.], [0., -700., 100.]][i][j]) if how == 'numbers' else g.mk('input', (), ('num', 'L%d_%d' % (i, j)))
        v = it.arr({(i, j): S(i, j) for i in range(n) for j in range(3)}, (n, 3)) if how != 'list' else it.lst([it.lst([Num(S(i, j)) for j in range(3)]) for i in range(n)])
        rest = [{k: x for k, x in snap(it, w).items() if k != 'r_hub'} for w in r.wts]
        if attempt(lambda: it.setattr(r.farm, 'layout', v)): rep.fail(GOOD, 'WindFarm.layout', 'a layout of the right shape ends in an error', None, configs=how); continue
        for i, w in enumerate(r.wts):
            h = it.getattr(w, 'r_hub')
            got = [x.id for _, x in leaves(it, h)]
            if got == [S(i, j).id for j in range(3)]: rep.ok(GOOD, 'row %d of %d' % (i, n))
            else: rep.fail(GOOD, 'WindFarm.layout', 'a turbine does not get its row of the layout', None, configs='%d turbines' % n)
        if [{k: x for k, x in snap(it, w).items() if k != 'r_hub'} for w in r.wts] == rest: rep.ok(GOOD, 'only the positions change')
        else: rep.fail(GOOD, 'WindFarm.layout', 'more than the positions changes', None)
        back = it.getattr(r.farm, 'layout')
        got = [(k, x.id) for k, x in sorted(it.content(back).items())] if isinstance(back, Arr) else None
        if got == [((i, j), S(i, j).id) for i in range(n) for j in range(3)]: rep.ok(GOOD, 'layout reads back as set')
        else: rep.fail(GOOD, 'WindFarm.layout', 'the layout does not read back as set', None, configs='%d turbines' % n)

def loading(rep, repo):
    for load in (False, True):
        r = turb.make_turbine(repo, load=load); it = r.it
        gt = Num(it.g.mk('input', (), ('num', 'gt')))
        f = it.func('wiz.elliptic', 'ellipticPiCarlson')
        cases = {'loading without thrust or circulation': {'Lambda': r.S('L2')}, 'a strength function without a thrust coefficient': {'Lambda': r.S('L2'), 'gamma_t_Ct': f},
                 'loading without anything': {}}
        for what, kw in cases.items():
            b = snap(it, r.wt)
            dead = attempt(lambda: turb.method(it, r.wt, 'update_loading', [], dict(kw)))
            verdict(rep, 'WindTurbine.update_loading', what, dead)
            a = snap(it, r.wt)
            ch = sorted(k for k in b if a.get(k) != b[k])
            if not ch: rep.ok(SAME, what)
            else: rep.fail(SAME, 'WindTurbine.update_loading', 'changes %s of the turbine although it fails' % ', '.join(ch), None, configs=what)

def kernels(rep, repo):
    E = dict((e.key, e) for e in entries.kernels()); S = dict((e.key, e) for e in entries.solver())
    e = E['vps_u[SmoothModel=0,KernelOrder=2]']
    def A(n, shape, k):
        return lambda it: it.arr({(q,): it.g.mk('input', (), ('num', '%s[%d]' % (n, q))) for q in range(k)}, (shape, k))
    for a, b in ((2, 3), (3, 2)):
        r = kern.run_entry(repo, e, e.configs[0], over={'CP': A('CP', 'P', a), 'XV': A('XV', 'nv', b)})
        verdict(rep, 'vps_u', 'control points and vortex points of different dimension', r.dead, '%d,%d' % (a, b))
    r = kern.run_entry(repo, e, e.configs[0])
    (rep.fail(GOOD, 'vps_u', 'points of the same dimension are rejected', None) if r.dead else rep.ok(GOOD, 'vps_u'))
    neg = lambda it: it.arr({(0,): it.g.const(-1)}, (1,)); pos = lambda it: it.arr({(0,): it.g.const(2)}, (1,))
    row = lambda q: (lambda it: it.arr({(i,): it.g.const(x) for i, x in enumerate(q)}, (len(q),)))
    for k in ('doublet_u_polar', 'doublet_line_polar_u'):
        e = E[k]
        r = kern.run_entry(repo, e, e.configs[0], over={'rcp': neg, 'zcp': pos}); verdict(rep, e.func, 'a negative radius', r.dead)
        for q in itertools.product((2, -1), repeat=3):
            r = kern.run_entry(repo, e, e.configs[0], over={'rcp': row(q), 'zcp': row((1, 2, 3))})
            if -1 in q: verdict(rep, e.func, 'a negative radius', r.dead, 'among others %s' % (q,))
            elif r.dead: rep.fail(GOOD, e.func, 'positive radii are rejected', None)
        r = kern.run_entry(repo, e, e.configs[0], over={'rcp': pos, 'zcp': pos})
        (rep.fail(GOOD, e.func, 'a positive radius is rejected', None) if r.dead else rep.ok(GOOD, e.func))
    it = kern.new_interp(repo)
    f = it.func('wiz.VortexCylinderSkewed', 'fKzt')
    if f is not None:
        for m in (0, 'sym'):
            a = [it.arr(it.g.mk('input', (), ('num', 'r')), ('P',)), it.num(0) if m == 0 else Num(it.g.mk('input', (), ('num', 'm')))]
            dead = attempt(lambda: it.call(f, a, {}))
            if m == 0: verdict(rep, 'fKzt', 'no skew', dead)
            elif dead: rep.fail(GOOD, 'fKzt', 'a skew is rejected', None)
    e = S['WakeVorticityFromCirculation_Discr']
    for cfg in e.configs:
        if 'r_cyl' in cfg[1]: continue
        L = lambda n, first: (lambda it: it.arr({(0,): it.g.const(0) if first else it.g.mk('input', (), ('num', n + '0')), (1,): it.g.mk('input', (), ('num', n + '1')), (2,): it.g.mk('input', (), ('num', n + '2'))}, (3,)))
        over = {'r_cp': L('c', False), 'Gamma_cp': L('G', False), 'r_cyl': L('y', True)}
        r = kern.run_entry(repo, e, cfg, over=over); verdict(rep, e.func, 'a first cylinder of zero radius', r.dead, cfg[0])
        over['r_cyl'] = L('y', False)
        r = kern.run_entry(repo, e, cfg, over=over)
        (rep.fail(GOOD, e.func, 'proper cylinders are rejected', None) if r.dead else rep.ok(GOOD, e.func))
