"""A regularised kernel is compared, on one value graph, with the bare one: same direction, same limit when the
core shrinks (power series in the core size), no velocity in the centre, no step at the edge of the core, and
largest velocity at the core radius where the parameter is one (exact derivative).  The kernels of higher order
of smoothed points are read off as polynomials times an exponential and their moments computed."""
import math
from fractions import Fraction
from sa import entries, sym, jets
from sa.jets import Q
from sa.diff import Diff, NoDerivative, integrand
from sa.cases import Facts
from sa.interp import PathDead
from sa.poly import TooBig
from checks.c23 import Ctx, POS, series
from checks.c29 import cross, equal

SHRINK, CENTRE, DIRECTION = 'a shrinking core leaves the bare vortex', 'no velocity in the centre of the core', 'regularisation keeps the direction'
OUTSIDE = 'a core with an edge changes nothing outside of it'
PROFILE = 'the documented core models have their classical profile'
EDGE, PEAK, ORDER = 'no step at the edge of the core', 'largest velocity at the core radius', 'moments of a smoothing kernel vanish up to its order'

def run(rep, repo, tier):
    E = {e.key: e for e in entries.kernels()}
    lines(rep, repo, E)
    points(rep, repo, E)
    rings(rep, repo, E)
    return 120

def pair(rep, repo, rule, a, la, b, lb):
    """the outputs of two entries on one graph"""
    s = sym.Sess(repo, positive=POS + ('t', 's', 'a', 'SmoothParam')); out = []
    for e, lab in ((a, la), (b, lb)):
        cfg = [c for c in e.configs if c[0] == lab]
        r = s.run(e, cfg[0] if cfg else e.configs[0])
        if r.dead or not r.leaves: rep.undecided(rule, '%s %s' % (e.key, lab), 'result not understood'); return None
        out.append([n for _, n in r.leaves])
    rep.count('regularised kernels')
    return (s, Ctx(s)) + tuple(out)

def tends(rep, rule, key, lab, what, s, n, at, text, pre=None, roots=(), power=0):
    c = Ctx(s)
    if pre: n = s.sub(n, {k: c(v) for k, v in pre.items()})
    ls = series(rep, rule, '%s %s %s' % (key, lab, what), s, n, at, power, 4, roots)
    if ls == 'unbounded': rep.fail(rule, key, text, n.loc, ['grows without bound', what], lab); return
    for _, l in ls or ():
        sym.report(rep, rule, key, s.zero([(text, l)], regular=True), {text: n.loc}, lab, what='%s %s %s' % (key, lab, what))

# ------------------------------------------------------------------ lines
def lines(rep, repo, E):
    A = ('xa', 'ya', 'za')
    for key in sorted(E):
        if not key.startswith('vl_semiinf_u[') or 'model=0' in key: continue
        x = pair(rep, repo, SHRINK, E[key], '', E['vl_semiinf_u[visc_model=0]'], '')
        if x is None: continue
        s, c, u, u0 = x
        model = int(key[-2])
        axis = {'xe': c(0), 'ye': c(0), 'ze': c(1)}
        P = {'xa': c.mul('d', c.cos('phi')), 'ya': c.mul('d', c.sin('phi'))}
        # an inclined line and a point at distance d from it, h behind its start
        C, S, k1, k2 = c.cos('p'), c.sin('p'), c.mul('d', c.cos('phi')), c.mul('d', c.sin('phi'))
        skew = {'xe': S, 'ye': c(0), 'ze': C, 'xa': c.add(c.mul('h', S), c.mul(k1, C)), 'ya': k2, 'za': c.add(c.mul('h', C), c.neg(c.mul(k1, S)))}
        unit = [c.mul(c.cos('p'), c.cos('q')), c.mul(c.cos('p'), c.sin('q')), c.sin('p')]
        for i, k in enumerate('xyz'):
            tends(rep, SHRINK, key, '', 'component %s' % k, s, c.g.sub(u[i], u0[i]), {'t': {Q(1): c(1)}}, 'component %s is not that of the bare line when its core shrinks' % k, skew)
            for where, z in (('downstream of its start', 'h'), ('upstream of its start', c.neg('h'))):
                n = s.sub(u[i], dict(axis, za=c(z)))
                tends(rep, CENTRE, key, '', 'component %s %s' % (k, where), s, n, {'xa': {Q(1): c.cos('phi')}, 'ya': {Q(1): c.sin('phi')}}, 'component %s does not vanish on the line' % k, roots=[c('h')])
        for k, n in zip('xyz', cross(c, u, u0)):
            equal(rep, DIRECTION, key, '', 'component %s of the product with the bare velocity' % k, s, lambda: n, dict(zip(('xe', 'ye', 'ze'), unit)), 'the velocity is not parallel to that of the bare line')
        # the steps of the velocity at its own conditions
        un = [s.sub(n, dict(axis, **P)) for n in u]
        K = profile(c, model)
        if K is not None:
            b = [c.mul(K, s.sub(n, dict(axis, **P))) for n in u0]
            for k, x, y in zip('xyz', un, b):
                equal(rep, PROFILE, key, '', 'component %s' % k, s, lambda: c.g.sub(x, y), None, 'component %s does not have the profile of this core' % k)
        steps(rep, key, s, c, un, 'd', 't')
        if model <= 3: peak(rep, key, s, c, un[1], 'd', 't', {'phi': c(0)})

def profile(c, model):
    """the classical profiles of vortex cores: velocity over that of the bare line, at distance d from a line along z"""
    d2, t2 = c.pow('d', 2), c.pow('t', 2)
    a = c.sqrt(c.add(d2, c.pow('za', 2)))
    den = c.mul(a, c.add(a, c.neg('za')))
    if model == 1: return c.g.sel(c.g.cmp('<', c('d'), c('t')), c.div(d2, t2), c(1))
    if model == 2: return c.add(1, c.neg(c.g.fn('exp', c.mul(-1.25643, c.div(d2, t2)))))
    if model == 3: return c.div(d2, c.sqrt(c.add(c.pow('t', 4), c.pow('d', 4))))
    return c.div(den, c.add(den, 't')) if model in (4, 5) else None

def steps(rep, key, s, c, u, r, core):
    """conditions on the size of the core: both sides agree where they meet"""
    for n in s.g.reach(u).values():
        if n.op != 'sel' or not s.g.contains(n.args[0], s.inp(core)): continue
        rep.count('conditions on the size of the core')
        w = '%s at %s' % (key, n.loc,)
        k = n.args[0]
        try: e = s.nf.nf(c.g.sub(k.args[0], k.args[1])) if k.op == 'cmp' else None
        except TooBig: e = None
        # where the condition changes: distance = factor times core
        t = {tuple(s.nf.atoms[i].name for i, q in m if q == 1): v for m, v in e.t.items()} if e else {}
        if set(t) != {(r,), (core,)} or t[(r,)] * t[(core,)] >= 0: rep.undecided(EDGE, w, 'condition not understood'); continue
        d = s.sub(c.g.sub(n.args[1], n.args[2]), {r: c.mul(-t[(core,)] / t[(r,)], core)})
        sym.report(rep, EDGE, key, s.zero([('the velocity has a step at the edge of the core', d)], regular=True), {}, '', what=w)

def peak(rep, key, s, c, n, r, core, pre):
    """for a line far from its ends: velocity times distance is the strength times the factor K, so that the
    velocity K/r is largest where r K' = K"""
    D = Diff(s)
    where = '%s core radius' % key
    try:
        n = s.sub(n, pre)
        sides = [n] + [s.g.subst(n, lambda x: x.args[k] if x.op == 'sel' and s.g.contains(x.args[0], s.inp(core)) else None) for k in (1, 2)]
        sides = list({x.id: x for x in sides}.values())
        if len(sides) > 1: sides = sides[1:]
        signs = []
        for x in sides:
            # in the limit za -> infinity
            ls = jets.limits(s, {'za': {Q(-1): c(1)}}, x, roots=[])
            v = [s.sub(D(l, r), {r: c(core)}) for _, l in ls]
            w = [s.sub(c.div(l, r), {r: c(core)}) for _, l in ls]
            signs.append((v, w))
    except (NoDerivative, jets.Lost, PathDead, TooBig, ZeroDivisionError) as e:
        rep.undecided(PEAK, where, 'no expansion (%s)' % e); return
    val = []
    for v, w in signs:
        for a, b in zip(v, w):
            q = ratio(s, a, b)
            if q is None: rep.undecided(PEAK, where, 'derivative not understood'); return
            val.append(q)
    # derivative relative to velocity / radius at the core radius: zero, or rising inside and falling outside
    if len(val) == 1 and abs(val[0]) < 1e-4 or len(val) == 2 and min(val) < 0 < max(val): rep.ok(PEAK, where)
    else: rep.fail(PEAK, key, 'the velocity is not largest at the core radius', None, ['relative slopes there: %s' % val])

def ratio(s, a, b):
    """the number a/b"""
    try: p, q = s.nf.nf(a), s.nf.nf(b)
    except TooBig: return None
    if s.nf.iszero(p): return 0.0
    p, q = number(s, p), number(s, q)
    if p.keys() != q.keys() or len(p) != 1: return None
    m = next(iter(p)); return p[m] / q[m]

def number(s, p):
    """exponentials of numbers evaluated"""
    t = {}
    for m, k in p.t.items():
        r = []
        for i, e in m:
            a = s.nf.atoms[i]
            x = a.data[0].t if a.kind == 'fn' and a.name == 'exp' else None
            if x is not None and list(x) in ([()], []): k *= math.exp(x.get((), 0.0) * e)
            else: r.append((i, e))
        t[tuple(r)] = t.get(tuple(r), 0.0) + k
    return t

# ------------------------------------------------------------------ points
def points(rep, repo, E):
    for key in sorted(E):
        if key == 'vp_u[bViscous=True]': bare = 'vp_u[bViscous=False]'
        elif key.startswith('vps_u[') and 'SmoothModel=0' not in key: bare = 'vps_u[SmoothModel=0,KernelOrder=2]'
        else: continue
        x = pair(rep, repo, SHRINK, E[key], '', E[bare], '')
        if x is None: continue
        s, c, u, u0 = x; g = s.g
        if key[2] == 's':
            at = {}
            for n in g.reach(u + u0).values():
                if n.op == 'at' and n.args[0].op == 'input': at.setdefault(n.args[0].attr[1], []).append(n)
            new = {'XV[0]': c('xv'), 'XV[1]': c('yv'), 'Gammas': c('Gv'), 'SmoothParam': c('t')}
            if any(k not in at for k in new): rep.undecided(SHRINK, key, 'elements not understood'); continue
            pairs = [(n, v) for k, v in new.items() for n in at[k]]
            u, u0 = [[s.subpairs(integrand(g, n), pairs) for n in w] for w in (u, u0)]
            x0, y0, G = 'xv', 'yv', 'Gv'
        else:
            ren = {'rcore': c('t')}
            u, u0 = [[s.sub(n, ren) for n in w] for w in (u, u0)]
            x0, y0, G = 'Pv[0]', 'Pv[1]', 'Gamma'
        around = {'CP[0]': c.add(x0, c.mul('d', c.cos('phi'))), 'CP[1]': c.add(y0, c.mul('d', c.sin('phi')))}
        for i, k in enumerate('xy'):
            tends(rep, SHRINK, key, '', 'component %s' % k, s, c.g.sub(u[i], u0[i]), {'t': {Q(1): c(1)}, 'd': {Q(0): c('d')}}, 'component %s is not that of the bare point when its core shrinks' % k, around)
            tends(rep, CENTRE, key, '', 'component %s' % k, s, u[i], {'CP[0]': {Q(0): c(x0), Q(1): c.cos('phi')}, 'CP[1]': {Q(0): c(y0), Q(1): c.sin('phi')}}, 'component %s does not vanish in the centre' % k)
        equal(rep, DIRECTION, key, '', 'product with the bare velocity', s, lambda: g.sub(c.mul(u[0], u0[1]), c.mul(u[1], u0[0])), None, 'the velocity is not parallel to that of the bare point')
        # factor to the bare velocity at distance s times the core, seen along x
        line = {'CP[0]': c.add(x0, c.mul('t', 's')), 'CP[1]': c(y0)}
        f = s.sub(c.div(c.mul(u[1], 2 * math.pi, 't', 's'), G), line)
        order = int(key.split('KernelOrder=')[1].rstrip(']')) if 'KernelOrder' in key else 2
        moments(rep, key, s, c, f, order)

def moments(rep, key, s, c, f, order):
    """f = 1 - P(s^2) exp(-a s^2) with P(0) = 1 and integral over v = s^2 of v^(k-1) P exp(-a v) zero for 0 < 2k < order"""
    where = '%s kernel' % key
    try:
        P = {}; a = None; const = 0
        (_, f), = jets.limits(s, {'t': {Q(0): c('t')}}, f)       # (guards for tiny distances do not hold)
        p = s.nf.nf(f)
        for m, k in p.t.items():
            e = 0; ex = None
            for i, q in m:
                at = s.nf.atoms[i]
                if at.kind == 'fn' and at.name == 'exp' and ex is None and q == 1: ex = at.data[0]
                elif at.name == 's' or at.kind == 'in' and 's' in str(at.name): e += q
                else: raise ValueError('%s' % s.nf.show(p, 3))
            if ex is None:
                if e: raise ValueError('power of the distance')
                const += k
            else:
                if len(ex.t) != 1: raise ValueError('exponent')
                (mm, kk), = ex.t.items()
                if [q for _, q in mm] != [2] or kk >= 0 or a not in (None, -kk): raise ValueError('exponent')
                a = -kk
                if e % 2 or e < 0: raise ValueError('odd power')
                P[e // 2] = P.get(e // 2, 0) - k
    except (ValueError, TooBig, TypeError) as x:
        rep.undecided(ORDER, where, 'not a polynomial times an exponential: %s' % str(x)[:200]); return
    rep.count('smoothing kernels')
    I = lambda k: sum(w * math.factorial(i + k) / a ** (i + k + 1) for i, w in P.items())
    T = [('the factor does not tend to one away from the core', const - 1), ('the factor does not vanish in the centre', const - P.get(0, 0))]
    T += [('its moment %d does not vanish for a kernel of order %d' % (2 * k, order), I(k - 1) / math.factorial(k - 1) * a ** k) for k in range(1, (order + 1) // 2)]
    for t, v in T:
        if abs(v) < 1e-9: rep.ok(ORDER, where + ' ' + t)
        else: rep.fail(ORDER, key, t, None, ['value %g' % v, 'kernel 1 - (%s) exp(-%g v)' % (' + '.join('%g v^%d' % (w, i) for i, w in sorted(P.items())), a)])

# ------------------------------------------------------------------ rings and cylinders
def rings(rep, repo, E):
    for key, labs in (('ring_u_polar', ('polar,Saffman', 'polar,linear')), ('ring_u', ('polar,eps',))):
        for lab in labs:
            x = pair(rep, repo, SHRINK, E[key], lab, E[key], 'polar,eps0')
            if x is None: continue
            s, c, u, u0 = x
            pre = {'Xcp': c('s'), 'Ycp': c(0)} if key == 'ring_u' else {}
            for i, k in enumerate(('radial', 'axial')):
                tends(rep, SHRINK, key, lab, '%s velocity' % k, s, c.g.sub(u[i], u0[i]), {'epsilon': {Q(1): c(1)}}, '%s velocity is not that of the bare ring when its core shrinks' % k, pre)
            # points outside of the core
            at = {'z0': c(0)}
            if key == 'ring_u': at.update({'Xcp': c('s'), 'Ycp': c(0), 'R': c.add('s', 'd')}); rho = c.sqrt(c.add(c.pow('d', 2), c.pow('Zcp', 2)))
            else: at['r0'] = c.add('r', 'd'); rho = c.sqrt(c.add(c.pow('d', 2), c.pow('z', 2)))
            out = Facts(s.nf).assume('<', s.nf.nf(c.g.sub(c.div('epsilon', 2), rho)), True)
            T = [('%s velocity outside of the core is not that of the bare ring' % k, s.sub(c.g.sub(p, q), at)) for k, p, q in zip(('radial', 'axial'), u, u0)]
            sym.report(rep, OUTSIDE, key, s.zero(T, out, regular=True), {T[0][0]: u[0].loc, T[1][0]: u[1].loc}, lab)
    x = pair(rep, repo, SHRINK, E['vc_tang_u'], 'polar,eps', E['vc_tang_u'], 'polar,eps0')
    if x:
        s, c, u, u0 = x
        for where, sg in (('inside', 1), ('outside', -1)):
            for zz, z in (('downstream', 'h'), ('upstream', c.neg('h'))):
                pre = {'Xcp': c('s'), 'Ycp': c(0), 'R': c.add('s', c.mul(sg, 'd')), 'Zcp': c(z)}
                for i, k in enumerate(('radial', 'axial')):
                    tends(rep, SHRINK, 'vc_tang_u', 'polar,eps', '%s velocity %s, %s' % (k, where, zz), s, c.g.sub(u[i], u0[i]), {'epsilon': {Q(1): c(1)}}, '%s velocity is not that of the bare cylinder when its core shrinks' % k, pre, roots=[c('d'), c('s')])
