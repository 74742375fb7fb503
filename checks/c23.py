"""The closed forms are expanded on the value graph as truncated power series: across a vortex sheet, towards
a vortex line or ring, towards infinity.  Jump, circulation and leading far-field term are compared, as normal
forms, with those of a sheet, line or dipole of the given strength (classical potential-flow results written
here independently of the code)."""
from sa import entries, sym, jets
from sa.jets import Q, Lost
from sa.interp import PathDead

POS = ('R', 'vr', 'r', 'r0', 'rcp', 'h', 'd', 'ntheta', 'epsilon', 'th', 'r_bar_Cut', 'rcore')
PI4 = 1 / (4 * 3.141592653589793)

class Ctx(object):
    """builds graph nodes from short expressions"""
    def __init__(self, s): self.s = s; self.g = s.g
    def __call__(self, x):
        if isinstance(x, str): return self.s.inp(x)
        if isinstance(x, (int, float)): return self.g.const(x)
        return x
    def add(self, *a):
        r = self(a[0])
        for x in a[1:]: r = self.g.add(r, self(x))
        return r
    def mul(self, *a):
        r = self(a[0])
        for x in a[1:]: r = self.g.mul(r, self(x))
        return r
    def neg(self, a): return self.g.neg(self(a))
    def div(self, a, b): return self.g.div(self(a), self(b))
    def pow(self, a, p): return self.g.pow(self(a), self.g.const(p))
    def sqrt(self, a): return self.g.fn('sqrt', self(a))
    def cos(self, a): return self.g.fn('cos', self(a))
    def sin(self, a): return self.g.fn('sin', self(a))

def run(rep, repo, tier):
    E = {e.key: e for e in entries.kernels()}
    jumps(rep, repo, E)
    lines(rep, repo, E)
    far(rep, repo, E)
    wake(rep, repo, E)
    return 100

def session(rep, repo, e, lab):
    s = sym.Sess(repo, positive=POS)
    cfg = [c for c in e.configs if c[0] == lab]
    r = s.run(e, cfg[0] if cfg else e.configs[0])
    return s, r

def series(rep, rule, where, s, n, at, power=0, order=4, roots=()):
    try:
        ls = jets.limits(s, at, n, power=power, order=order, roots=roots)
    except (Lost, ZeroDivisionError, PathDead, sym.TooBig) as x:
        if isinstance(x, Lost) and str(x) == 'unbounded': return 'unbounded'
        rep.undecided(rule, where, 'no expansion (%s)' % (str(x) or type(x).__name__)); return None
    return ls

def compare(rep, rule, key, lab, what, s, pairs, loc=None):
    for label, d in pairs:
        sym.report(rep, rule, key, s.zero([(label, d)], regular=True), {}, lab, what='%s %s %s' % (key, lab, what))

def coefs(rep, repo, E, rule, key, lab, what, build, order=4, roots=None):
    """build(c) -> (pre-substitution, behaviour of the inputs, power, expected coefficients or None per output)"""
    e = E[key]; where = '%s %s %s' % (key, lab, what)
    s, r = session(rep, repo, e, lab)
    rep.count('expansions')
    if r.dead or not r.leaves: rep.undecided(rule, where, 'result not understood'); return
    c = Ctx(s); pre, at, power, want = build(c)
    if len(want) != len(r.leaves): rep.undecided(rule, where, '%d outputs, %d expected' % (len(r.leaves), len(want))); return
    for (lf, n), w in zip(r.leaves, want):
        if w is None: continue
        if pre: n = s.sub(n, {k: c(v) for k, v in pre.items()})
        ls = series(rep, rule, where + lf, s, n, at, power, order, roots(c) if roots else ())
        if ls == 'unbounded': rep.fail(rule, key, 'component %s grows faster than expected %s' % (lf, what), n.loc, configs=lab); continue
        for _, l in ls or ():
            compare(rep, rule, key, lab, what + lf, s, [('component %s: leading term %s is not that of the given strength' % (lf, what), c.g.sub(l, c(w)))])

def jumps(rep, repo, E):
    rule = 'jump across a vortex sheet'
    def xy(c, sg):
        R, k, n = c('R'), c.cos('phi'), c.sin('phi')
        return {'Xcp': {Q(0): c.mul(R, k), Q(1): c.mul(sg, k)}, 'Ycp': {Q(0): c.mul(R, n), Q(1): c.mul(sg, n)}}
    vr = lambda c, sg: {'vr': {Q(0): c('R'), Q(1): c(sg)}}
    zd = lambda n, v: lambda c: {n: c('h') if v > 0 else c.neg('h') if v < 0 else c(0)}
    def ends(sa, sb):       # distances to both ends, signed
        def f(c):
            a, b = c.mul(sa, 'h'), c.mul(sb, 'd')
            return {'Zcp': c.add('z1', a), 'z2': c.add('z1', a, c.neg(b))}
        return f
    T = []
    for key, lab in (('vc_tang_u', 'polar,eps0'), ('cylinder_tang_semi_inf_u_raw', 'polar')):
        T += [(key, lab, xy, zd('Zcp', 1), 'downstream of its edge', lambda c: [0, c.neg('gamma_t')]),
              (key, lab, xy, zd('Zcp', -1), 'upstream of its edge', lambda c: [0, 0]),
              (key, lab, xy, zd('Zcp', 0), 'in the plane of its edge', lambda c: [None, c.mul(-0.5, 'gamma_t')])]
    T += [('cylinder_tang_u', 'polar', xy, ends(1, -1), 'between its ends', lambda c: [0, c.neg('gamma_t')]),
          ('cylinder_tang_u', 'polar', xy, ends(1, 1), 'beyond its ends', lambda c: [0, 0]),
          ('cylinder_tang_u', 'polar', xy, ends(-1, -1), 'before its ends', lambda c: [0, 0]),
          ('vc_longi_u_polar', 'polar', vr, zd('vz', 1), 'downstream of its edge', lambda c: [0, c('gamma_l'), 0]),
          ('vc_longi_u_polar', 'polar', vr, zd('vz', -1), 'upstream of its edge', lambda c: [0, 0, 0]),
          ('vc_longi_u_polar', 'polar', vr, zd('vz', 0), 'in the plane of its edge', lambda c: [0, c.mul(0.5, 'gamma_l'), 0])]
    for key, lab, side, pre, what, want in T:
        e = E[key]; where = '%s %s %s' % (key, lab, what)
        s, r = session(rep, repo, e, lab)
        rep.count('jumps')
        if r.dead or not r.leaves: rep.undecided(rule, where, 'result not understood'); continue
        c = Ctx(s); w = want(c)
        for (lf, n), x in zip(r.leaves, w):
            if x is None: continue
            n = s.sub(n, {k: c(v) for k, v in pre(c).items()})
            ls = [series(rep, rule, where + lf, s, n, side(c, sg)) for sg in (1, -1)]
            if None in ls: continue
            if 'unbounded' in ls: rep.fail(rule, key, 'component %s is unbounded at the sheet %s' % (lf, what), n.loc, configs=lab); continue
            if len(ls[0]) != 1 or len(ls[1]) != 1: rep.undecided(rule, where + lf, 'several cases'); continue
            d = c.g.sub(c.g.sub(ls[0][0][1], ls[1][0][1]), c(x))
            compare(rep, rule, key, lab, what + lf, s, [('component %s: the jump across the sheet %s is not that of its strength' % (lf, what), d)])

def lines(rep, repo, E):
    rule = 'circulation around a vortex line'
    G2 = 2 * PI4
    for key, lab in (('vl_semiinf_straight_u_polar', 'polar'), ('vl_semiinf_straight_u', 'polar'), ('vl_semiinf_straight_u', 'cart'), ('vc_root_u', 'polar'), ('vc_root_u', 'cart'),
                     ('svc_root_u', 'polar'), ('svc_root_u', 'cart')):
        pol = key.endswith('polar')
        for v, what, f in ((1, 'downstream of its origin', G2), (-1, 'upstream of its origin', 0), (0, 'in the plane of its origin', PI4)):
            def build(c, v=v, f=f):
                z = c('h') if v > 0 else c.neg('h') if v < 0 else c(0)
                pre = {'vz' if pol else 'Zcp': z}
                if key.startswith('svc'): pre['m'] = c(0)
                k, n = c.cos('phi'), c.sin('phi')
                at = {'vr': {Q(1): c(1)}} if pol else {'Xcp': {Q(1): k}, 'Ycp': {Q(1): n}}
                w = c.mul(f, 'Gamma_r')
                return pre, at, Q(-1), [0, w, 0] if lab == 'polar' else [c.neg(c.mul(w, n)), c.mul(w, k), 0]
            coefs(rep, repo, E, rule, key, lab, what, build)
    # inclined lines: point on the line, displaced in the plane z = constant
    def skew(c):
        q = c.add(1, c.pow('m', 2)); k, n = c.cos('phi'), c.sin('phi')
        f = c.div(c.mul(G2, 'Gamma_r', c.sqrt(q)), c.add(1, c.mul(c.pow('m', 2), c.pow(n, 2))))
        at = {'Xcp': {Q(0): c.mul('m', 'h'), Q(1): k}, 'Ycp': {Q(1): n}}
        return {'Zcp': c('h')}, at, Q(-1), [c.neg(c.mul(f, n)), c.mul(f, k), c.mul(f, 'm', n)]
    coefs(rep, repo, E, rule, 'svc_root_u', 'cart', 'of an inclined line, downstream', skew)
    for key in [k for k in E if k.startswith('vl_semiinf_u[visc_model=0')]:
        for nm, e3, d3, x3 in (('x', (1, 0, 0), ('n', 'k', 0), None), ('z', (0, 0, 1), (0, 0, 0), None)):
            def line(c, nm=nm, e3=e3):
                k, n = c.cos('phi'), c.sin('phi')
                pre = {'x' + 'e': c(e3[0]), 'ye': c(e3[1]), 'ze': c(e3[2])}
                G = c.mul(G2, 'Gamma')
                if nm == 'z': return dict(pre, za=c('h')), {'xa': {Q(1): k}, 'ya': {Q(1): n}}, Q(-1), [c.neg(c.mul(G, n)), c.mul(G, k), 0]
                return dict(pre, xa=c('h')), {'ya': {Q(1): k}, 'za': {Q(1): n}}, Q(-1), [0, c.neg(c.mul(G, n)), c.mul(G, k)]
            coefs(rep, repo, E, rule, key, '', 'along %s' % nm, line)
    for key in [k for k in E if k.startswith('vp_u[')]:
        if 'True' in key: continue
        def pt(c):
            k, n = c.cos('phi'), c.sin('phi'); G = c.mul(G2, 'Gamma')
            return {}, {'CP[0]': {Q(0): c('Pv[0]'), Q(1): k}, 'CP[1]': {Q(0): c('Pv[1]'), Q(1): n}}, Q(-1), [c.neg(c.mul(G, n)), c.mul(G, k)]
        coefs(rep, repo, E, rule, key, '', 'near the vortex', pt)
    # rings: circulation in the meridional plane
    def ring(c, a0, at):
        s2 = c.add(c.pow('a', 2), c.pow('b', 2)); G = c.mul(G2, 'Gamma')
        return [c.div(c.mul(G, 'b'), s2), c.neg(c.div(c.mul(G, 'a'), s2))]
    for key, lab in (('ring_u', 'polar,eps0'), ('ring_u_polar', 'polar,eps0'), ('ring_u_polar_singular', 'polar'), ('ring_u_polar_singularb', 'polar')):
        if key not in E: continue
        def build(c):
            if key == 'ring_u':
                k, n = c.cos('phi'), c.sin('phi')
                at = {'Xcp': {Q(0): c.mul('R', k), Q(1): c.mul('a', k)}, 'Ycp': {Q(0): c.mul('R', n), Q(1): c.mul('a', n)}, 'Zcp': {Q(1): c('b')}}
            else:
                at = {'r': {Q(0): c('r0'), Q(1): c('a')}, 'z': {Q(0): c('z0'), Q(1): c('b')} if key == 'ring_u_polar' else {Q(1): c('b')}}
            return {}, at, Q(-1), ring(c, 0, at)
        coefs(rep, repo, E, 'circulation around a vortex ring', key, lab, 'close to the ring', build)

def far(rep, repo, E):
    rule = 'far field'
    s2 = lambda c: c.add(c.pow('th', 2), c.pow('h', 2))
    def dipole(c, m, sg=1):
        p = s2(c); h = c.mul(sg, 'h')
        return [c.mul(3 * PI4, m, 'th', h, c.pow(p, -2.5)), c.mul(PI4, m, c.add(c.mul(3, c.pow('h', 2), c.pow(p, -2.5)), c.neg(c.pow(p, -1.5))))]
    def sink(c, d, sg=1):
        p = c.pow(s2(c), -1.5)
        return [c.mul(-PI4, d, 'th', p), c.mul(-PI4 * sg, d, 'h', p)]
    area = lambda c, g: c.mul(3.141592653589793, c(g), c.pow('R', 2))
    def xyz(c, sg=1):
        return {'Xcp': {Q(-1): c.mul('th', c.cos('phi'))}, 'Ycp': {Q(-1): c.mul('th', c.sin('phi'))}, 'Zcp': {Q(-1): c.mul(sg, 'h')}}
    rz = lambda c, sg, r, z: {r: {Q(-1): c('th')}, z: {Q(-1): c.mul(sg, 'h')}}
    T = [('ring_u', 'polar,eps0', lambda c, sg: (xyz(c, sg), 3, dipole(c, area(c, 'Gamma'), sg))),
         ('ring_u_polar', 'polar,eps0', lambda c, sg: (rz(c, sg, 'r', 'z'), 3, dipole(c, c.mul(3.141592653589793, 'Gamma', c.pow('r0', 2)), sg))),
         ('vc_tang_u', 'polar,eps0', lambda c, sg: (xyz(c, sg), 2, sink(c, area(c, 'gamma_t'), sg))),
         ('vc_tang_u', 'polar,eps', lambda c, sg: (xyz(c, sg), 2, sink(c, area(c, 'gamma_t'), sg))),
         ('cylinder_tang_semi_inf_u_raw', 'polar', lambda c, sg: (xyz(c, sg), 2, sink(c, area(c, 'gamma_t'), sg))),
         ('vc_tang_u_doublet', 'polar', lambda c, sg: (xyz(c, sg), 2, sink(c, area(c, 'gamma_t'), sg))),
         ('cylinder_tang_u', 'polar', lambda c, sg: (xyz(c, sg), 3, dipole(c, c.mul(area(c, 'gamma_t'), c.add('z2', c.neg('z1'))), sg))),
         ('doublet_u_polar', 'polar', lambda c, sg: (rz(c, sg, 'rcp', 'zcp'), 3, dipole(c, c('m_z'), sg))),
         ('doublet_line_polar_u', 'polar', lambda c, sg: (rz(c, sg, 'rcp', 'zcp'), 2, sink(c, c('dmz_dz'), sg)))]
    for sg, what in ((1, 'far downstream'), (-1, 'far upstream')):
        for key, lab, f in T:
            if key not in E: continue
            def build(c):
                at, p, w = f(c, sg)
                return {}, at, Q(p), w
            coefs(rep, repo, E, rule, key, lab, what, build)
        def longi(c):
            return {}, rz(c, sg, 'vr', 'vz'), Q(1), [0, c.mul(0.5, 'gamma_l', 'R', c.pow('th', -1), c.add(1, c.mul(sg, 'h', c.pow(s2(c), -0.5)))), 0]
        coefs(rep, repo, E, rule, 'vc_longi_u_polar', 'polar', what, longi)
    def dbl(c):
        r2 = c.add(c.pow('a', 2), c.pow('b', 2), c.pow('h', 2))
        md = c.add(c.mul('m[0]', 'a'), c.mul('m[1]', 'b'), c.mul('m[2]', 'h'))
        w = [c.mul(PI4, c.add(c.mul(3, md, x, c.pow(r2, -2.5)), c.neg(c.mul('m[%d]' % i, c.pow(r2, -1.5))))) for i, x in enumerate(('a', 'b', 'h'))]
        return {}, {'Xcp': {Q(-1): c('a')}, 'Ycp': {Q(-1): c('b')}, 'Zcp': {Q(-1): c('h')}}, Q(3), w
    coefs(rep, repo, E, rule, 'doublet_u', '', 'far away', dbl, order=1)
    for key in [k for k in E if k.startswith('vp_u[')]:
        def pt(c):
            k, n = c.cos('phi'), c.sin('phi'); G = c.mul(2 * PI4, 'Gamma')
            return {}, {'CP[0]': {Q(-1): k}, 'CP[1]': {Q(-1): n}}, Q(1), [c.neg(c.mul(G, n)), c.mul(G, k)]
        coefs(rep, repo, E, rule, key, '', 'far away', pt)

def wake(rep, repo, E):
    rule = 'developed wake'
    inside = lambda c: {'Xcp': c('r'), 'Ycp': c(0), 'R': c.add('r', 'd')}
    outside = lambda c: {'Xcp': c('r'), 'Ycp': c(0), 'R': c.add('r', c.neg('d'))}
    rout = lambda c: [c.div('d', c.add(c.mul(2, 'r'), c.neg('d')))]
    rin = lambda a: lambda c: [c.div('d', c.add('d', c.mul(2, a)))]
    for key, lab in (('vc_tang_u', 'polar,eps0'), ('cylinder_tang_semi_inf_u_raw', 'polar')):
        for where, pre, f, ro in (('inside the wake', inside, 1, rin('r')), ('outside the wake', outside, 0, rout)):
            for sg, k, what in ((1, 1, 'far downstream, '), (-1, 0, 'far upstream, ')):
                coefs(rep, repo, E, rule, key, lab, what + where, lambda c: (pre(c), {'Zcp': {Q(-1): c(sg)}}, 0, [0, c.mul(f * k, 'gamma_t')]), roots=ro)
            coefs(rep, repo, E, rule, key, lab, 'in the rotor plane, ' + where, lambda c: (pre(c), {'Zcp': {Q(1): c(1)}}, 0, [None, c.mul(0.5 * f, 'gamma_t')]))
    for where, f in (('inside the wake', 0), ('outside the wake', 1)):
        pre = lambda c: {'R': c.add('vr', 'd')} if f == 0 else {'vr': c.add('R', 'd')}
        w = lambda c, k: [0, c.div(c.mul(f * k, 'gamma_l', 'R'), c.add('R', 'd')), 0]
        for sg, k, what in ((1, 1, 'far downstream, '), (-1, 0, 'far upstream, ')):
            coefs(rep, repo, E, rule, 'vc_longi_u_polar', 'polar', what + where, lambda c: (pre(c), {'vz': {Q(-1): c(sg)}}, 0, w(c, k)), roots=rin('R' if f else 'vr'))
        coefs(rep, repo, E, rule, 'vc_longi_u_polar', 'polar', 'in the rotor plane, ' + where, lambda c: (pre(c), {'vz': {Q(1): c(1)}}, 0, w(c, 0.5)))
    # finite cylinder: the wake velocity between distant ends
    for where, pre, f, ro in (('inside', inside, 1, rin('r')), ('outside', outside, 0, rout)):
        coefs(rep, repo, E, rule, 'cylinder_tang_u', 'polar', 'between distant ends, ' + where, lambda c: (pre(c), {'z1': {Q(-1): c(-1)}, 'z2': {Q(-1): c(1)}}, 0, [0, c.mul(f, 'gamma_t')]), roots=ro)
