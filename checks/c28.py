"""The value graph of every closed-form or quadrature kernel is differentiated exactly (elliptic integrals by
their differential equations) and divergence, curl and Laplacian are shown to vanish identically as normal
forms, at every point off the vortices; for quadratures and sums this is shown of what is added up."""
from sa import entries, poly, sym
from sa.diff import Diff, NoDerivative, integrand
from sa.interp import PathDead
from checks.c23 import Ctx, PI4

POS = ('R', 'r', 'h', 'd', 'r0', 'rcp', 'vr', 's', 'epsilon', 'r_bar_Cut', 'rcore')
DIV, CURL, LAP = 'divergence-free', 'irrotational off the vortices', 'harmonic off the vortices'

def run(rep, repo, tier):
    poly.TERMS = 40000
    E = {e.key: e for e in entries.kernels()}
    axisym(rep, repo, E)
    swirl(rep, repo, E)
    space(rep, repo, E)
    plane(rep, repo, E)
    return 68

def start(rep, repo, e, lab, rule):
    s = sym.Sess(repo, positive=POS)
    cfg = [c for c in e.configs if c[0] == lab]
    r = s.run(e, cfg[0] if cfg else e.configs[0])
    rep.count('fields differentiated')
    if r.dead or not r.leaves:
        rep.undecided(rule, '%s %s' % (e.key, lab), 'result not understood'); return None
    return s, Ctx(s), [n for _, n in r.leaves]

def vanish(rep, rule, key, lab, what, s, f, after=None):
    """f() builds the expression that has to vanish"""
    where = '%s %s %s' % (key, lab, what)
    try: n = f()
    except NoDerivative as x: rep.undecided(rule, where, 'no derivative: %s' % x); return
    b = integrand(s.g, n)
    if b is None: rep.undecided(rule, where, 'sums over different sets'); return
    if after: b = s.sub(b, after)
    pair = [('the velocity is not %s: the %s does not vanish' % (rule, what), b)]
    try: res = s.zero(pair, regular=True)
    except PathDead: rep.undecided(rule, where, 'path'); return
    sym.report(rep, rule, key, res, {}, lab, what=where)

def side(what, sg):
    # the distance to the sheet, and those to the ends, as variables
    return (what, lambda c, r: {'R': c.add(r, c.mul(sg, 'd')), **({} if r == 'vr' else {'Zcp': c.add('z1', 'h'), 'z2': c.add('z1', c.add('h', c.neg('q')))})})
INSIDE, OUTSIDE = side('inside', 1), side('outside', -1)
ANY = ('', lambda c, r: {})

def axisym(rep, repo, E):
    T = [('ring_u_polar_singular', 'polar', 'r', 'z', [ANY]), ('ring_u_polar_singularb', 'polar', 'r', 'z', [ANY]),
         ('ring_u_polar', 'polar,eps0', 'r', 'z', [ANY]),
         ('ring_u', 'polar,eps0', 'Xcp', 'Zcp', [ANY]), ('vc_tang_u', 'polar,eps0', 'Xcp', 'Zcp', [INSIDE, OUTSIDE]),
         ('cylinder_tang_semi_inf_u_raw', 'polar', 'Xcp', 'Zcp', [INSIDE, OUTSIDE]), ('cylinder_tang_u', 'polar', 'Xcp', 'Zcp', [INSIDE, OUTSIDE]),
         ('doublet_u_polar', 'polar', 'rcp', 'zcp', [ANY]), ('doublet_line_polar_u', 'polar', 'rcp', 'zcp', [ANY]),
         ('doublet_line_polar_u_num', 'polar', 'rcp', 'zcp', [ANY])]
    for key, lab, r, z, sides in T:
        x = start(rep, repo, E[key], lab, DIV)
        if x is None: continue
        s, c, (ur, uz) = x
        if r == 'Xcp': ur, uz = [s.sub(n, {'Xcp': c('s'), 'Ycp': c(0)}) for n in (ur, uz)]; r = 's'
        D = Diff(s)
        for what, side in sides:
            m = {k: c(v) for k, v in side(c, r).items()}
            vanish(rep, DIV, key, lab, ('divergence ' + what).strip(), s, lambda: c.add(D(ur, r), c.div(ur, r), D(uz, z)), m)
            vanish(rep, CURL, key, lab, ('curl ' + what).strip(), s, lambda: c.add(D(ur, z), c.neg(D(uz, r))), m)

def swirl(rep, repo, E):
    for key, lab, sides in (('vl_semiinf_straight_u_polar', 'polar', [ANY]), ('vc_longi_u_polar', 'polar', [INSIDE, OUTSIDE])):
        x = start(rep, repo, E[key], lab, LAP)
        if x is None: continue
        s, c, (ur, up, uz) = x
        D = Diff(s); r, z, psi = 'vr', 'vz', 'vpsi'
        for what, side in sides:
            m = {k: c(v) for k, v in side(c, r).items()}
            vanish(rep, DIV, key, lab, ('divergence ' + what).strip(), s, lambda: c.add(D(ur, r), c.div(ur, r), c.div(D(up, psi), r), D(uz, z)), m)
            if key != 'vc_longi_u_polar': vanish(rep, LAP, key, lab, ('Laplacian ' + what).strip(), s,
                   lambda: c.add(D(D(up, r), r), c.div(D(up, r), r), c.neg(c.div(up, c.pow(r, 2))), D(D(up, z), z)), m)

def space(rep, repo, E):
    X = ('Xcp', 'Ycp', 'Zcp'); A = ('xa', 'ya', 'za')
    T = [('doublet_u', '', X, 'C'), ('doublet_line_u', 'semiinf', X, 'C'), ('doublet_line_u', 'finite', X, 'C'), ('doublet_line_u_num', '', X, 'C'),
         ('svc_root_u', 'cart', X, 'L'), ('svc_tang_u', 'cart', X, ''), ('svc_longi_u', 'cart', X, ''), ('vl_semiinf_straight_u', 'cart', X, 'L'), ('vc_root_u', 'cart', X, 'L')]
    for k in E:
        if k.startswith('vl_semiinf_u['): T.append((k, '', A, 'L' if 'model=0' in k else ''))
    for key, lab, xs, kind in T:
        x = start(rep, repo, E[key], lab, DIV)
        if x is None: continue
        s, c, u = x
        if len(u) != 3: rep.undecided(DIV, key, '%d components' % len(u)); continue
        D = Diff(s); pre = None
        vanish(rep, DIV, key, lab, 'divergence', s, lambda: c.add(*[D(v, q) for v, q in zip(u, xs)]), after(c, key))
        if 'C' in kind:
            for i in range(3):
                j, k = (i + 1) % 3, (i + 2) % 3
                vanish(rep, CURL, key, lab, 'curl %s' % 'xyz'[i], s, lambda: c.add(D(u[k], xs[j]), c.neg(D(u[j], xs[k]))), after(c, key))
        if 'L' in kind:
            for i in range(3):
                vanish(rep, LAP, key, lab, 'Laplacian of component %s' % 'xyz'[i], s, lambda: c.add(*[D(D(u[i], q), q) for q in xs]), after(c, key))

def after(c, key):
    # directions are unit vectors: written by half angles, so that their length is one identically
    if key.startswith('vl_semiinf_u['):
        a, b = c('d'), c('h')
        return {'xe': c.mul(c.cos(a), c.cos(b)), 'ye': c.mul(c.cos(a), c.sin(b)), 'ze': c.sin(a)}
    if key == 'svc_root_u': return {'Zcp': c('h')}      # (its formula in the rotor plane is one of the plane only)
    return {}

def plane(rep, repo, E):
    for key in E:
        if key.startswith('vps_u['): ins = ('CP[0]', 'CP[1]'); free = 'SmoothModel=0' in key
        elif key.startswith('vp_u['): ins = ('CP[0]', 'CP[1]'); free = 'False' in key
        else: continue
        x = start(rep, repo, E[key], '', DIV)
        if x is None: continue
        s, c, (u, v) = x
        D = Diff(s)
        vanish(rep, DIV, key, '', 'divergence', s, lambda: c.add(D(u, ins[0]), D(v, ins[1])))
        if free: vanish(rep, CURL, key, '', 'curl', s, lambda: c.add(D(v, ins[0]), c.neg(D(u, ins[1]))))
