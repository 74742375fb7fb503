"""Differentiating the value graph of a kernel along the direction in which its vortices extend leaves the
element at its end (minus the one at its other end): the derivative is compared, as a normal form, with the
velocity of that element by Biot-Savart's law, written here independently.  For quadratures over angles this
is done of the integrand, and the quadrature has to cover the circle once.  Kernels of single elements are
compared with the law directly."""
from sa import entries, poly, sym
from sa.diff import Diff, NoDerivative, integrand
from sa.interp import PathDead
from checks.c23 import Ctx, PI4
from checks.c28 import start, side
from checks.c23 import series, Q

PI = 3.141592653589793
ELEM, ALONG, COVER = 'velocity of a single element', 'superposition along the vortices', 'a quadrature covers its range once'

def run(rep, repo, tier):
    poly.TERMS = 40000
    E = {e.key: e for e in entries.kernels()}
    rings(rep, repo, E)
    lines(rep, repo, E)
    doublets(rep, repo, E)
    skewed(rep, repo, E)
    points(rep, repo, E)
    curled(rep, repo)
    return 75

def equal(rep, rule, key, lab, what, s, f, after=None, text=None):
    where = '%s %s %s' % (key, lab, what)
    try: n = f()
    except NoDerivative as x: rep.undecided(rule, where, 'no derivative: %s' % x); return
    b = integrand(s.g, n)
    if b is None: rep.undecided(rule, where, 'sums over different sets'); return
    if after: b = s.sub(b, after)
    try: res = s.zero([(text or '%s: %s is not that of its elements' % (rule, what), b)], regular=True)
    except PathDead: rep.undecided(rule, where, 'path'); return
    sym.report(rep, rule, key, res, {}, lab, what=where)

# ------------------------------------------------------------------ the laws
def ring(c, r, z, R, G):
    """ring of radius R and circulation G in the plane z=0"""
    q2 = c.add(c.pow(c.add(R, r), 2), c.pow(z, 2)); p2 = c.add(c.pow(c.add(R, c.neg(r)), 2), c.pow(z, 2))
    k = c.div(c.mul(4, r, R), q2); K, E = c.g.fn('ellipk', k), c.g.fn('ellipe', k)
    f = c.div(G, c.mul(2 * PI, c.sqrt(q2))); R2, r2, z2 = c.pow(R, 2), c.pow(r, 2), c.pow(z, 2)
    ur = c.mul(f, c.div(z, r), c.add(c.neg(K), c.mul(c.div(c.add(R2, r2, z2), p2), E)))
    uz = c.mul(f, c.add(K, c.mul(c.div(c.add(R2, c.neg(r2), c.neg(z2)), p2), E)))
    return ur, uz

def cross(c, a, b):
    f = lambda i, j: c.add(c.mul(a[i], b[j]), c.neg(c.mul(a[j], b[i])))
    return f(1, 2), f(2, 0), f(0, 1)

def dot(c, a, b): return c.add(*[c.mul(x, y) for x, y in zip(a, b)])

def biot(c, G, dl, r):
    """G dl x r / (4 pi |r|^3)"""
    k = c.div(c.mul(PI4, G), c.pow(dot(c, r, r), 1.5))
    return [c.mul(k, x) for x in cross(c, dl, r)]

def halfline(c, G, e, l, r):
    """semi-infinite line from the origin along e of length l: G e x r / (4 pi |r| (l |r| - e.r))"""
    n = c.sqrt(dot(c, r, r))
    k = c.div(c.mul(PI4, G), c.mul(n, c.add(c.mul(l, n), c.neg(dot(c, e, r)))))
    return [c.mul(k, x) for x in cross(c, e, r)]

def doublet(c, m, r):
    """velocity of the doublet m along z: (3 m.r r / r^5 - m / r^3) / (4 pi)"""
    r2 = dot(c, r, r)
    m = [0, 0, m] if not isinstance(m, (list, tuple)) else m
    a = c.div(c.mul(3 * PI4, dot(c, m, r)), c.pow(r2, 2.5)); b = c.div(PI4, c.pow(r2, 1.5))
    return [c.add(c.mul(a, x), c.neg(c.mul(b, y))) for x, y in zip(r, m)]

# ------------------------------------------------------------------ rings and cylinders
def rings(rep, repo, E):
    for key, lab, r, z, G, R in (('ring_u_polar_singular', 'polar', 'r', 'z', 'Gamma', 'r0'), ('ring_u_polar_singularb', 'polar', 'r', 'z', 'Gamma', 'r0'),
                                 ('ring_u_polar', 'polar,eps0', 'r', 'z', 'Gamma', 'r0'), ('ring_u', 'polar,eps0', 'Xcp', 'Zcp', 'Gamma', 'R')):
        x = start(rep, repo, E[key], lab, ELEM)
        if x is None: continue
        s, c, u = x
        pre = {'Xcp': c('s'), 'Ycp': c(0), 'Zcp': c('d')} if r == 'Xcp' else {z: c('d')}
        rr = 's' if r == 'Xcp' else r
        pre['z0'] = c(0)
        for q, n, w in zip(('radial', 'axial'), u, ring(c, rr, 'd', R, G)):
            equal(rep, ELEM, key, lab, '%s velocity' % q, s, lambda: c.g.sub(s.sub(n, pre), w))
    for key, lab in (('vc_tang_u', 'polar,eps0'), ('cylinder_tang_semi_inf_u_raw', 'polar'), ('cylinder_tang_u', 'polar')):
        x = start(rep, repo, E[key], lab, ALONG)
        if x is None: continue
        s, c, u = x
        u = [s.sub(n, {'Xcp': c('s'), 'Ycp': c(0)}) for n in u]
        D = Diff(s)
        fin = key == 'cylinder_tang_u'
        for what, sd in (side('inside', 1), side('outside', -1)):
            m = {k: c(v) for k, v in sd(c, 's').items()}
            if not fin: m = {'R': m['R']}
            w = ring(c, 's', c.add('Zcp', c.neg('z1')) if fin else 'Zcp', 'R', 'gamma_t')
            if fin: w = [c.g.sub(a, b) for a, b in zip(w, ring(c, 's', c.add('Zcp', c.neg('z2')), 'R', 'gamma_t'))]
            for q, n, v in zip(('radial', 'axial'), u, w):
                equal(rep, ALONG, key, lab, '%s velocity %s' % (q, what), s, lambda: c.g.sub(D(n, 'Zcp'), v), m)
    x = start(rep, repo, E['vc_longi_u_polar'], 'polar', ALONG)
    if x:
        s, c, u = x; D = Diff(s)
        q2 = c.add(c.pow(c.add('R', 'vr'), 2), c.pow('vz', 2))
        phi = c.div(c.mul(1 / PI, 'gamma_l', 'R', c.g.fn('ellipk', c.div(c.mul(4, 'vr', 'R'), q2))), c.sqrt(q2))
        for what, sd in (side('inside', 1), side('outside', -1)):
            m = {k: c(v) for k, v in sd(c, 'vr').items()}
            equal(rep, ALONG, 'vc_longi_u_polar', 'polar', 'swirl %s' % what, s, lambda: c.add(D(u[1], 'vz'), D(phi, 'vr')), m)

# ------------------------------------------------------------------ lines
def lines(rep, repo, E):
    x = start(rep, repo, E['vl_semiinf_straight_u_polar'], 'polar', ALONG)
    if x:
        s, c, u = x; D = Diff(s)
        equal(rep, ALONG, 'vl_semiinf_straight_u_polar', 'polar', 'swirl', s,
              lambda: c.g.sub(D(u[1], 'vz'), c.div(c.mul(PI4, 'Gamma_r', 'vr'), c.pow(c.add(c.pow('vr', 2), c.pow('vz', 2)), 1.5))))
    X = ('Xcp', 'Ycp', 'Zcp')
    for key, lab in (('vl_semiinf_straight_u', 'cart'), ('vc_root_u', 'cart'), ('svc_root_u', 'cart')):
        x = start(rep, repo, E[key], lab, ELEM)
        if x is None: continue
        s, c, u = x
        mm = 'm' if key[0] == 's' else 0
        l = c.sqrt(c.add(1, c.mul(mm, mm)))
        pre = {'Xcp': c.mul('s', c.cos('d')), 'Ycp': c.mul('s', c.sin('d'))}
        if key[0] == 's': pre['Zcp'] = c('h')
        for q, n, w in zip('xyz', u, halfline(c, 'Gamma_r', [mm, 0, 1], l, X)):
            equal(rep, ELEM, key, lab, 'component %s of a half-line' % q, s, lambda: c.g.sub(n, w), pre)
    for key in E:
        if not key.startswith('vl_semiinf_u[') or 'model=0' not in key: continue
        x = start(rep, repo, E[key], '', ELEM)
        if x is None: continue
        s, c, u = x
        a, b = c('d'), c('h'); e = [c.mul(c.cos(a), c.cos(b)), c.mul(c.cos(a), c.sin(b)), c.sin(a)]
        for q, n, w in zip('xyz', u, halfline(c, 'Gamma', ['xe', 'ye', 'ze'], 1, ('xa', 'ya', 'za'))):
            equal(rep, ELEM, key, '', 'component %s of a half-line' % q, s, lambda: c.g.sub(n, w), dict(zip(('xe', 'ye', 'ze'), e)))

# ------------------------------------------------------------------ doublets
def doublets(rep, repo, E):
    X = ('Xcp', 'Ycp', 'Zcp')
    for key, lab, vec in (('doublet_u', '', X), ('doublet_u_polar', 'polar', None)):
        x = start(rep, repo, E[key], lab, ELEM)
        if x is None: continue
        s, c, u = x
        d = lambda n, o: c.add(n, c.neg(o))
        w = doublet(c, ['m[%d]' % i for i in range(3)], [d(n, 'x0[%d]' % i) for i, n in enumerate(X)]) if vec else doublet(c, 'm_z', ('rcp', 0, d('zcp', 'z0')))[::2]
        for i, (n, v) in enumerate(zip(u, w)):
            equal(rep, ELEM, key, lab, 'component %d' % i, s, lambda: c.g.sub(n, v))
    x = start(rep, repo, E['doublet_line_polar_u'], 'polar', ALONG)
    if x:
        s, c, u = x; D = Diff(s); w = doublet(c, 'dmz_dz', ('rcp', 0, 'zcp'))
        for q, n, v in zip(('radial', 'axial'), u, (w[0], w[2])):
            equal(rep, ALONG, 'doublet_line_polar_u', 'polar', '%s velocity' % q, s, lambda: c.g.sub(D(n, 'zcp'), v))
    for lab in ('semiinf', 'finite'):
        x = start(rep, repo, E['doublet_line_u'], lab, ALONG)
        if x is None: continue
        s, c, u = x; D = Diff(s)
        def law(P):
            w = doublet(c, 'dmz_dz', P)
            if lab == 'finite':
                w = [c.g.sub(a, b) for a, b in zip(w, doublet(c, 'dmz_dz', (c.add(P[0], c.neg(c.mul('m', 'L'))), P[1], c.add(P[2], c.neg('L')))))]
            return w
        for q, n, v in zip('xyz', u, law(X)):
            equal(rep, ALONG, 'doublet_line_u', lab, 'component %s' % q, s, lambda: c.g.sub(c.add(c.mul('m', D(n, 'Xcp')), D(n, 'Zcp')), v))
        # on the line through the doublets, before and behind them
        q = c.add(1, c.mul('m', 'm')); on = {'Xcp': c.mul('m', 'Zcp'), 'Ycp': c(0)}
        def online(z):
            """the doublet at vertical distance z > 0"""
            f = c.div(c.mul(PI4, 'dmz_dz'), c.pow(z, 3)); a = c.mul(f, 3, c.pow(q, -2.5))
            return c.mul(a, 'm'), c(0), c.g.sub(a, c.mul(f, c.pow(q, -1.5)))
        far = c.add('L', 'd')
        T = [('ahead of the line', {'Zcp': c.neg('d')}, 'd', far)] + ([('behind the line', {'Zcp': c('h'), 'L': c.add('h', c.neg('d'))}, 'h', 'd')] if lab == 'finite' else [])
        for what, pre, d0, d1 in T:
            w = online(d0)
            if lab == 'finite': w = [c.g.sub(a, b) for a, b in zip(w, online(d1))]
            for k, n, v in zip('xyz', u, w):
                equal(rep, ALONG, 'doublet_line_u', lab, 'component %s %s' % (k, what), s, lambda: c.g.sub(D(s.sub(n, on), 'Zcp'), v), pre)
    for key, lab in (('doublet_line_u_num', ''), ('doublet_line_polar_u_num', 'polar')):
        x = start(rep, repo, E[key], lab, ELEM)
        if x is None: continue
        s, c, u = x
        x = abscissa(rep, key, lab, s, c, u, 'z0' if 'polar' in key else 0, 'zmax')
        if x is None: continue
        z, u, dz = x; dm = c.mul('dmz_dz', dz)
        if key == 'doublet_line_u_num':
            w = doublet(c, dm, (c.add('Xcp', c.neg(c.mul('m', z))), 'Ycp', c.add('Zcp', c.neg(z))))
        else:
            w = doublet(c, dm, ('rcp', 0, c.add('zcp', c.neg(z)))); w = [w[0], w[2]]
        for i, (n, v) in enumerate(zip(u, w)):
            equal(rep, ELEM, key, lab, 'component %d of the integrand' % i, s, lambda: c.g.sub(n, v))

def abscissa(rep, key, lab, s, c, u, a, b, name='q'):
    """the variable of a quadrature, after checking that it runs once over [a, b], or over a full circle;
    and the components with the values of that variable written out"""
    where = '%s %s' % (key, lab); g = s.g
    lin = [n for n in g.reach(u).values() if n.op == 'linspace']
    if len(lin) != 1: rep.undecided(COVER, where, 'not one range of points'); return None
    l, = lin; lo, hi, n = l.args
    t = c(name)
    val = lambda x: g.add(lo, g.mul(g.sub(hi, lo), x))
    def put(y, x):
        def f(k):
            if k.op == 'at' and k.args[0] is l:
                v = g.cval(k.args[1])
                return val(x) if v is None else val(g.div(c(v), g.sub(n, c(1))))
            return val(x) if k is l else None
        return g.subst(y, f)
    reds = [x for x in g.reach(u).values() if x.op == 'red']
    xs = {x.args[1].id: x.args[1] for x in reds if len(x.args) > 1}
    if len(xs) > 1 or any(x.attr[0] != 'trapz' for x in reds): rep.undecided(COVER, where, 'not one quadrature'); return None
    x = list(xs.values())[0] if xs else l
    p, q = put(x, c(0)), put(x, c(1))
    T = [('the quadrature does not cover the range once', g.sub(g.sub(q, p), g.sub(c(b), c(a)) if b is not None else c(2 * PI))),
         ('the points are not evenly spread over the range', g.sub(g.sub(put(x, t), p), g.mul(t, g.sub(q, p))))]
    if b is not None: T.append(('the quadrature does not start at the first element', g.sub(p, c(a))))
    sym.report(rep, COVER, where, s.zero(T, regular=True), {t: x.loc for t, _ in T}, lab)
    if l.attr is not True: rep.fail(COVER, key, 'the last point of the range is left out', l.loc, configs=lab)
    else: rep.ok(COVER, where + ' both ends')
    return put(x, t), [put(integrand(g, v), t) for v in u], g.div(g.sub(hi, lo), g.sub(n, c(1)))

# ------------------------------------------------------------------ skewed cylinders
def skewed(rep, repo, E):
    X = ('Xcp', 'Ycp', 'Zcp')
    for key in ('svc_tang_u', 'svc_longi_u'):
        x = start(rep, repo, E[key], 'cart', ALONG)
        if x is None: continue
        s, c, u = x; D = Diff(s)
        x = abscissa(rep, key, 'cart', s, c, u, 0, None)
        if x is None: continue
        th, u, _ = x
        C, S = c.cos(th), c.sin(th)
        r = [c.add('Xcp', c.neg(c.mul('R', C))), c.add('Ycp', c.neg(c.mul('R', S))), 'Zcp']
        if key == 'svc_tang_u':
            # (strength per length along the axis, of which there is sqrt(1+m^2) per length along z)
            w = biot(c, c.mul('gamma_t', c.sqrt(c.add(1, c.mul('m', 'm')))), [c.neg(c.mul('R', S)), c.mul('R', C), 0], r)
            for q, n, v in zip('xyz', u, w):
                equal(rep, ALONG, key, 'cart', 'component %s of the integrand' % q, s, lambda: c.g.sub(c.add(c.mul('m', D(n, 'Xcp')), D(n, 'Zcp')), v))
        else:
            w = halfline(c, c.mul('gamma_l', 'R'), ['m', 0, 1], c.sqrt(c.add(1, c.mul('m', 'm'))), r)
            for q, n, v in zip('xyz', u, w):
                equal(rep, ALONG, key, 'cart', 'component %s of the integrand' % q, s, lambda: c.g.sub(n, v))
        # nothing is left far upstream along the axis
        for k, n in zip('xyz', u):
            at = {'Xcp': {Q(0): c('Xcp'), Q(-1): c.neg('m')}, 'Zcp': {Q(0): c('Zcp'), Q(-1): c(-1)}}
            ls = series(rep, ALONG, '%s cart component %s far upstream' % (key, k), s, n, at)
            if ls == 'unbounded': rep.fail(ALONG, key, 'component %s does not vanish far upstream' % k, n.loc, configs='cart'); continue
            for _, l in ls or ():
                sym.report(rep, ALONG, key, s.zero([('component %s does not vanish far upstream' % k, l)], regular=True), {}, 'cart', what='%s %s far upstream' % (key, k))

# ------------------------------------------------------------------ points
def points(rep, repo, E):
    for key in E:
        if key.startswith('vps_u[') and 'SmoothModel=0' not in key or key.startswith('vp_u[') and 'False' not in key: continue
        if not key.startswith(('vps_u[', 'vp_u[')): continue
        x = start(rep, repo, E[key], '', ELEM)
        if x is None: continue
        s, c, u = x
        if key[2] == 's':
            at = {n.args[0].attr[1]: n for n in s.g.reach(u).values() if n.op == 'at' and n.args[0].op == 'input'}
            if any(k not in at for k in ('XV[0]', 'XV[1]', 'Gammas')): rep.undecided(ELEM, key, 'elements not understood'); continue
            new = [c('xv'), c('yv'), c('Gv')]; old = [at[k] for k in ('XV[0]', 'XV[1]', 'Gammas')]      # one of the points
            u = [s.subpairs(integrand(s.g, n), list(zip(old, new))) for n in u]
            x0, y0, G = new
        else: x0, y0, G = 'Pv[0]', 'Pv[1]', 'Gamma'
        dx, dy = c.add('CP[0]', c.neg(x0)), c.add('CP[1]', c.neg(y0))
        f = c.div(c.mul(2 * PI4, G), c.add(c.pow(dx, 2), c.pow(dy, 2)))
        for q, n, w in zip('xy', u, (c.mul(f, c.neg(dy)), c.mul(f, dx))):
            equal(rep, ELEM, key, '', 'component %s' % q, s, lambda: c.g.sub(integrand(s.g, n), w))

# ------------------------------------------------------------------ wakes of a yawed rotor
def curled(rep, repo):
    """vorticity along the wind shed from the rim of a yawed rotor: half-lines, or lines for the plane far
    downstream; smoothed ones by the factor of a Gaussian core"""
    for e in entries.curled():
        x = start(rep, repo, e, '', ALONG)
        if x is None: continue
        s, c, u = x
        if len(u) != 2: rep.undecided(ALONG, e.key, 'not two components'); continue
        g = s.g
        reds = [n for n in g.reach(u).values() if n.op in ('red', 'sum')]
        if not reds or any(n.op != 'red' or n.attr[0] != 'trapz' or n.args[1] is not c('theta') for n in reds):
            rep.undecided(COVER, e.key, 'not one quadrature over the given angles'); continue
        rep.ok(COVER, '%s: over the angles given' % e.key)
        C, S = c.cos('theta'), c.sin('theta')
        G = c.mul('R', 'gamma_x')
        dy, dz = c.add('Ycp', c.neg(c.mul('R', C, c.cos('theta_y')))), c.add('Zcp', c.neg(c.mul('R', S)))
        if e.key.startswith('vcl'):
            w = halfline(c, G, [1, 0, 0], 1, [c.add('Xcp', c.mul('R', C, c.sin('theta_y'))), dy, dz])[1:]
        else:
            f = c.div(c.mul(2 * PI4, G), c.add(c.pow(dy, 2), c.pow(dz, 2)))
            w = [c.mul(f, c.neg(dz)), c.mul(f, dy)]
        if 'nosmooth' not in e.key:
            k = c.add(1, c.neg(c.g.fn('exp', c.neg(c.div(c.add(c.pow(dy, 2), c.pow(dz, 2)), c.pow('sigma', 2))))))
            w = [c.mul(v, k) for v in w]
        for q, n, v in zip('yz', u, w):
            equal(rep, ALONG, e.key, '', 'component %s of the integrand' % q, s, lambda: g.sub(integrand(g, n), v))
