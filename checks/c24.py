"""Routines that compute the same induced velocity in different ways are compared as algebraic normal
forms of their value graphs, away from tolerance neighbourhoods of singular points: Cartesian-input
against polar-input routines, the skewed total against the sum of its parts, finite cylinder against
the difference of two semi-infinite ones, raw against guarded formula, the line of doublets and the
ring in their alternative formulations, the straight vortex line against the general one."""
from sa import entries, kern, sym
from sa.report import Broken

def run(rep, repo, tier):
    E = dict((e.key, e) for e in entries.kernels())
    def xy(s):
        g = s.g; x, y = s.inp('Xcp'), s.inp('Ycp')
        r = g.fn('sqrt', g.add(g.pow(x, g.const(2)), g.pow(y, g.const(2))))
        return {'vr': r, 'vpsi': g.fn('arctan2', y, x), 'vz': s.inp('Zcp'), 'r': r, 'z': s.inp('Zcp'), 'r0': s.inp('R'), 'rcp': r, 'zcp': s.inp('Zcp')}
    def rel(s): return {'vr': s.g.div(s.inp('vr'), s.inp('R')), 'vz': s.g.div(s.inp('vz'), s.inp('R')), 'gamma_longi': s.inp('gamma_l')}
    P, PE = 'polar', 'polar,eps0'
    legacy = lambda s, B, get: [B[6], B[1], B[0]]
    def cart(s, B, get):
        g = s.g; r = xy(s)['r']
        return [g.div(g.mul(B[0], s.inp('Xcp')), r), g.div(g.mul(B[0], s.inp('Ycp')), r), B[1]]
    def total(s, B, get):
        return [s.g.add(s.g.add(a, b), c) for a, b, c in zip(B, get('svc_longi_u_polar', P), get('svc_root_u_polar', P))]
    def diff(s, B, get):
        g = s.g; Z = s.inp('Zcp')
        return [g.sub(s.sub(n, {'Zcp': g.sub(Z, s.inp('z1'))}), s.sub(n, {'Zcp': g.sub(Z, s.inp('z2'))})) for n in B]
    c0 = lambda s: s.g.const(0)
    def lineargs(s): return {'xe': c0(s), 'ye': c0(s), 'ze': s.g.const(1), 'xa': s.inp('Xcp'), 'ya': s.inp('Ycp'), 'za': s.inp('Zcp'), 'Gamma': s.inp('Gamma_r')}
    dbl = lambda s: {'m[0]': c0(s), 'm[1]': c0(s), 'm[2]': s.inp('m_z'), 'x0[0]': c0(s), 'x0[1]': c0(s), 'x0[2]': s.inp('z0')}
    T = [
        ('longitudinal: Cartesian and polar input', 'vc_longi_u', P, 'vc_longi_u_polar', P, None, xy, None),
        ('root vortex and straight vortex line', 'vc_root_u', P, 'vl_semiinf_straight_u', P, None, None, None),
        ('straight line: Cartesian and polar input', 'vl_semiinf_straight_u', P, 'vl_semiinf_straight_u_polar', P, None, xy, None),
        ('straight and general vortex line', 'vl_semiinf_u[visc_model=0]', '', 'vl_semiinf_straight_u', 'cart', lineargs, None, None),
        ('skewed tangential: Cartesian and polar input', 'svc_tang_u', P, 'svc_tang_u_polar', P, None, xy, None),
        ('skewed longitudinal: Cartesian and polar input', 'svc_longi_u', P, 'svc_longi_u_polar', P, None, xy, None),
        ('skewed root: Cartesian and polar input', 'svc_root_u', P, 'svc_root_u_polar', P, None, xy, None),
        ('skewed tangential and legacy routine', 'svc_tang_u_polar', P, 'fV_Tangential[nout=7]', '', None, rel, legacy),
        ('skewed longitudinal and legacy routine', 'svc_longi_u_polar', P, 'fV_Trailed[nout=7]', '', None, rel, legacy),
        ('skewed root and legacy routine', 'svc_root_u_polar', P, 'fV_Root[nout=7]', '', None, None, legacy),
        ('skewed total and sum of its parts', 'svc_u_polar', P, 'svc_tang_u_polar', P, None, None, total),
        ('ring: Cartesian and polar input', 'ring_u', PE, 'ring_u_polar', PE, None, lambda s: dict(xy(s), z0=c0(s)), None),
        ('ring: unregularised forms', 'ring_u_polar_singular', P, 'ring_u_polar', PE, None, lambda s: {'z0': c0(s)}, None),
        ('ring: two singular forms', 'ring_u_polar_singularb', P, 'ring_u_polar_singular', P, None, None, None),
        ('finite cylinder and two semi-infinite ones', 'cylinder_tang_u', (PE, {'polar_out': True, 'epsilon': 0}), 'vc_tang_u', PE, None, None, diff),
        ('raw and guarded semi-infinite cylinder', 'cylinder_tang_semi_inf_u_raw', P, 'vc_tang_u', PE, None, None, None),
        ('line of doublets: Cartesian and polar', 'doublet_line_u', 'semiinf', 'doublet_line_polar_u', P, lambda s: {'m': c0(s)}, xy, cart),
        ('point doublet: Cartesian and polar', 'doublet_u', '', 'doublet_u_polar', P, dbl, xy, cart),
    ]
    for name, ka, ca, kb, cb, suba, subb, comb in T:
        one(rep, repo, E, name, ka, ca, kb, cb, suba, subb, comb)
    return 40

def cfg(e, l):
    if not isinstance(l, str): return l
    m = [c for c in e.configs if c[0] == l]
    return m[0] if m else e.configs[0]

def one(rep, repo, E, name, ka, ca, kb, cb, suba, subb, comb):
    s = sym.Sess(repo, positive=('R', 'vr', 'rho', 'ntheta', 'r', 'r0', 'rcp')); g = s.g
    dead = []
    def get(k, c):
        r = s.run(E[k], cfg(E[k], c))
        if r.dead: dead.append(k)
        return [n for _, n in r.leaves]
    A, B = get(ka, ca), get(kb, cb)
    where = '%s / %s' % (E[ka].func, E[kb].func)
    if dead: rep.undecided(name, where, 'no path returns'); return
    locs = {}
    if suba: A = [s.sub(n, suba(s)) for n in A]
    if subb: B = [s.sub(n, subb(s)) for n in B]
    try:
        if comb: B = comb(s, B, get)
    except IndexError:
        B = []
    if len(A) != len(B) or dead:
        rep.fail('routines for the same flow agree', where, '%s: %d against %d components' % (name, len(A), len(B)), A[0].loc if A else None); return
    D = [('%s, component %d' % (name, i), g.sub(a, b)) for i, (a, b) in enumerate(zip(A, B))]
    res = s.zero(D, regular=True)
    rep.count('cases', s.ncases); rep.count('pairs of routines')
    sym.report(rep, 'routines for the same flow agree', where, res, {l: A[i].loc for i, (l, _) in enumerate(D)})
