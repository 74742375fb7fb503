"""Values at special points, on the value graph.  The formula a routine uses off its special points is
expanded as a truncated power series in the distance to the special point (elliptic integrals by their
series), and its limit is compared as a normal form with the formula used at the point itself.  At the
guarded points (axis, rim, sheet, own position) the operations live on the path taken there are shown to
be defined: no divisor vanishes, no logarithm or elliptic integral is at its pole."""
from sa import entries, sym, jets, points
from sa.jets import Q, Lost
from sa.cases import topo
from sa.interp import PathDead

ZSYM = ('Zcp', 'z', 'zcp', 'vz')

SELF = ('doublet_u', 'doublet_u_polar', 'vp_u', 'vps_u', 'vl_semiinf_u')

def run(rep, repo, tier):
    E = {e.key: e for e in entries.kernels()}
    limits(rep, repo, E)
    finite(rep, repo, E)
    tolerances(rep, repo, E)
    return 150

def limits(rep, repo, E):
    axis = lambda g, cp, sp: ({'Xcp': {Q(1): cp}, 'Ycp': {Q(1): sp}}, {'Xcp': 0, 'Ycp': 0})
    raxis = lambda n: lambda g, cp, sp: ({n: {Q(1): g.const(1)}}, {n: 0})
    plane = lambda n, sg: lambda g, cp, sp: ({n: {Q(1): g.const(sg)}}, {n: 0})
    up = {'zcp': -1}
    T = [('vc_tang_u', 'polar,eps0', 'on the axis', axis, None), ('vc_tang_u', 'cart,eps0', 'on the axis', axis, None),
         ('ring_u', 'polar,eps0', 'on the axis', axis, None), ('ring_u', 'cart,eps0', 'on the axis', axis, None),
         ('ring_u', 'polar', 'on the axis', axis, None), ('ring_u', 'cart', 'on the axis', axis, None),
         ('ring_u_polar', 'polar,eps0', 'on the axis', raxis('r'), None),
         ('cylinder_tang_u', 'polar', 'on the axis', axis, None), ('cylinder_tang_u', 'cart', 'on the axis', axis, None),
         ('vc_longi_u_polar', 'polar', 'on the axis downstream', raxis('vr'), {'vz': 1}),
         ('vc_longi_u_polar', 'cart', 'on the axis upstream', raxis('vr'), {'vz': -1}),
         ('doublet_line_polar_u', 'polar', 'on the axis upstream', raxis('rcp'), up),
         ('doublet_line_polar_u', 'polar', 'in the plane, from upstream', plane('zcp', -1), None),
         ('doublet_line_polar_u', 'polar', 'in the plane, from downstream', plane('zcp', 1), None),
         ('svc_root_u_polar', 'polar', 'in the plane, from upstream', plane('vz', -1), None),
         ('svc_root_u_polar', 'polar', 'in the plane, from downstream', plane('vz', 1), None),
         ('svc_root_u_polar', 'cart', 'in the plane, from upstream', plane('vz', -1), None),
         ('svc_root_u_polar', 'cart', 'in the plane, from downstream', plane('vz', 1), None)]
    # in the plane of the edge nothing special happens off the sheets
    def flat(n, sg): return lambda g, cp, sp: ({n: {Q(1): g.const(sg)}}, {n: 0})
    for key, labs, names in (('vc_tang_u', ('polar,eps0', 'cart,eps0'), ('Zcp',)), ('ring_u', ('polar,eps0', 'cart,eps0', 'cart'), ('Zcp',)),
                             ('vc_longi_u', ('polar', 'cart'), ('Zcp',)), ('cylinder_tang_u', ('polar', 'cart'), ('Zcp',))):
        for lab in labs:
            for n in names:
                for sg in (1, -1): T.append((key, lab, 'where %s is zero%s' % (n, ', from above' if sg > 0 else ', from below'), flat(n, sg), None))
    for key, lab, what, how, fix in T: limit(rep, repo, E[key], lab, what, how, fix)

    # on a vortex sheet: the mean of the velocities on its two sides
    def sheet(x, y):
        def f(g, sg, s):
            R = s.inp('R'); c, n = g.fn('cos', s.inp('phi')), g.fn('sin', s.inp('phi'))
            if y is None: return {x: {Q(0): R, Q(1): g.const(sg)}}, {x: R}
            return {x: {Q(0): g.mul(R, c), Q(1): g.mul(g.const(sg), c)}, y: {Q(0): g.mul(R, n), Q(1): g.mul(g.const(sg), n)}}, {x: g.mul(R, c), y: g.mul(R, n)}
        return f
    xy = sheet('Xcp', 'Ycp'); r = sheet('vr', None)
    for key, lab, z, f in (('vc_tang_u', 'polar,eps0', 'Zcp', xy), ('vc_tang_u', 'cart,eps0', 'Zcp', xy), ('cylinder_tang_u', 'polar', None, xy), ('cylinder_tang_u', 'cart', None, xy),
                           ('vc_longi_u_polar', 'polar', 'vz', r), ('vc_longi_u', 'polar', 'Zcp', xy), ('vc_longi_u', 'cart', 'Zcp', xy)):
        for sg, what in ((1, 'downstream of its edge'), (-1, 'upstream of its edge'), (0, 'in the plane of its edge')):
            if z is None and sg != 1: continue
            if sg == 0 and key == 'vc_tang_u': only = 1
            else: only = None
            mean(rep, repo, E[key], lab, 'on the sheet' + (' ' + what if z else ''), f, {z: sg} if z else {}, only)

def mean(rep, repo, e, lab, what, f, pre, only):
    rule = 'the value on a sheet is the mean of its two sides'; where = '%s %s %s' % (e.key, lab, what)
    s = sym.Sess(repo, positive=('R', 'vr', 'h', 'epsilon')); g = s.g
    r = s.run(e, [c for c in e.configs if c[0] == lab][0])
    rep.count('sheet values')
    if r.dead or not r.leaves: rep.undecided(rule, where, 'result not understood'); return
    h = s.inp('h'); pre = {k: g.const(0) if v == 0 else h if v > 0 else g.neg(h) for k, v in pre.items()}
    for i, (lf, n0) in enumerate(r.leaves):
        # in-plane points of the rim itself: the radial velocity is unbounded there, only the axial one has a mean
        if only is not None and not (i == len(r.leaves) - 1): continue
        n = s.sub(n0, pre)
        try:
            sides = []
            for sg in (1, -1):
                at, m = f(g, sg, s)
                ls = jets.limits(s, at, n)
                if len(ls) != 1: raise Lost('several cases')
                sides.append(ls[0][1])
            v = s.sub(n, m)
        except (Lost, ZeroDivisionError, PathDead, sym.TooBig) as x:
            rep.undecided(rule, where, '%s: no expansion (%s)' % (lf, x or type(x).__name__)); continue
        d = g.sub(v, g.mul(g.const(0.5), g.add(*sides)))
        sym.report(rep, rule, e.key, s.zero([('value %s, %s differs from the mean of the two sides' % (what, lf), d)], regular=True), {}, lab, what=where + lf)

def limit(rep, repo, e, lab, what, how, fix):
    rule = 'the value at a special point continues the field'; where = '%s %s %s' % (e.key, lab, what)
    cfg = [c for c in e.configs if c[0] == lab]
    cfg = cfg[0] if cfg else e.configs[0]
    s = sym.Sess(repo, positive=('R', 'vr', 'r', 'r0', 'rcp', 'h', 'ntheta', 'epsilon')); g = s.g
    over = {'epsilon': 0} if e.key == 'cylinder_tang_u' else {}
    r = s.run(e, (cfg[0], dict(cfg[1], **over)))
    rep.count('limits')
    if r.dead or not r.leaves: rep.undecided(rule, where, 'result not understood'); return
    phi = s.inp('phi')
    at, guard = how(g, g.fn('cos', phi), g.fn('sin', phi))
    h = s.inp('h'); pre = {k: g.neg(h) if v < 0 else h for k, v in (fix or {}).items()}
    for lf, n0 in r.leaves:
        n = s.sub(n0, pre) if pre else n0
        name = '%s, %s' % (what, lf)
        try:
            spec = s.sub(n, {k: g.const(v) for k, v in guard.items()})
            lims = jets.limits(s, at, n)
        except (Lost, ZeroDivisionError, PathDead, sym.TooBig) as x:
            if isinstance(x, Lost) and str(x) == 'unbounded':
                rep.fail(rule, e.key, 'the velocity is unbounded %s' % name, n0.loc, configs=lab); continue
            rep.undecided(rule, where, '%s: no expansion (%s)' % (lf, x or type(x).__name__)); continue
        for path, l in lims:
            sym.report(rep, rule, e.key, s.zero([('value %s differs from the limit of the velocity nearby' % name, g.sub(spec, l))], regular=True), {}, lab, what=where + lf)

def finite(rep, repo, E):
    rule = 'values at special points are finite'
    for key, lab, name, pos, pts in points.special(E):
        e = E[key]
        s = sym.Sess(repo, positive=('R', 'vr', 'r', 'r0', 'rcp', 'h', 'ntheta', 'epsilon')); g = s.g
        cfg = [c for c in e.configs if c[0] == lab][0]
        r = s.run(e, cfg)
        rep.count('special points')
        if r.dead or not r.leaves: rep.undecided(rule, '%s %s' % (key, lab), 'result not understood'); continue
        m = pts(s)
        if key.split('[')[0] in SELF and ('own' in name or 'line' in name or 'origin' in name):
            for lf, n in r.leaves:
                sym.report(rep, 'no velocity at its own position', key, s.zero([('velocity %s %s is not zero' % (lf, name), s.sub(n, m))], regular=False), {}, lab, what=key + lf + name)
        bad = points.Live(s, m).check([n for _, n in r.leaves])
        for n, why, sure in bad:
            if sure: rep.fail(rule, key, '%s %s' % (why, name), n.loc, configs=lab)
            else: rep.undecided(rule, '%s %s' % (key, lab), '%s %s' % (why, name))
        if not bad: rep.ok(rule, '%s %s %s: %d outputs' % (key, lab, name, len(r.leaves)))

WIDE = (1e-4, 0.05)

def tolerances(rep, repo, E):
    """the comparisons that select a special value: the neighbourhood they select is a tolerance, not a region"""
    rule = 'special values are only used at special points'
    for key, e in sorted(E.items()):
        for cfg in e.configs:
            s = sym.Sess(repo, positive=('R', 'vr', 'r', 'r0', 'rcp', 'h', 'ntheta', 'epsilon'))
            r = s.run(e, cfg)
            if r.dead or not r.leaves: continue          # reported by the rules above where it matters
            bad = {}; n = 0
            for x in topo([y for _, y in r.leaves]):
                if x.op != 'sel': continue
                for c in topo([x.args[0]]):
                    if c.op != 'cmp' or c.attr == '==': continue
                    try: d = s.nf.nf(s.g.sub(*c.args))
                    except sym.TooBig: continue
                    cs = sorted(abs(v) for v in d.t.values()); n += 1
                    if len(cs) < 2 or not WIDE[0] < cs[0] / cs[-1] < WIDE[1]: continue
                    if s.nf.key(s.nf.nf(x.args[1])) == s.nf.key(s.nf.nf(x.args[2])): continue
                    bad[x.loc] = cs[0] / cs[-1]
            for loc, v in sorted(bad.items()):
                rep.fail(rule, key, 'a value other than that of the general formula is used in a neighbourhood of relative size %.3g' % v, loc, configs=cfg[0])
            if not bad and n: rep.ok(rule, '%s %s: %d comparisons' % (key, cfg[0], n))
