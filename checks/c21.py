"""Frames of reference: the velocity field of a turbine is computed abstractly for symbolic yaw, hub, wind and
points, and substituted: rotating hub-relative points and wind by the yaw angle must rotate the velocity, the
two supported orientations (shaft along z with y vertical, shaft along x with z vertical) must give the same
field with the coordinates permuted, and a shaft turned in the constructor must equal a shaft turned by yawing;
the rotation and transformation helpers must be orthogonal, direct, mutually inverse, and the points of
the rotor disk must lie in the rotor plane at the rotor radius.  Decided as algebraic normal forms."""
from sa import kern, sym, turb
from sa.interp import Num, PathDead, PyC, NONE
from checks.c13 import leaves

POS = ('R', 'cut')
AXES = {k: () for k in ('R', 'chi', 'yaw', 'hub0', 'hub1', 'hub2', 'U0', 'U1', 'U2', 'Lambda', 'cut', 'al', 'be', 'th', 'V', 'wd', 'dl')}
YAW = 'turning points, wind and rotor together turns the velocity'
ORIENT = 'both orientations describe the same flow'
SHAFT = 'a shaft turned at construction equals a shaft turned by yawing'
ROT = 'rotation about an axis is a rotation'
DISK = 'rotor-disk points lie in the rotor plane at the rotor radius'
SKEW = 'skew angle is the angle from the shaft to the wind'
W = 'WindTurbine.compute_u'

def run(rep, repo, tier):
    for model in ('VC', 'VCFF', 'VD', 'SS'):
        for ncyl in ((1, 'n') if model == 'VC' else (1,)):
            for chi in ('sym', None, 0):
                for ground in (False, True):
                    for comp in (('tang',), ('longi',), ('root',)):
                        if model != 'VC' and 'longi' in comp: continue
                        for nw in (False, True):
                            turbine(rep, repo, model, ncyl, chi, ground, comp, nw)
    helpers(rep, repo)
    disk(rep, repo)
    skew(rep, repo)
    return 100

def another(r, ori, model, ncyl, chi, shaft=None, yaw='yaw', hub=True):
    """a second turbine in the same value graph"""
    it = r.it; S = r.S
    es, ev = turb.ORI[ori]
    kw = {'R': S('R'), 'r_hub': turb.vec(it, 'hub'), 'e_shaft_yaw0': shaft or it.lst([it.num(x) for x in es]), 'e_vert': it.lst([it.num(x) for x in ev]),
          'U0': turb.vec(it, 'U'), 'Model': PyC(model)}
    w = it.call(r.cls, [], kw)
    if yaw is not None: turb.method(it, w, 'update_yaw_pos', [S(yaw)])
    if ncyl == 1: turb.method(it, w, 'update_loading', [], {'Ct': S('Ct'), 'Lambda': S('Lambda')})
    else:
        A = lambda n: it.arr(it.g.mk('input', (), ('num', n)), ('nr',))
        turb.method(it, w, 'update_loading', [], {'r': A('r'), 'Ct': A('Ct'), 'Lambda': S('Lambda'), 'nCyl': NONE})
    if chi == 'sym': turb.method(it, w, 'set_chi', [S('chi')])
    elif chi is not None: turb.method(it, w, 'set_chi', [it.num(chi)])
    return w

def rot(g, c, s, ori, v):
    """rotation about the vertical by the angle of cosine c and sine s"""
    x, y, z = v
    if ori == 'z': return [g.add(g.mul(c, x), g.mul(s, z)), y, g.sub(g.mul(c, z), g.mul(s, x))]
    return [g.sub(g.mul(c, x), g.mul(s, y)), g.add(g.mul(s, x), g.mul(c, y)), z]

PT = ('Xg', 'Yg', 'Zg'); HUB = ('hub0', 'hub1', 'hub2'); WIND = ('U0', 'U1', 'U2')

def velocity(r, w, comp, ground, nw, oi):
    it = r.it
    kw = {c: it.num(c in comp) for c in ('tang', 'longi', 'root')}
    kw.update(only_ind=it.num(oi), no_wake=it.num(nw), ground=it.num(ground), R_far_field=r.S('cut'))
    try: v = turb.method(it, w, 'compute_u', list(turb.points(it)), kw)
    except PathDead: return None
    return [n for _, n in leaves(it, v)]

def turbine(rep, repo, model, ncyl, chi, ground, comp, nw):
    oi = ground      # without ground: the free stream is included
    lab = 'Model=%s,ncyl=%s,chi=%s,ground=%s,%s,no_wake=%s,only_ind=%s' % (model, ncyl, chi, ground, '+'.join(comp), nw, oi)
    r = turb.make_turbine(repo, ori='z', ncyl=ncyl, model=model, chi=chi); it = r.it
    s = sym.Sess('', it=it, positive=POS, axes=AXES); g = s.g; i = s.inp
    ws = {'z': r.wt, 'x': another(r, 'x', model, ncyl, chi)}
    vals = {}
    y = i('yaw'); c, sn = g.fn('cos', y), g.fn('sin', y)
    for ori in ('z', 'x'):
        nodes = vals[ori] = velocity(r, ws[ori], comp, ground, nw, oi)
        rep.count('configurations')
        if nodes is None: rep.undecided(ORIENT, W + ' ' + lab, 'no path returns'); return
        if len(nodes) != 3: rep.fail(YAW, W, '%d components' % len(nodes), None, configs=lab); return
        if chi is None: continue
        d = [g.sub(i(p), i(h)) for p, h in zip(PT, HUB)]
        m1 = dict(zip(PT, [g.add(i(h), x) for h, x in zip(HUB, rot(g, c, sn, ori, d))]))
        m1.update(zip(WIND, rot(g, c, sn, ori, [i(k) for k in WIND])))
        left = [s.sub(n, m1) for n in nodes]
        right = rot(g, c, sn, ori, [s.sub(n, {'yaw': g.const(0)}) for n in nodes])
        D = [('component %s' % a, g.sub(p, q)) for a, p, q in zip('xyz', left, right)]
        sym.report(rep, YAW, W, s.zero(D), {'component %s' % a: n.loc for a, n in zip('xyz', nodes)}, 'ori=%s,%s' % (ori, lab))
    # shaft x, vertical z  <-  shaft z, vertical y
    m = {}
    for t in (PT, HUB, WIND): m.update(zip(t, [i(t[2]), i(t[0]), i(t[1])]))
    cx = [s.sub(n, m) for n in vals['x']]
    D = [('component %s differs between the orientations' % a, g.sub(p, q)) for a, p, q in zip('xyz', vals['z'], [cx[1], cx[2], cx[0]])]
    sym.report(rep, ORIENT, W, s.zero(D), {}, lab)
    if ground or nw: return
    # a shaft turned by the angle at construction
    for ori in ('z', 'x'):
        sh = it.lst([Num(n) for n in rot(g, c, sn, ori, [g.const(x) for x in turb.ORI[ori][0]])])
        w = another(r, ori, model, ncyl, chi, shaft=sh, yaw=None)
        n2 = velocity(r, w, comp, ground, nw, oi)
        if n2 is None: rep.undecided(SHAFT, W + ' ' + lab, 'no path returns'); continue
        if chi is None: continue
        D = [('component %s differs when the shaft is turned at construction' % a, g.sub(p, q)) for a, p, q in zip('xyz', vals[ori], n2)]
        sym.report(rep, SHAFT, W, s.zero(D), {}, 'ori=%s,%s' % (ori, lab))

def fun(it, name):
    v = it.modattr('wiz.WindTurbine', name)
    return v if v is not None and not type(v).__name__ == 'Unk' else None

def fresh(repo):
    r = turb.make_turbine(repo, ori='z'); it = r.it
    s = sym.Sess('', it=it, positive=POS + ('V',), axes=AXES)
    return r, it, s

def helpers(rep, repo):
    """rotation matrix about a unit axis given by two angles; the two transformations by a general matrix"""
    r, it, s = fresh(repo); g = s.g; i = s.inp
    f = fun(it, 'RotMat_AxisAngle')
    if f is not None:
        sa, ca, sb, cb = g.fn('sin', i('al')), g.fn('cos', i('al')), g.fn('sin', i('be')), g.fn('cos', i('be'))
        u = [g.mul(sa, cb), g.mul(sa, sb), ca]
        try: M = dict(leaves(it, it.call(f, [it.lst([Num(x) for x in u]), Num(i('th'))], {})))
        except PathDead: M = {}
        if len(M) != 9: rep.undecided(ROT, 'RotMat_AxisAngle', 'not a 3x3 matrix of known elements')
        else:
            T = [[[n for p, n in M.items() if p.endswith('[%d, %d]' % (a, b))][0] for b in range(3)] for a in range(3)]
            dot = lambda x, y: g.add(g.add(g.mul(x[0], y[0]), g.mul(x[1], y[1])), g.mul(x[2], y[2]))
            D = []
            for a in range(3):
                D.append(('axis component %d is not kept' % a, g.sub(dot(T[a], u), u[a])))
                for b in range(a, 3): D.append(('columns %d and %d are not orthonormal' % (a, b), g.sub(dot([x[a] for x in T], [x[b] for x in T]), g.const(int(a == b)))))
                b, c = (a + 1) % 3, (a + 2) % 3
                D.append(('component %d: turns by another angle or in the other sense' % a, g.sub(g.sub(T[c][b], T[b][c]), g.mul(g.const(2), g.mul(u[a], g.fn('sin', i('th')))))))
            D.append(('angle', g.sub(g.add(g.add(T[0][0], T[1][1]), T[2][2]), g.add(g.const(1), g.mul(g.const(2), g.fn('cos', i('th')))))))
            sym.report(rep, ROT, 'RotMat_AxisAngle', s.zero(D), {l: M[k].loc for l, _ in D for k in list(M)[:1]})
    # the helper the rotor disk starts from: on every branch a unit vector normal to the one given
    f = fun(it, 'orth_vect')
    if f is not None:
        u = [i('o%d' % a) for a in range(3)]
        try: V = [n for _, n in leaves(it, it.call(f, [it.arr({(a,): n for a, n in enumerate(u)}, (3,))], {}))]
        except PathDead: V = []
        if len(V) != 3: rep.undecided(ROT, 'orth_vect', 'not a vector of three components')
        else:
            dot = lambda x, y: g.add(g.add(g.mul(x[0], y[0]), g.mul(x[1], y[1])), g.mul(x[2], y[2]))
            sym.report(rep, ROT, 'orth_vect', s.zero([('not normal to the vector given', dot(u, V)), ('not of length one', g.sub(dot(V, V), g.const(1)))], regular=True), {'not normal to the vector given': V[0].loc})
    ft, fi = fun(it, 'transform'), fun(it, 'transform_T')
    T = [[i('T%d%d' % (a, b)) for b in range(3)] for a in range(3)]
    v = [i('v%d' % a) for a in range(3)]
    for f, name, tr in ((ft, 'transform', False), (fi, 'transform_T', True)):
        if f is None: continue
        A = it.arr({(a, b): T[a][b] for a in range(3) for b in range(3)}, (3, 3))
        try: L = [n for _, n in leaves(it, it.call(f, [A] + [Num(x) for x in v], {}))]
        except PathDead: L = []
        if len(L) != 3: rep.undecided(ROT, name, 'not three components'); continue
        D = []
        for a in range(3):
            w = g.const(0)
            for b in range(3): w = g.add(w, g.mul(T[b][a] if tr else T[a][b], v[b]))
            D.append(('component %d is not that of the %sproduct' % (a, 'transposed ' if tr else ''), g.sub(L[a], w)))
        sym.report(rep, ROT, name, s.zero(D), {l: n.loc for (l, _), n in zip(D, L)})

def disk(rep, repo):
    for ori in ('z', 'x'):
        r = turb.make_turbine(repo, ori=ori); it = r.it
        s = sym.Sess('', it=it, positive=POS + ('V',), axes=AXES); g = s.g; i = s.inp
        where = 'WindTurbine.rotor_disk_points'
        try: P = [n for _, n in leaves(it, turb.method(it, r.wt, 'rotor_disk_points', [Num(g.mk('dim', (), 'nP'))]))]
        except PathDead: P = []
        if len(P) != 3: rep.undecided(DISK, where, 'not three coordinates'); continue
        c, sn = g.fn('cos', i('yaw')), g.fn('sin', i('yaw'))
        sh = rot(g, c, sn, ori, [g.const(x) for x in turb.ORI[ori][0]])
        d = [g.sub(p, i(h)) for p, h in zip(P, HUB)]
        dot = lambda x, y: g.add(g.add(g.mul(x[0], y[0]), g.mul(x[1], y[1])), g.mul(x[2], y[2]))
        D = [('points not in the rotor plane', dot(d, sh)), ('points not at the rotor radius', g.sub(dot(d, d), g.mul(i('R'), i('R'))))]
        lin = [n for n in g.reach(P).values() if n.op == 'linspace' or n.op == 'fn' and str(n.attr).startswith('linspace')]
        if len(lin) == 1:
            lo, hi = lin[0].args[:2]
            def at(x): return [g.subst(n, lambda q: x if q.id == lin[0].id else None) for n in d]
            a, b, h = at(lo), at(hi), at(g.mul(g.const(0.5), g.add(lo, hi)))
            D += [('the circle of points is not closed, component %d' % k, g.sub(x, y)) for k, (x, y) in enumerate(zip(a, b))]
            D += [('the points do not go once round the rotor, component %d' % k, g.add(x, y)) for k, (x, y) in enumerate(zip(a, h))]
        sym.report(rep, DISK, where, s.zero(D, regular=True), {D[0][0]: P[0].loc, D[1][0]: P[0].loc}, ori)
        few_points(rep, repo, ori, s, r, sh, dot)

def few_points(rep, repo, ori, s, r, sh, dot):
    # for given small numbers of points: as many as asked for, each of them on the rotor
    it = s.it; g = s.g; i = s.inp; where = 'WindTurbine.rotor_disk_points'; loc = {}
    for n in (1, 2, 3, 5, 8):
        lab = '%s,%d points' % (ori, n)
        try: L = [q for _, q in leaves(it, turb.method(it, r.wt, 'rotor_disk_points', [Num(g.const(n))]))]
        except PathDead: rep.fail(DISK, where, 'no points are returned for some numbers of points', None, configs=lab); continue
        if len(L) != 3 * n: rep.fail(DISK, where, 'not as many points as asked for', None, configs=lab); continue
        D = []
        for k in range(n):
            d = [g.sub(L[a * n + k], i(h)) for a, h in enumerate(HUB)]
            D += [('a point is not in the rotor plane', dot(d, sh)), ('a point is not at the rotor radius', g.sub(dot(d, d), g.mul(i('R'), i('R'))))]
        if n > 1: D += [('the circle of points is not closed', g.sub(L[a * n], L[a * n + n - 1])) for a in range(3)]
        sym.report(rep, DISK, where, s.zero(D, regular=True), loc, lab)

def skew(rep, repo):
    """for a wind blowing at the angle wd (about the vertical, from the shaft at zero yaw) in (0, pi) and (-pi, 0)"""
    from sa.cases import Facts
    for ori in ('z', 'x'):
        r = turb.make_turbine(repo, ori=ori, chi=None); it = r.it
        s = sym.Sess('', it=it, positive=POS + ('V',), axes=AXES); g = s.g; i = s.inp
        wd = i('wd'); c, sn = g.fn('cos', wd), g.fn('sin', wd)
        u = [g.mul(i('V'), x) for x in rot(g, c, sn, ori, [g.const(x) for x in turb.ORI[ori][0]])]
        vert = 1 if ori == 'z' else 2
        m = {k: (x if n != vert else i('U%d' % n)) for n, (k, x) in enumerate(zip(WIND, u))}
        dl = i('dl')
        mh = {k: s.sub(x, {'wd': g.sub(i('yaw'), dl)}) for k, x in zip(WIND, u)}
        for attr, want, mm in (('yaw_wind', wd, m), ('chi', g.sub(wd, i('yaw')), m), ('yaw_error', dl, mh)):
            v = it.getattr(r.wt, attr)
            if not isinstance(v, Num): rep.undecided(SKEW, attr, 'not a number'); continue
            n = s.sub(v.node, mm)
            if attr == 'yaw_error': facts = [(g.fn('sin', dl), k) for k in (1, -1)]
            else: facts = [(sn, k) for k in (1, -1)]
            for what, k in facts:
                f = Facts(s.nf).assume('<', s.nf.nf(g.mul(g.const(-k), what)), True)
                D = [('%s: %s of the angle' % (attr, fn), g.sub(g.fn(fn, n), g.fn(fn, want))) for fn in ('sin', 'cos')]
                sym.report(rep, SKEW, 'WindTurbine.' + attr, s.zero(D, f), {l: v.node.loc for l, _ in D}, '%s, %s' % (ori, 'positive' if k > 0 else 'negative'))
