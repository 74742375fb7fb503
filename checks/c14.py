"""For every flow kernel offering polar and Cartesian output, the value graphs of the two option values
are built symbolically and the Cartesian components are compared, as algebraic normal forms and case by
case, with the rotation of the polar components by the azimuth of the point.  The legacy component
routines are compared in the same way: every output count must return the documented components in the
documented order, and agree with the skewed kernels built on them."""
from sa import entries, kern, sym

def by_key():
    return dict((e.key, e) for e in entries.kernels())

def run(rep, repo, tier):
    n = 0
    for e in entries.kernels():
        cfgs = dict((l, (l, k)) for l, k in e.configs)
        for l in cfgs:
            if not l.startswith('polar') or l.replace('polar', 'cart') not in cfgs: continue
            pair(rep, repo, e, cfgs[l], cfgs[l.replace('polar', 'cart')])
            n += 1
    legacy(rep, repo)
    rep.count('kernel option pairs', n)
    return 60

def pair(rep, repo, e, cp, cc):
    s = sym.Sess(repo)
    g = s.g
    over = {}
    if e.key == 'rings_u':
        # radial components of rings with different axes have no common meaning: compared for coaxial rings
        for nm in ('Xr', 'Yr'): over[nm] = lambda it: it.arr(it.g.const(0), ('nring',))
    a = s.run(e, cp, over); b = s.run(e, cc, over)
    rep.count('configurations', 2)
    if a.dead or b.dead: rep.undecided('polar/Cartesian agreement', e.key, 'no path returns'); return
    A = [n for _, n in a.leaves]; B = [n for _, n in b.leaves]
    if len(B) != 3 or len(A) not in (2, 3):
        rep.fail('number of components', e.key, '%d polar and %d Cartesian components' % (len(A), len(B)), B[0].loc if B else None); return
    rep.ok('number of components', e.key + ' ' + cp[0])
    names = [x[0] for x in e.args]
    if 'vpsi' in names: c, sn = g.fn('cos', s.inp('vpsi')), g.fn('sin', s.inp('vpsi'))
    else:
        x, y = s.inp('Xcp'), s.inp('Ycp')
        rho = g.fn('sqrt', g.add(g.pow(x, g.const(2)), g.pow(y, g.const(2))))
        c, sn = g.div(x, rho), g.div(y, rho)
    ur, up, uz = (A[0], g.const(0), A[1]) if len(A) == 2 else A
    D = [('x component', g.sub(g.add(g.mul(ur, c), g.neg(g.mul(up, sn))), B[0])),
         ('y component', g.sub(g.add(g.mul(ur, sn), g.mul(up, c)), B[1])),
         ('z component', g.sub(uz, B[2]))]
    res = s.zero(D)
    rep.count('cases', s.ncases)
    sym.report(rep, 'Cartesian output is the rotation of the polar output', e.key, res,
               {'x component': B[0].loc, 'y component': B[1].loc, 'z component': B[2].loc}, cp[0])

COMP = ['u_z', 'u_psi', 'u_x', 'u_y', 'u_zeta', 'u_xi', 'u_r']
def legacy(rep, repo):
    E = by_key()
    for fam in ('Trailed', 'Tangential', 'Root'):
        s = sym.Sess(repo); g = s.g
        outs = {}
        for no in range(1, 8):
            e = E['fV_%s[nout=%d]' % (fam, no)]
            r = s.run(e, e.configs[0])
            if r.dead: rep.undecided('legacy outputs', e.key, 'no path returns'); continue
            outs[no] = [n for _, n in r.leaves]
            if len(outs[no]) != no:
                rep.fail('number of components', 'fV_' + fam, 'nout=%d returns %d components' % (no, len(outs[no])), outs[no][0].loc if outs[no] else None)
            else: rep.ok('number of components', e.key)
        full = outs.get(7)
        if not full or len(full) != 7: continue
        for no in range(1, 7):
            if len(outs.get(no, ())) != no: continue
            D = [(COMP[i], g.sub(outs[no][i], full[i])) for i in range(no)]
            sym.report(rep, 'component is the same for every output count', 'fV_' + fam, s.zero(D), {COMP[i]: outs[no][i].loc for i in range(no)}, 'nout=%d' % no)
        uz, up, ux, uy, uze, uxi, ur = full
        psi = s.inp('vpsi'); c, sn = g.fn('cos', psi), g.fn('sin', psi)
        chi = g.fn('arctan', s.inp('m')); cc, sc = g.fn('cos', chi), g.fn('sin', chi)
        neg = g.neg
        D = [('u_psi', g.sub(up, g.add(neg(g.mul(ux, sn)), g.mul(uy, c)))),
             ('u_r', g.sub(ur, g.add(g.mul(ux, c), g.mul(uy, sn)))),
             ('u_zeta', g.sub(uze, g.add(g.mul(uz, cc), g.mul(ux, sc)))),
             ('u_xi', g.sub(uxi, g.add(neg(g.mul(uz, sc)), g.mul(ux, cc))))]
        sym.report(rep, 'legacy component follows its definition', 'fV_' + fam, s.zero(D), {'u_psi': up.loc, 'u_r': ur.loc, 'u_zeta': uze.loc, 'u_xi': uxi.loc})
