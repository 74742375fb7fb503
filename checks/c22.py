"""Abstract interpretation with absent values: every computation is run with its optional inputs left out
(loading given as thrust, circulation or a tabulated strength, infinite or default tip-speed ratio, one or
several cylinders, every component requested).  An absent value must never be used as a number, compared
in order or stored into an array, and no path may leave a result that is absent.  A loading
given without tip-speed ratio is the expression obtained with that of the turbine."""
from sa import allruns, kern, turb, sym
from sa.interp import Num, Arr, PyC, NONE, Phi, Tup, PathDead, Func, AbsIter

def run(rep, repo, tier):
    for r in allruns.everything(repo, tier): one(rep, r)
    for r in loadings(repo): one(rep, r)
    defaults(rep, repo)
    return 300

def defaults(rep, repo):
    """a value left out is that of the turbine"""
    rule = 'a loading without tip-speed ratio uses that of the turbine'
    from itertools import product
    for kind, ncyl, own, before in product(('Ct', 'Gamma'), (1, None), ('inf', 'sym'), (None, 'inf', 'sym')):
        # (the turbine's own tip-speed ratio is given, or left at infinity; the turbine may have been loaded before)
        r = turb.make_turbine(repo, load=False, ctor={'Lambda': lambda it: Num(it.g.mk('input', (), ('num', 'Lam0')))} if own == 'sym' else None); it = r.it; g = it.g
        A = lambda n: it.arr(g.mk('input', (), ('num', n)), ('nr',))
        kw = {'nCyl': NONE if ncyl is None else it.num(ncyl)}
        if ncyl is None: kw['r'] = A('r')
        kw[kind] = r.S('load') if ncyl else A('load')
        L = []
        rep.count('configurations')
        lam = {'sym': r.S('Lam0'), 'inf': it.num(float('inf'))}[own]
        if before: lam = {'sym': r.S('Lam1'), 'inf': it.num(float('inf'))}[before]
        for k2 in ({}, {'Lambda': lam}):
            try:
                if before: turb.method(it, r.wt, 'update_loading', [], dict(kw, Lambda=lam))
                turb.method(it, r.wt, 'update_loading', [], dict(kw, **k2)); turb.compute_u(r, longi=True, root=True, only_ind=True)
                L.append(None if r.dead else sym.leaves(r))
            except PathDead: L.append(None)
        lab = '%s,nCyl=%s,Lambda of the turbine %s%s' % (kind, ncyl, {'sym': 'given', 'inf': 'left out'}[own], ',loaded before with ' + {'sym': 'finite', 'inf': 'infinite'}[before] if before else '')
        if L[1] is None: rep.undecided(rule, 'WindTurbine.update_loading ' + lab, 'loading with a tip-speed ratio does not return'); continue
        if L[0] is None: rep.fail(rule, 'WindTurbine.update_loading', 'loading without a tip-speed ratio ends in an error although the turbine has one', None, configs=lab); continue
        s = sym.Sess('', it=it)
        D = [('velocity component %d is not that for the tip-speed ratio of the turbine' % k, g.sub(a, b)) for k, ((_, a), (_, b)) in enumerate(zip(*L))]
        sym.report(rep, rule, 'WindTurbine.update_loading', s.zero(D), {}, lab)

def fn(loc): return loc[2] if loc and len(loc) > 2 else '?'

def absent(it, v):
    if isinstance(v, PyC): return v.v is None
    if isinstance(v, Phi): return absent(it, v.a) or absent(it, v.b)
    if isinstance(v, Tup): return any(absent(it, x) for x in v.items)
    return False

def one(rep, r):
    it = r.it
    rep.count('configurations')
    cfg = '%s %s' % (r.key, r.label)
    bad = False
    for e in it.events:
        if e.kind == 'noneop':
            bad = True; rep.fail('an absent value is never used', fn(e.loc), e.detail, e.loc, configs=cfg)
    if not r.dead and r.module != 'wiz.Solver' and r.value is not None and absent(it, r.value):
        bad = True; rep.fail('an absent value is never returned', r.key, 'a result is missing on some path', None, configs=cfg)
    if not bad: rep.ok('an absent value is never used', cfg)

def loadings(repo):
    for kind in ('Ct', 'Gamma', 'table', 'ctor'):
        for lam in ('inf', 'default', 'sym'):
            for ncyl in (1, 3, None):
                if kind == 'ctor' and ncyl != 1: continue
                for chi in ('sym', 0):
                    log = []
                    r = turb.make_turbine(repo, load=False, chi=None, ctor={'Ct': lambda it: it.num(0.8)} if kind == 'ctor' else None)
                    it = r.it; g = it.g
                    A = lambda n: it.arr(g.mk('input', (), ('num', n)), ('nr',))
                    kw = {'nCyl': NONE if ncyl is None else it.num(ncyl)}
                    if lam == 'inf': kw['Lambda'] = it.num(float('inf'))
                    elif lam == 'sym': kw['Lambda'] = r.S('Lambda')
                    if ncyl == 1: q = r.S('load')
                    else: kw['r'] = A('r'); q = A('load')
                    if kind == 'Ct' or kind == 'ctor': kw['Ct'] = q
                    elif kind == 'Gamma': kw['Gamma'] = q
                    else:
                        kw['Ct'] = q; kw['gamma_t_Ct'] = table(it)
                    r.dead = False
                    try:
                        if kind != 'ctor': turb.method(it, r.wt, 'update_loading', [], kw)
                        turb.method(it, r.wt, 'set_chi', [r.S('chi') if chi == 'sym' else it.num(0)])
                        turb.compute_u(r, longi=True, root=True, only_ind=False)
                    except PathDead: r.value = None; r.dead = True
                    r.where = r.key = 'WindTurbine.update_loading'; r.label = 'load=%s,Lambda=%s,nCyl=%s,chi=%s' % (kind, lam, ncyl, chi); r.module = 'wiz.WindTurbine'
                    yield r

def table(it):
    """a user-supplied function of the thrust"""
    from sa.interp import Ext
    return Ext('numpy.sqrt')
